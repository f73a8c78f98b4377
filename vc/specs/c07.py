"""C07 The process dies of the originating signal; the failing thread never resumes."""
from .fatal import *
from . import c08
TUC = ["client", "crashhandler", "logmessage", "loglevels", "logcapture", "g3log"]
TUP = TU + ["logcapture"]
def initial_atomics(I, where):
    for key, d, tu, t in globs(I):
        if t.k == "rec" and t.n == "std::atomic" and tu in where: I.globals[key] = I.run_global_init(key)
def blocks(I):
    r = I.call_q("g3::internal::shouldBlockForFatalHandling", [], nparams=0); return I.ctx.entails(Z(I.load(r) if isinstance(r, Cell) else r))
def block_flags(I):
    """what shouldBlockForFatalHandling looks at"""
    got = []; old = I.hooks.get("atomic-load"); I.hooks["atomic-load"] = lambda I2, c: got.append(c); blocks(I); I.hooks["atomic-load"] = old
    if not got: raise Undecided("no flag for blocked threads")
    return got
def t_exit(x, I):
    """whatever is replaced, blocked or handled"""
    W = c08.World(I); W.contracts(); initial_atomics(I, ("crashhandler",)); sig = x.int("fatal signal", 1, 64, True); lv = symobj(I, "LEVELS", "level")
    s = {"was": x.branch(x.bool("signal is blocked", True)), "pending": False, "raised": 0, "survived": False}
    s["blocked"] = s["was"]
    def deliver():
        if W.replaced: W.back("a replaced signal has the application's disposition again when the process is ended")
        else: W.untouched("a signal that is not replaced: ")
        x.prove(blocks(I), "failing threads stay blocked until the signal has not ended the process"); x.covers.add("%d%d" % (W.state, s["was"]))
        if x.fork(2) == 0: x.covers.add("dies"); raise PathEnd("dead")
        s["survived"] = True
    def raised(I2, n):
        same = x.branch(EQ(n, sig)); x.prove(same, "only the originating signal is raised")
        s["raised"] += 1
        if s["blocked"]: s["pending"] = True; return 0
        deliver(); return 0
    def mask(I2, how, v, old):
        if old is not None: I.store(old, x.int("old mask", 0))
        if v is None: return 0
        has = x.branch(I.lib.sigset_has(I, v, sig))
        if how == 0: s["blocked"] = s["blocked"] or has
        elif how == 1: s["blocked"] = s["blocked"] and not has
        else: s["blocked"] = has
        if s["pending"] and not s["blocked"]: s["pending"] = False; deliver()
        return 0
    def gone(I2, why):
        x.prove(why == "exit" and s["survived"], "the process exits by itself only if the originating signal has not ended it")
        c = [e for e in x.events if e["kind"] == "exit"]
        if c: x.prove(EQ(c[-1]["code"], sig), "then it exits with the signal's number"); x.covers.add("exits")
        if W.replaced: W.back("a replaced signal has the application's disposition again at exit")
        raise PathEnd("gone")
    I.hooks["raise"] = raised; I.hooks["sigmask"] = mask; I.hooks["noreturn"] = gone
    I.call_q("g3::internal::exitWithDefaultSignalHandler", [lv, sig]); x.fail("the process ends")
class Gate:
    """the handler g3log installs; what it reports goes to the fatal handler, which does not come back"""
    @property
    def cur(self): return self._cur
    @cur.setter
    def cur(self, who): self._cur = who; self.I.set_thread("main" if who in (None, 1) else who)
    def __init__(self, I):
        self.I = I; x = I.ctx; I.hooks["fresh-statics"] = True; W = c08.World(I, 0); initial_atomics(I, ("crashhandler", "g3log")); self.f = I.P.fns[W.g3_handler()[0].key]; self.got = []; self.n = 0
        if len(self.f.p) != 3: raise Undecided("signal handler")
        from .c11 import wire
        g = wire(I, x.int("now", -(1 << 62), 1 << 62), x.int("thread", 0))
        flag = block_flags(I); self.last = {}; self.other = None
        def loaded(I2, c):
            """the process may start to exit (the signal has not ended it) at any time"""
            if any(c is w for w in flag): c.v.v.v = self.last[self.cur] = x.bool("still blocked")
            elif self.other: self.other(I2, c)
        I.hooks["atomic-load"] = loaded
        def fatal(I2, f, this, args):
            l = self.last.get(self.cur)
            if l is not None and x.entails(NOT(l)): x.covers.add("exiting"); raise PathEnd("exiting")
            self.got.append((self.cur, self.view(args[0]))); raise PathEnd("handed over")
        I.contracts["g3::internal::fatalCall"] = fatal; I.contracts["g3::internal::pushMessageToLogger"] = lambda *a: x.fail("a fatal signal is reported as fatal")
        I.contracts["g3::internal::exitReasonName"] = lambda I2, f, this, args: x.ufstr("reason", I2.lib.val(I2, args[1]), chars=NONUL)
        def sleep(I2):
            if x.fork(2): raise PathEnd("waits")
        I.hooks["sleep"] = sleep; I.hooks["cfield:siginfo_t"] = lambda I2, c, f, t: I2.cell(x.int("si." + f, -(1 << 31), (1 << 31) - 1), t, f); self.cur = None
    def view(self, a):
        c = a.c if isinstance(a, Arg) else a; v = c.v if isinstance(c, Cell) else c
        for f in v.f.values():
            if isinstance(f.v, Lib) and f.v.kind == "uptr": return view(self.I, f.v.p.v.c)
        raise Undecided("message holder")
    def signal(self, n):
        """signal n arrives on another thread; says how that thread ends"""
        I = self.I; self.n += 1; old = self.cur, I.held; self.cur = self.n; I.held = []; p = self.f.p[1]
        args = [I.as_arg(a, t) for a, t in zip([n, Ptr(I.cell(RecV("siginfo_t"), p.t, "info")), NULL], self.f.p)]
        try: I.call(self.f, None, args, top=True); r = "returned"
        except PathEnd as e:
            r = str(e)
            if r == "exiting": raise PathEnd("the process is exiting")
            if r not in ("waits", "handed over"): raise
        self.cur, I.held = old; return r
def t_gate(x, I):
    G = Gate(I); n = [x.int("signal %d" % i, 1, 64, True) for i in (1, 2, 3)]; race = x.fork(2); late = []
    if race:
        def meanwhile(I2, this):
            if G.cur == 1 and not late and x.fork(2): late.append(G.signal(n[1]))
        I.hooks["atomic-store"] = meanwhile; G.other = meanwhile
    r1 = G.signal(n[0])
    if race and not late: raise PathEnd("no race")
    r2 = late[0] if race else G.signal(n[1])
    r3 = G.signal(n[2]); x.covers.add("race" if race else "in turn")
    x.prove(len(G.got) == 1, "of several fatal signals exactly one is reported")
    if not race: x.prove(len(G.got) == 1 and G.got[0][0] == 1, "the first fatal signal is the one reported")
    rs = [r1, r2, r3]; x.prove(rs.count("handed over") == 1 and rs.count("waits") == 2, "later fatal signals wait")
    if len(G.got) != 1: return
    who, v = G.got[0]; sig = n[who - 1]
    x.prove(EQ(v["_signal_id"][1], sig), "the fatal message carries the originating signal"); x.prove(EQ(v["_level.value"][1], 2001), "the fatal message has the level of fatal signals")
    x.prove(contains(x, v["_message"][1], x.ufstr("reason", sig, chars=NONUL)) and contains(x, v["_message"][1], x.decimal(sig)), "the fatal message names the signal")
def t_push(active):
    def run(x, I):
        W = Process(I, active=active, with_e=False, others=False); A = W.A; m = W.fatal_message("fatal"); pf = [f for f in I.P.fns.values() if f.q == "g3::internal::pushFatalMessageToLogger"]
        if len(pf) != 1: raise Undecided("pushFatalMessageToLogger")
        flag = block_flags(I); seen = [True]; loads = []
        def loaded(I2, c):
            """the process may start to exit (the signal has not ended it) at any time"""
            if active and any(c is w for w in flag):
                if seen[0] is True or seen[0] is not False: seen[0] = x.bool("still blocked"); c.v.v.v = seen[0]
            elif active and c is W.logger:
                if loads and x.fork(2): c.v.v.v = NULL      # the worker shuts logging down
                loads.append(1)
        I.hooks["atomic-load"] = loaded
        def sleep(I2):
            x.covers.add("waits")
            if active: x.prove(A.pending(W.bg) == 1, "the fatal message is handed to the active worker exactly once")
            else: x.fail("a fatal event without a logger ends the process at once")
        I.hooks["sleep"] = sleep
        def ends():
            x.covers.add("ends"); x.prove(not active, "the process ends only after the sinks have been served")
            x.prove(W.how == "signal" and W.esig is not None and EQ(W.esig, m[2]["_signal_id"][1]), "the process ends by the fatal event's own signal"); x.prove(EQ(W.elv[0], m[2]["_level.value"][1]), "the fatal event's level is reported")
            out = W.stderr(); x.prove(contains(x, out, m[3]) or contains(x, out, m[2]["_message"][1]), "the fatal event's text appears on standard error"); x.prove(contains(x, out, x.ufstr("reason", m[2]["_signal_id"][1], m[2]["_level.text"][1])), "the fatal event's reason appears on standard error")
        W.ends = ends; I.call(pf[0], None, [Arg("x", m[0], m[1])], top=True); x.prove(False if seen[0] is True else NOT(seen[0]), "the failing thread does not get past a fatal event"); x.covers.add("past")
        x.prove(A.pending(W.bg) == 1, "the fatal message is handed to the active worker exactly once")
    return run
def t_end(x, I):
    """what the log worker does with a fatal message, in the end"""
    W = Process(I, with_e=False, others=False); m = W.fatal_message("fatal")
    def ends():
        x.covers.add("ends"); x.prove(W.how == "signal" and W.esig is not None and EQ(W.esig, m[2]["_signal_id"][1]), "the process ends by the fatal event's own signal"); x.prove(EQ(W.elv[0], m[2]["_level.value"][1]), "the fatal event's level is reported")
    W.ends = ends; W.fatal(m); W.A.idle(); x.fail("a fatal event ends the process")
def t_all(name, active, contract):
    """from the statement to the end of the process"""
    def run(x, I):
        W = Process(I, active=active, with_e=False, others=False); I.contracts["g3::logLevel"] = lambda I2, f, this, args: True; args = []
        I.hooks["now"] = lambda I2: x.ufint("now"); val = x.int("streamed", -(1 << 31), (1 << 31) - 1); I.hooks["client::side"] = lambda I2, f, this, args: val; I.hooks["client::condv"] = lambda I2, f, this, args: not contract
        I.contracts["LogCapture::capturef"] = lambda I2, f, this, args: I2.store(I2.call_q("LogCapture::stream", [], this=this).v.buf, x.decimal(val))
        if not contract: lv = symobj(I, "LEVELS", "level"); x.assume(Z(lv.v.f["value"].v) >= 1000); args = [lv]
        def ends():
            x.covers.add("ends"); x.prove(W.how == "signal" and W.esig is not None and EQ(W.esig, 6), "a fatal log or failed contract ends the process by SIGABRT")
            x.prove((A.ctx is W.bg) if active else A.ctx is CALLER, "the process is ended when the message has been processed")
        A = W.A; W.ends = ends; I.call_q("client::" + name, args); x.fail("the failing thread does not get past a fatal event")
    return run
def t_initial(x, I):
    initial_atomics(I, ("crashhandler",)); x.prove(blocks(I), "failing threads are blocked from the start")
def t_sinkthread(x, I):
    """a sink fails while it receives a message"""
    W = Process(I, kind="msg", others=False); A = W.A; m0 = W.message("earlier"); m = W.fatal_message("fatal"); pf = [f for f in I.P.fns.values() if f.q == "g3::internal::pushFatalMessageToLogger"]; recv = W.recv_msg; stuck = []
    if len(pf) != 1: raise Undecided("pushFatalMessageToLogger")
    def got(I2, f, this, args):
        recv(I2, f, this, args)
        if stuck: return
        stuck.append(A.ctx); I.call(pf[0], None, [Arg("x", m[0], m[1])], top=True); x.fail("the failing thread does not get past a fatal event")
    I.hooks["client::Sink::recvMsg"] = got; drain = A.drain
    def drained(a):
        if stuck and a.cell is stuck[0]: x.fail("a fatal event on a sink's own thread ends the process"); raise PathEnd("the process hangs")
        drain(a)
    A.drain = drained; W.save(m0); A.step(A.act(W.bg))
    try: A.step(A.act(W.ebg))
    except PathEnd as e:
        if str(e) != "blocked": raise
    A.ctx = CALLER; W.ends = lambda: x.covers.add("ended")
    while A.act(W.bg).q: A.step(A.act(W.bg))
    x.fail("a fatal event ends the process")
def tasks():
    R = []
    def T(n, fn, fns, cov=(), tus=TUP): R.append(Task(n, fn, tus=tus, fns=fns, covers=cov))
    N = "g3::internal::"
    T("ending the process", t_exit, [N + "exitWithDefaultSignalHandler", "g3::restoreSignalHandler (contract, proved as C08)"], ["00", "01", "10", "11", "20", "21", "dies", "exits"], TUC)
    T("several fatal signals", t_gate, ["(anon)::signalHandler", "(anon)::shouldDoExit", "LogCapture::LogCapture", "LogCapture::~LogCapture", N + "saveMessage", N + "saveFatalMessage"], ["race", "in turn", "exiting"], TUC)
    T("fatal event with a logger", t_push(True), [N + "pushFatalMessageToLogger", N + "shouldBlockForFatalHandling", "g3::LogWorker::fatal"], ["waits", "past"])
    T("fatal event without a logger", t_push(False), [N + "pushFatalMessageToLogger", "g3::FatalMessage::reason"], ["ends"])
    T("processing a fatal event", t_end, ["g3::LogWorker::fatal", "g3::LogWorkerImpl::bgFatal (every sink: C06)"], ["ends"])
    for n, c in (("mLOG", False), ("mLOGF", False), ("mCHECK", True), ("mCHECKF", True), ("mCHECK_F", True)):
        for a in (True, False): T("%s %s a logger" % (n[1:], "with" if a else "without"), t_all(n, a, c), ["client::" + n, "LogCapture::LogCapture", N + "saveMessage", N + "saveFatalMessage", N + "fatalCall", N + "pushFatalMessageToLogger", "g3::LogWorkerImpl::bgFatal"], ["ends"])
    T("blocked from the start", t_initial, ["gBlockForFatal", N + "shouldBlockForFatalHandling"])
    T("fatal event on a sink's thread", t_sinkthread, ["g3::LogWorkerImpl::bgFatal", N + "pushFatalMessageToLogger"])
    return R
TRUST = ["raise(2): delivers the signal to the calling thread at once, or makes it pending while it is blocked; pthread_sigmask as POSIX says", "restoreSignalHandler's contract, proved as C08", "the background worker's contract, proved as C01/C02", "std::exit ends the process with the given status", "std::function, std::unique_ptr and std::ostream behave as the standard says", "stackdump and the message's rendering are some text"]
ASSUME = ["the fatal handler is the default one (setFatalExitHandler installs replacements for tests)", "a fatal event is not raised on a sink's or the log worker's own thread (known finding sink-thread)", "the application's own signal handlers do not change dispositions or the signal mask while the process ends", "when a signal handler runs on top of code that holds a lock, that lock is not one g3log or malloc needs", "a signal that arrives between the restoring of the dispositions and the end of the process has the application's disposition", "fatal logs by several threads at once: C06's known finding second-fatal"]
