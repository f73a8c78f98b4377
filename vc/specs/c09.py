"""C09 Pre-fatal hook runs exactly once, before the fatal message is forwarded."""
from .fatal import *
TU9 = ["client", "g3log", "logmessage", "loglevels", "logcapture"]
HOOKS = ("empty", "nothing", "user")
class Fatal:
    """the library as it is after start-up, or with an arbitrary hook and any number of earlier fatal events"""
    @property
    def cur(self): return self._cur
    @cur.setter
    def cur(self, who): self._cur = who; self.I.set_thread("main" if who in (None, 1) else who)
    def __init__(self, I, hook=None, custom=True, arbitrary=True):
        self.I = I; x = I.ctx; I.hooks["fresh-statics"] = True; self.log = []; self.cur = 1; self.n = 0; self.hook_does = []; self.handlers = []; self.first = None; self.outer = []
        fns = []; cnt = []
        for key, d, tu, t in globs(I):
            if tu != "g3log": continue
            if t.k == "rec" and t.n in ("std::function", "std::atomic", "std::unique_ptr"): I.globals[key] = I.run_global_init(key)
            if t.k == "rec" and t.n == "std::function" and not t.c: fns.append((t, I.globals[key]))
            if t.k == "rec" and t.n == "std::atomic" and not is_logger(t): cnt.append(I.globals[key])
        h = [c for t, c in fns if "FatalMessage" not in t.s and "MoveOnCopy" not in t.s]; self.handler = [c for t, c in fns if "FatalMessage" in t.s or "MoveOnCopy" in t.s]
        if len(h) != 1 or len(self.handler) != 1: raise Undecided("the hook or the handler was not found")
        self.hook = h[0]
        if hook is not None: self.hook.v = {"empty": Lib("func", target=None), "nothing": self.fn("nothing"), "user": self.fn("hook")}[hook]
        if arbitrary:
            for c in cnt: c.v.v.v = x.int("earlier fatal events", 0, 1 << 40)
        if custom: self.handler[0].v = self.fn("handler")
        I.hooks["ufn"] = self.ufn; I.contracts["g3::internal::pushFatalMessageToLogger"] = lambda I2, f, this, args: self.handed("default", args[0]); I.contracts["g3::internal::pushMessageToLogger"] = lambda I2, f, this, args: self.log.append(("normal", self.cur))
        I.contracts["g3::installCrashHandler"] = lambda *a: None; I.contracts["g3::LogWorker::save"] = lambda *a: None
        I.contracts["g3::internal::stackdump"] = lambda I2, f, this, args: x.ufstr("stackdump", I2.lib.S(I2, args[0]) if isinstance(I2.lib.val(I2, args[0]), (CStr, Str)) else "none", chars=NONUL)
        I.hooks["before-lock"] = self.before
        I.hooks["now"] = lambda I2: x.ufint("now"); I.hooks["tid"] = lambda I2: x.ufint("tid")
    def before(self, I, m):
        if any(m is o for o in self.outer): I.ctx.fail("no lock is held while the hook runs"); raise PathEnd("deadlock")
    def fn(self, name): return Lib("func", target=self.I.cell(Lib("ufn", name=name)))
    def ufn(self, I, v, args):
        if v.name == "nothing": return None
        if v.name.startswith("hook"):
            self.log.append((v.name, self.cur))
            for what in (self.hook_does.pop(0) if self.hook_does else ()): what()
        else: self.handed(v.name, args[0])
        return None
    def handed(self, who, a):
        c = a.c if isinstance(a, Arg) else a; v = c.v if isinstance(c, Cell) else c
        for f in v.f.values():
            if isinstance(f.v, Lib) and f.v.kind == "uptr":
                if f.v.p.v.c is None: self.I.ctx.fail("the fatal message arrives"); return
                self.log.append((who, self.cur, view(self.I, f.v.p.v.c))); return
        raise Undecided("message holder")
    def event(self, fatal=True):
        """a message with arbitrary content and level; fatal ones with their own trace and signal"""
        x = self.I.ctx; self.n += 1; n = "%d." % self.n; lv = symobj(self.I, "LEVELS", n + "level"); a = {k: x.str(n + k, NONUL, inp=True) for k in ("text", "file", "function", "expression", "trace")}
        a["n"] = self.n; a["sig"] = x.int(n + "signal", -(1 << 31), (1 << 31) - 1, True); a["level"] = lv.v.f["value"].v; a["ltext"] = lv.v.f["text"].v; a["line"] = x.int(n + "line", -(1 << 31), (1 << 31) - 1, True); a["lv"] = lv
        v = Z(a["level"]); x.assume(v >= 1000 if fatal else v < 1000); x.assume(fold(Z(x.slen(a["trace"])) > 0)); return a
    def raise_(self, a):
        if self.first is None: self.first = a["trace"]
        self.I.call_q("g3::internal::saveMessage", [CStr(a["text"]), CStr(a["file"]), a["line"], CStr(a["function"]), a["lv"], CStr(a["expression"]), a["sig"], CStr(a["trace"])])
    def elsewhere(self, a):
        """a thread that the hook waits for"""
        old = self.cur, self.I.held; self.cur = 2; self.I.held = []; self.outer = old[1]; self.raise_(a); self.cur, self.I.held = old; self.outer = []; self.I.ctx.covers.add("elsewhere")
    def complete(self, e, a, what, who="handler", first=None):
        x = self.I.ctx; v = e[2]; x.prove(e[0] == who, what + "it goes to the handler that is set")
        t = x.norm(v["_message"][1]); o = x.norm(a["text"] + a["trace"])
        if x.entails(fold(Z(x.slen(t)) >= Z(x.slen(o)))): p, rest = x.cut(t, x.slen(o)); x.prove(x.seq(p, o), what + "it starts with the text, followed by the stack trace")
        else: x.fail(what + "it starts with the text, followed by the stack trace"); return
        for k, w in (("_signal_id", "sig"), ("_level.value", "level"), ("_line", "line")): x.prove(EQ(v[k][1], a[w]), what + "its %s is that of the event" % {"sig": "signal"}.get(w, w))
        for k, w in (("_level.text", "ltext"), ("_function", "function"), ("_expression", "expression"), ("_file_path", "file")): x.prove(x.seq(v[k][1], a[w]), what + "its %s is that of the event" % {"ltext": "level's text"}.get(w, w))
        if first is not None: x.prove(contains(x, rest, Str("recursive crash")), what + "it is marked as a recursive crash"); x.prove(contains(x, rest, first), what + "it carries the first fatal event's stack trace")
def t_event(custom):
    def run(x, I):
        h = HOOKS[x.fork(3)]; F = Fatal(I, h, custom); who = "handler" if custom else "default"; k = x.fork(3) if h == "user" else 0; x.covers.add(h + str(k)); a = F.event(); rec = [F.event() for i in range(k)]
        F.hook_does = [[lambda r=r: F.elsewhere(r) if k == 1 and x.fork(2) else F.raise_(r) for r in rec]]; F.raise_(a); L = F.log; hooks = [e for e in L if e[0] == "hook"]
        x.prove(len(hooks) == (h == "user"), "the hook runs exactly once, also if fatal events are raised while it runs" if h == "user" else "no hook runs when there is none")
        got = [e for e in L if len(e) == 3]; x.prove(len(got) == k + 1, "every fatal event's message is handed over exactly once")
        if len(got) != k + 1 or len(hooks) != (h == "user"): return
        if h == "user": x.prove(L[0][0] == "hook" and L[0][1] == 1, "the hook runs on the failing thread before its message is handed over")
        for i, r in enumerate(rec): F.complete(got[i], r, "a fatal event raised while the hook runs: ", who, a["trace"])
        F.complete(got[-1], a, "", who)
        b = F.event(); F.log.clear(); F.raise_(b); x.prove([e[0] for e in F.log] == [who], "the hook does not run again for a later fatal event")
    return run
def t_recursion(x, I):
    """after earlier fatal events (a handler that comes back, then a new start)"""
    F = Fatal(I, "empty", True, False); a0 = F.event(); F.raise_(a0); x.prove([e[0] for e in F.log] == ["handler"], "before initialization there is no hook")
    if x.fork(2): init(I, F); x.covers.add("initialized again")
    set_hook(I, F); F.log.clear(); a, b = F.event(), F.event(); F.hook_does = [[lambda: F.raise_(b)]]; F.raise_(a); L = F.log; x.prove([e[0] for e in L] == ["hook", "handler", "handler"], "the hook runs exactly once, before its event's message is handed over")
    if len(L) == 3: F.complete(L[1], b, "a fatal event raised while the hook runs: ", first=a0["trace"]); F.complete(L[2], a, "")
def init(I, F):
    for key, d, tu, t in globs(I):
        if is_logger(t) and not t.c: c = I.globals[key]; (c.v.v if isinstance(c.v, Lib) else c).v = NULL
    W = I.cell(RecV("g3::LogWorker"), None, "worker"); f = I.P.find("g3::initializeLogging", 1)
    if len(f) != 1: raise Undecided("initializeLogging")
    I.call_q("g3::initializeLogging", [Ptr(W)], nparams=1)
def set_hook(I, F, name="hook", empty=False):
    I.call_q("g3::setFatalPreLoggingHook", [Lib("func", target=None) if empty else F.fn(name)], nparams=1)
def t_init(x, I):
    h = HOOKS[x.fork(3)]; F = Fatal(I, h); init(I, F); a = F.event(); F.raise_(a); x.covers.add(h); x.prove([e[0] for e in F.log] == ["handler"], "initializing logging resets the hook to do nothing")
    if len(F.log) == 1: unmarked(x, F.log[0], a)
def unmarked(x, e, a): x.prove(x.seq(x.norm(e[2]["_message"][1]), x.norm(a["text"] + a["trace"])), "the only fatal event since initialization is not marked")
def t_sethook(x, I):
    """a hook set while the hook runs is the one for the next fatal event"""
    F = Fatal(I, "user"); a, b = F.event(), F.event(); F.hook_does = [[lambda: set_hook(I, F, "hook2")]]; F.raise_(a); F.raise_(b); x.prove([e[0] for e in F.log] == ["hook", "handler", "hook2", "handler"], "a hook set while another one runs is kept")
def t_set(x, I):
    h = HOOKS[x.fork(3)]; F = Fatal(I, h); x.covers.add(h)
    if x.fork(2): set_hook(I, F, "hook2"); x.covers.add("twice")
    empty = x.fork(2); set_hook(I, F, "hook1", empty); a = F.event(); F.raise_(a); x.prove([e[0] for e in F.log] == ([] if empty else ["hook1"]) + ["handler"], "the hook that was set last is the one that runs")
def t_handler(x, I):
    F = Fatal(I, "user", x.fork(2) == 0); I.call_q("g3::setFatalExitHandler", [F.fn("mine")], nparams=1); a, b = F.event(), F.event(); F.raise_(a); F.raise_(b); L = [e for e in F.log if len(e) == 3]; x.prove(len(L) == 2, "the custom handler gets every fatal message exactly once, and nothing else does")
    if len(L) == 2: F.complete(L[0], a, "first: ", "mine"); F.complete(L[1], b, "second: ", "mine")
def t_default(x, I):
    F = Fatal(I, None, False, False); a = F.event(); F.raise_(a); x.prove(len(F.log) == 1, "without a custom handler the default handling gets the message exactly once")
    if len(F.log) == 1: F.complete(F.log[0], a, "", "default"); unmarked(x, F.log[0], a)
def t_normal(x, I):
    F = Fatal(I, "user"); a = F.event(False); F.raise_(a); x.prove([e[0] for e in F.log] == ["normal"], "a message that is not fatal runs no hook and is no fatal message"); F.log.clear(); F.raise_(F.event()); x.prove([e[0] for e in F.log] == ["hook", "handler"], "a message that is not fatal leaves the hook set")
def t_race(x, I):
    """another thread fails at any point between the accesses to the hook"""
    F = Fatal(I, "user"); a, b = F.event(), F.event(); done = []
    def other():
        if F.cur != 1 or done or not x.fork(2): return
        done.append(1); F.cur = 2; F.outer = list(I.held); I.held = []
        try: F.raise_(b)
        finally: F.cur = 1; I.held = F.outer; F.outer = []
    def before(I2, m):
        if F.cur == 2 and any(m is o for o in F.outer): raise PathEnd("blocked")
        other()
    I.hooks["before-lock"] = before; I.hooks["unlock"] = lambda I2, m: None; I.hooks["atomic-load"] = lambda I2, c: other(); F.hook.guard = lambda I2, c, w: other(); F.hook_does = [[other]]; F.raise_(a)
    if not done: F.cur = 2; F.raise_(b); x.covers.add("after")
    else: x.covers.add("meanwhile")
    L = F.log; hs = [i for i, e in enumerate(L) if e[0] == "hook"]; x.prove(len(hs) == 1, "of two threads failing at the same time exactly one runs the hook"); got = {e[1]: i for i, e in enumerate(L) if len(e) == 3}; x.prove(len(L) == 3 and len(got) == 2, "both fatal messages are handed over exactly once")
    if len(hs) == 1 and len(got) == 2:
        w = L[hs[0]][1]; x.prove(hs[0] < got[w], "the hook runs before the failing thread's message is handed over")
        for th, e in ((1, a), (2, b)): F.complete(L[got[th]], e, "thread %d: " % th)
def t_macro(name, contract):
    def run(x, I):
        F = Fatal(I, "user"); I.contracts["g3::logLevel"] = lambda I2, f, this, args: True; val = x.int("streamed", -(1 << 31), (1 << 31) - 1); I.hooks["client::side"] = lambda I2, f, this, args: val; I.hooks["client::condv"] = lambda I2, f, this, args: not contract
        I.contracts["LogCapture::capturef"] = lambda I2, f, this, args: I2.store(I2.call_q("LogCapture::stream", [], this=this).v.buf, x.decimal(val)); args = []
        if not contract: lv = symobj(I, "LEVELS", "level"); x.assume(Z(lv.v.f["value"].v) >= 1000); args = [lv]
        I.call_q("client::" + name, args); x.prove([e[0] for e in F.log] == ["hook", "handler"], "the hook runs, then the message is handed over")
        if len(F.log) == 2: v = F.log[1][2]; x.prove(EQ(v["_signal_id"][1], 6), "the message's signal is SIGABRT"); x.prove(contains(x, v["_message"][1], x.decimal(val)), "the message has the text"); x.prove(contains(x, v["_message"][1], x.ufstr("stackdump", "none", chars=NONUL)), "the message has the stack trace")
    return run
def t_signal(x, I):
    F = Fatal(I, "user"); text, dump = x.str("text", NONUL, inp=True), x.str("dump", NONUL, inp=True); sig = x.int("signal", 1, 64, True); lv = symobj(I, "LEVELS", "level"); x.assume(Z(lv.v.f["value"].v) >= 1000); T = tyof(I, "LogCapture"); c = I.cell(UNINIT, T, "capture"); ct = [f for f in I.P.ctors[T.id] if len(f.p) == 3 and not f.copy and not f.move]
    if len(ct) != 1: raise Undecided("capture constructor")
    I.construct(T, ct[0], [I.as_arg(a, p) for a, p in zip([lv, sig, CStr(dump)], ct[0].p)], c); I.store(I.call_q("LogCapture::stream", [], this=c).v.buf, text); I.destroy(c); x.prove([e[0] for e in F.log] == ["hook", "handler"], "the hook runs, then the message is handed over")
    if len(F.log) == 2: v = F.log[1][2]; x.prove(EQ(v["_signal_id"][1], sig), "the message has the signal"); x.prove(contains(x, v["_message"][1], text) and contains(x, v["_message"][1], x.ufstr("stackdump", dump, chars=NONUL)), "the message has text and stack trace")
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU9, fns=fns, covers=cov))
    N = "g3::internal::"; S = [N + "saveMessage", N + "saveFatalMessage", N + "fatalCall", "g3::FatalMessage::FatalMessage"]
    C = ["empty0", "nothing0", "user0", "user1", "user2", "elsewhere"]
    T("fatal event, custom handler", t_event(True), S, C); T("fatal event, default handling", t_event(False), S, C); T("recursion after earlier events", t_recursion, S + ["g3::initializeLogging"], ["initialized again"])
    T("initializing resets the hook", t_init, S + ["g3::initializeLogging", "g3::setFatalPreLoggingHook"], list(HOOKS)); T("setting the hook", t_set, S + ["g3::setFatalPreLoggingHook"], list(HOOKS) + ["twice"]); T("setting the hook in the hook", t_sethook, S + ["g3::setFatalPreLoggingHook"]); T("setting the handler", t_handler, S + ["g3::setFatalExitHandler"]); T("initial handler", t_default, S)
    T("message that is not fatal", t_normal, S[:2]); T("two threads", t_race, S, ["after", "meanwhile"])
    for n, c in (("mLOG", False), ("mLOGF", False), ("mCHECK", True), ("mCHECKF", True), ("mCHECK_F", True)): T("macro " + n[1:], t_macro(n, c), ["client::" + n, "LogCapture::LogCapture", "LogCapture::~LogCapture"] + S)
    T("fatal signal", t_signal, ["LogCapture::LogCapture", "LogCapture::~LogCapture"] + S)
    return R
TRUST = ["the default handling of a fatal message: C06 and C07", "stackdump returns some NUL-free text", "std::function, std::unique_ptr and std::mutex behave as the standard says", "a function-local static is initialized once, by the first thread that reaches it"]
ASSUME = ["the hook and the handler return or raise fatal events (exceptions out of them are not considered); the hook does not itself initialize logging", "text, call-site strings and stack traces contain no NUL character (C11's known finding embedded-nul)", "setFatalExitHandler is not called while another thread has a fatal event", "the first fatal event is the first one of the process (its stack trace is kept across initializations)", "one other thread fails at the same time in the proof; more threads only natively (bounded)"]
