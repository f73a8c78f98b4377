"""C20 Logger start-up and shut-down never lose or misdirect messages.
Every operation runs from every state the process can be in, and wherever it looks at or changes what is shared, other threads carry out any of the operations. What all of them
were observed to do must be what some order of the operations, one after the other, does (the contract: class Model)."""
from .fatal import *
from ..core import Prover
from ..interp import Interp
from ..lib import LibModel
TU20 = ["client", "g3log", "logmessage", "loglevels", "logcapture"]
MARK = "LOGGER NOT INITIALIZED"
class Op:
    def __init__(self, kind, **kw): self.kind = kind; self.start = self.end = None; self.saved = []; self.out = []; self.exit = None; self.ret = None; self.__dict__.update(kw)
class Model:
    """the contract: what one operation does in a state, on its own. None: the operation cannot have been observed to do what it did"""
    @staticmethod
    def step(s, o):
        L, kept, early, inited = s
        if o.exit is not None and o.kind != "init": return None
        if o.kind == "log":
            if L is not None: return s if o.saved == [(L, o, False)] else None
            if o.saved: return None
            if inited or early: return s
            return (L, o, True, inited) if o.printed else None
        if o.kind == "init":
            bad = o.w is None or L is not None
            if bad or o.exit is not None: return s if bad and o.exit is not None and not o.saved else None
            want = [(o.w, kept, True)] if kept is not None and not inited else []
            return (o.w, None, early, True) if o.saved == want else None
        if o.kind == "shut": return (None, kept, early, inited) if not o.saved else None
        if o.kind == "only":
            if L is None: return s if not o.saved else None
            if o.w is L: return (None, kept, early, inited) if not o.saved and o.ret in (True, None) else None
            if o.w is None: return (None, kept, early, inited) if not o.saved else None
            if o.ret not in (False, None): return None
            return s
        if o.kind == "fatal": return s if o.to is L and not o.saved else None
        raise Undecided(o.kind)
    @staticmethod
    def explains(ops, s=(None, None, False, False)):
        if not ops: return True
        first = min([o.end for o in ops if o.end is not None] or [1 << 30])
        for i, o in enumerate(ops):
            if o.start > first: continue
            t = Model.step(s, o)
            if t is not None and Model.explains(ops[:i] + ops[i + 1:], t): return True
        return False
class World20:
    def __init__(self, I):
        self.I = I; x = I.ctx; I.hooks["fresh-statics"] = True; self.ops = []; self.tick = 0; self.cur = []; self.outer = []; self.n = 0; self.env = None; self.depth = 0; self.cells = []; self.other = []; self.early = False; self.warn = []
        self.flags = []
        for key, d, tu, t in globs(I):
            if tu != "g3log" or t.k != "rec" and (t.k == "arr" or t.c): continue
            if t.k != "rec": c = I.globals[key] = I.run_global_init(key); self.cells.append(c); continue
            if t.n in ("std::function", "std::atomic", "std::unique_ptr", "std::once_flag", "std::shared_ptr"): I.globals[key] = I.run_global_init(key)
            if is_logger(t) and not t.c: self.L = I.globals[key]
            if t.n in ("std::unique_ptr", "std::shared_ptr"): self.cells.append(I.globals[key])
        if not hasattr(self, "L") or not isinstance(self.L.v, Lib): raise Undecided("the active logger was not found")
        for c in self.cells: c.guard = lambda I2, c2, w: self.point() if not I2.held else None
        I.contracts["g3::installCrashHandler"] = lambda *a: None; I.contracts["g3::LogWorker::save"] = self.save; I.contracts["g3::logLevel"] = lambda *a: True
        I.hooks["before-lock"] = self.before; I.hooks["atomic-load"] = lambda I2, c: self.point() if c is self.L else None; I.hooks["atomic-store"] = I.hooks["atomic-load"]; I.hooks["before-once"] = self.once; I.hooks["once-busy"] = self.busy; I.hooks["once-begin"] = lambda I2, fl: setattr(fl, "by", self.cur[-1]); I.hooks["noreturn"] = self.gone
        I.hooks["now"] = lambda I2: self.cur[-1].now if self.cur and self.cur[-1].kind == "log" else x.ufint("now"); I.hooks["tid"] = lambda I2: x.ufint("thread", self.cur[-1].name if self.cur else "main")
    def active(self): return self.L.v.v.v.c
    def worker(self, name): self.n += 1; return self.I.cell(RecV("g3::LogWorker"), None, "%s%d" % (name, self.n))
    # ---- operations
    def log(self, name="m"):
        x = self.I.ctx; self.n += 1; n = "%s%d." % (name, self.n); lv = symobj(self.I, "LEVELS", n + "level"); x.assume(Z(lv.v.f["value"].v) < 1000)
        return Op("log", name=n[:-1], text=x.str(n + "text", NONUL, inp=True), file=x.str(n + "file", NONUL, inp=True) if name == "m" and self.env is None else Str("src/f.cpp"), function=x.str(n + "function", NONUL, inp=True), expression=x.str(n + "expression", NONUL, inp=True), line=x.int(n + "line", -(1 << 31), (1 << 31) - 1, True), lv=lv, now=x.int(n + "time", 0, 1 << 62), printed=False)
    def init(self, w="w"): return Op("init", w=self.worker(w) if isinstance(w, str) else w, name="init%d" % self.n)
    def shut(self): self.n += 1; return Op("shut", name="shut%d" % self.n)
    def only(self, w): self.n += 1; return Op("only", w=w, name="only%d" % self.n)
    def run(self, o):
        """o on a thread of its own, while the thread that was running stands still"""
        I = self.I; self.ops.append(o); self.tick += 1; o.start = self.tick; old = self.outer, I.held; self.outer = self.outer + list(I.held); I.held = []; self.cur.append(o); I.set_thread(o.name); o.ev = len(I.ctx.events)
        if o.kind == "log" and self.active() is None: self.early = True
        try:
            p = lambda w: NULL if w is None else Ptr(w)
            if o.kind == "log": I.call_q("g3::internal::saveMessage", [CStr(o.text), CStr(o.file), o.line, CStr(o.function), o.lv, CStr(o.expression), 0, CStr(Str(""))])
            elif o.kind == "init": self.quiet("g3::initializeLogging", [p(o.w)], 1)
            elif o.kind == "shut": I.call_q("g3::internal::shutDownLogging", [], nparams=0)
            else:
                r = I.call_q("g3::internal::shutDownLoggingForActiveOnly", [p(o.w)], nparams=1); r = I.load(r) if isinstance(r, Cell) else r; o.ret = True if r is True or r == 1 and r is not False else False if r is False or r == 0 else None
            if I.held: I.ctx.fail("no lock stays behind"); raise PathEnd("lock")
        except CppThrow: I.ctx.fail("no exception leaves an operation"); raise PathEnd("exception")
        finally: self.cur.pop(); self.outer, I.held = old; I.set_thread(self.cur[-1].name if self.cur else "main")
        self.finish(o); self.tick += 1; o.end = self.tick; return o
    def quiet(self, q, args, n): self.I.call_q(q, args, nparams=n)
    def finish(self, o):
        if o.kind == "log":
            x = self.I.ctx; out = [e["text"] for e in x.events[o.ev:] if e["kind"] == "out" and e["stream"] in ("cerr", "stderr")]; o.printed = any(contains(x, t, o.text) and contains(x, t, Str(MARK)) for t in out)
    # ---- what is observed
    def save(self, I, f, this, args):
        x = I.ctx; o = self.cur[-1]
        if this is None: x.fail("no message goes to a missing worker"); raise PathEnd("null worker")
        self.used(this); a = args[0]; c = a.c if isinstance(a, Arg) else a; v = c.v if isinstance(c, Cell) else c; m = None
        if isinstance(v, RecV):
            for fc in v.f.values():
                if isinstance(fc.v, Lib) and fc.v.kind == "uptr": m = fc
        if m is None: raise Undecided("message holder")
        if m.v.p.v.c is None: x.fail("the message arrives with its content"); raise PathEnd("no message")
        vw = view(I, m.v.p.v.c); t = x.norm(vw["_message"][1])
        for q in self.ops:
            if q.kind != "log": continue
            if t == x.norm(q.text): mark = False
            elif contains(x, t, q.text): mark = True; x.prove(contains(x, t, Str(MARK)) and ends(x, t, q.text), "a message logged before logging is initialized arrives with its text, marked as logged too early")
            else: continue
            self.attributes(vw, q); o.saved.append((this, q, mark)); return
        if o.kind == "only": self.warn.append((this, o)); return
        x.fail("every message arrives with its own text"); o.saved.append((this, None, False))
    def attributes(self, vw, q):
        x = self.I.ctx; w = "its %s arrives unaltered"
        for k, a in (("_line", q.line), ("_level.value", q.lv.v.f["value"].v), ("_timestamp", q.now)):
            if k in vw: x.prove(EQ(vw[k][1], a), w % k.lstrip("_"))
        for k, a in (("_level.text", q.lv.v.f["text"].v), ("_function", q.function), ("_expression", q.expression), ("_file_path", q.file)): x.prove(x.seq(vw[k][1], a), w % k.lstrip("_"))
    def used(self, w): pass
    # ---- the other threads
    def before(self, I, m):
        if any(m is h for h in self.outer): raise PathEnd("has to wait")
        self.point()
    def once(self, I, fl): self.point()
    def busy(self, I, fl):
        if getattr(fl, "by", None) is self.cur[-1]: I.ctx.fail("no thread waits for itself (std::call_once)"); raise PathEnd("deadlock")
        raise PathEnd("has to wait")
    def point(self):
        if self.env is None or not self.cur or self.depth >= (2 if self.cur[-1].kind == "log" else 1): return
        L = self.active(); x = self.I.ctx
        if self.depth == 1: opts = ["", "i"] if L is None else ["", "s"]
        elif L is None: opts = ["", "i", "is"] + ([] if self.early else ["l", "li", "lis", "isl"])
        else: opts = ["", "s", "si"] + ([] if self.early else ["sl", "sli"])
        k = opts[x.fork(len(opts))]
        if not k: return
        x.covers.add("interference"); self.depth += 1
        try:
            for c in k:
                if c == "i" and self.active() is not None: raise PathEnd("another one was initialized")
                self.run(self.env[c]())
        finally: self.depth -= 1
    def others(self, on=True):
        self.env = {"i": lambda: self.init("other"), "s": self.shut, "l": lambda: self.log("other")} if on else None
    # ---- the end
    def gone(self, I, why):
        o = self.cur[-1]; x = I.ctx; code = [e["code"] for e in x.events if e["kind"] == "exit"]; self.env = None
        x.prove(o.kind == "init" and why == "exit", "nothing but an illegal initialization ends the process")
        if o.kind != "init" or why != "exit": raise PathEnd("ends")
        x.prove(fold(Z(code[-1]) != 0), "an illegal initialization ends the process with an error"); x.prove(any(e["kind"] == "out" and e["stream"] in ("cerr", "stderr") for e in x.events[o.ev:]), "an illegal initialization is reported on standard error"); o.exit = True; x.covers.add("exits")
        # static destructors run on this thread: those of the workers with static storage duration
        a = self.active(); held = I.held
        for w in [a] * (a is not None) + ([o.w] if o.w is not None and o.w is not a else []): I.call_q("g3::internal::shutDownLoggingForActiveOnly", [Ptr(w)], nparams=1)
        self.judge(); raise PathEnd("exit")
    def judge(self):
        ok = Model.explains(self.ops); self.I.ctx.prove(ok, "what is logged, kept, delivered and ignored is what the operations do in some order, one after the other", self.tell())
    def tell(self):
        nm = lambda w: "-" if w is None else w.name
        return "; ".join("%s%s [%s,%s]%s%s%s" % (o.name, "(%s)" % nm(o.w) if o.kind in ("init", "only") else "", o.start, o.end or "", "".join(" -> %s gets %s%s" % (nm(w), m.name if m else "?", " marked" if k else "") for w, m, k in o.saved), " exit" if o.exit else "", " printed" if o.kind == "log" and o.printed else "") for o in self.ops)
    def afterwards(self):
        """what can be observed from now on"""
        self.env = None; self.run(self.log("then")); self.run(self.shut()); self.run(self.log("then")); self.run(self.init("last")); self.run(self.log("then")); self.judge()
    def state(self, s):
        """one of the states the process can be in: i initialize, s shut down, l log"""
        for c in s: self.run({"i": lambda: self.init("A"), "s": self.shut, "l": lambda: self.log("before")}[c]())
        return s
    def shape(self):
        """what the operations depend on"""
        r = []
        for key, d, tu, t in globs(self.I):
            if tu != "g3log" or t.c or key not in self.I.globals: continue
            v = self.I.globals[key].v
            if t.k != "rec": r.append((key, v.c is not None if isinstance(v, Ptr) else int(v) if isinstance(v, (bool, int)) else repr(v)))
            if not isinstance(v, Lib): continue
            if v.kind == "once": r.append((key, bool(v.done.v)))
            elif v.kind in ("uptr", "sptr"): r.append((key, v.p.v.c is not None))
            elif v.kind == "atomic" and isinstance(v.v.v, Ptr): r.append((key, v.v.v.c is not None))
            elif v.kind == "atomic" and isinstance(v.v.v, bool): r.append((key, v.v.v))
        return tuple(r)
def ends(x, s, t):
    a, b = list(x.norm(s).p), list(x.norm(t).p); return len(a) >= len(b) and a[len(a) - len(b):] == b
#: every state of the process: who is active, whether a message is kept, whether one was too early, whether logging was initialized before
STATES = ["", "l", "i", "li", "is", "lis", "isl", "isli"]
def start(x, I, states=STATES):
    W = World20(I); s = W.state(states[x.fork(len(states))]); x.covers.add("from " + (s or "start")); return W, s
def t_op(make, states, races=True):
    def run(x, I):
        W, s = start(x, I, states); W.others(races); W.run(make(W, x)); W.afterwards()
    return run
def o_log(W, x): return W.log()
def o_init(W, x): return W.init() if x.fork(2) == 0 else W.init(None)
def o_shut(W, x): return W.shut()
def o_only(W, x):
    k = x.fork(3); a = W.active()
    if k == 0 and a is not None: x.covers.add("active one"); return W.only(a)
    old = [o.w for o in W.ops if o.kind == "init" and o.w is not a]
    if k == 1 and old: x.covers.add("former one"); return W.only(old[-1])
    if k == 2: x.covers.add("never active"); return W.only(W.worker("idle"))
    raise PathEnd("none")
def t_again(x, I):
    """the worker that was active before is initialized again"""
    W, s = start(x, I, ["is", "lis", "isl"]); w = [o.w for o in W.ops if o.kind == "init"][-1]; W.others(); W.run(W.init(w)); W.env = None; W.run(W.only(W.worker("idle"))); W.run(W.log("then")); W.run(W.only(w)); W.run(W.log("then")); W.judge()
_SHAPES = {}
def shapes(I):
    """the states, computed on their own"""
    if id(I.P) not in _SHAPES:
        r = set()
        def go(ctx):
            J = Interp(ctx, I.P, LibModel())
            for s in STATES: W = World20(J); W.state(s); r.add(W.shape())
        Prover().run("states", go, [], (), 50); _SHAPES[id(I.P)] = r
    return _SHAPES[id(I.P)]
def t_closed(state):
    """the states are all there are: every operation leads from one of them to one of them"""
    def run(x, I):
        known = shapes(I); W, s = start(x, I, [state]); W.others(); k = x.fork(4); W.run([W.log, W.init, W.shut, lambda: W.only(W.active())][k]()); W.env = None
        if W.shape() not in known: raise Undecided("a state of the process that the specification does not know")
        x.prove(True, "every operation leads to one of the states the operations are verified in")
    return run
def t_fatal(states):
    """a fatal event: to the active worker, or the process ends at once"""
    def run(x, I):
        W, s = start(x, I, states); C = I.contracts; C["g3::internal::stackdump"] = lambda *a: x.ufstr("stackdump", chars=NONUL); C["g3::internal::exitReasonName"] = lambda *a: x.ufstr("reason", chars=NONUL); C["g3::LogMessage::toString"] = lambda *a: x.ufstr("rendering"); C["g3::internal::shouldBlockForFatalHandling"] = lambda *a: True
        o = W.log("fatal"); o.kind = "fatal"; o.to = None; lv = o.lv = symobj(I, "LEVELS", "fatal level"); x.assume(Z(lv.v.f["value"].v) >= 1000)
        def fatal(I2, f, this, args):
            if this is None: x.fail("no fatal message goes to a missing worker"); raise PathEnd("null worker")
            x.prove(o.to is None and W.cur[-1] is o, "a fatal message is handed over once"); o.to = this
        def ended(how):
            if how == "sleep" and o.to is None: x.fail("a fatal event ends the process"); raise PathEnd("hangs")
            if how == "exit": x.prove(o.to is None, "a thread whose fatal message was handed over does not end the process itself")
            x.covers.add(how); W.env = None; W.judge(); raise PathEnd(how)
        C["g3::LogWorker::fatal"] = fatal; C["g3::internal::exitWithDefaultSignalHandler"] = lambda *a: ended("exit"); I.hooks["sleep"] = lambda I2: ended("sleep")
        if x.fork(2): C["g3::internal::shouldBlockForFatalHandling"] = lambda *a: False; x.covers.add("comes back")
        W.others(); W.ops.append(o); W.tick += 1; o.start = W.tick; W.cur.append(o); o.ev = len(x.events); I.call_q("g3::internal::saveMessage", [CStr(o.text), CStr(o.file), o.line, CStr(o.function), o.lv, CStr(o.expression), 6, CStr(Str("trace"))])
        if o.to is None: x.fail("a fatal event ends the process")
        W.env = None; W.judge()
    return run
def t_destroyed(x, I):
    """another thread destroys the worker: it shuts logging down on its behalf, then it is gone"""
    W, s = start(x, I, ["i", "li"]); a = W.active(); W.others(False)
    def used(w): W.point(); x.prove(w.alive, "a message is not handed to a worker that has been destroyed")
    W.used = used; o = W.log(); W.early = True; W.env = {"s": lambda: W.only(a), "i": lambda: W.init("other")}; real = W.run
    def run(q):
        real(q)
        if q.kind == "only" and q.w is a: a.alive = False
        return q
    W.run = run; real(o); W.env = None; W.judge()
def t_dtor(x, I):
    """destroying a log worker: before anything else it shuts logging down if it is the active one"""
    P = Process(I, True); A = P.A; a = P.w; k = x.fork(3); b = I.cell(RecV("g3::LogWorker"), None, "active worker"); c = P.logger; set_ = lambda v: setattr((c.v.v if isinstance(c.v, Lib) else c), "v", v)
    set_([Ptr(a), Ptr(b), NULL][k]); x.covers.add(["active", "another is active", "none is active"][k]); saved = []; I.contracts["g3::LogWorker::save"] = lambda I2, f, this, args: saved.append(this); I.contracts["g3::logLevel"] = lambda *a: True
    def wrap(q):
        old = I.contracts[q]
        def fn(*args):
            x.prove(P.cur() is not a, "logging is shut down before the worker goes"); return old(*args)
        I.contracts[q] = fn
    wrap("kjellkod::Active::send"); wrap("~kjellkod::Active"); I.destroy(a); now = P.cur()
    if k == 1: x.prove(now is b, "destroying a worker that is not the active one leaves logging as it is"); x.prove(all(w is b for w in saved), "messages go to the active worker")
    else: x.prove(now is None, "logging is shut down when the active worker is destroyed"); x.prove(not saved, "no message goes to a worker that is being destroyed")
def tasks():
    R = []
    def T(n, fn, fns, cov=(), tus=TU20): R.append(Task(n, fn, tus=tus, fns=fns, covers=cov))
    N = "g3::internal::"; PUSH = [N + "saveMessage", N + "pushMessageToLogger"]; INIT = ["g3::initializeLogging", "g3::setFatalPreLoggingHook"]; S = [N + "shutDownLogging"]; O = [N + "shutDownLoggingForActiveOnly"]
    for n, m, f in (("logging", o_log, PUSH), ("initializing", o_init, INIT), ("shutting down", o_shut, S), ("shutting down for a worker", o_only, O)):
        T(n + " on its own", t_op(m, STATES, False), f); 
        for s in STATES: T("%s, other threads interfere, %s" % (n, NAMES[s]), t_op(m, [s]), f, ["interference"])
    for s in STATES: T("fatal event, other threads interfere, %s" % NAMES[s], t_fatal([s]), [N + "saveMessage", N + "saveFatalMessage", N + "pushFatalMessageToLogger"], ["interference"])
    T("a message while its worker is destroyed", t_destroyed, PUSH + O); T("destroying a worker", t_dtor, ["g3::LogWorker::~LogWorker"] + O, ["active", "another is active", "none is active"], TU + ["logcapture"])
    T("a former worker again", t_again, INIT + S + O + PUSH); 
    for s in STATES: T("every state is looked at, from %s" % (s or "the start"), t_closed(s), INIT + S + O + PUSH)
    return R
NAMES = {"": "at the start", "l": "after a first message", "i": "initialized", "li": "initialized after a first message", "is": "shut down", "lis": "shut down, a message was early", "isl": "shut down and a message since", "isli": "initialized again"}
TRUST = ["std::atomic (sequentially consistent), std::mutex, std::call_once and std::unique_ptr behave as the standard says", "LogWorker::save and LogWorker::fatal hand over what they get: C03 and C06", "exitWithDefaultSignalHandler ends the process: C07", "installCrashHandler does not log: C08"]
ASSUME = ["other threads carry out whole operations (the real code) wherever the operation in question looks at or changes shared data; up to four at each such point, which reaches every state (task: every state is looked at) - sound because each operation changes the active worker at one point and everything else under the initialization mutex or in std::call_once", "the states of the process are those of eight histories; every operation leads from one of them to one of them (proved)", "call-site strings and texts contain no NUL character (C11's known finding embedded-nul); messages other than the one in question have the file src/f.cpp", "a worker that is initialized is not initialized again while it is active"]
