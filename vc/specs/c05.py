"""C05 Calls through a sink handle run once, in order, and deliver their result."""
from .actor import *
TU = ["client", "logworker", "logmessage", "loglevels"]
class Calls(World):
    """the sink's own API: arbitrary results, arbitrary exceptions"""
    def __init__(self, I, **kw):
        World.__init__(self, I, **kw); self.log = []; self.drops = 0; self.races = False; self.seen = 0
        I.hooks["client::Sink::calc"] = self.calc; I.hooks["client::Sink::act"] = self.act; I.hooks["ufn"] = self.ufn; I.hooks["wptr"] = lambda I2: self.race(); I.exc_bases["client::StdError"] = ("std::exception", "std::runtime_error")
        C = I.contracts; real = C["kjellkod::Active::send"]
        def send(I2, f, this, args):
            self.race(); I2.touch(this); r = real(I2, f, this, args); self.race(); return r
        C["kjellkod::Active::send"] = send
    def race(self):
        """the log worker drops the sink just now"""
        if not self.races or self.drops or self.A.ctx != CALLER: return
        if self.I.ctx.fork(2): self.drops = 1; self.release(); self.I.ctx.covers.add("dropped meanwhile")
    def release(self):
        I = self.I; n = fold(Z(self.ectl.n.v) - 1); self.ectl.n.v = n
        if self.entry is not None: self.take_out()
        if n == 0:
            old = self.A.ctx; self.A.ctx = self.bg
            try: I.destroy(self.e); self.e.alive = False
            finally: self.A.ctx = old
    def done(self, name, this, args, v):
        x = self.I.ctx
        if this is not None: self.I.touch(this)
        ty = (None, "client::Error", "client::StdError")[x.fork(3)]; e = CppThrow(Lib("exc", ty=ty, what=Str("client")), ty) if ty else None
        self.log.append({"name": name, "sink": this, "ctx": self.A.ctx, "args": args, "exc": e, "val": v, "at": len(self.got)})
        if e: x.covers.add("throws"); raise e
        x.covers.add("returns"); return v
    def calc(self, I, f, this, args):
        a = I.bind_param(f.p[0], args[0]).v; b = I.lib.S(I, args[1]); return self.done("calc", this, [a, b], I.ctx.int("result", -2**31, 2**31 - 1))
    def act(self, I, f, this, args): return self.done("act", this, [I.bind_param(f.p[0], args[0]).v], None)
    def ufn(self, I, v, args, *r): return self.done(v.name, None, [], I.ctx.int("result", -2**31, 2**31 - 1) if v.name == "int task" else None)
    # ---- requests through the handle
    def args(self, kind, nm):
        I = self.I; x = I.ctx; a = I.cell(x.int(nm + " argument", -2**31, 2**31 - 1, inp=True), tyof_int(I), "a"); b = I.cell(x.str(nm + " text", inp=True), None, "b")
        return ([a, b], [a.v, b.v]) if kind == "calc" else ([a], [a.v])
    def ask(self, kind, nm):
        I = self.I; cs, vs = self.args(kind, nm); h = I.deref(self.handle.v.p.v); n = len(self.log); A = self.A; old = self.ectl.n.v
        q = [f for f in I.P.fns.values() if f.q == ("client::callCalc" if kind == "calc" else "client::callAct")][0]; al = []
        for c, p in zip(cs, q.p[1:]): al.append(Arg("l", c, p.strip()) if p.k in ("ref", "rref") else Arg("r", c.v, p))
        fut = I.cell(I.call(q, None, [Arg("l", h, h.t)] + al, top=True), None, "future of " + nm)
        for c in cs: self.scribble(c)     # the caller goes on to use its variables for something else
        return fut, kind, vs
def tyof_int(I): return I.P.types.get("int")
def future_of(W, fut, c, what):
    x = W.I.ctx; ok = isinstance(fut.v, Lib) and fut.v.kind == "future" and fut.v.st is not None; x.prove(ok, what + "the future is valid")
    if not ok: return None
    r = x.entails(Z(W.I.load(fut.v.st.ready))); x.prove(r, what + "the future is ready once the call has been carried out")
    if not r: return None
    try: v = ("value", W.I.lib.f_future_get(W.I, None, fut, []))
    except CppThrow as e: v = ("throws", e)
    if c is None: return v
    if c["exc"]: x.prove(v[0] == "throws" and same_exc(v[1], c["exc"]), what + "the future yields the exception the call threw")
    elif c["val"] is None: x.prove(v[0] == "value", what + "the future of a call without result yields no error")
    else:
        x.prove(v[0] == "value", what + "the future yields the call's result")
        if v[0] == "value": x.prove(EQ(v[1], c["val"]), what + "the future yields the call's result")
def same_exc(a, b): return a is b or a.val is b.val or getattr(a.val, "org", None) is b.val
def carried_out(W, fut, kind, vs, n, what):
    """exactly one execution, with the arguments given, on the sink's thread"""
    x = W.I.ctx; x.prove(len(W.log) == n + 1, what + "a call is carried out exactly once")
    if len(W.log) != n + 1: return
    c = W.log[n]; x.prove(c["name"] == kind, what + "the function asked for is called"); x.prove(c["sink"] is W.rs, what + "the call goes to the sink"); x.prove(c["ctx"] is W.ebg, what + "a call is carried out on the sink's own thread")
    if c["name"] == kind:
        for u, v in zip(c["args"], vs): x.prove(x.seq(u, v) if isinstance(v, Str) else EQ(u, v), what + "a call is made with the arguments given")
    future_of(W, fut, c, what)
def t_call(kind):
    def run(x, I):
        W = Calls(I); A = W.A; own = 1 + x.fork(2); W.ectl.n.v = own; W.races = True
        r = W.ask(kind, "call"); W.races = False
        if own - W.drops > 0:
            x.prove(EQ(W.ectl.n.v, own - W.drops), "a call does not change who owns the sink"); x.prove(A.pending(W.ebg) == 1 and not W.log, "a call is handed to the sink's worker, once, and not carried out by the caller")
        else: x.covers.add("gone during the call"); x.prove(not W.e.alive and not W.rs.alive, "the call does not keep the sink alive")
        A.idle(); x.covers.add("own%d" % own)
        if own - W.drops <= 0 and not W.log: gone(W, r[0], "dropped before it: "); x.covers.add("too late")
        else: carried_out(W, *r, 0, "")
    return run
def gone(W, fut, what):
    x = W.I.ctx; x.prove(not W.log, what + "nothing is executed"); v = future_of(W, fut, None, what)
    if v: x.prove(v[0] == "throws" and "bad_weak_ptr" in str(getattr(v[1], "ty", "")) + str(getattr(v[1].val, "ty", "")), what + "the future holds a bad-weak-pointer error")
def t_order(x, I):
    """messages and calls in the order submitted"""
    W = Calls(I, others=False); A = W.A; m1, m2 = W.message("first"), W.message("second"); early = x.fork(2)
    W.save(m1); A.step(A.act(W.bg))
    if early: A.idle()
    r1 = W.ask("calc", "first call"); r2 = W.ask("act", "second call"); W.save(m2); A.step(A.act(W.bg)); r3 = W.ask("act", "third call"); A.idle()
    x.prove(len(W.log) == 3, "every call is carried out exactly once"); x.covers.add("ordered" + W.kind)
    if len(W.log) == 3:
        x.prove([c["name"] for c in W.log] == ["calc", "act", "act"], "calls are carried out in the order made"); x.prove([c["at"] for c in W.log] == [1, 1, 2], "calls are ordered with the messages before and after them")
        for c, (fut, kind, vs) in zip(W.log, (r1, r2, r3)):
            for u, v in zip(c["args"], vs): x.prove(x.seq(u, v) if isinstance(v, Str) else EQ(u, v), "each call gets its own arguments")
            future_of(W, fut, c, "each call: ")
    W.delivered([m1[2:], m2[2:]], "with calls in between: ")
def t_gone(x, I):
    W = Calls(I, others=False); A = W.A; pend = x.fork(2); m = W.message("earlier")
    if pend: W.save(m)
    rel = x.fork(2)
    if rel: I.call_q("client::removeAll", [W.w], nparams=1)
    else: A.idle(); W.take_out(); W.forget()
    x.prove(not W.e.alive and not W.rs.alive, "a handle does not keep its sink alive"); h = I.deref(W.handle.v.p.v)
    w = I.call_q("client::handleSink", [h], nparams=1); x.prove(isinstance(w, Lib) and w.kind == "wptr" and (w.ctl is None or w.ctl.n.v == 0), "the handle of a sink that is gone yields an empty pointer")
    kind = ("calc", "act")[x.fork(2)]; r = W.ask(kind, "call"); A.idle(); gone(W, r[0], "sink gone: "); x.covers.add("gone%d%s%d" % (rel, kind, pend))
def t_handle(x, I):
    W = Calls(I); own = 1 + x.fork(2); W.ectl.n.v = own; h = I.deref(W.handle.v.p.v); w = I.call_q("client::handleSink", [h], nparams=1)
    x.prove(isinstance(w, Lib) and w.kind == "wptr" and w.ctl is W.ectl, "the handle yields a weak pointer to its sink"); x.prove(EQ(W.ectl.n.v, own), "asking the handle does not change who owns the sink"); x.covers.add("handle")
    I.destroy(W.handle); x.prove(EQ(W.ectl.n.v, own) if own else True, "destroying the handle does not change who owns the sink"); x.prove(W.e.alive and W.rs.alive, "destroying the handle does not destroy the sink")
def t_spawn(null):
    def run(x, I):
        W = Calls(I, others=False); A = W.A; void = x.fork(2); nm = "void task" if void else "int task"
        q = [f for f in I.P.fns.values() if f.q == ("client::spawnv" if void else "client::spawn")][0]; t = I.cell(Lib("func", target=I.cell(Lib("ufn", name=nm))), None, "task"); n0 = A.pending(W.bg)
        fut = I.cell(I.call(q, None, [Arg("r", t.v, q.p[0]), Arg("r", NULL if null else Ptr(W.bg), q.p[1])], top=True), None, "future"); x.covers.add(nm)
        if null:
            x.prove(not W.log and all(A.pending(a.cell) == 0 for a in A.all), "without a worker nothing is carried out"); v = future_of(W, fut, None, "without a worker: ")
            if v: x.prove(v[0] == "throws", "without a worker the future holds an error")
        else:
            x.prove(A.pending(W.bg) == n0 + 1 and not W.log, "the task is handed to the worker, once"); A.idle(); x.prove(len(W.log) == 1, "the task is carried out exactly once")
            if len(W.log) == 1: x.prove(W.log[0]["name"] == nm and W.log[0]["ctx"] is W.bg, "the task is carried out by the worker given"); future_of(W, fut, W.log[0], "task: ")
    return run
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    H, S = "g3::SinkHandle<T>::", "g3::internal::Sink<T>::"
    for k in ("calc", "act"): T("call " + k, t_call(k), [H + "call", S + "async", "g3::spawn_task", "g3::MoveOnCopy<...>"], ["own1", "own2", "throws", "returns", "dropped meanwhile", "gone during the call"])
    T("calls and messages", t_order, [H + "call", S + "async", S + "send"], ["orderedmsg", "orderedstr"])
    T("sink gone", t_gone, [H + "call", H + "sink", S + "~Sink"], ["gone%d%s%d" % (a, k, b) for a in (0, 1) for k in ("calc", "act") for b in (0, 1)])
    T("handle", t_handle, [H + "sink", H + "~SinkHandle"], ["handle"])
    T("spawn_task", t_spawn(False), ["g3::spawn_task"], ["int task", "void task", "throws", "returns"]); T("spawn_task without worker", t_spawn(True), ["g3::spawn_task"], ["int task", "void task"])
    return R
TRUST = ["the background worker's contract (tasks run once each, in order, on the worker's thread; destruction runs what was submitted first), proved as C01/C02", "std::shared_ptr, std::weak_ptr, std::bind, std::function, std::packaged_task, std::promise and std::future behave as the standard says"]
ASSUME = ["the template code is verified for one client sink type with a call that takes two arguments and returns a value and one that returns nothing; it treats every type alike", "arguments are copied without exceptions", "a sink is not destroyed on its own thread (a call from within the sink being its last owner)"]
