"""Background workers through their contract (proved as C02): what is submitted is executed exactly once, in order, on the worker's thread; destroying the worker executes
everything submitted before. Log worker and sink objects are the real ones; client::Sink's methods are arbitrary user code."""
from .common import *
CALLER = "caller"
class Actors:
    @property
    def ctx(self): return self._ctx
    @ctx.setter
    def ctx(self, who): self._ctx = who; self.I.set_thread("main" if who is CALLER else who if isinstance(who, str) else who.uid)
    def __init__(self, I):
        self.I = I; self.all = []; self.ctx = CALLER; self.before = {}; self.ran = []; self.waits = 0; self.depth = 0; self.on_wait = None
        C = I.contracts; C["kjellkod::Active::createActive"] = self.create; C["kjellkod::Active::send"] = self.send; C["~kjellkod::Active"] = self.destroy
        for n in ("createActive", "send", "~Active"):
            if not any(f.q == "kjellkod::Active::" + n for f in I.P.fns.values()): raise Undecided("the background worker has changed")
        I.hooks["future-wait"] = self.wait; I.hooks["thread-start"] = lambda *a: (_ for _ in ()).throw(Undecided("another thread"))
        I.hooks["tid"] = lambda I2: I2.ctx.ufint("id of thread", self.ctx if isinstance(self.ctx, str) else "worker %d" % self.ctx.uid, lo=1)
    def act(self, c):
        for a in self.all:
            if a.cell is c: return a
        raise Undecided("which worker?")
    def create(self, I, f, this, args):
        t = tyof(I, "kjellkod::Active"); c = I.cell(RecV(I.P.recs[t.id]), t, "worker"); c.heap = True
        a = Lib("actor", cell=c, q=[], done=False, started=False, last=None); self.all.append(a); return Lib("uptr", p=I.cell(Ptr(c)), et=t)
    def send(self, I, f, this, args):
        I.touch(this); a = self.act(this); v = I.lib.take(I, args[0]) if args[0].m != "l" else I.copy_value(args[0].c)
        c = I.cell(v, None, "task"); a.q.append(c); I.ctx.event("submit", actor=a, task=c, by=self.ctx)
    def destroy(self, I, c):
        a = self.act(c)
        if self.ctx is a.cell: I.ctx.fail("a worker does not destroy itself"); raise PathEnd("self destruction")
        if I.held: raise Undecided("a worker is destroyed with a lock held")
        self.drain(a); a.done = True; I.ctx.event("joined", actor=a)
    # ---- execution of what was submitted
    def settle(self, a):
        """the task carried out last is destroyed (on the worker's thread)"""
        if a.last is None: return
        c, a.last = a.last, None; old = self.ctx; self.ctx = a.cell; held, self.I.held = self.I.held, []
        try: self.I.destroy(c); c.alive = False
        finally: self.ctx = old; self.I.held = held
    def step(self, a, linger=False):
        I = self.I
        if not a.started:
            a.started = True
            if a.cell in self.before: self.before[a.cell]()
        self.settle(a); c = a.q.pop(0); old = self.ctx; self.ctx = a.cell; held, I.held = I.held, []; self.depth += 1; fr = I.fr
        try: I.lib.invoke(I, c, [])
        except CppThrow: I.terminate("exception leaves a background worker")
        finally: self.ctx = old; self.depth -= 1
        if I.held: I.ctx.fail("no lock stays behind")
        I.held = held; a.last = c; self.ran.append(a)
        if not linger: self.settle(a)
    def drain(self, a):
        n = 0; self.settle(a)
        while a.q:
            self.step(a); n += 1
            if n > 50: raise Undecided("the worker never comes to an end")
    def idle(self):
        """every worker has caught up"""
        n = 0
        while any(a.q for a in self.all if not a.done):
            for a in self.all:
                if a.q and not a.done: self.step(a)
            n += 1
            if n > 50: raise Undecided("the workers never come to an end")
        for a in self.all:
            if not a.done: self.settle(a)
    def wait(self, I, fut):
        self.waits += 1; x = I.ctx
        if fut.st is None: raise CppThrow(Lib("exc", ty="std::future_error", what=Str("no state")), "std::future_error")
        ready = lambda: x.entails(Z(I.load(fut.st.ready)))
        if not ready() and I.held: raise Undecided("waits with a lock held")
        n = 0
        while not ready():
            todo = [a for a in self.all if a.q and not a.done and a.cell is not self.ctx]
            if not todo: x.fail("nobody waits for a result that never comes", "line %s" % I.line); raise PathEnd("deadlock")
            # the worker executes in order: everything submitted before comes first
            self.step(todo[0], True); n += 1
            # the waiting thread may go on before or after the task itself has been destroyed
            if not ready() or x.fork(2): self.settle(todo[0])
            if n > 60: raise Undecided("the workers never come to an end")
    def pending(self, cell): return len(self.act(cell).q)

def extra_fields(I, c, known, name):
    """fields the specification does not know: any value"""
    for n, ft, _ in I.P.all_fields(c.v.cls):
        if n in known: continue
        f = c.v.f[n]
        if isinstance(f.v, Lib) and f.v.kind in ("mutex", "cv", "once"): continue
        if isinstance(f.v, Lib) and f.v.kind == "atomic": f.v.v.v = I.sym(f.v.v.t or ft.args[0], name + "." + n); continue
        if ft.k in ("int", "bool", "enum") or ft.k == "rec" and ft.n == "std::basic_string": f.v = I.sym(ft, name + "." + n)
        else: raise Undecided("unknown field %s" % n)
class World:
    """a log worker with arbitrary sinks, one of which (e) is looked at"""
    def __init__(self, I, with_e=True, kind=None, others=True, held=None):
        self.I = I; x = I.ctx; self.A = A = Actors(I); self.got = []; self.other = 0; self.gone = []; self.freed = []; self.n = 0; self.calls = []
        I.contracts["g3::LogMessage::toString"] = lambda I2, f, this, args: x.ufstr("rendering", *self.key(this))
        I.hooks["client::Sink::recvMsg"] = self.recv_msg; I.hooks["client::Sink::recvStr"] = self.recv_str
        I.hooks["sym:std::unique_ptr"] = self.sym_uptr
        self.w = self.make_worker(); self.bg = self.field(self.impl, "uptr").v.p.v.c; self.list = self.field(self.impl, "vec")
        if self.bg is None or len(A.all) != 1: raise Undecided("the log worker has changed")
        self.e = self.ectl = self.handle = None; self.kind = kind
        if with_e: self.make_e(kind or ("msg", "str")[x.fork(2)])
        self.init_list(others)
        seq = self.list.v.seq
        def guard(I2, c, write):
            if not self.w.alive or A.act(self.bg).done: return
            if A.ctx is not self.bg: I2.ctx.fail("the list of sinks is touched only by the log worker's own thread", "line %s" % I2.line, True); raise PathEnd("race")
            I2.ctx.prove(True, "the list of sinks is touched only by the log worker's own thread", safety=True)
        seq.guard = guard; A.before[self.bg] = self.rename
    # ---- objects
    def make_worker(self):
        I = self.I; t = tyof(I, "g3::LogWorker"); c = I.default_cell(t, "log worker")
        impl = [f for f in c.v.f.values() if isinstance(f.v, RecV) and f.v.cls.q == "g3::LogWorkerImpl"]
        if len(impl) != 1: raise Undecided("the log worker has changed")
        self.impl = impl[0]; extra_fields(I, c, [impl[0].name], "worker"); 
        self.field(self.impl, "uptr"), self.field(self.impl, "vec")
        extra_fields(I, self.impl, [n for n, f in self.impl.v.f.items() if isinstance(f.v, Lib) and f.v.kind in ("uptr", "vec")], "impl"); return c
    def field(self, c, kind):
        r = [f for f in c.v.f.values() if isinstance(f.v, Lib) and f.v.kind == kind]
        if len(r) != 1: raise Undecided("the log worker has changed")
        return r[0]
    def real(self, name="sink"):
        I = self.I; t = tyof(I, "client::Sink"); v = RecV(I.P.recs[t.id]); c = I.cell(v, t, name); c.heap = True; return c
    def make_e(self, kind):
        """a sink as LogWorker::addSink makes it; who registers it is looked at elsewhere"""
        I = self.I; self.kind = kind; got = []; old = I.contracts.get("g3::LogWorker::addWrappedSink")
        def capture(I2, f, this, args): 
            c = I2.bind_param(f.p[0], args[0]); got.append(c)
        I.contracts["g3::LogWorker::addWrappedSink"] = capture
        self.rs = self.real(); n0 = len(self.A.all)
        r = I.call_q("client::addMsgSink" if kind == "msg" else "client::addStrSink", [self.w, Arg("r", Lib("uptr", p=I.cell(Ptr(self.rs)), et=self.rs.t), None)], nparams=2)
        if old is None: del I.contracts["g3::LogWorker::addWrappedSink"]
        else: I.contracts["g3::LogWorker::addWrappedSink"] = old
        if len(got) != 1 or len(self.A.all) != n0 + 1: raise Undecided("how is a sink added?")
        self.handle = I.cell(r, None, "handle"); sp = got[0].v; self.ectl = sp.ctl; self.e = sp.p.v.c; self.ebg = self.A.all[n0].cell; self.espc = got[0]
        ks = {n: f for n, f in self.e.v.f.items()}; extra_fields(I, self.e, [n for n, f in ks.items() if isinstance(f.v, Lib) and f.v.kind in ("uptr", "func")], "sink")
    def init_list(self, others):
        """the list: others, e, others"""
        I = self.I; x = I.ctx; self.n += 1; mid = () if self.e is None else (I.cell(Lib("sptr", p=I.cell(Ptr(self.e)), ctl=self.ectl), None, "e"),)
        if self.e is not None and self.n == 1: self.ectl.n.v = 1
        self.entry = mid[0] if mid else None
        s = lambda nm: (Seg("%s%d" % (nm, self.n), self.gen),) if others else ()
        seq = self.list.v.seq; seq.v = s("sinks before") + mid + (s("sinks behind") if mid else ())
    def rename(self):
        """what other tasks may have done to the list meanwhile: other sinks come and go"""
        self.n += 1; seq = self.list.v.seq; seq.v = tuple(Seg("%s%d" % (s.name.rstrip("0123456789'"), self.n), s.gen) if isinstance(s, Seg) else s for s in seq.v)
    def gen(self, I, sg):
        """another sink: shared ownership, maybe by the client, too"""
        t = tyof(I, "g3::internal::SinkWrapper"); c = I.cell(RecV("other sink"), t, "other sink"); c.heap = True
        ctl = Lib("ctl", n=I.cell(I.ctx.int("owners", 1)), obj=c, ext=None); I.hooks["other sink::send"] = self.others_send; return I.cell(Lib("sptr", p=I.cell(Ptr(c)), ctl=ctl), None, "other")
    def others_send(self, I, f, this, args):
        c = I.bind_param(f.p[0], args[0]); self.scribble(c); I.ctx.event("other sink receives")
    def scribble(self, c):
        """the receiver does what it likes with its copy"""
        v = c.v
        if isinstance(v, RecV):
            for f in v.f.values(): self.scribble(f)
        elif isinstance(v, Lib) and v.kind == "uptr":
            if isinstance(v.p.v, Ptr) and v.p.v.c is not None: self.scribble(v.p.v.c)
        elif isinstance(v, Str): self.I.store(c, self.I.ctx.str("scribbled"))
        elif isinstance(v, bool): self.I.store(c, self.I.ctx.bool("scribbled"))
        elif isinstance(v, int) or isinstance(v, z3.ExprRef) and z3.is_int(v): self.I.store(c, self.I.ctx.int("scribbled"))
    def shape(self):
        """what is registered; groups of unknown sinks by name"""
        return [("sinks", e.name[:12].strip()) if isinstance(e, Seg) else ("e" if self.e is not None and e.v.p.v.c is self.e else e) for e in self.list.v.seq.v]
    def same_list(self, a, b):
        none = {e["seg"][:12].strip() for e in self.I.ctx.events if e["kind"] == "seg-empty"}
        f = lambda l: [e for e in l if not (isinstance(e, tuple) and e[1] in none)]
        a, b = f(a), f(b)
        return len(a) == len(b) and all(any(u is v or u == v for v in b) for u in a) and all(any(u is v or u == v for v in a) for u in b)
    # ---- messages
    def content(self, c):
        """the message inside a holder"""
        v = c.v
        if isinstance(v, RecV) and v.cls.q in ("g3::LogMessage", "g3::FatalMessage"): return c
        if isinstance(v, RecV):
            for f in v.f.values():
                r = self.content(f)
                if r is not None: return r
        if isinstance(v, Lib) and v.kind == "uptr" and isinstance(v.p.v, Ptr) and v.p.v.c is not None: return self.content(v.p.v.c)
        return None
    def key(self, c): return [l[1] if not isinstance(l[1], (FnPtr, Cell)) else str(l[1]) for l in view(self.I, c).values() if l[0] in ("n", "s")]
    def sym_uptr(self, I, t, name):
        c = symobj(I, t.args[0].n, name) if t.args[0].n.startswith("g3::") else self.real(name); c.heap = True
        return Lib("uptr", p=I.cell(Ptr(c)), et=t.args[0])
    def message(self, name, q="client::mptr_copy"):
        f = [f for f in self.I.P.fns.values() if f.q == q]
        if len(f) != 1: raise Undecided("message pointer")
        t = f[0].p[0].strip(); c = self.I.cell(self.I.sym(t, name, True), t, name); m = self.content(c)
        return c, t, view(self.I, m), self.I.ctx.ufstr("rendering", *self.key(m))
    def recv_msg(self, I, f, this, args):
        c = I.bind_param(f.p[0], args[0]); m = self.content(c); I.touch(this)
        self.got.append({"sink": this, "ctx": self.A.ctx, "view": view(I, m) if m is not None else None}); I.ctx.event("received"); self.scribble(c)
    def recv_str(self, I, f, this, args):
        c = I.bind_param(f.p[0], args[0]); I.touch(this); self.got.append({"sink": this, "ctx": self.A.ctx, "text": c.v}); I.ctx.event("received"); self.scribble(c)
    def delivered(self, want, what):
        """e got exactly these messages, in this order"""
        I = self.I; x = I.ctx; x.prove(len(self.got) == len(want), what + "each sink gets every message exactly once")
        for g, (vw, txt) in zip(self.got, want):
            x.prove(g["sink"] is self.rs, what + "the sink itself receives"); x.prove(g["ctx"] is self.ebg, what + "a sink receives on its own thread")
            if "view" in g:
                if g["view"] is None: x.fail(what + "the message arrives with its content"); continue
                for k in vw:
                    if k not in g["view"]: x.fail(what + "the message arrives with its content"); continue
                    x.prove(same_leaf(I, g["view"][k], vw[k]), what + "the message's content arrives unaltered: " + k.lstrip("_"))
            else: x.prove(x.seq(g["text"], txt), what + "the message's rendering arrives")
    def stderr(self):
        r = EMPTY
        for e in self.I.ctx.events:
            if e["kind"] == "out" and e["stream"] in ("cerr", "clog", "stderr"): r = r + e["text"]
        return r
    def save(self, m):
        c, t = m[0], m[1]; f = [f for f in self.I.P.fns.values() if f.q == "g3::LogWorker::save"]
        if len(f) != 1: raise Undecided("save")
        self.I.call(f[0], self.w, [Arg("x", c, t)], top=True)
    def take_out(self):
        """e has been removed from the list (and is kept by the client, or gone)"""
        seq = self.list.v.seq; seq.v = tuple(c for c in seq.v if c is not self.entry); self.entry = None
    def forget(self):
        """nobody owns e any more"""
        I = self.I; self.ectl.n.v = 0; I.destroy(self.e); self.e.alive = False
