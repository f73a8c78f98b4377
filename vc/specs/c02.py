"""C02 Background worker runs every task once, in order, and drains on destruction.
The queue is used through its contract (C01): a sequence to which push appends and from which a blocking pop takes the oldest.
The worker thread's function is verified with the loop rule: what is queued is arbitrary tasks, then whatever the destructor submits."""
from .common import *
TU = ["client"]
def fn_id(v): return v.target.v.name if isinstance(v, Lib) and v.kind == "func" and v.target is not None and isinstance(v.target.v, Lib) and v.target.v.kind == "ufn" else None
class World:
    def __init__(self, I):
        self.I = I; x = I.ctx; self.worker = False; self.started = []; self.joined = 0; self.pushed = []; self.fields = None; self.touched = {}; self.live = False
        # ghost state of the worker: the task popped and not yet executed (0/1), position in what the destructor submitted
        self.pending, self.told = I.cell(0, None, "popped, not executed"), I.cell(0, None, "stop message taken"); self.cur = []; self.n = 0
        I.hooks["thread-start"], I.hooks["join"], I.hooks["ufn"] = self.start, self.join, self.execute
        self.me = x.int("this thread", 1); I.hooks["tid"] = lambda I2: self.started[0][0].tid if self.worker else self.me
        I.hooks["wait"] = I.hooks["blocked"] = lambda *a: (_ for _ in ()).throw(Undecided("waits outside the queue"))
        C = I.contracts; C["shared_queue::push"] = self.push; C["shared_queue::wait_and_pop"] = self.pop; C["shared_queue::try_and_pop"] = self.trypop
        C["shared_queue::empty"] = self.empty; C["shared_queue::size"] = self.size
        I.loop_cands.append(self.cands)
        for q in ("push", "wait_and_pop"):
            if not any(f.q == "shared_queue::" + q for f in I.P.fns.values()): raise Undecided("the queue has changed")
    def cands(self, I, mod):
        """candidate invariants: a flag is unchanged, or says whether the stop message has been taken"""
        out = []; isb = lambda v: isinstance(v, bool) or isinstance(v, z3.ExprRef) and z3.is_bool(v)
        ghosts = [c for c, _ in mod if c is self.told]
        for c, v0 in mod:
            if isb(v0):
                out.append((("same", c.uid), lambda m, c=c, v0=v0: EQ(m[c.uid], v0)))
                for g in ghosts:
                    out.append((("told", c.uid), lambda m, c=c, g=g: EQ(m[c.uid], fold(Z(m[g.uid]) == 1))))
                    out.append((("not told", c.uid), lambda m, c=c, g=g: EQ(m[c.uid], fold(Z(m[g.uid]) != 1))))
        for g in ghosts: out.append((("ghost", g.uid), lambda m, g=g: fold(AND(Z(m[g.uid]) >= 0, Z(m[g.uid]) <= 1))))
        return out
    # ---- data races on the object's own fields
    def watch(self, a):
        self.fields = a; self.live = True
        for n, c in a.v.f.items(): 
            for y in [c] + ([c.v.v] if isinstance(c.v, Lib) and c.v.kind == "atomic" else []): y.guard = self.touch
    def touch(self, I, c, write):
        if self.live or self.worker:
            e = self.touched.setdefault(c.uid, [c, set()]); e[1].add((self.worker, write))
    def races(self):
        x = self.I.ctx
        atom = {c.v.v.uid for c in self.fields.v.f.values() if isinstance(c.v, Lib) and c.v.kind == "atomic"}
        for c, s in self.touched.values():
            if isinstance(c.v, Lib) and c.v.kind in ("mutex", "cv"): continue
            both = (False in {w for w, _ in s}) and (True in {w for w, _ in s}) and any(wr for _, wr in s)
            if c.uid in atom or isinstance(c.v, Lib) and c.v.kind == "atomic":
                if both: raise Undecided("threads communicate through an atomic field")
            else: x.prove(not both, "no field is shared between threads without synchronisation: %s" % (c.name or "?"))
    # ---- queue contract
    def push(self, I, f, this, args):
        if self.worker: raise Undecided("the worker itself submits")
        v = I.lib.take(I, args[0]) if args[0].m != "l" else I.copy_value(args[0].c); c = I.cell(v, None, "submitted"); self.pushed.append(c); I.ctx.event("push", item=c)
    def pop(self, I, f, this, args): self.take(I, args[0].c)
    def trypop(self, I, f, this, args):
        x = I.ctx
        if not self.pushed: raise Undecided("polls the queue before the stop message")
        if x.branch(fold(Z(I.load(self.told)) == 1)):
            if x.fork(2): return False
            self.put(I, args[0].c, Lib("func", target=I.cell(Lib("ufn", name="submitted after the destruction")))); return True
        self.take(I, args[0].c); return True
    def empty(self, I, f, this, args):
        if not self.worker: return I.ctx.fork(2) == 1
        if not self.pushed: raise Undecided("looks at the queue before the stop message")
        return I.ctx.fork(2) == 1 if I.ctx.branch(fold(Z(I.load(self.told)) == 1)) else False
    def size(self, I, f, this, args):
        n = I.ctx.int("size", 0, (1 << 32) - 1); I.ctx.assume(EQ(EQ(n, 0), self.empty(I, f, this, args))); return n
    def take(self, I, out):
        x = I.ctx
        if not self.worker: raise Undecided("pops outside of the worker")
        x.prove(fold(Z(I.load(self.told)) != 1), "after the stop message the worker does not wait for more")
        if x.branch(fold(Z(I.load(self.told)) == 1)): raise PathEnd("nothing more comes")
        k = x.fork(2 if self.pushed else 1); x.covers.add(("task", "stop")[k])
        if k == 0:
            self.n += 1; nm = "task %d" % self.n; self.cur.append(nm); I.store(self.pending, fold(Z(I.load(self.pending)) + 1)); v = Lib("func", target=I.cell(Lib("ufn", name=nm)))
        else: I.store(self.told, 1); v = I.copy_value(self.pushed[0])
        self.put(I, out, v)
    def put(self, I, out, v): old = I.cell(out.v); I.touch(out, True); out.v = v; I.destroy(old)
    def execute(self, I, fn, args):
        x = I.ctx
        if not self.worker: x.fail("a task is executed on the worker's own thread only", "line %s" % I.line); raise PathEnd("inline")
        if fn.name.startswith("submitted after"): return
        if fn.name.startswith("h:"): raise Undecided("executes a function kept from an earlier iteration")
        x.prove(bool(self.cur) and fn.name == self.cur[0], "a task is executed exactly once, when its turn comes"); self.cur = self.cur[1:]; I.store(self.pending, fold(Z(I.load(self.pending)) - 1))
    # ---- threads
    def start(self, I, th):
        x = I.ctx; objs = [c for c in x.cells.values() if isinstance(c.v, RecV) and not isinstance(c.v.cls, str) and c.v.cls.q == "kjellkod::Active" and c.alive]
        if len(objs) != 1: raise Undecided("which object does the thread work on?")
        a = objs[0]; names = [n for n, _, _ in I.P.all_fields(a.v.cls)]
        for n in names:
            c = a.v.f.get(n); x.prove(c is not None and c.v is not UNINIT, "the worker is fully constructed before its thread starts: %s" % n)
        x.assume(fold(Z(self.me) != Z(th.tid))); self.started.append((th, a, [I.cell(I.copy_value(c) if I.is_obj(c.v) else c.v, c.t) for c in th.fn])); self.watch(a)
    def join(self, I, thc):
        x = I.ctx; self.joined += 1
        if self.worker: x.fail("the worker does not wait for itself"); raise PathEnd("self join")
        x.prove(len(self.pushed) == 1, "the worker is told to stop, once, before it is waited for")
        if len(self.pushed) == 1: self.run()
        self.live = False           # the worker is gone: its creator has the object for itself
    def run(self):
        """the worker thread, from its start to its end"""
        I = self.I; x = I.ctx; self.worker = True; I.force_ind = True; held, I.held = I.held, []
        fn = self.started[0][2]
        try: I.invoke(fn[0] if I.is_obj(fn[0].v) else fn[0].v, [Arg("l", c, c.t) if I.is_obj(c.v) else Arg("r", c.v, c.t) for c in fn[1:]])
        except CppThrow: I.terminate("exception leaves the worker thread")
        x.prove(EQ(I.load(self.pending), 0), "a task taken from the queue is executed"); x.prove(fold(Z(I.load(self.told)) == 1), "the worker ends only when it has taken everything submitted before the destruction")
        x.prove(not I.held, "no lock stays behind"); x.covers.add("ends"); self.worker = False; I.force_ind = False; I.held = held
def t_life(x, I):
    W = World(I); r = I.call_q("client::a_create", [], nparams=0)
    x.prove(len(W.started) == 1, "creating a worker starts exactly one thread")
    if len(W.started) != 1: return
    c = I.cell(r, None, "worker"); p = r.p.v.c if isinstance(r, Lib) and r.kind == "uptr" else None
    x.prove(p is W.started[0][1], "the thread works on the object created"); x.prove(not W.pushed and not W.joined, "creating submits nothing")
    I.destroy(c); x.prove(W.joined == 1, "destroying the worker waits for its thread, once"); W.races(); x.covers.add("destroyed")
    x.prove(not p.alive, "the worker is destroyed")
def t_send(x, I):
    W = World(I); r = I.call_q("client::a_create", [], nparams=0)
    if len(W.started) != 1: raise Undecided("no thread")
    a = r.p.v.c; I.hooks["tid"] = lambda I2: x.int("some thread", 1)      # any thread submits, the worker's own included
    cb = Lib("func", target=I.cell(Lib("ufn", name="submitted"))); f = [f for f in I.P.fns.values() if f.q == "client::a_send"][0]
    cc = I.cell(cb, None, "task"); I.call_q("client::a_send", [a, Arg("x", cc, f.p[1].strip())], nparams=2)
    x.prove(len(W.pushed) == 1, "submitting adds exactly one task"); x.covers.add("sent")
    if len(W.pushed) == 1: x.prove(fn_id(W.pushed[0].v) == "submitted", "the task added is the one submitted")
    x.prove(not W.joined, "submitting does not stop the worker")
def tasks():
    return [Task("life of a worker: createActive, run, ~Active", t_life, tus=TU, fns=["kjellkod::Active::createActive", "kjellkod::Active::run", "kjellkod::Active::~Active", "kjellkod::Active::Active"], covers=["task", "stop", "ends", "destroyed"]),
            Task("send", t_send, tus=TU, fns=["kjellkod::Active::send"], covers=["sent"])]
TRUST = ["shared_queue's contract (first in, first out; a blocking pop returns with the oldest item), proved as C01", "std::thread starts its function once; join returns when it has ended"]
ASSUME = ["tasks do not throw (an exception ends the process)", "a worker is destroyed by one thread, not by itself, and not used afterwards", "tasks are not empty function objects"]
