"""C01 Message queue loses, duplicates and reorders nothing.
Monitor proof: every access to the items happens with the lock held; between two critical sections the contents are arbitrary (other threads);
each operation makes exactly the transition its contract allows, in one critical section."""
from .common import *
TU = ["client"]
UNIQ = ("q_", "int"), ("qs_", "std::string"), ("qf_", "std::function"), ("qu_", "std::unique_ptr")
class Monitor:
    def __init__(self, I, q):
        self.I = I; x = I.ctx; F = q.v.f
        def only(kind): 
            r = [c for c in F.values() if isinstance(c.v, Lib) and c.v.kind == kind]
            if len(r) != 1: raise Undecided("the queue's fields have changed")
            return r[0]
        self.items, self.m, self.cv = only("vec"), only("mutex"), only("cv")
        if len(F) != 3: raise Undecided("the queue's fields have changed")
        self.trans = []; self.gens = None; self.n = 0; self.force_empty = False
        seq = self.seq = self.items.v.seq
        self.items.guard = seq.guard = self.guard
        I.hooks["lock"], I.hooks["unlock"] = self.lock, self.unlock
        I.cell_inv[seq.uid] = (self.fresh, self.check)
        I.hooks["wait"] = lambda I2, cv, m: x.prove(cv is self.cv and m is self.m, "a consumer waits on the queue's own condition, giving up its lock")
    def guard(self, I, c, write):
        if not any(h is self.m for h in I.held): I.ctx.fail("the items are only touched with the lock held", "line %s" % I.line, True); raise PathEnd("race")
        I.ctx.prove(True, "the items are only touched with the lock held", safety=True)
    def fresh(self, c=None, v0=None):
        """contents left by the other threads: arbitrary"""
        self.n += 1; self.gens = []; et = self.items.v.et; base = "items%d" % self.n
        def gen(I, sg):
            c = I.cell(I.sym(et, "item"), et, "item"); self.gens.append((c, self.value(c))); return c
        self.seq.v = () if self.force_empty else (Seg(base, gen),); self.size0 = self.I.ctx.ufint("size", base, lo=0)
    def check(self, c, v0): self.I.ctx.prove(any(h is self.m for h in self.I.held), "the lock is held while looking at the items")
    def value(self, c):
        v = c.v
        if isinstance(v, Lib) and v.kind == "func": return ("ptr", None if v.target is None else getattr(v.target.v, "q", None) or getattr(v.target.v, "name", None) or id(v.target))
        return leaf(self.I, v)
    def same(self, a, b): return a == b if a[0] == "ptr" and not isinstance(a[1], Cell) else same_leaf(self.I, a, b)
    def lock(self, I, m):
        if m is self.m: self.fresh(); self.t0 = len(I.ctx.events)
    def unlock(self, I, m):
        if m is not self.m: return
        x = I.ctx; post = self.seq.v; g = self.gens
        waiting = x.events and any(e["kind"] == "wait" for e in x.events[-2:])
        gone = [k for k, (c, v) in enumerate(g) if not any(c is e for e in post)]
        kept = [c for c, v in g if any(c is e for e in post)]
        # drop_or_grow puts generated items in front of the unknown rest
        segs = [e for e in post if isinstance(e, Seg)]; new = [e for e in post if isinstance(e, Cell) and not any(e is c for c, _ in g)]
        order = kept + segs + new
        if not (len(order) == len(post) and all(a is b for a, b in zip(order, post))): x.fail("an item enters at the back only", "line %s" % I.line)
        for c, v in g:
            if any(c is e for e in post): x.prove(self.same(self.value(c), v), "an item waiting in the queue is not altered")
        if gone and gone != list(range(len(gone))): x.fail("the oldest item leaves first")
        empty = False if any(isinstance(e, Cell) for e in post) else AND(*[EQ(I.lib.seg_size(I, e), 0) for e in post])      # (an unknown rest may be known to be empty by its size)
        if waiting: x.prove(empty, "a consumer waits only while the queue is empty")
        self.trans.append({"pop": [g[k][1] for k in gone], "push": [self.value(c) for c in new], "was_empty": False if g else AND(*[EQ(I.lib.seg_size(I, e), 0) for e in segs]), "may_be_empty": len(g) == 0, "empty": empty, "at": self.t0, "size": self.size0})
    def net(self): return [t for t in self.trans if t["pop"] or t["push"]]
    def done(self):
        self.I.ctx.prove(not any(h is self.m for h in self.I.held), "the lock is released")
def start(I, pre):
    fs = [f for f in I.P.fns.values() if f.q == "client::%spush" % pre]
    if len(fs) != 1: raise Undecided("no instantiation")
    q = I.default_cell(fs[0].p[0].t, "queue"); et = fs[0].p[1].strip()
    return Monitor(I, q), q, et
def item(I, et, name): return I.cell(I.sym(et, name), et, name)
def syms(I):
    def uq(I2, t, name): return Lib("uptr", p=I2.cell(Ptr(I2.cell(Lib("opaque", name=name), None, name))), et=t.args[0] if t.args else None)
    I.hooks["sym:std::unique_ptr"] = uq
    I.hooks["sym:std::function"] = lambda I2, t, name: Lib("func", target=I2.cell(FnPtr(None, "task %d" % I2.ctx.uid, h=("uf", "task"))))
def t_push(pre):
    def run(x, I):
        syms(I); M, q, et = start(I, pre); v = item(I, et, "pushed"); want = M.value(v)
        I.call_q("client::%spush" % pre, [q, Arg("x", v, et)], nparams=2); M.done()
        n = M.net(); x.prove(len(n) == 1 and not n[0]["pop"] and len(n[0]["push"]) == 1, "a push adds exactly one item, in one step")
        if len(n) != 1 or len(n[0]["push"]) != 1: return
        x.prove(M.same(n[0]["push"][0], want), "the item added is the one pushed")
        notes = lambda frm: [e for k, e in enumerate(x.events) if e["kind"] == "notify" and e["cv"] is M.cv and k >= frm]
        if not notes(n[0]["at"]) and (not n[0]["may_be_empty"] or x.entails(fold(Z(n[0]["size"]) > 0))):
            # a push that finds items may rely on the push that found none, provided that one wakes every waiting consumer
            M.force_empty = True; M.trans = []; I.call_q("client::%spush" % pre, [q, Arg("x", item(I, et, "pushed"), et)], nparams=2); n = M.net()
            x.prove(bool(n) and any(e["all"] for e in notes(n[0]["at"])), "a push makes the item available to a waiting consumer (a notification follows)")
        else: x.prove(bool(notes(n[0]["at"])), "a push makes the item available to a waiting consumer (a notification follows)")
        x.covers.add("pushed")
    return run
def out_untouched(M, c, v, x): x.prove(M.same(M.value(c), v), "the output is left untouched")
def t_try(pre):
    def run(x, I):
        syms(I); M, q, et = start(I, pre); o = item(I, et, "output"); v = M.value(o)
        r = I.call_q("client::%stry" % pre, [q, o], nparams=2); M.done(); n = M.net()
        if not isinstance(r, bool): r = x.branch(r)
        if r:
            x.covers.add("item"); x.prove(len(n) == 1 and len(n[0]["pop"]) == 1 and not n[0]["push"], "a successful pop takes exactly one item, the oldest, in one step")
            if len(n) == 1 and n[0]["pop"]: x.prove(M.same(M.value(o), n[0]["pop"][0]), "the item taken is handed out unaltered")
        else:
            x.covers.add("empty"); x.prove(not n, "an unsuccessful pop takes nothing"); out_untouched(M, o, v, x)
            x.prove(OR(*[t["was_empty"] for t in M.trans]), "a pop fails only when the queue is empty")
    return run
def t_wait(pre):
    def run(x, I):
        syms(I); M, q, et = start(I, pre); o = item(I, et, "output")
        I.call_q("client::%swait" % pre, [q, o], nparams=2); M.done(); n = M.net()
        x.covers.add("item"); x.prove(len(n) == 1 and len(n[0]["pop"]) == 1 and not n[0]["push"], "a blocking pop returns with exactly one item, the oldest, taken in one step")
        if len(n) == 1 and n[0]["pop"]: x.prove(M.same(M.value(o), n[0]["pop"][0]), "the item taken is handed out unaltered")
    return run
def t_size(pre):
    def run(x, I):
        syms(I); M, q, et = start(I, pre)
        r = I.call_q("client::%ssize" % pre, [q], nparams=1); M.done(); x.prove(not M.net(), "asking for the size changes nothing")
        # fewer than 2^32 items
        for t in M.trans: x.assume(fold(Z(t["size"]) < (1 << 32)))
        x.prove(OR(*[EQ(r, t["size"]) for t in M.trans]), "the size reported is the number of items at one instant"); x.covers.add("size")
    return run
def t_empty(pre):
    def run(x, I):
        syms(I); M, q, et = start(I, pre)
        r = I.call_q("client::%sempty" % pre, [q], nparams=1); M.done(); x.prove(not M.net(), "asking for emptiness changes nothing")
        for t in M.trans: x.assume(fold(Z(t["size"]) < (1 << 32)))
        if not isinstance(r, bool): r = x.branch(r)
        x.prove(OR(*[EQ(t["size"], 0) if r else fold(Z(t["size"]) > 0) for t in M.trans]), "emptiness is reported as it was at one instant"); x.covers.add("empty" if r else "not empty")
    return run
def t_lemma(x, I):
    """no lost wake-up. Q items, U consumers blocked and not yet woken, S consumers inside a blocking pop that will (re)check, P pushes whose notification is still to come.
    Invariant: a consumer is blocked only if every item has a consumer or a notification on its way"""
    z = z3.Ints("Q U S P"); Q, U, S, P = z
    for v in z: x.assume(v >= 0)
    inv = lambda Q, U, S, P: z3.And(Q >= 0, U >= 0, S >= 0, P >= 0, z3.Implies(U > 0, Q <= S + P))
    x.assume(inv(Q, U, S, P)); k = x.fork(9)
    names = ["push", "notify one, a consumer is blocked", "notify one, none is blocked", "notify all", "enter", "wait", "woken without reason", "blocking pop", "non-blocking pop"]
    if k == 0: r = (Q + 1, U, S, P + 1)
    elif k == 1: x.assume(z3.And(P > 0, U > 0)); r = (Q, U - 1, S + 1, P - 1)
    elif k == 2: x.assume(z3.And(P > 0, U == 0)); r = (Q, U, S, P - 1)
    elif k == 3: x.assume(P > 0); r = (Q, 0, S + U, P - 1)
    elif k == 4: r = (Q, U, S + 1, P)
    elif k == 5: x.assume(z3.And(S > 0, Q == 0)); r = (Q, U + 1, S - 1, P)
    elif k == 6: x.assume(U > 0); r = (Q, U - 1, S + 1, P)
    elif k == 7: x.assume(z3.And(S > 0, Q > 0)); r = (Q - 1, U, S - 1, P)
    else: x.assume(Q > 0); r = (Q - 1, U, S, P)
    x.covers.add(names[k]); r = [z3.IntVal(v) if isinstance(v, int) else v for v in r]
    x.prove(inv(*r), "no consumer stays blocked while an item is there for it: " + names[k])
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    for pre, ty in UNIQ:
        T("push <%s>" % ty, t_push(pre), ["shared_queue<%s>::push" % ty], ["pushed"])
        T("try_and_pop <%s>" % ty, t_try(pre), ["shared_queue<%s>::try_and_pop" % ty], ["item", "empty"])
        T("wait_and_pop <%s>" % ty, t_wait(pre), ["shared_queue<%s>::wait_and_pop" % ty], ["item"])
    T("size", t_size("q_"), ["shared_queue<int>::size"], ["size"]); T("empty", t_empty("q_"), ["shared_queue<int>::empty"], ["empty", "not empty"])
    T("lemma: no wake-up is lost", t_lemma, [])
    return R
TRUST = ["std::mutex excludes, std::condition_variable releases its mutex while waiting, wakes on notification and may wake without reason", "std::queue is a first-in first-out sequence"]
ASSUME = ["methods are verified for four item types (int, std::string, std::function, std::unique_ptr); the template treats every type alike", "fewer than 2^32 items for the reported size", "copying or moving an item does not throw"]
