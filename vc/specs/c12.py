"""C12 Copying, moving and assigning messages preserves every attribute."""
from .common import *
TU = ["client", "logmessage", "loglevels"]
LM, FM, LV = "g3::LogMessage", "g3::FatalMessage", "LEVELS"
ATTRS = ["_timestamp", "_call_thread_id", "_file", "_file_path", "_line", "_function", "_level.value", "_level.text", "_expression", "_message", "_logDetailsToStringFunc"]

def allattrs(I, v, extra=()):
    for k in list(ATTRS) + list(extra):
        if k not in v: raise Undecided("attribute %s not found" % k)
def scribble(I, c):
    """modify every attribute of an object"""
    v = c.v
    if isinstance(v, RecV):
        for fc in v.f.values(): scribble(I, fc)
    elif isinstance(v, Lib) and v.kind in ("tp", "tid"):
        if v.kind == "tp": c.v = Lib("tp", n=I.ctx.int("m"), per=v.per)
        else: c.v = Lib("tid", id=I.ctx.int("m"))
    elif isinstance(v, Str): I.store(c, I.ctx.str("modified"))
    elif isinstance(v, FnPtr): I.store(c, FnPtr(None, "modified", h=("uf", "modified")))
    elif not isinstance(v, Lib): I.store(c, I.ctx.int("modified"))
def as_cell(I, r, t=None): return r if isinstance(r, Cell) else I.cell(r, t)

def copylike(fn, q, keep=True, inner=None, outer=None):
    """result of fn(src) has every attribute of src; src unchanged when keep"""
    def run(x, I):
        if outer:
            a = symobj(I, q, "src"); w = wrap(I, outer, a); src = w
        else: a = symobj(I, q, "src"); src = a
        pre = view(I, a); allattrs(I, pre) if q != LV else None
        r = as_cell(I, I.call_q("client::" + fn, [src]))
        c = payload(I, r, outer) if outer and inner is None else r
        expect_same(I, view(I, c), pre, "result keeps ")
        if keep:
            expect_same(I, view(I, a), pre, "source keeps ")
            scribble(I, c); expect_same(I, view(I, a), pre, "modifying the copy leaves the source's ")
        x.covers.add("done")
    return run
def find_wrapper(I, frag):
    rs = [r for r in I.P.recs.values() if r.q.startswith("g3::MoveOnCopy") and frag(r)]
    if len({r.key for r in rs}) != 1: raise Undecided("MoveOnCopy instantiation not found: %s" % [r.q for r in I.P.recs.values() if "MoveOnCopy" in r.q])
    return rs[0]
def is_mover(r): return any(t.k == "rec" and t.id and t.n == LM for _, t, _ in r.fields)
def is_ptr(name):
    return lambda r: any(t.k == "rec" and t.n == "std::unique_ptr" and t.args and t.args[0].n == name for _, t, _ in r.fields)
def wrap(I, kind, a):
    r = find_wrapper(I, is_mover if kind == "mover" else is_ptr(kind))
    n, t, _ = r.fields[0]; o = RecV(r)
    if kind == "mover": o.f[n] = a; a.t = a.t
    else:
        a.heap = True; o.f[n] = I.cell(Lib("uptr", p=I.cell(Ptr(a)), et=t.args[0]), t, n)
    return I.cell(o, I.rec_ty(r, I.cell(None)), "wrapper")
def payload(I, w, kind):
    c = next(iter(w.v.f.values()))
    if kind == "mover": return c
    p = I.load(c.v.p)
    if p.c is None: I.ctx.fail("the wrapper hands the message over"); raise PathEnd("no payload")
    return p.c

def assign(fn, q, keep=True, outer=None, self_=False):
    def run(x, I):
        b = symobj(I, q, "src"); a = b if self_ else symobj(I, q, "dst")
        pre = view(I, b)
        A = wrap(I, outer, a) if outer else a
        B = A if self_ else (wrap(I, outer, b) if outer else b)
        I.call_q("client::" + fn, [A, B])
        c = payload(I, A, outer) if outer else A
        expect_same(I, view(I, c), pre, "assigned-to object has the source's ")
        if keep and not self_:
            expect_same(I, view(I, b), pre, "source keeps ")
            scribble(I, c); expect_same(I, view(I, b), pre, "modifying the copy leaves the source's ")
        x.covers.add("done")
    return run
def swap(fn, q, self_=False):
    def run(x, I):
        a = symobj(I, q, "first"); b = a if self_ else symobj(I, q, "second")
        pa, pb = view(I, a), view(I, b)
        I.call_q("client::" + fn, [a, b])
        expect_same(I, view(I, a), pb, "after swap the first object has the second's "); expect_same(I, view(I, b), pa, "after swap the second object has the first's ")
    return run
def t_fatal(x, I):
    a = symobj(I, LM, "src"); s = x.int("signal", -(1 << 31), (1 << 31) - 1, inp=True); pre = view(I, a)
    r = as_cell(I, I.call_q("client::fm_make", [a, s]))
    v = view(I, r); expect_same(I, v, pre, "fatal message keeps ")
    x.prove(EQ(v["_signal_id"][1], s), "fatal message carries the signal"); expect_same(I, view(I, a), pre, "source keeps ")
def t_back(x, I):
    f = symobj(I, FM, "src"); pre = view(I, f); base = {k: v for k, v in pre.items() if k != "_signal_id"}
    r = as_cell(I, I.call_q("g3::FatalMessage::copyToLogMessage", [], this=f, nparams=0))
    expect_same(I, view(I, r), base, "converted message keeps "); expect_same(I, view(I, f), pre, "source keeps ")
def t_release(x, I):
    a = symobj(I, LM, "src"); pre = view(I, a); w = wrap(I, "mover", a)
    r = as_cell(I, I.call_q("client::mover_release", [w]))
    expect_same(I, view(I, r), pre, "released message keeps ")
def t_eq(fn, neg):
    def run(x, I):
        a, b = symobj(I, LV, "first"), symobj(I, LV, "second")
        va, vb = view(I, a), view(I, b)
        if x.fork(2) == 0:   # same text (the very same characters)
            b.v.f["text"].v = a.v.f["text"].v; t = True; x.covers.add("same-text")
        else:
            t = None
        r = I.call_q("client::" + fn, [a, b])
        want = AND(EQ(va["value"][1], vb["value"][1]), t if t is not None else x.seq(va["text"][1], vb["text"][1]))
        x.prove(EQ(r, NOT(want) if neg else want), "levels compare by both value and text")
        expect_same(I, view(I, a), va, "comparison leaves the first level's ")
    return run
def tasks():
    R = []
    def T(name, fn, fns, covers=()): R.append(Task(name, fn, tus=TU, fns=fns, covers=covers))
    L = "g3::LogMessage::"
    T("LogMessage copy", copylike("lm_copy", LM), [L + "LogMessage(const LogMessage&)", "LEVELS::LEVELS(const LEVELS&)"], ["done"])
    T("LogMessage move", copylike("lm_move", LM, keep=False), [L + "LogMessage(LogMessage&&)"], ["done"])
    T("LogMessage assignment", assign("lm_assign", LM), [L + "operator=", "g3::swap(LogMessage&,LogMessage&)"], ["done"])
    T("LogMessage self assignment", assign("lm_assign", LM, self_=True), [L + "operator="], ["done"])
    T("LogMessage swap", swap("lm_swap", LM), ["g3::swap(LogMessage&,LogMessage&)"])
    T("LogMessage self swap", swap("lm_swap", LM, True), ["g3::swap(LogMessage&,LogMessage&)"])
    T("FatalMessage from LogMessage", t_fatal, ["g3::FatalMessage::FatalMessage(const LogMessage&,int)"])
    T("FatalMessage copy", copylike("fm_copy", FM), ["g3::FatalMessage::FatalMessage(const FatalMessage&)"], ["done"])
    T("FatalMessage to LogMessage", t_back, ["g3::FatalMessage::copyToLogMessage"])
    M = "g3::MoveOnCopy::"
    T("mover copy", copylike("mover_copy", LM, keep=False, outer="mover"), [M + "MoveOnCopy(const MoveOnCopy&)"], ["done"])
    T("mover move", copylike("mover_move", LM, keep=False, outer="mover"), [M + "MoveOnCopy(MoveOnCopy&&)"], ["done"])
    T("mover assign", assign("mover_assign", LM, keep=False, outer="mover"), [M + "operator=(const MoveOnCopy&)"], ["done"])
    T("mover move assign", assign("mover_massign", LM, keep=False, outer="mover"), [M + "operator=(MoveOnCopy&&)"], ["done"])
    T("mover self assign", assign("mover_assign", LM, keep=False, outer="mover", self_=True), [M + "operator="], ["done"])
    T("mover release", t_release, [M + "release"])
    T("message pointer copy", copylike("mptr_copy", LM, keep=False, outer=LM), [M + "MoveOnCopy(const MoveOnCopy&)"], ["done"])
    T("message pointer assign", assign("mptr_assign", LM, keep=False, outer=LM), [M + "operator="], ["done"])
    T("fatal pointer copy", copylike("fptr_copy", FM, keep=False, outer=FM), [M + "MoveOnCopy(const MoveOnCopy&)"], ["done"])
    T("LEVELS copy", copylike("lv_copy", LV), ["LEVELS::LEVELS(const LEVELS&)"], ["done"])
    T("LEVELS assignment", assign("lv_assign", LV), ["LEVELS::operator="], ["done"])
    T("LEVELS self assignment", assign("lv_assign", LV, self_=True), ["LEVELS::operator="], ["done"])
    T("LEVELS swap", swap("lv_swap", LV), ["swap(LEVELS&,LEVELS&)"])
    T("LEVELS ==", t_eq("lv_eq", False), ["LEVELS::operator=="], ["same-text"])
    T("LEVELS !=", t_eq("lv_ne", True), ["LEVELS::operator!="], ["same-text"])
    return R
