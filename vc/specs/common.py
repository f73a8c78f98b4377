"""Helpers shared by the property specifications."""
from ..core import *
from ..interp import *
from ..lib import Seg, WS
from ..harness import Task

def leaf(I, v):
    if isinstance(v, Lib):
        if v.kind in ("tp", "dur"): return ("n", v.n)
        if v.kind == "tid": return ("n", v.id)
        if v.kind == "func": return ("obj", id(v.target))
        if v.kind == "atomic": return leaf(I, v.v.v)
        if v.kind == "uptr": return ("ptr", v.p.v.c)
        if v.kind == "sptr": return ("ptr", v.p.v.c)
        return ("obj", id(v))
    if isinstance(v, Str): return ("s", v)
    if isinstance(v, FnPtr): return ("fn", v.h or v.q)
    if isinstance(v, Ptr): return ("ptr", v.c)
    if v is UNINIT: return ("uninit", None)
    return ("n", v)
def view(I, c, pre="", out=None):
    """{path: leaf value} of an object, recursively"""
    out = {} if out is None else out
    v = c.v if isinstance(c, Cell) else c
    if isinstance(v, RecV):
        for k, fc in v.f.items(): view(I, fc, (pre + "." if pre else "") + k, out)
    else: out[pre or "value"] = leaf(I, v)
    return out
def same_leaf(I, a, b):
    if a[0] != b[0]: return False
    if a[0] == "s": return I.ctx.seq(a[1], b[1])
    if a[0] in ("n",): return EQ(a[1], b[1])
    return a[1] == b[1] if a[0] == "fn" else a[1] is b[1] if a[0] == "ptr" else a[1] == b[1]
def expect_same(I, got, want, what, keys=None):
    for k in (keys or want):
        if k not in got: I.ctx.fail(what + k, "attribute is missing"); continue
        I.ctx.prove(same_leaf(I, got[k], want[k]), what + k.lstrip("_"))
def tyof(I, q):
    """a Ty for a g3log class by qualified name"""
    for key, r in I.P.recs.items():
        if r.q == q: return I.rec_ty(r, Cell(I.ctx, None))
    raise Undecided("class %s not found" % q)
def symobj(I, q, name, inp=True):
    t = tyof(I, q); return I.cell(I.sym(t, name, inp), t, name)
