"""Symbolic interpreter for the exported C++ (direct style, one path at a time)."""
import os, z3
from .core import *
from .prog import Ty

UNINIT = type("Uninit", (), {"__repr__": lambda s: "UNINIT"})()
class Cell:
    __slots__ = ("v", "t", "uid", "alive", "guard", "name", "heap", "own")
    def __init__(self, ctx, v, t=None, name=None):
        ctx.uid += 1; ctx.cells[ctx.uid] = self
        self.v = v; self.t = t; self.uid = ctx.uid; self.alive = True; self.guard = None; self.name = name; self.heap = False; self.own = None
    def __repr__(self): return "Cell(%s %r)" % (self.name or self.uid, self.v)
class RecV:
    """object of one of g3log's (or the client's) classes"""
    __slots__ = ("cls", "f", "caps", "this", "tag", "ghost")
    def __init__(self, cls): self.cls = cls; self.f = {}; self.caps = None; self.this = None; self.tag = None; self.ghost = None
    def __repr__(self): return "Rec(%s)" % (self.cls if isinstance(self.cls, str) else self.cls.q)
class Ptr:
    """pointer: to a cell, or null (cell None); idx for arrays"""
    __slots__ = ("c", "idx")
    def __init__(self, c, idx=None): self.c = c; self.idx = idx
    def __repr__(self): return "Ptr(%r)" % (self.c.name or self.c.uid if self.c else None)
NULL = Ptr(None)
class CStr:
    """pointer into a NUL-terminated character sequence"""
    __slots__ = ("s", "off", "src", "term")
    def __init__(self, s, off=0, src=None, term=True): self.s = s; self.off = off; self.src = src; self.term = term
    def __repr__(self): return "CStr(%r+%r)" % (self.s, self.off)
class FnPtr:
    __slots__ = ("key", "q", "h")
    def __init__(self, key, q, h=None): self.key = key; self.q = q; self.h = h
    def __repr__(self): return "FnPtr(%s)" % self.q
class MemFn(FnPtr): pass
class Opaque:
    """value of a type we know nothing about"""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "Opaque(%s)" % (self.name,)
class Lib:
    """library object: kind + python attributes (mutable parts in Cells)"""
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return "Lib(%s)" % self.kind
class Arg:
    """call argument: mode l (lvalue cell) / x (xvalue cell) / r (prvalue)"""
    __slots__ = ("m", "c", "ty")
    def __init__(self, m, c, ty): self.m = m; self.c = c; self.ty = ty
    def __repr__(self): return "Arg(%s %r)" % (self.m, self.c)
class Frame:
    __slots__ = ("vars", "tt", "this", "caps", "fn", "temps", "scopes", "statics", "lam")
    def __init__(self, fn, tt): self.vars = {}; self.tt = tt; self.this = None; self.caps = None; self.fn = fn; self.temps = []; self.scopes = []; self.lam = None

class Interp:
    def __init__(self, ctx, prog, lib):
        self.ctx = ctx; ctx.I = self; self.P = prog; self.lib = lib
        self.globals = {}; self.statics = {}; self.tls = {}; self.tls_keys = set(); self.thread = "main"; self.contracts = {}; self.fr = None; self.line = None
        self.loopn = 0; self.depth = 0; self.static_policy = {}; self.global_init = {}
        self.char_first = False; self.loop_cands = []; self.held = []; self.hooks = {}; self.on_escape = None; self.handling = []; self.exc_bases = {}
        self.guard_ok = None; self.on_append = None; self.loop_contract = None; self.unroll = 0; self.exhaust = 0; self.cell_inv = {}; self.force_ind = False

    # ------------------------------------------------------------ cells
    def cell(self, v, t=None, name=None): return Cell(self.ctx, v, t, name)
    def touch(self, c, write=False):
        if not c.alive: self.ctx.fail("no access to a destroyed object", "%s" % (c.name or c.t), True); raise PathEnd("uaf")
        if c.guard is not None: c.guard(self, c, write)
        if write:
            for t in self.ctx.trackers: t.write(c)
    def load(self, c):
        self.touch(c)
        v = c.v
        if isinstance(v, Lib) and v.kind == "proxy": return v.get()
        if v is UNINIT:
            self.ctx.fail("no use of an uninitialised value", str(c.name), True); raise PathEnd("uninit")
        return v
    def store(self, c, v):
        self.touch(c, True)
        if isinstance(c.v, Lib) and c.v.kind == "proxy": c.v.set(v); return
        c.v = v
    def rec(self, key): return self.P.recs[key]

    # ------------------------------------------------------------ types
    def is_rec(self, t): return t is not None and t.k == "rec"
    def irange(self, t):
        if t.k == "bool": return 0, 1
        if t.k == "enum": t = t.u
        w = t.w or 32
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t.sg else (0, (1 << w) - 1)
    def sym(self, t, name, inp=False):
        """arbitrary value of a type"""
        x = self.ctx
        if t.k == "bool": return x.bool(name, inp)
        if t.k in ("int", "enum"):
            lo, hi = self.irange(t); return x.int(name, lo, hi, inp)
        if t.k == "rec":
            if t.id and t.id in self.P.recs: return self.sym_rec(self.P.recs[t.id], name, inp)
            return self.lib.sym(self, t, name, inp)
        if t.k == "ptr" and t.t.k == "fn": return FnPtr(None, name, h=("uf", name))
        if t.k == "ptr" and t.t.k == "int" and t.t.w == 8: return CStr(x.str(name, NONUL, inp=inp))
        if t.k == "float": return Opaque(name)
        raise Undecided("no symbolic value for type %s" % t.s)
    def zero(self, t):
        if t.k == "bool": return False
        if t.k in ("int", "enum"): return 0
        if t.k == "ptr": return NULL
        raise Undecided("zero value of %s" % t.s)
    def sym_rec(self, r, name, inp=False):
        v = RecV(r)
        for n, ft, _ in self.P.all_fields(r): v.f[n] = self.cell(self.sym(ft, "%s.%s" % (name, n), inp), ft, n)
        return v

    # ------------------------------------------------------------ calling
    def call_q(self, q, args, this=None, nparams=None, pred=None):
        """call g3log function by qualified name; args are Arg / raw values"""
        fs = self.P.find(q, nparams if nparams is not None else len(args), pred)
        if not fs: raise Undecided("function %s not found" % q)
        if len(fs) > 1:
            fs2 = [f for f in fs if f.our]
            if len({f.key for f in fs2}) > 1: raise Undecided("ambiguous function %s" % q)
            fs = fs2
        f = fs[0]
        return self.call(f, this, [self.as_arg(a, p) for a, p in zip(args, f.p)], top=True)
    def as_arg(self, a, p):
        if isinstance(a, Arg): return a
        if isinstance(a, Cell): return Arg("l" if p.k != "rref" else "x", a, a.t or p.strip())
        if p.k in ("ref", "rref"): return Arg("l", self.cell(a, p.t), p.t)
        return Arg("r", a, p)
    def bind_param(self, t, a):
        """-> Cell for a parameter of type t initialised by Arg a"""
        if t.k in ("ref", "rref"):
            if a.m == "r":
                c = self.cell(a.c, t.t); self.fr_temp(c); return c
            return a.c
        v = self.arg_value(a, t)
        return self.cell(v, t)
    def arg_value(self, a, t=None):
        """by-value use of an argument"""
        t = t or a.ty
        if a.m == "r": return self.convert_opt(a, t)
        if self.is_obj(a.c.v) or (isinstance(a.c.v, Str)):
            return self.copy_value(a.c) if a.m == "l" else self.move_value(a.c)
        return self.load(a.c)
    def convert_opt(self, a, t): return a.c
    def is_obj(self, v): return isinstance(v, (RecV, Lib))
    def default_args(self, f, n):
        """default arguments from the n-th parameter on"""
        if len(f.p) <= n: return []
        if not f.pd or any(d is None for d in f.pd[n:]): raise Undecided("default arguments of " + f.q)
        tt, self.fr.tt = self.fr.tt, self.P.tt[f.tu]; r = []
        try:
            for d, p in zip(f.pd[n:], f.p[n:]):
                v = self.ev(d); r.append(Arg("r", v.v if isinstance(v, Cell) and p.k not in ("ref", "rref") else v, p))
        finally: self.fr.tt = tt
        return r
    def fr_temp(self, c):
        if self.fr is not None and self.fr.temps: self.fr.temps[-1].append(c)

    def contract_for(self, f):
        for k in (f.key, f.q):
            if k in self.contracts: return self.contracts[k]
        for o in f.ov or []:
            g = self.P.fns.get(o)
            if g and g.q in self.contracts: return self.contracts[g.q]
        return None

    def call(self, f, this, args, top=False):
        """f: Fn; this: Cell|None; args: [Arg] -> value or Cell (reference return)"""
        if not top:
            c = self.contract_for(f)
            if c is not None:
                self.ctx.pr.used_contracts.setdefault(f.q, 0); self.ctx.pr.used_contracts[f.q] += 1
                return c(self, f, this, args)
        if f.d is not None and f.our:
            return self.run_body(f, this, args)
        if f.our and f.kind in ("ctor",) : 
            return self.implicit_ctor(f, this, args)
        if f.our and f.kind == "method" and f.q.endswith("::operator=") :
            return self.implicit_assign(f, this, args)
        if f.our and f.q.startswith("client::") :
            h = self.hooks.get(f.q)
            if h: return h(self, f, this, args)
        return self.lib.call(self, f, this, args)

    def run_body(self, f, this, args, fcaps=None):
        self.depth += 1
        if self.depth > 120: raise Undecided("call depth")
        d = f.d; old = self.fr; oline = self.line
        fr = Frame(f, self.P.tt[f.tu]); fr.this = this
        self.ctx.pr.inlined.add(f.q)
        params = []
        for p, a in zip(d["params"], args):
            t = fr.tt[p["t"]]
            c = self.bind_param(t, a)
            fr.vars[p["v"]] = c
            if t.k not in ("ref", "rref"):
                if c.name is None: c.name = p["n"]
                c.t = t; params.append(c)
        if this is not None and isinstance(this.v, RecV) and this.v.caps is not None and f.cls is not None and not isinstance(this.v.cls, str) and f.cls.id == this.v.cls.key:
            fr.lam = this; fr.caps = this.v.caps; fr.this = this.v.this
        self.fr = fr
        try:
            try:
                if f.kind == "ctor": self.run_inits(f, this, d)
                r = self.exec(d["body"]) if d.get("body") else None
            except CppThrow:
                if f.nt and f.kind != "dtor" : self.terminate("exception leaves a noexcept function")
                self.destroy_list(params)
                if f.kind == "ctor": self.unwind_ctor(this)
                raise
            rv = None
            if isinstance(r, tuple) and r[0] == "ret": rv = r[1]
            # a returned parameter moved out stays intact: values were already taken
            self.destroy_list(params)
            return rv
        finally:
            self.fr = old; self.depth -= 1; self.line = oline
    def terminate(self, why):
        self.ctx.event("terminate", why=why)
        h = self.hooks.get("terminate")
        if h: h(self, why)
        else: self.ctx.fail("std::terminate is not reached", why)
        raise PathEnd("terminate")
    def unwind_ctor(self, this):
        if this is None or not isinstance(this.v, RecV): return
        for c in reversed(list(this.v.f.values())):
            if c.v is not UNINIT and c.alive: self.destroy(c)

    # -------------------------------------------------- construction
    def new_rec(self, r, cell):
        v = RecV(r)
        cell.v = v
        return v
    def construct(self, t, f, args, into=None):
        """constructor f of class type t -> object value"""
        c = into or self.cell(UNINIT, t)
        if t.id and t.id in self.P.recs:
            r = self.P.recs[t.id]
            if into is None or not isinstance(c.v, RecV): self.new_rec(r, c)
            ct = self.contract_for(f)
            if ct is not None:
                self.ctx.pr.used_contracts[f.q] = self.ctx.pr.used_contracts.get(f.q, 0) + 1
                ct(self, f, c, args); return c.v
            if r.lam: 
                src = args[0].c
                return self.copy_value(src) if args[0].m == "l" else self.move_value(src)
            if f.d is not None: self.run_body(f, c, args)
            else: self.implicit_ctor(f, c, args)
            return c.v
        v = self.lib.construct(self, t, f, args)
        if into is not None: into.v = v
        return v
    def implicit_ctor(self, f, this, args):
        r = this.v.cls
        if f.copy or f.move:
            src = args[0].c
            for n, ft, _ in self.P.all_fields(r):
                sc = src.v.f[n]
                this.v.f[n] = self.cell((self.move_value(sc) if f.move and args[0].m == "x" else self.copy_value(sc)), ft, n)
        elif f.dflt:
            for n, ft, init in self.P.all_fields(r): self.init_field(this, n, ft, init, r)
        else: raise Undecided("constructor %s without definition" % f.q)
        return this.v
    def implicit_assign(self, f, this, args):
        src = args[0]
        for n, ft, _ in self.P.all_fields(this.v.cls):
            sc = src.c.v.f[n]; v = self.move_value(sc) if src.m == "x" else self.copy_value(sc)
            self.store(this.v.f[n], v)
        return this
    def init_field(self, this, n, ft, init, r):
        if init is not None:
            old = self.fr; fr = Frame(None, self.P.tt[r.tu]); fr.this = this; self.fr = fr
            try: c = self.init_cell(ft, init, n)
            finally: self.fr = old
        elif ft.k == "rec": c = self.default_cell(ft, n)
        else: c = self.cell(UNINIT, ft, n)
        this.v.f[n] = c
    def default_cell(self, t, n=None):
        if t.id and t.id in self.P.recs:
            fs = [f for f in self.P.ctors.get(t.id, []) if f.dflt]
            c = self.cell(UNINIT, t, n)
            if fs: self.construct(t, fs[0], [], c)
            else:
                v = self.new_rec(self.P.recs[t.id], c)
                for fn_, ft, init in self.P.all_fields(v.cls): self.init_field(c, fn_, ft, init, v.cls)
            return c
        if t.k == "rec": return self.cell(self.lib.default(self, t), t, n)
        if t.k == "arr": return self.cell(self.lib.array(self, t), t, n)
        return self.cell(UNINIT, t, n)
    def run_inits(self, f, this, d):
        r = this.v.cls; tt = self.P.tt[f.tu]; seen = set()
        own = self.P.recs[f.cls.id]
        names = [n for n, _, _ in own.fields]
        for i in d.get("inits", []):
            if "deleg" in i:
                self.init_into(i["e"], this); return
            if "base" in i:
                bt = tt[i["base"]]
                if bt.id and bt.id in self.P.recs: self.init_into(i["e"], this)
                continue
            n = i["f"] or "$%d" % i["fi"]
            ft = next(t for m, t, _ in own.fields if m == n)
            this.v.f[n] = self.init_cell(ft, i["e"], n); seen.add(n)
            self.order_fields(this)
        for n, ft, init in own.fields:
            if n not in this.v.f: self.init_field(this, n, ft, init, own)
        if own.key == r.key: self.order_fields(this)
    def order_fields(self, this): pass
    def init_into(self, e, cell):
        """evaluate a constructor expression into an existing object (base/delegating)"""
        while e["k"] in ("cleanup", "bind", "mat"): e = e["e"]
        tt = self.fr.tt
        if e["k"] == "ctor":
            f = self.P.fns[e["fn"]]
            self.temps_push()
            args = self.eval_args(e["a"], f)
            ct = self.contract_for(f)
            if ct is not None: ct(self, f, cell, args)
            elif f.d is not None: self.run_body(f, cell, args)
            elif f.copy or f.move:
                src = args[0].c; br = self.P.recs[f.cls.id]
                for n, ft, _ in self.P.all_fields(br): cell.v.f[n] = self.cell(self.copy_value(src.v.f[n]), ft, n)
            elif f.dflt:
                br = self.P.recs[f.cls.id]
                for n, ft, init in self.P.all_fields(br): self.init_field(cell, n, ft, init, br)
            else: raise Undecided("base constructor %s" % f.q)
            self.temps_pop()
            return
        raise Undecided("initialiser kind %s" % e["k"])
    def init_cell(self, t, e, name=None):
        """-> Cell for a variable/field of type t initialised with expression e"""
        if t.k in ("ref", "rref"):
            r = self.ev(e)
            if isinstance(r, Cell): return r
            return self.cell(r, t.t, name)
        if e["k"] == "ctor" and t.k == "rec" and t.id and t.id in self.P.recs and not self.P.recs[t.id].lam:
            c = self.cell(UNINIT, t, name); f = self.P.fns[e["fn"]]
            args = self.eval_args(e["a"], f)
            self.construct(t, f, args, c)
            return c
        if e["k"] == "cleanup":
            self.temps_push()
            try: c = self.init_cell(t, e["e"], name)
            except CppThrow: self.temps_pop(); raise
            self.temps_pop(); return c
        if e["k"] == "bind": return self.init_cell(t, e["e"], name)
        v = self.ev(e)
        if isinstance(v, Cell): v = self.load(v) if not self.is_obj(v.v) else self.copy_value(v)
        return self.cell(v, t, name)

    # -------------------------------------------------- copy / move / destroy
    def find_special(self, r, what):
        fs = [f for f in self.P.ctors.get(r.key, []) if getattr(f, what) and not f.del_]
        return fs[0] if fs else None
    def copy_value(self, c):
        v = c.v
        if not isinstance(v, (RecV, Lib)): return self.load(c)
        self.touch(c)
        if isinstance(v, Lib): return self.lib.copy(self, c)
        if isinstance(v.cls, str): raise Undecided("copy of opaque object")
        if v.caps is not None: return self.copy_lambda(v, self.copy_value)
        f = self.find_special(v.cls, "copy")
        if f is None: 
            n = self.cell(UNINIT, c.t); self.new_rec(v.cls, n)
            for k, sc in v.f.items(): n.v.f[k] = self.cell(self.copy_value(sc), sc.t, k)
            return n.v
        return self.construct(self.rec_ty(v.cls, c), f, [Arg("l", c, c.t)])
    def rec_ty(self, r, c):
        t = c.t
        while t is not None and t.k in ("ref", "rref"): t = t.t
        if t is not None and t.id == r.key: return t
        n = Ty(); n.k = "rec"; n.s = r.q; n.n = r.q; n.id = r.key; n.args = []; n.t = None; n.w = None; n.c = False; n.tu = r.tu; n.u = None
        return n
    def copy_lambda(self, v, cp):
        n = RecV(v.cls); n.caps = {}; n.this = v.this; n.tag = v.tag
        for k, (kind, sc) in v.caps.items():
            if kind == "ref": n.caps[k] = (kind, sc)
            else: n.caps[k] = (kind, self.cell(cp(sc), sc.t, sc.name))
        return n
    def move_value(self, c):
        v = c.v
        if not isinstance(v, (RecV, Lib, Str)): return self.load(c)
        self.touch(c)
        if isinstance(v, Str):
            r = self.load(c); self.store(c, self.ctx.str("moved-from")); return r
        if isinstance(v, Lib): return self.lib.move(self, c)
        if isinstance(v.cls, str): raise Undecided("move of opaque object")
        if v.caps is not None: return self.copy_lambda(v, self.move_value)
        f = self.find_special(v.cls, "move") or self.find_special(v.cls, "copy")
        if f is None:
            n = self.cell(UNINIT, c.t); self.new_rec(v.cls, n)
            for k, sc in v.f.items(): n.v.f[k] = self.cell(self.move_value(sc), sc.t, k)
            return n.v
        return self.construct(self.rec_ty(v.cls, c), f, [Arg("x", c, c.t)])
    def destroy(self, c):
        if not c.alive:
            self.ctx.fail("no object is destroyed twice", str(c.name), True); raise PathEnd("double destroy")
        v = c.v
        if isinstance(v, RecV):
            if v.caps is not None:
                for kind, cc in reversed(list(v.caps.values())):
                    if kind != "ref": self.destroy(cc)
            elif isinstance(v.cls, str):
                h = self.hooks.get("destroy:" + v.cls)
                if h: h(self, c)
            else: self.destroy_rec(c, v)
        elif isinstance(v, Lib): self.lib.destroy(self, c)
        c.alive = False
    def destroy_rec(self, c, v):
        h = self.contracts.get("~" + v.cls.q)
        if h: 
            self.ctx.pr.used_contracts["~" + v.cls.q] = self.ctx.pr.used_contracts.get("~" + v.cls.q, 0) + 1
            if h(self, c) != "default": return
        self.run_dtor(c, v.cls)
    def run_dtor(self, c, r):
        f = self.P.fns.get(r.dtor) if r.dtor else None
        if f and f.d and f.d.get("body"): 
            try: self.run_body(f, c, [])
            except CppThrow:
                if f.nt: self.terminate("exception leaves a destructor")
                raise
        for n, ft, _ in reversed(r.fields):
            fc = c.v.f.get(n)
            if fc is not None and ft.k not in ("ref", "rref") and (isinstance(fc.v, (RecV, Lib))): self.destroy(fc)
        for b in reversed(r.bases):
            if b.id and b.id in self.P.recs: self.run_dtor(c, self.P.recs[b.id])
    def destroy_list(self, cells):
        for c in reversed(cells):
            if c.alive and c.own != "moved": self.destroy(c)

    # -------------------------------------------------- temporaries
    def temps_push(self): self.fr.temps.append([])
    def temps_pop(self):
        cs = self.fr.temps.pop()
        for c in reversed(cs):
            if c.alive and c.own != "moved": self.destroy(c)

    # -------------------------------------------------- statements
    def exec(self, s):
        k = s["k"]; self.line = s.get("L", self.line)
        return getattr(self, "x_" + k, self.x_unsupported)(s)
    def x_unsupported(self, s): raise Undecided("statement %s line %s" % (s.get("w", s["k"]), s.get("L")))
    def scope(self, body):
        fr = self.fr; fr.scopes.append([])
        try: r = body()
        except CppThrow:
            cs = fr.scopes.pop(); self.fr = fr; self.destroy_list(cs); raise
        cs = fr.scopes.pop()
        self.destroy_list(cs)
        return r
    def x_block(self, s):
        def b():
            for c in s["b"]:
                r = self.exec(c)
                if r: return r
        return self.scope(b)
    def x_nop(self, s): return None
    def x_expr(self, s):
        self.full(s["e"])
        return None
    def full(self, e):
        """full expression, value discarded"""
        self.temps_push()
        try:
            v = self.ev(e)
            if not isinstance(v, Cell) and isinstance(v, (RecV, Lib)): self.fr.temps[-1].append(self.cell(v))
        except CppThrow:
            self.temps_pop(); raise
        self.temps_pop()
    def cond(self, e):
        self.temps_push()
        try: v = self.truth(self.ev(e))
        except CppThrow: self.temps_pop(); raise
        self.temps_pop()
        return v
    def truth(self, v):
        if isinstance(v, Cell): v = self.load(v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Ptr): return v.c is not None
        if isinstance(v, CStr): return True
        if isinstance(v, FnPtr):
            if v.key is None: r = self.lib.ptr_eq(self, v, NULL); return r if isinstance(r, bool) and not r else NOT(r) if not isinstance(r, bool) else not r
            return True
        if isinstance(v, Opaque): return self.ctx.bool("opaque-truth")
        if z3.is_bool(v): return v
        return fold(v != 0)
    def x_decl(self, s):
        for v in s["v"]: self.declare(v)
        return None
    def declare(self, v):
        t = self.fr.tt[v["t"]]
        if v.get("static"):
            self.fr.vars[v["v"]] = self.static_local(v, t); return
        if "init" in v and v["init"] is not None:
            self.temps_push()
            try: c = self.init_cell(t, v["init"], v["n"])
            except CppThrow: self.temps_pop(); raise
            tl = self.fr.temps[-1]
            # lifetime-extended temporaries live as long as the variable
            ext = [x for x in tl if x.own == "ext"]
            for x in ext: tl.remove(x); x.own = None; self.fr.scopes[-1].append(x)
            if isinstance(c, Cell) and t.k not in ("ref", "rref") and c in tl: tl.remove(c)
            self.temps_pop()
        else: c = self.default_cell(t, v["n"])
        self.fr.vars[v["v"]] = c
        if t.k not in ("ref", "rref"):
            if c.name is None: c.name = v["n"]
            self.fr.scopes[-1].append(c)
    def set_thread(self, who):
        """the code of another thread is looked at: its own thread_local variables"""
        if who == self.thread: return
        here = self.tls.setdefault(self.thread, {}); there = self.tls.get(who, {})
        for k in self.tls_keys:
            for d in (self.statics, self.globals):
                if k in d: here[k] = d.pop(k)
            if k in there: (self.globals if k in self.P.globals else self.statics)[k] = there[k]
        self.thread = who
    def static_local(self, v, t):
        k = v["v"]
        if v.get("tls"): self.tls_keys.add(k)
        if k in self.statics: return self.statics[k]
        q = self.fr.fn.q + "::" + v["n"] if self.fr.fn else v["n"]
        pol = self.static_policy.get(q) or self.static_policy.get((self.fr.fn.q if self.fr.fn else "", t.n or t.k))
        if pol:
            c = pol(self, v, t)
            if c is not None: self.statics[k] = c; return c
        noinit = "init" not in v or v["init"] is None
        if t.k == "rec" and t.n in ("std::mutex", "std::once_flag") or t.c and (noinit or self.const_init(v["init"])):
            c = self.default_cell(t, v["n"]) if noinit else self.init_cell(t, v["init"], v["n"])
        elif "fresh-statics" in self.hooks or self.ctx.fork(2) == 0:
            if not noinit and not self.const_init(v["init"]): self.ctx.event("static-init", var=q)
            if not noinit: c = self.init_cell(t, v["init"], v["n"])
            else:
                c = self.default_cell(t, v["n"])
                if c.v is UNINIT: c.v = self.zero(t)
                elif isinstance(c.v, RecV) and isinstance(c.v.cls, str): c.v.ghost = ("zero", 0)
        else:                # an earlier call left it with some value
            c = self.cell(self.sym(t, "earlier " + v["n"]), t, v["n"])
            c.own = "earlier"
            if not t.c: self.ctx.taint.add("arbitrary earlier value of static %s" % v["n"])
        self.statics[k] = c
        return c
    def const_init(self, e):
        """does the initialiser only depend on constants?"""
        if e is None: return True
        if isinstance(e, list): return all(self.const_init(x) for x in e)
        if not isinstance(e, dict): return True
        if e.get("k") == "var": return bool(e.get("cv")) or bool(e.get("g") and self.fr.tt[e["t"]].c)
        if e.get("k") == "this": return False
        if e.get("k") in ("call", "mcall"):
            f = self.P.fns.get(e["fn"])
            if f and (f.q.endswith("::now") or f.q in ("std::this_thread::get_id",)): return False
        return all(self.const_init(x) for kk, x in e.items() if isinstance(x, (dict, list)))
    def x_if(self, s):
        def b():
            if s.get("i"): self.exec(s["i"])
            if s.get("cv"): self.declare(s["cv"])
            c = self.cond(s["c"])
            if self.ctx.branch(c): return self.exec(s["th"])
            if s.get("el"): return self.exec(s["el"])
        return self.scope(b)
    def x_return(self, s):
        if s["e"] is None: return ("ret", None)
        rt = self.fr.fn.r
        self.temps_push()
        try:
            e = s["e"]; v = None; done = False
            if s.get("nrvo"):
                x = e
                while x["k"] in ("cleanup",): x = x["e"]
                if x["k"] == "ctor" and x["a"]:
                    y = x["a"][0]
                    while y["k"] == "cast" and y["ck"] == "NoOp": y = y["e"]
                    if y["k"] == "var" and not y.get("g"):
                        c = self.lookup(y)
                        c.own = "moved"   # elided: the local becomes the result
                        v = c.v; done = True
            if not done:
                v = self.ev(e)
                if rt.k in ("ref", "rref"):
                    if not isinstance(v, Cell): v = self.cell(v, rt.t)
                elif isinstance(v, Cell): v = self.copy_value(v) if self.is_obj(v.v) else self.load(v)
        except CppThrow: self.temps_pop(); raise
        self.temps_pop()
        return ("ret", v)
    def x_break(self, s): return "brk"
    def x_continue(self, s): return "cont"
    def x_switch(self, s):
        def b():
            if s.get("i"): self.exec(s["i"])
            if s.get("cv"): self.declare(s["cv"])
            v = self.ev(s["c"])
            if isinstance(v, Cell): v = self.load(v)
            items = []   # flattened list of (labels, stmt)
            body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
            for st in body:
                labels = []
                while st is not None and st["k"] in ("case", "default"):
                    labels.append(None if st["k"] == "default" else st["v"]); st = st["b"]
                items.append((labels, st))
            start = None; dflt = None
            for i, (ls, st) in enumerate(items):
                for l in ls:
                    if l is None: dflt = i; continue
                    lv = self.ev(l)
                    if isinstance(lv, Cell): lv = self.load(lv)
                    if start is None and self.ctx.branch(EQ(v, lv)): start = i
                if start is not None: break
            if start is None: start = dflt
            if start is None: return None
            for ls, st in items[start:]:
                r = self.exec(st)
                if r == "brk": return None
                if r: return r
        return self.scope(b)
    def x_try(self, s):
        try: return self.exec(s["b"])
        except CppThrow as e:
            self.fr.temps = self.fr.temps
            for h in s["h"]:
                if h["t"] is None or self.catches(self.fr.tt[h["t"]], e.ty):
                    def b():
                        if h["var"]:
                            t = self.fr.tt[h["var"]["t"]]
                            c = e.val if isinstance(e.val, Cell) else self.cell(e.val)
                            if c.t is None: c.t = t.strip()
                            self.fr.vars[h["var"]["v"]] = c if t.k == "ref" else self.cell(self.copy_value(c), t)
                        return self.exec(h["b"])
                    self.handling.append(e)
                    try: return self.scope(b)
                    finally: self.handling.pop()
            raise
    def catches(self, t, thrown):
        t = t.strip()
        n = t.n or t.s
        if n == thrown: return True
        if n == "std::exception" and thrown not in self.exc_bases: return thrown.startswith("std::") or thrown in ("user",)
        if n in self.exc_bases.get(thrown, ()): return True
        if n == "std::bad_weak_ptr": return False
        if n in ("std::runtime_error", "std::logic_error") : return thrown in ("std::out_of_range", "std::length_error") and n == "std::logic_error"
        return False

    # -------------------------------------------------- loops
    def x_while(self, s):
        return self.loop(s["id"], lambda: self._loopcond(s), lambda: self.exec(s["b"]), None, [s["c"]], s.get("cv"), indexed=[s["c"], s["b"]])
    def _loopcond(self, s):
        if s.get("cv"): self.declare(s["cv"])
        return self.cond(s["c"]) if s["c"] is not None else True
    def x_for(self, s):
        def b():
            if s["i"]: self.exec(s["i"])
            return self.loop(s["id"], lambda: self._loopcond(s), lambda: self.exec(s["b"]), (lambda: self.full(s["inc"])) if s["inc"] else None, [s["c"]], s.get("cv"), indexed=[s["c"], s["b"]])
        return self.scope(b)
    def x_do(self, s):
        r = self.exec(s["b"])
        if r == "brk": return None
        if r and r != "cont": return r
        return self.loop(s["id"], lambda: self.cond(s["c"]), lambda: self.exec(s["b"]), None, [s["c"]], None)
    def x_rfor(self, s):
        def b():
            if s.get("i"): self.exec(s["i"])
            for d in ("range", "begin", "end"): self.exec(s[d])
            def body():
                def bb():
                    self.exec(s["lv"]); return self.exec(s["b"])
                return self.scope(bb)
            return self.loop(s["id"], lambda: self.cond(s["c"]), body, lambda: self.full(s["inc"]), [s["c"]], None)
        return self.scope(b)
    def cursors(self, asts):
        out = []
        def walk(e):
            if isinstance(e, dict):
                if e.get("k") == "var":
                    try: c = self.lookup(e)
                    except Undecided: c = None
                    if c is not None and isinstance(c.v, Lib) and c.v.kind == "iter": out.append(c)
                for x in e.values():
                    if isinstance(x, (dict, list)): walk(x)
            elif isinstance(e, list):
                for x in e: walk(x)
        for a in asts: walk(a)
        return out
    def index_cursors(self, asts):
        """(index variable, sequence) pairs of the subscripts in the loop; a variable that stands on a segment makes a cursor"""
        out = []
        def plain(e):
            while e.get("k") == "cast": e = e["e"]
            return e if e.get("k") in ("var", "mem", "this") and (e["k"] != "mem" or plain(e["b"]) is not None) else None
        def walk(e):
            if isinstance(e, dict):
                if e.get("k") == "mcall" and len(e.get("a", ())) == 1:
                    f = self.P.fns.get(e["fn"]); q = f.q if f else ""
                    if q.startswith("std::") and ("vector" in q or "deque" in q) and q.endswith(("::operator[]", "::at")):
                        o, i = plain(e["o"]), plain(e["a"][0])
                        if o is not None and i is not None and i["k"] == "var":
                            try: oc, ic = self.ev(o), self.lookup(i)
                            except (Undecided, KeyError): oc = ic = None
                            if isinstance(oc, Ptr): oc = oc.c
                            if isinstance(oc, Cell) and isinstance(oc.v, Lib) and oc.v.kind == "vec" and isinstance(ic, Cell) and not isinstance(ic.v, Lib) and (ic, oc) not in out: out.append((ic, oc))
                for x in e.values():
                    if isinstance(x, (dict, list)): walk(x)
            elif isinstance(e, list):
                for x in e: walk(x)
        for a in asts:
            if a: walk(a)
        return out
    def loop(self, lid, cond, body, inc, asts, cv, curs=(), indexed=()):
        ctx = self.ctx; n = 0; self.loopn += 1; first = None; sym = 0; known = 0
        pairs = self.index_cursors(indexed) if indexed else []
        key = (tuple(ctx.dec), lid, self.loopn)
        while True:
            cur = None
            for c in list(curs) + self.cursors([a for a in asts if a]):
                if self.lib.at_segment(self, c.v): cur = c; break
            if cur is None:
                for ic, oc in pairs:
                    s = self.lib.index_at_segment(self, ic, oc)
                    if s is not None: cur = self.cell(self.lib.mkiter(oc.v, s), None, "index position"); cur.v.index = ic; break
            if cur is not None:
                r = self.segment(key + (n, "seg"), cur, cond, body, inc)
                if r != "past": return r[1] if r else None
                n += 1; continue
            k2 = key + (n, "ind")
            if k2 in ctx.learned: return self.inductive(k2, cond, body, inc, texts=indexed)
            ctx_dec = len(ctx.dec)
            if self.force_ind:          # the specification asks for the loop rule even where the condition is known
                ctx.learned[k2] = {"H": set(), "drop": set(), "ev": set(), "key": k2}; raise Restart(k2)
            c = cond()
            if self.exhaust and not isinstance(c, bool) and len(ctx.dec) == ctx_dec:
                c = fold(c)
                if not isinstance(c, bool): sym += 1
                if sym > self.exhaust: raise Undecided("loop at line %s not bounded" % self.line)
                c = ctx.branch(c)
            if self.unroll and not isinstance(c, bool):      # bounded stand-in: explore both outcomes, at most `unroll` iterations
                c = ctx.branch(fold(c))
            if not isinstance(c, bool):
                c = fold(c)
            if not isinstance(c, bool):
                known += 1
                if ctx.entails(c): c = True
                elif ctx.entails(NOT(c)): c = False
            if not self.unroll and not self.exhaust and len(ctx.dec) != ctx_dec and self.forked_symbolically(ctx, ctx_dec) or not isinstance(c, bool):
                ctx.learned[k2] = {"H": set(), "drop": set(), "ev": set(), "key": k2}
                raise Restart(k2)
            if not c: return None
            if first is None: first, grown, n0 = k2, True, n
            r = body()
            if r == "brk": return None
            if r and r != "cont": return r
            if inc: inc()
            n += 1; grown = grown and len(ctx.dec) > ctx_dec
            if (n - n0 > 64 or known > 3) and grown and not self.unroll and not self.exhaust:    # left by a decision in the body only: the loop rule
                ctx.learned[first] = {"H": set(), "drop": set(), "ev": set(), "key": first}; raise Restart(first)
            if n > (self.unroll or 64): raise Undecided("loop at line %s not bounded" % self.line)
    def forked_symbolically(self, ctx, frm):
        """did evaluating the loop condition leave an unexplored alternative?"""
        pre = ctx.dec[:frm]
        return any(len(a) > frm and a[:frm] == pre for a in ctx.alts) or len(ctx.prefix) > frm and self._multi(ctx, frm)
    def _multi(self, ctx, frm):
        return ctx.dec[frm:] and True
    def havoc_cells(self, L, live):
        out = []
        for uid in sorted(L["H"]):
            c = live.get(uid)
            if c is None: raise Undecided("loop modifies an object that is out of reach")
            out.append((c, c.v))
        return out
    def havoc(self, c):
        v = c.v; x = self.ctx
        if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)): c.v = x.bool("h"); return
        if isinstance(v, int) or isinstance(v, z3.ExprRef):
            t = c.t
            if t is not None and t.k in ("int", "enum"): lo, hi = self.irange(t); c.v = x.int("h:" + str(c.name), lo, hi)
            elif t is not None and t.k == "bool": c.v = x.bool("h")
            else: c.v = x.int("h:" + str(c.name))
            return
        if isinstance(v, Str): c.v = x.str("h:" + str(c.name)); return
        if isinstance(v, CStr): c.v = CStr(v.s, x.int("h:off", 0), v.src, v.term); return
        if isinstance(v, Lib): 
            if self.lib.havoc(self, c): return
        if v is UNINIT: return
        raise Undecided("loop modifies %r (%s)" % (v, c.name))

    def text_index(self, asts, mod):
        """(index variable, text cell) pairs of the subscripts in the loop whose index is one of the modified integers"""
        out = []; ms = {c for c, _ in mod}
        def strip(e):
            while isinstance(e, dict) and e.get("k") in ("cast", "paren"): e = e["e"]
            return e
        def plain(e):
            e = strip(e); return e if e.get("k") in ("var", "this") or e.get("k") == "mem" and plain(e["b"]) is not None else None
        def walk(e):
            if isinstance(e, list):
                for x in e: walk(x)
            if not isinstance(e, dict): return
            if e.get("k") == "mcall" and len(e.get("a", ())) == 1:
                f = self.P.fns.get(e["fn"]); q = f.q if f else ""
                if q.startswith("std::") and "basic_string" in q and q.endswith(("::operator[]", "::at")):
                    o = plain(e["o"]); i = strip(e["a"][0])
                    d = 0
                    if i.get("k") == "bin" and i.get("op") in ("-", "+"): d = -1 if i["op"] == "-" else 1; i = strip(i["l"])
                    if i.get("k") == "un":
                        if i["op"] == "--" and not i.get("post"): d = -1
                        i = strip(i["e"])
                    if o is not None and isinstance(i, dict) and i.get("k") == "var":
                        try: oc, ic = self.ev(o), self.lookup(i)
                        except (Undecided, KeyError): oc = ic = None
                        if isinstance(oc, Ptr): oc = oc.c
                        if isinstance(oc, Cell) and isinstance(oc.v, Str) and ic in ms and (ic, oc, d) not in out: out.append((ic, oc, d))
            for x in e.values():
                if isinstance(x, (dict, list)): walk(x)
        for a in asts:
            if a: walk(a)
        return out
    def inductive(self, key, cond, body, inc, seg=None, texts=()):
        """standard loop rule: inferred modifies-set, candidate invariants filtered Houdini-style"""
        ctx = self.ctx; L = ctx.learned[key]
        if self.loop_contract is None: ctx.pr.havocs += 1
        live = self.reach()
        mod = self.havoc_cells(L, live)
        cands = []
        lc = CharLoop.find(self, mod, L, texts) if self.char_first and "nochar" not in L else None
        if lc is None and self.loop_contract is not None: lc = self.loop_contract(self, mod)
        if lc is None and not self.char_first and "nochar" not in L: lc = CharLoop.find(self, mod, L, texts)
        own = set()
        if lc is not None: own = set(lc.havoc())       # checks the entry state, then assigns an arbitrary state satisfying the invariant
        weak = not any(isinstance(v, CStr) for _, v in mod)
        for c, v0 in mod:
            if c.uid in self.cell_inv: self.cell_inv[c.uid][0](c, v0)
            elif c.uid not in own:
                if weak: ctx.taint.add("what the loop at line %s does to %s" % (self.line, c.name))
                self.havoc(c)
        for gen in self.loop_cands + [default_cands]:
            for nm, f in gen(self, mod):
                if nm in L["drop"]: continue
                cands.append((nm, f))
        # candidates must hold on entry (v = v0)
        ent = []
        for nm, f in cands:
            ok = f({c.uid: v0 for c, v0 in mod})
            ok = fold(ok) if not isinstance(ok, bool) else ok
            if not (ok is True or ok is not False and ctx.entails(ok)):
                L["drop"].add(nm); raise Restart(L["key"])
        for nm, f in cands: ctx.assume(fold(f({c.uid: c.v for c, _ in mod})))
        if L["ev"]: ctx.event("any", kinds=set(L["ev"]))
        uid0 = ctx.uid; ev0 = len(ctx.events)
        tr = Tracker(uid0); ctx.trackers.append(tr)
        ch = ctx.fork(2)
        if ch == 1:
            c = cond(); ctx.trackers.pop()
            self.check_writes(tr, L)    # condition evaluation may write too
            ctx.assume(fold(Z(NOT(c)))) if not isinstance(c, bool) else (None if not c else self.pathend())
            if not ctx.feasible(): raise PathEnd("infeasible")
            return None
        c = cond()
        if isinstance(c, bool):
            if not c: raise PathEnd("no iteration")
        else: ctx.assume(fold(c))
        if not ctx.feasible(): raise PathEnd("infeasible")
        r = body()
        if r == "brk" or (r and r != "cont"):
            ctx.trackers.pop(); self.check_writes(tr, L)
            return None if r == "brk" else r
        if inc: inc()
        ctx.trackers.pop()
        self.check_writes(tr, L)
        self.check_events(ev0, L)
        if lc is not None: lc.check()
        for c, v0 in mod:
            if c.uid in self.cell_inv: self.cell_inv[c.uid][1](c, v0)
        for nm, f in cands:
            ok = fold(f({c.uid: c.v for c, _ in mod})) if True else None
            if not (ok is True or ok is not False and ctx.entails(ok)):
                L["drop"].add(nm); raise Restart(L["key"])
        raise PathEnd("loop iteration checked")
    def pathend(self): raise PathEnd("infeasible")
    def check_writes(self, tr, L):
        new = tr.uids - L["H"]
        if new: L["H"] |= new; raise Restart(L["key"])
    def check_events(self, ev0, L):
        ks = set()
        for e in self.ctx.events[ev0:]:
            ks |= e["kinds"] if e["kind"] == "any" else {e["kind"]}
        if ks - L["ev"]: L["ev"] |= ks; raise Restart(L["key"])
    def segment(self, key, cur, cond, body, inc):
        """cursor stands on a segment of unknown elements of a container"""
        ctx = self.ctx; L = ctx.learned.setdefault(key, {"H": set(), "drop": set(), "ev": set(), "key": key})
        live = self.reach()
        ch = ctx.fork(3)
        if ch == 0:                      # segment empty
            if self.on_append is not None: ctx.memo[("text of the elements of " + cur.v.pos.name,)] = EMPTY
            self.lib.seg_skip(self, cur.v, empty=True); return "past"
        mod = self.havoc_cells(L, live)
        cands = []; apps = {}; segname = cur.v.pos
        for c, v0 in mod:
            if c.uid in self.cell_inv: self.cell_inv[c.uid][0](c, v0)
            elif isinstance(v0, Str) and ("app", c.uid) not in L["drop"] and self.on_append is not None:
                # "append only" invariant: the text grows by one piece per element
                if ch == 1: c.v = v0 + self.seg_text(segname)
                else:
                    apps[c.uid] = v0 + ctx.str("text of the elements before"); c.v = apps[c.uid]
            else: self.havoc(c)
        for gen in self.loop_cands + [default_cands]:
            for nm, f in gen(self, mod):
                if nm not in L["drop"]: cands.append((nm, f))
        for nm, f in cands:
            ok = f({c.uid: v0 for c, v0 in mod}); ok = fold(ok) if not isinstance(ok, bool) else ok
            if not (ok is True or ok is not False and ctx.entails(ok)): L["drop"].add(nm); raise Restart(L["key"])
        for nm, f in cands: ctx.assume(fold(f({c.uid: c.v for c, _ in mod})))
        if L["ev"]: ctx.event("any", kinds=set(L["ev"]))
        if ch == 1:                      # all elements of the segment done
            self.lib.seg_skip(self, cur.v, empty=False, modified=True); return "past"
        ev0 = len(ctx.events)
        uid0 = ctx.uid
        seg = self.lib.seg_enter(self, cur.v)     # cursor now on a generic element
        ix = getattr(cur.v, "index", None)
        tr = Tracker(uid0); tr.ignore = {cur.uid} | ({ix.uid} if ix is not None else set()); ctx.trackers.append(tr)
        c = cond()
        if isinstance(c, bool):
            if not c: raise PathEnd("loop stops before the element")
        elif not ctx.branch(c):
            ctx.trackers.pop(); return ("done", None)
        r = body()
        if r == "brk" or (r and r != "cont"):
            ctx.trackers.pop(); self.check_writes(tr, L)
            return ("done", None if r == "brk" else r)
        if inc: inc()
        ctx.trackers.pop()
        if ix is not None:
            s = self.lib.index_at_segment(self, ix, None, seg[3])
            if s is not seg[2]: raise Undecided("loop does not advance by one element")
            cur.v.pos = s
        self.lib.seg_leave(self, cur.v, seg)
        self.check_writes(tr, L); self.check_events(ev0, L)
        for c, v0 in mod:
            if c.uid in self.cell_inv: self.cell_inv[c.uid][1](c, v0)
            if c.uid in apps:
                pre = ctx.norm(apps[c.uid]); now = ctx.norm(c.v)
                X = rope_minus(now, pre)
                if X is None: L["drop"].add(("app", c.uid)); raise Restart(L["key"])
                self.on_append(self, c, seg[1], X, segname)
        for nm, f in cands:
            ok = fold(f({c.uid: c.v for c, _ in mod}))
            if not (ok is True or ok is not False and ctx.entails(ok)): L["drop"].add(nm); raise Restart(L["key"])
        raise PathEnd("loop iteration checked")
    def seg_text(self, seg): return self.ctx.ufstr("text of the elements of " + seg.name)
    def reach(self):
        """uid -> cell of everything alive (registered on creation)"""
        return self.lib.live(self)

    # -------------------------------------------------- expressions
    def ev(self, e):
        k = e["k"]
        if "L" in e: self.line = e["L"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Undecided("expression %s line %s" % (e.get("w", k), e.get("L")))
        return m(e)
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Cell): v = self.load(v)
        return v
    def ty(self, e): return self.fr.tt[e["t"]]
    def e_int(self, e): return int(e["v"])
    def e_boollit(self, e): return bool(e["v"])
    def e_null(self, e): return NULL
    def e_floatlit(self, e): return Opaque(("float", e["v"]))
    def e_str(self, e):
        t = self.ty(e)
        c = self.cell(Lib("chararr", s=Str(e["v"]), lit=True), t, "literal"); return c
    def e_zero(self, e):
        t = self.ty(e)
        if t.k == "bool": return False
        if t.k in ("int", "enum"): return 0
        if t.k in ("ptr", "nullptr"): return NULL
        if t.k == "rec": return self.default_cell(t).v
        return Opaque("zero")
    def e_defarg(self, e): return self.ev(e["e"])
    def e_definit(self, e): return self.ev(e["e"])
    def lookup(self, e):
        k = e["v"]; fr = self.fr
        if fr.caps is not None and k in fr.caps: return fr.caps[k][1]
        if k in fr.vars: return fr.vars[k]
        if e.get("g"): return self.global_var(e)
        if e.get("sl") and k in self.statics: return self.statics[k]
        raise Undecided("variable %s not found" % e.get("n"))
    def e_var(self, e):
        if "cv" in e: return self.cell(int(e["cv"]), self.ty(e))
        return self.lookup(e)
    def global_var(self, e):
        k = e["v"]
        if e.get("tls") and k not in self.globals and k in self.P.globals:
            self.tls_keys.add(k)
            if "fresh-statics" in self.hooks: self.globals[k] = self.run_global_init(k)
        if k in self.globals:
            c = self.globals[k]
            return c
        if "ext" in e:
            c = self.lib.extern(self, e["ext"], self.ty(e)); self.globals[k] = c; return c
        if k not in self.P.globals: raise Undecided("global %s" % k)
        d, tu = self.P.globals[k]
        tt = self.P.tt[tu]; t = tt[d["t"]]
        q = k.split(":", 1)[1] if ":" in k and not k.startswith("(anon)") and "#" not in k and k.split(":", 1)[0] in self.P.tt else k
        h = self.global_init.get(k) or self.global_init.get(q) or self.global_init.get(q.split("::")[-1])
        if h is not None:
            c = h(self, d, t)
            if c is not None: self.globals[k] = c; c.name = c.name or d["n"]; return c
        if t.c or (t.k == "arr" and t.t.c):
            old = self.fr; self.fr = Frame(None, tt); self.fr.temps.append([]); self.fr.scopes.append([])
            try: c = self.init_cell(t, d["init"], d["n"]) if d.get("init") else self.default_cell(t, d["n"])
            finally: self.fr = old
        else:
            if "fresh-statics" in self.hooks and t.k != "rec": c = self.run_global_init(k)
            else:
                c = self.cell(self.sym(t, d["n"]), t, d["n"])
                if os.environ.get("VC_LOGGLOB"): print("GLOB", k, file=__import__("sys").stderr)
                if not self.lib.stateless(t): self.ctx.taint.add("arbitrary value of global %s" % d["n"])
        c.name = d["n"]
        self.globals[k] = c
        return c
    def run_global_init(self, k):
        """concrete initial value of a global"""
        d, tu = self.P.globals[k]; tt = self.P.tt[tu]; t = tt[d["t"]]
        old = self.fr; self.fr = Frame(None, tt); self.fr.temps.append([]); self.fr.scopes.append([])
        try: return self.init_cell(t, d["init"], d["n"]) if d.get("init") else self.default_cell(t, d["n"])
        finally: self.fr = old
    def e_fnref(self, e):
        f = self.P.fns[e["fn"]]
        return FnPtr(f.key, f.q)
    def e_memfn(self, e):
        f = self.P.fns[e["fn"]]; return MemFn(f.key, f.q)
    def e_fieldref(self, e): raise Undecided("pointer to data member")
    def e_binding(self, e):
        if "hv" in e and e["hv"] in self.fr.vars: return self.fr.vars[e["hv"]]
        return self.ev(e["e"])
    def e_mem(self, e):
        if e.get("arrow"):
            p = self.rv(e["b"]); c = self.deref(p)
        else:
            c = self.ev(e["b"])
            if not isinstance(c, Cell): c = self.cell(c); self.fr_temp(c)
        return self.field(c, e["f"], self.ty(e))
    def field(self, c, f, t=None):
        if not c.alive: self.touch(c)
        v = c.v
        if isinstance(v, RecV):
            if f not in v.f:
                if v.cls == "cstruct" or isinstance(v.cls, str): v.f[f] = self.lib.cfield(self, c, f, t); return v.f[f]
                self.ctx.fail("no use of an uninitialised value", f, True); raise PathEnd("member before init")
            return v.f[f]
        if isinstance(v, Lib): return self.lib.field(self, c, f, t)
        if v is UNINIT: self.ctx.fail("no use of an uninitialised value", f, True); raise PathEnd("uninit")
        raise Undecided("field %s of %r" % (f, v))
    def deref(self, p):
        if isinstance(p, Ptr):
            if p.c is None: self.ctx.fail("no null pointer is dereferenced", "line %s" % self.line, True); raise PathEnd("null")
            if p.idx is not None: return self.lib.elem(self, p)
            if not p.c.alive: self.touch(p.c)
            return p.c
        if isinstance(p, CStr): return self.lib.charcell(self, p, 0)
        if isinstance(p, Lib) and p.kind == "maybe": return self.deref(self.lib.resolve(self, p))
        if p is UNINIT: self.ctx.fail("no use of an uninitialised value", "pointer", True); raise PathEnd("uninit")
        raise Undecided("dereference of %r" % (p,))
    def e_this(self, e): return Ptr(self.fr.this)
    def e_cleanup(self, e):
        self.temps_push()
        try: v = self.ev(e["e"])
        except CppThrow: self.temps_pop(); raise
        if isinstance(v, Cell) and e["vc"] == "r" and not self.is_obj(v.v): v = self.load(v)
        tl = self.fr.temps[-1]
        keep = [c for c in tl if c.own == "ext"]
        for c in keep: tl.remove(c)
        self.temps_pop()
        if self.fr.temps: self.fr.temps[-1].extend(keep)
        return v
    def e_mat(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Cell): return v
        c = self.cell(v, self.ty(e)); 
        if e.get("ext"): c.own = "ext"
        self.fr_temp(c)
        return c
    def e_bind(self, e): return self.ev(e["e"])
    def e_stmtexpr(self, e): raise Undecided("statement expression")
    def eval_args(self, es, f=None):
        out = []
        for i, a in enumerate(es):
            out.append(self.eval_arg(a))
        return out
    def eval_arg(self, a):
        t = self.ty(a); v = self.ev(a)
        if isinstance(v, Cell): return Arg(a["vc"] if a["vc"] != "r" else "r", v if a["vc"] != "r" else (self.load(v)), t)
        return Arg("r", v, t)
    def e_call(self, e):
        f = self.P.fns[e["fn"]]
        args = self.eval_args(e["a"], f)
        return self.call(f, None, args)
    def e_mcall(self, e):
        f = self.P.fns[e["fn"]]
        if e.get("arrow"): o = self.deref(self.rv(e["o"])); mode = "l"
        else:
            o = self.ev(e["o"]); mode = e["o"]["vc"]
            if not isinstance(o, Cell): o = self.cell(o, self.ty(e["o"])); self.fr_temp(o)
        args = self.eval_args(e["a"], f)
        return self.mcall(f, o, args, e.get("qual"), mode)
    def mcall(self, f, o, args, qual=False, mode="l"):
        if not o.alive: self.touch(o)
        if f.virt and not qual and isinstance(o.v, RecV):
            if isinstance(o.v.cls, str):
                h = self.hooks.get(o.v.cls + "::" + f.q.split("::")[-1])
                if h: return h(self, f, o, args)
            else: f = self.dispatch(f, o.v.cls)
        return self.call(f, o, args)
    def dispatch(self, f, r):
        chain = [r] + self.P.bases_all(r)
        for b in chain:
            for k in b.vm:
                g = self.P.fns[k]
                if g.key == f.key or self.overrides(g, f.key): return g
        return f
    def overrides(self, g, key):
        return key in g.ov or any(self.overrides(self.P.fns[o], key) for o in g.ov if o in self.P.fns)
    def e_icall(self, e):
        fv = self.rv(e["f"])
        return self.invoke(fv, self.eval_args(e["a"]))
    def e_pmcall(self, e):
        o = self.ev(e["o"])
        if e.get("arrow"): o = self.deref(self.load(o) if isinstance(o, Cell) else o)
        fv = self.rv(e["f"])
        f = self.P.fns[fv.key]
        return self.mcall(f, o, self.eval_args(e["a"]))
    def invoke(self, fv, args):
        """call any callable value"""
        if isinstance(fv, Cell):
            c = fv
            if isinstance(c.v, (RecV, Lib)): return self.invoke_cell(c, args)
            fv = self.load(c)
        if isinstance(fv, MemFn):
            f = self.P.fns[fv.key]; o = args[0]
            oc = o.c
            if not isinstance(oc, Cell): oc = self.deref(oc) if isinstance(oc, (Ptr,)) else self.cell(oc, o.ty)
            elif isinstance(oc.v, Ptr): oc = self.deref(self.load(oc))
            return self.mcall(f, oc, args[1:])
        if isinstance(fv, FnPtr):
            if fv.h is not None:
                h = fv.h
                return h(self, fv, args) if callable(h) else self.lib.uf_call(self, fv, args)
            return self.call(self.P.fns[fv.key], None, args)
        if isinstance(fv, (RecV, Lib)): return self.invoke_cell(self.cell(fv), args)
        raise Undecided("call of %r" % (fv,))
    def invoke_cell(self, c, args):
        v = c.v
        if isinstance(v, RecV):
            self.touch(c)
            if isinstance(v.cls, str):
                return self.hooks["call:" + v.cls](self, c, args)
            if v.cls.lam:
                if v.cls.calls and len(v.cls.calls) > 1:
                    f = self.lib.pick(self, [self.P.fns[k] for k in v.cls.calls], args)
                    if f is None: raise Undecided("which instance of a generic lambda?")
                    return self.call(f, c, args)
                if v.cls.call is None: raise Undecided("generic lambda")
                return self.call(self.P.fns[v.cls.call], c, args)
            fs = [f for f in self.P.fns.values() if f.cls is not None and f.cls.id == v.cls.key and f.q.endswith("::operator()") and len(f.p) == len(args)]
            if fs: return self.call(fs[0], c, args)
            raise Undecided("no call operator in %s" % v.cls.q)
        return self.lib.invoke(self, c, args)
    def e_ctor(self, e):
        f = self.P.fns[e["fn"]]; t = self.ty(e)
        args = self.eval_args(e["a"], f)
        if (f.copy or f.move) and args and args[0].m == "r" and not isinstance(args[0].c, Cell): return args[0].c
        if t.k == "arr": return self.lib.array(self, t)
        return self.construct(t, f, args)
    def e_lambda(self, e):
        v = RecV(self.P.recs[e["cls"]]); v.caps = {}
        v.this = self.fr.this
        n = 0
        for c in e["caps"]:
            if c["kind"] in ("this", "starthis"):
                if c["kind"] == "starthis": raise Undecided("*this capture")
                v.caps["this"] = ("this", self.cell(Ptr(self.fr.this), None, "this")); continue
            if c["kind"] == "ref":
                i = c["init"]; cell = self.ev(i)
                v.caps[c["v"]] = ("ref", cell)
            elif c["kind"] == "copy":
                t = self.fr.tt[c["t"]]
                v.caps[c["v"]] = ("copy", self.init_cell(t, c["init"], c["n"]))
            else: raise Undecided("capture")
        return v
    def e_init(self, e):
        t = self.ty(e)
        if e.get("transp") and len(e["a"]) == 1: return self.ev(e["a"][0])
        if t.k == "rec":
            if t.id and t.id in self.P.recs:
                r = self.P.recs[t.id]; v = RecV(r)
                fs = self.P.all_fields(r)
                for (n, ft, init), a in zip(fs, e["a"]): v.f[n] = self.init_cell(ft, a, n)
                return v
            return self.lib.aggregate(self, t, [self.rvo(a) for a in e["a"]])
        if t.k == "arr" and t.t.k == "int" and t.t.w == 8 and not (len(e["a"]) == 1 and self.ty(e["a"][0]).strip().k != "int") and isinstance(t.size, int) and len(e["a"]) <= t.size:
            cs = [self.rv(a) for a in e["a"]]; k = len(cs); rest = t.size - k; tail = ()
            if rest: z = self.ctx.atom("zeroes", frozenset([0])); self.ctx.assume(fold(z.len == rest)); tail = (z,)
            return Lib("chararr", s=Str(tuple(self.lib.chr_of(self, c) for c in cs) + tail), n=t.size, lit=False)
        if t.k == "arr":
            return Lib("arr", el=[self.cell(self.rvo(a), t.t) for a in e["a"]], n=t.size)
        if len(e["a"]) == 1: return self.rv(e["a"][0])
        if not e["a"]: return self.e_zero(e)
        raise Undecided("init list")
    def rvo(self, a):
        v = self.ev(a)
        if isinstance(v, Cell): v = self.copy_value(v) if self.is_obj(v.v) else self.load(v)
        return v
    def e_stdinit(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Cell): v = v.v
        return Lib("initlist", el=v.el if isinstance(v, Lib) and v.kind == "arr" else [])
    def e_idx(self, e):
        b = self.rv(e["b"]); i = self.rv(e["i"])
        return self.lib.index(self, b, i)
    def e_new(self, e):
        t = self.fr.tt[e["at"]]
        if e.get("np"): raise Undecided("placement new")
        if e["init"] is None: c = self.default_cell(t)
        else: c = self.init_cell(t, e["init"])
        c.heap = True; c.name = c.name or "new %s" % t.s
        c.t = c.t or t
        return Ptr(c)
    def e_newarr(self, e): raise Undecided("array new")
    def e_delete(self, e):
        p = self.rv(e["e"])
        if isinstance(p, Ptr):
            if p.c is not None: self.destroy(p.c)
            return None
        raise Undecided("delete of %r" % (p,))
    def e_throw(self, e):
        if e["e"] is None:
            if not self.handling: self.terminate("rethrow without an exception")
            raise self.handling[-1]
        t = self.ty(e["e"]); v = self.ev(e["e"]); n = t.n or t.s
        u = v.v if isinstance(v, Cell) else v
        if isinstance(u, Lib) and u.kind == "exc" and u.ty != n: v = Lib("exc", ty=n, what=Str(n))      # the thrown object has the static type
        raise CppThrow(v, n)
    def e_cond(self, e):
        c = self.truth(self.ev(e["c"]))
        return self.ev(e["l"] if self.ctx.branch(c) else e["r"])
    # casts
    def e_cast(self, e):
        ck = e["ck"]; t = self.ty(e)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast"):
            return self.ev(e["e"])
        if ck == "LValueToRValue":
            c = self.ev(e["e"])
            if not isinstance(c, Cell): return c
            return self.load(c)
        if ck == "ToVoid": self.ev(e["e"]); return None
        if ck == "ArrayToPointerDecay":
            c = self.ev(e["e"]); return self.lib.decay(self, c)
        if ck == "NullToPointer" or ck == "NullToMemberPointer": return NULL
        v = self.rv(e["e"]) 
        if ck == "IntegralCast": return self.to_int(v, t)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean", "FloatingToBoolean"): return self.truth(v)
        if ck == "BitCast": return v
        if ck == "IntegralToPointer" and isc(v): return NULL if v == 0 else FnPtr(None, "(pointer)%d" % v, h=("constant", int(v)))
        if ck == "Dynamic":
            if isinstance(v, Ptr):
                if v.c is None: return NULL
                if isinstance(v.c.v, RecV) and not isinstance(v.c.v.cls, str) and t.t.id: return v if self.P.derives(v.c.v.cls.key, t.t.id) else NULL
            raise Undecided("dynamic_cast")
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"): 
            if ck == "FloatingToIntegral": lo, hi = self.irange(t); return self.ctx.int("fromfloat", lo, hi)
            return Opaque(("float", self.ctx.key(v)))
        raise Undecided("cast %s" % ck)
    def to_int(self, v, t):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, z3.ExprRef) and z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t.k == "bool": return self.truth(v)
        if isinstance(v, Opaque): lo, hi = self.irange(t); return self.ctx.int("opaque-int", lo, hi)
        lo, hi = self.irange(t)
        return self.wrap(v, lo, hi)
    def wrap(self, v, lo, hi):
        n = hi - lo + 1
        if isc(v): return (v - lo) % n + lo
        v = fold(v)
        if isc(v): return (v - lo) % n + lo
        if self.ctx.entails(z3.And(v >= lo, v <= hi)): return v
        return fold((v - lo) % n + lo)
    # operators
    def e_un(self, e):
        op = e["op"]
        if op == "&":
            c = self.ev(e["e"])
            if isinstance(c, FnPtr): return c
            return self.lib.addr(self, c)
        if op == "*": 
            p = self.rv(e["e"])
            if isinstance(p, FnPtr): return p
            return self.deref(p)
        if op in ("++", "--"):
            c = self.ev(e["e"]); v = self.load(c); t = self.ty(e)
            if isinstance(v, (CStr, Ptr)): n = self.lib.ptr_add(self, v, 1 if op == "++" else -1)
            else: n = self.arith("+" if op == "++" else "-", v, 1, t)
            self.store(c, n)
            return v if e.get("post") else c
        v = self.rv(e["e"]); t = self.ty(e)
        if op == "!": return NOT(self.truth(v))
        if op == "-": return self.arith("-", 0, v, t)
        if op == "+": return v
        if op == "~": 
            if isc(v): return self.wrap(~v, *self.irange(t))
            return self.wrap(-v - 1, *self.irange(t))
        raise Undecided("unary %s" % op)
    def as_i(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, z3.ExprRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v
        if not isinstance(v, (int, Opaque)): raise Undecided("not a scalar: %r" % (v,))
        return v
    def arith(self, op, a, b, t):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if t.k == "float": return Opaque((op, self.ctx.key(a), self.ctx.key(b)))
            raise Undecided("arithmetic on %r %r" % (a, b))
        a = self.as_i(a); b = self.as_i(b); x = self.ctx
        if op in ("/", "%"):
            x.prove(NOT(EQ(b, 0)), "no division by zero", safety=True)
            if isc(a) and isc(b):
                q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                r = q if op == "/" else a - q * b
            else:
                za, zb = Z(a), Z(b)
                nn = x.entails(z3.And(za >= 0, zb > 0))
                if nn and isc(b):
                    q, m = x.divmod(za, b); r = q if op == "/" else m
                elif nn: r = za / zb if op == "/" else za % zb
                else:
                    ab = lambda w: z3.If(w >= 0, w, -w)
                    q = ab(za) / ab(zb); q = z3.If((za >= 0) == (zb >= 0), q, -q)
                    r = q if op == "/" else za - q * zb
        elif op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op in ("<<", ">>", "&", "|", "^"):
            if isc(a) and isc(b): r = {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            elif op == "<<" and isc(b): r = a * (1 << b)
            elif op == ">>" and isc(b): r = Z(a) / (1 << b)
            else:
                lo, hi = self.irange(t); return x.ufint("bit" + op, a, b, lo=lo, hi=hi)
        else: raise Undecided("operator %s" % op)
        r = fold(r)
        lo, hi = self.irange(t)
        tt = t.u if t.k == "enum" else t
        if tt.sg and tt.k == "int":
            if isc(r):
                if not lo <= r <= hi: x.fail("no signed integer overflow", safety=True); raise PathEnd("overflow")
                return r
            if not x.entails(z3.And(r >= lo, r <= hi)):
                x.prove(z3.And(r >= lo, r <= hi), "no signed integer overflow", safety=True)
                x.assume(z3.And(r >= lo, r <= hi))
            return r
        return self.wrap(r, lo, hi)
    def e_bin(self, e):
        op = e["op"]
        if op == ",": self.ev(e["l"]); return self.ev(e["r"])
        if op == "&&":
            l = self.truth(self.ev(e["l"]))
            return self.truth(self.ev(e["r"])) if self.ctx.branch(l) else False
        if op == "||":
            l = self.truth(self.ev(e["l"]))
            return True if self.ctx.branch(l) else self.truth(self.ev(e["r"]))
        if op == "=":
            r = self.rvo(e["r"]); c = self.ev(e["l"]); self.store(c, r); return c
        l = self.rv(e["l"]); r = self.rv(e["r"])
        if op in ("==", "!=", "<", ">", "<=", ">="): return self.compare(op, l, r)
        if isinstance(l, (CStr, Ptr)) or isinstance(r, (CStr, Ptr)):
            if op == "-" and isinstance(r, (CStr, Ptr)): return self.lib.ptr_diff(self, l, r)
            if op in ("+", "-"):
                if not isinstance(l, (CStr, Ptr)): l, r = r, l
                return self.lib.ptr_add(self, l, r if op == "+" else fold(-Z(r)))
        return self.arith(op, l, r, self.ty(e))
    def compare(self, op, l, r):
        if isinstance(l, (Ptr, CStr, FnPtr)) or isinstance(r, (Ptr, CStr, FnPtr)):
            eq = self.lib.ptr_eq(self, l, r)
            if op == "==": return eq
            if op == "!=": return NOT(eq)
            raise Undecided("pointer ordering")
        if isinstance(l, Opaque) or isinstance(r, Opaque): return self.ctx.ufbool("cmp" + op, getattr(l, "name", l), getattr(r, "name", r))
        l = self.as_i(l); r = self.as_i(r)
        if op == "==": return EQ(l, r)
        if op == "!=": return NOT(EQ(l, r))
        if isc(l) and isc(r): return {"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[op]
        l, r = Z(l), Z(r)
        return fold({"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[op])
    def e_cassign(self, e):
        r = self.rv(e["r"]); c = self.ev(e["l"]); l = self.load(c)
        if isinstance(l, (CStr, Ptr)): v = self.lib.ptr_add(self, l, r if e["op"] == "+" else fold(-Z(r)))
        else:
            ct = self.fr.tt[e["rt"]]
            if ct.k == "bool" or (self.ty(e).k == "bool"):
                lb, rb = self.truth(l), self.truth(r)
                v = {"&": AND(lb, rb), "|": OR(lb, rb)}.get(e["op"])
                if v is None: raise Undecided("bool compound")
            else: v = self.to_int(self.arith(e["op"], l, r, ct), self.ty(e)) if ct.k != "float" else Opaque("float")
        self.store(c, v)
        return c

def rope_minus(now, pre):
    """X with now == pre + X, or None"""
    a, b = list(now.p), list(pre.p)
    while b:
        if not a: return None
        if a[0] == b[0]: a.pop(0); b.pop(0); continue
        if isinstance(a[0], str) and isinstance(b[0], str) and a[0].startswith(b[0]): a[0] = a[0][len(b[0]):]; b.pop(0); continue
        return None
    return Str(a)

class Tracker:
    def __init__(self, uid0): self.uid0 = uid0; self.uids = set(); self.ignore = set()
    def write(self, c):
        if c.uid <= self.uid0 and c.uid not in self.ignore: self.uids.add(c.uid)

class CharLoop:
    """learned contract of a loop that walks a text one character at a time, from its start or towards its start.  State: the text is split at the
    position; the walked characters are in K; the walked part of the text itself, and every text the loop adds to, is the walked part rewritten
    character by character (table act: keep, drop, or replace); a flag is switched iff the walked part has a character in F.  K, act and F are learned
    from the iterations, which are then all checked against them."""
    @staticmethod
    def find(I, mod, L, texts):
        x = I.ctx; P = [(c, v.c, v.off) for c, v in mod if isinstance(v, Lib) and v.kind == "siter" and v.c is not None]
        ix = [] if P else I.text_index(texts, mod)
        if ix: P = [(i, o, next(v for c, v in mod if c is i)) for i, o, _ in ix]
        if len({p.uid for p, _, _ in P}) != 1 or len({o.uid for _, o, _ in P}) != 1: return None
        p, o, v = P[0]
        s = next((v0 for c, v0 in mod if c is o), o.v)
        if not isinstance(s, Str) or isinstance(v, bool): return None
        n = x.slen(s)
        if any(isinstance(a, Atom) and a.dec is not None for a in x.norm(s).p): return None
        if ix: shapes = ((-1, 0), (1, 0)) if any(d == -1 for _, _, d in ix) else ((1, 0), (-1, -1))
        else: shapes = ((-1, 0), (-1, -1), (1, 0)) if x.entails(fold(Z(v) >= Z(n) - 1)) and not x.entails(EQ(v, 0)) else ((1, 0), (-1, 0), (-1, -1))
        for i in range(L.get("shape", 0), len(shapes)):
            dir, d = shapes[i]; q = fold(Z(v) - d)
            if not x.entails(AND(fold(Z(q) >= 0), fold(Z(q) <= Z(n)))): continue
            L["shape"] = i; l, r = x.cut(s, q)          # what lies before (behind) the position at the start is not touched
            return CharLoop(I, mod, L, p, o, r, 1, 0, l) if dir > 0 else CharLoop(I, mod, L, p, o, l, -1, d, r)
        return None
    def __init__(self, I, mod, L, p, o, s, dir, d, past):
        self.I = I; self.L = L; self.p = p; self.o = o; self.s = s; self.dir = dir; self.d = d; self.past = past
        self.k = L.setdefault("chars", {"K": set(), "act": {}, "F": {}})
        self.texts = [(c, v) for c, v in mod if isinstance(v, Str)]
        self.flags = [(c, v) for c, v in mod if isinstance(v, bool)]
    def give_up(self):
        L = self.L; L["shape"] = L.get("shape", 0) + 1; L.pop("chars", None)
        if L["shape"] > 2: L["nochar"] = True
        raise Restart(self.L["key"])
    def rewrite(self, c, s):
        t = self.k["act"].get(c.uid, {})
        return self.I.ctx.maprope(s, {k: v for k, v in t.items() if v is not None}, ALL - {k for k, v in t.items() if v is None})
    def whole(self, c, v0, w, rest):
        g = self.rewrite(c, w)
        if c is self.o: return self.past + g + rest if self.dir > 0 else rest + g + self.past
        return v0 + g if self.dir > 0 else g + v0
    def pos(self, w, rest):
        x = self.I.ctx
        n = x.slen((self.rewrite(self.o, w) if any(c is self.o for c, _ in self.texts) else w) if self.dir > 0 else rest)
        return fold(Z(n) + (Z(x.slen(self.past)) if self.dir > 0 else self.d))
    def getpos(self):
        v = self.p.v
        return v.off if isinstance(v, Lib) else v
    def havoc(self):
        x = self.I.ctx; n = x.int("walked", 0); x.assume(fold(Z(n) <= Z(x.slen(self.s))))
        a, b = x.cut(self.s, n); self.w, self.rest = (a, b) if self.dir > 0 else (b, a)
        if x.find_set(self.w, ALL - self.k["K"]) is not None: raise PathEnd("not a state of the loop")
        own = {self.p.uid}
        for c, v0 in self.texts: c.v = self.whole(c, v0, self.w, self.rest); own.add(c.uid)
        for c, v0 in self.flags: c.v = v0 if x.find_set(self.w, self.k["F"].get(c.uid, frozenset())) is None else not v0; own.add(c.uid)
        q = self.pos(self.w, self.rest); v = self.p.v; self.p.v = Lib("siter", c=self.o, off=q) if isinstance(v, Lib) else q
        if not isinstance(v, Lib) and self.p.t is not None and self.p.t.k == "int":
            lo, hi = self.I.irange(self.p.t); x.assume(fold(AND(fold(Z(q) >= lo), fold(Z(q) <= hi))))
        self.before = {c.uid: c.v for c, _ in self.flags}
        return own
    def check(self):
        x = self.I.ctx; k = self.k
        if not x.feasible(): raise PathEnd("infeasible")
        if isinstance(self.p.v, Lib) and (self.p.v.kind != "siter" or self.p.v.c is not self.o): self.give_up()
        h, t = x.headtail(self.rest) if self.dir > 0 else x.lasttail(self.rest)
        V = [c for c in range(256) if (h == c if isc(h) else x.sat_code(h, c))]
        if not V: raise PathEnd("infeasible")
        new = False
        if not set(V) <= k["K"]: k["K"] |= set(V); new = True
        for c, v0 in self.texts:
            def is_(s):
                e = x.seq(c.v, s); return e is True or e is not False and x.entails(e)
            g = self.rewrite(c, self.w); r = t
            def full(mid):
                if c is self.o: return self.past + g + mid + t if self.dir > 0 else t + mid + g + self.past
                return v0 + g + mid if self.dir > 0 else mid + g + v0
            H = Str((chr(h) if isc(h) else Chr(h),))
            if is_(full(H)): act = {b: b for b in V}
            elif is_(full(EMPTY)): act = {b: None for b in V}
            else:
                L2 = [b for b in self.outs(c, g, full, H) if is_(full(Str(chr(b))))]
                if not L2: self.give_up()
                act = {b: L2[0] for b in V}
            A = k["act"].setdefault(c.uid, {})
            for b, to in act.items():
                if b not in A: A[b] = to; new = new or to != b
                elif A[b] != to: self.give_up()
        for c, v0 in self.flags:
            if not isinstance(c.v, bool) and not (isinstance(c.v, z3.ExprRef) and x.entails(c.v) or isinstance(c.v, z3.ExprRef) and x.entails(z3.Not(c.v))): self.give_up()
            now = c.v if isinstance(c.v, bool) else x.entails(c.v)
            F = k["F"].setdefault(c.uid, set())
            if now != v0:
                if self.before[c.uid] == v0 and not set(V) <= F: F |= set(V); new = True
            elif self.before[c.uid] != v0 or set(V) & F: self.give_up()
        if new: raise Restart(self.L["key"])
        w = self.w + Str((chr(h) if isc(h) else Chr(h),)) if self.dir > 0 else Str((chr(h) if isc(h) else Chr(h),)) + self.w
        if not x.entails(EQ(self.getpos(), self.pos(w, t))): self.give_up()
        for c, v0 in self.texts:
            e = x.seq(c.v, self.whole(c, v0, w, t))
            if e is not True and (e is False or not x.entails(e)): self.give_up()
        x.covers.add("iteration")
    def outs(self, c, g, full, H):
        """literal characters that could replace the walked one"""
        out = set(); x = self.I.ctx
        for y in x.norm(c.v).p:
            if isinstance(y, str): out |= set(map(ord, y))
            elif isinstance(y, Chr):
                v = x.one_value(y.code)
                if v is not None: out.add(v)
        return sorted(out)[:16]

def default_cands(I, mod):
    """candidate invariants: monotonicity and constant differences of integers"""
    out = []; ctx = I.ctx
    ints = [(c, v0) for c, v0 in mod if (isc(v0) and not isinstance(v0, bool)) or (isinstance(v0, z3.ExprRef) and z3.is_int(v0))]
    for c, v0 in ints:
        out.append((("ge", c.uid), lambda m, c=c, v0=v0: Z(m[c.uid]) >= Z(v0)))
        out.append((("le", c.uid), lambda m, c=c, v0=v0: Z(m[c.uid]) <= Z(v0)))
    for c, v0 in mod:
        if isinstance(v0, Lib) and v0.kind == "siter" and v0.c is not None:
            out.append((("ige", c.uid), lambda m, c=c, v0=v0: m[c.uid].c is v0.c and fold(Z(m[c.uid].off) >= Z(v0.off))))
            out.append((("ile", c.uid), lambda m, c=c, v0=v0: m[c.uid].c is v0.c and fold(Z(m[c.uid].off) <= Z(v0.off))))
            out.append((("iin", c.uid), lambda m, c=c, v0=v0: m[c.uid].c is v0.c and AND(fold(Z(m[c.uid].off) >= 0), fold(Z(m[c.uid].off) <= Z(ctx.slen(m.get(v0.c.uid, v0.c.v)))))))
    strs = [(c, v0) for c, v0 in mod if isinstance(v0, CStr)]
    for c, v0 in strs:
        for d, w0 in ints:
            out.append((("pd", c.uid, d.uid), lambda m, c=c, v0=v0, d=d, w0=w0: Z(m[c.uid].off) - Z(v0.off) == Z(m[d.uid]) - Z(w0)))
        out.append((("pin", c.uid), lambda m, c=c: AND(fold(Z(m[c.uid].off) >= 0), fold(Z(m[c.uid].off) <= Z(ctx.slen(m[c.uid].s))))))
    for i in range(len(ints)):
        for j in range(i):
            (a, a0), (b, b0) = ints[i], ints[j]
            out.append((("diff", a.uid, b.uid), lambda m, a=a, b=b, a0=a0, b0=b0: Z(m[a.uid]) - Z(m[b.uid]) == Z(a0) - Z(b0)))
    return out
