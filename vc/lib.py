"""Models (assumed contracts) of the C++ standard library and C library."""
import re, z3
from .core import *
from .interp import *
from .prog import Ty

WS = frozenset([32, 9, 10, 11, 12, 13])
NPOS = (1 << 64) - 1

class Seg:
    """unknown (possibly empty) run of elements of a container"""
    __slots__ = ("name", "gen", "lo", "hi", "absent")
    def __init__(self, name, gen, lo=None, hi=None, absent=()): self.name = name; self.gen = gen; self.lo = lo; self.hi = hi; self.absent = absent
    def __repr__(self): return "Seg(%s)" % self.name

def opq(name): return Lib("opaque", name=name)

def short(q):
    q = re.sub(r"^std::(__cxx11::)?", "", q)
    return q

class LibModel:
    def __init__(self):
        self.F = {}
        for n in dir(self):
            if n.startswith("f_"): self.F[n[2:]] = getattr(self, n)
        self.alias = {}

    # ------------------------------------------------------------ helpers
    def val(self, I, a):
        if isinstance(a, Arg): a = a.c
        if isinstance(a, Cell):
            if isinstance(a.v, (Lib, RecV)): 
                if isinstance(a.v, Lib) and a.v.kind == "proxy": return I.load(a)
                I.touch(a); return a.v
            return I.load(a)
        return a
    def cell_of(self, I, a):
        if isinstance(a, Arg):
            if isinstance(a.c, Cell): return a.c
            c = I.cell(a.c, a.ty); I.fr_temp(c); return c
        return a if isinstance(a, Cell) else I.cell(a)
    def take(self, I, a):
        """value for by-value/forwarded storage"""
        if not isinstance(a, Arg) or not isinstance(a.c, Cell): return a.c if isinstance(a, Arg) else a
        c = a.c
        if isinstance(c.v, (RecV, Lib, Str)): return I.copy_value(c) if a.m == "l" else I.move_value(c)
        return I.load(c)
    def newcell(self, I, v, t=None, n=None): return I.cell(v, t, n)
    def S(self, I, a, c=False):
        """rope of a string-like argument"""
        v = self.val(I, a)
        if isinstance(v, Str): return v
        if isinstance(v, Lib) and v.kind == "chararr": return self.cut_nul(I, self.content(I, a.c if isinstance(a, Arg) else a))
        if isinstance(v, CStr): return self.cstr_text(I, v)
        if isinstance(v, Ptr) and v.c is None: I.ctx.fail("no null string pointer is used", "line %s" % I.line, True); raise PathEnd("null str")
        if isinstance(v, int): return Str(chr(v % 256))
        if isinstance(v, z3.ExprRef): return Str((self.chr_of(I, v),))
        if isinstance(v, Lib) and v.kind == "strview": return v.s
        raise Undecided("string argument %r" % (v,))
    def chr_of(self, I, v):
        if isc(v): return chr(v % 256)
        return Chr(fold(z3.If(v < 0, v + 256, v)))
    def chr_val(self, I, code):
        """value of a (signed) char with code 0..255"""
        if isc(code): return code - 256 if code > 127 else code
        if I.ctx.entails(code < 128): return code
        return fold(z3.If(code > 127, code - 256, code))
    def content(self, I, c):
        v = c.v
        if isinstance(v, Str): return v
        if isinstance(v, Lib) and v.kind == "chararr":
            if v.s is None: I.ctx.fail("no use of an uninitialised value", "char array", True); raise PathEnd("uninit")
            return v.s
        raise Undecided("char storage %r" % (v,))
    def cs(self, I, p):
        """(rope, offset) a char pointer currently refers to"""
        if p.src is not None:
            I.touch(p.src)
            if p.s is None: return self.content(I, p.src), p.off
        return p.s, p.off
    def cut_nul(self, I, s, term=True):
        x = I.ctx
        r = x.find_set(s, frozenset([0]))
        if r is not None: return r[0]
        return s
    def cstr_text(self, I, p):
        s, off = self.cs(I, p)
        if off == 0: r = s
        else:
            n = I.ctx.slen(s)
            if not I.ctx.entails(fold(Z(off) <= Z(n))):
                I.ctx.prove(fold(Z(off) <= Z(n)), "no read outside a string", safety=True)
                I.ctx.assume(fold(Z(off) <= Z(n)))
            _, r = I.ctx.cut(s, off)
        f = I.ctx.find_set(r, frozenset([0]))
        if f is not None: return f[0]
        if p.src is not None and isinstance(p.src.v, Lib) and p.src.v.kind == "chararr" and not p.src.v.lit:
            I.ctx.fail("no read of an unterminated character array", "line %s" % I.line, True)
        return r

    # ------------------------------------------------------------ symbolic / default / arrays
    def tname(self, t): return t.n or re.sub(r"<.*", "", t.s or "")
    def sym(self, I, t, name, inp=False):
        n = self.tname(t); x = I.ctx
        if n == "std::basic_string": return x.str(name, inp=inp)
        if n == "std::chrono::time_point": return Lib("tp", n=x.int(name, -(1 << 63), (1 << 63) - 1, inp), per=self.period(t))
        if n == "std::chrono::duration": return Lib("dur", n=x.int(name, -(1 << 63), (1 << 63) - 1, inp), per=self.period(t))
        if n == "tm": v = RecV("tm"); v.ghost = ("some tm", x.int(name)); return v
        if n == "std::thread::id": return Lib("tid", id=x.int(name, 0, None, inp))
        if n == "std::atomic": return Lib("atomic", v=I.cell(I.sym(t.args[0], name, inp), t.args[0], name))
        if n == "std::function": return Lib("func", target=I.cell(Lib("ufn", name=name)))
        if n == "std::mutex": return self.mutex(I)
        if n == "std::once_flag": return Lib("once", done=I.cell(x.bool(name), None, name))
        if n in ("std::map", "std::unordered_map"): return self.symmap(I, t, name)
        if n in ("std::vector", "std::queue", "std::deque", "std::list"): return Lib("vec", seq=I.cell((Seg(name, lambda I2, s, t=t: I2.cell(I2.sym(t.args[0], s.name + ".elem"), t.args[0])),), None, name), et=t.args[0])
        if n == "std::pair":
            return Lib("pair", first=I.cell(I.sym(t.args[0], name + ".first", inp), t.args[0]), second=I.cell(I.sym(t.args[1], name + ".second", inp), t.args[1]))
        h = I.hooks.get("sym:" + n)
        if h: return h(I, t, name)
        raise Undecided("no symbolic value for %s" % t.s)
    def mutex(self, I): return Lib("mutex")
    def default(self, I, t):
        n = self.tname(t)
        if n == "std::basic_string": return EMPTY
        if n in ("std::unique_ptr",): return Lib("uptr", p=I.cell(NULL), et=t.args[0] if t.args else None)
        if n == "std::shared_ptr": return Lib("sptr", p=I.cell(NULL), ctl=None)
        if n == "std::weak_ptr": return Lib("wptr", ctl=None, p=NULL)
        if n == "std::mutex" or n == "std::recursive_mutex": return self.mutex(I)
        if n == "std::once_flag": return Lib("once", done=I.cell(False))
        if n == "std::condition_variable": return Lib("cv")
        if n == "std::thread": return Lib("thread", st=I.cell("none"))
        if n == "std::thread::id": return Lib("tid", id=0)
        if n in ("std::basic_ostringstream", "std::basic_stringstream"): return self.new_stream(I)
        if n in ("std::basic_ofstream", "std::basic_fstream"): return self.new_ofstream(I)
        if n == "std::function": return Lib("func", target=None)
        if n in ("std::map", "std::unordered_map"): return Lib("map", unord=n != "std::map", seq=I.cell(()), kt=t.args[0] if t.args else None, vt=t.args[1] if t.args else None)
        if n in ("std::vector", "std::queue", "std::deque", "std::list"): return Lib("vec", seq=I.cell(()), et=t.args[0] if t.args else None)
        if n in ("std::bad_weak_ptr", "std::bad_function_call", "std::bad_alloc", "std::exception"): return Lib("exc", ty=n, what=Str(n[5:]))
        if n == "std::promise": return self.new_promise(I)
        if n == "std::future": return Lib("future", st=None)
        if n == "std::atomic": return Lib("atomic", v=I.cell(UNINIT))
        if n == "std::allocator" or n.startswith("std::less"): return opq(n)
        if n == "std::chrono::duration": return Lib("dur", n=UNINIT, per=self.period(t))
        if n == "std::chrono::time_point": return Lib("tp", n=0, per=self.period(t))
        if n == "sigaction": return self.new_sigact(I)
        if t.s.endswith("sigset_t"): return Lib("sigset", v=I.cell(UNINIT))
        if n in ("tm", "__va_list_tag", "timespec"):
            v = RecV(n); return v
        if n == "std::array":
            if t.args[0].k == "int" and t.args[0].w == 8: return Lib("cvec", arr=I.cell(Lib("chararr", s=None, n=self.asize(t), lit=False)), n=self.asize(t))
            return Lib("vec", seq=I.cell(tuple(I.default_cell(t.args[0]) for _ in range(self.asize(t)))), et=t.args[0])
        h = I.hooks.get("default:" + n)
        if h: return h(I, t)
        raise Undecided("default value of %s" % t.s)
    def asize(self, t):
        n = int(t.args[1][1:])
        if n > 256 and not (t.args[0].k == "int" and t.args[0].w == 8): raise Undecided("std::array of %d elements" % n)
        return n
    def array(self, I, t):
        if t.t.k == "int" and t.t.w == 8: return Lib("chararr", s=None, n=t.size, lit=False)
        if t.t.k == "rec" and t.t.n == "__va_list_tag": return Lib("valist")
        if t.size is not None and t.size <= 4096: return Lib("arr", el=[I.default_cell(t.t) for _ in range(min(t.size, 256))] if t.size <= 256 else None, n=t.size, et=t.t)
        raise Undecided("array %s" % t.s)
    def period(self, t):
        m = re.search(r"ratio<(\d+)(?:, (\d+))?>", t.s)
        if not m: return 10 ** 9
        return 10 ** 9 * int(m.group(1)) // int(m.group(2) or 1)
    def new_sigact(self, I, h=UNINIT, flags=UNINIT, mask=UNINIT):
        return Lib("sigact", h=I.cell(h, None, "sa_handler"), flags=I.cell(flags, None, "sa_flags"), mask=I.cell(Lib("sigset", v=I.cell(mask, None, "sa_mask")), None, "sa_mask"))
    def sa(self, I, c):
        v = c.v; return (I.load(v.h), I.load(v.flags), I.load(v.mask.v.v))
    def sa_set(self, I, c, t):
        v = c.v; I.store(v.h, t[0]); I.store(v.flags, t[1]); I.store(v.mask.v.v, t[2])
    def f_sigact_assign_op(self, I, f, this, args):
        c = args[0].c; o = c if isinstance(c, Cell) else I.cell(c); v, w = this.v, o.v
        for a, b in ((v.h, w.h), (v.flags, w.flags), (v.mask.v.v, w.mask.v.v)): I.touch(a, True); a.v = b.v      # a copy of indeterminate members is allowed
        return this
    def sigset(self, I, a):
        c = I.deref(self.val(I, a)); 
        if not (isinstance(c.v, Lib) and c.v.kind == "sigset"): raise Undecided("signal set")
        return c.v.v
    def f_sigemptyset(self, I, f, this, args): I.store(self.sigset(I, args[0]), 0); return 0
    def f_sigfillset(self, I, f, this, args): I.store(self.sigset(I, args[0]), -1); return 0
    def sigset_op(self, I, op, args):
        c = self.sigset(I, args[0]); b, n = I.load(c), self.val(I, args[1]); v = I.ctx.ufint(op, b, n); I.ctx.memo[("sigset-op", v.sexpr())] = (op, b, n); I.store(c, v); return 0
    def f_sigaddset(self, I, f, this, args): return self.sigset_op(I, "sigaddset", args)
    def f_sigdelset(self, I, f, this, args): return self.sigset_op(I, "sigdelset", args)
    def sigset_has(self, I, v, n):
        """is signal n in the set of value v?"""
        if isc(v): return v != 0 if v in (0, -1) else I.ctx.ufbool("sigset-has", v, n)
        k = I.ctx.memo.get(("sigset-op", v.sexpr()))
        if k is None: return I.ctx.ufbool("sigset-has", v, n)
        if I.ctx.branch(EQ(k[2], n)): return k[0] == "sigaddset"
        return self.sigset_has(I, k[1], n)
    def f_sigismember(self, I, f, this, args): return 1 if I.ctx.branch(self.sigset_has(I, I.load(self.sigset(I, args[0])), self.val(I, args[1]))) else 0
    def f_pthread_sigmask(self, I, f, this, args):
        h = I.hooks.get("sigmask"); how, s, o = self.val(I, args[0]), self.val(I, args[1]), self.val(I, args[2])
        if not h or not isc(how): raise Undecided("signal mask")
        null = lambda p: p is NULL or isinstance(p, Ptr) and p.c is None
        return h(I, how, None if null(s) else I.load(self.sigset(I, args[1])), None if null(o) else self.sigset(I, args[2]))
    f_sigprocmask = f_pthread_sigmask
    def f_sigaction(self, I, f, this, args):
        h = I.hooks.get("sigaction")
        if not h: raise Undecided("sigaction")
        a, o = self.val(I, args[1]), self.val(I, args[2]); C = lambda p: None if p is NULL or isinstance(p, Ptr) and p.c is None else I.deref(p)
        return h(I, self.val(I, args[0]), C(a), C(o))
    def f_signal(self, I, f, this, args):
        h = I.hooks.get("sigaction")
        if not h: raise Undecided("signal")
        a = I.cell(self.new_sigact(I, self.val(I, args[1]), 0x10000000, 0)); o = I.cell(self.new_sigact(I))
        r = h(I, self.val(I, args[0]), a, o)
        if I.ctx.branch(EQ(r, 0)): return I.load(o.v.h)
        return opq("SIG_ERR")
    def stateless(self, t):
        """objects of this type have no value of their own a specification would have to know"""
        return t.k == "rec" and t.n in ("std::once_flag", "std::mutex", "std::recursive_mutex", "std::condition_variable", "std::basic_ostream", "std::ios_base::Init", "std::locale")
    def f_raise(self, I, f, this, args):
        s = self.val(I, args[0]); I.ctx.event("raise", sig=s); h = I.hooks.get("raise")
        if not h: raise Undecided("raise")
        return h(I, s)
    def f_memset(self, I, f, this, args):
        c = I.deref(self.val(I, args[0]))
        if not (isinstance(c.v, Lib) and c.v.kind == "sigact" and isc(self.val(I, args[1])) and self.val(I, args[1]) == 0): raise Undecided("memset")
        self.sa_set(I, c, (NULL, 0, 0)); return self.val(I, args[0])
    def new_stream(self, I, s=EMPTY, name=None):
        return Lib("stream", buf=I.cell(s, None, "stream"), name=name, alpha=I.cell(False), fill=I.cell(32), width=I.cell(0))
    def new_ofstream(self, I):
        return Lib("ofstream", buf=I.cell(EMPTY), name=None, alpha=I.cell(False), fill=I.cell(32), width=I.cell(0), open=I.cell(False), file=I.cell(None), state=I.cell(0))

    # ------------------------------------------------------------ copy/move/destroy/havoc
    IMM = ("refw", "dur", "tp", "tid", "opaque", "exc", "excptr", "ufn", "chararr", "arr", "initlist", "iter", "siter", "riter", "strview", "maybe", "placeholder", "binsert", "valist", "openmode", "ph", "weakref")
    def copy(self, I, c):
        v = c.v; k = v.kind
        if k == "chararr" : return Lib("chararr", s=v.s, n=getattr(v, "n", None), lit=v.lit)
        if k == "iter": return Lib("iter", cont=v.cont, pos=v.pos, gen=v.gen, ver=v.ver)
        if k in self.IMM: return v
        if k == "func":
            if v.target is None: return Lib("func", target=None)
            return Lib("func", target=I.cell(I.copy_value(v.target), v.target.t))
        if k == "bind": return Lib("bind", fn=I.cell(I.copy_value(v.fn) if I.is_obj(v.fn.v) else v.fn.v), args=[I.cell(I.copy_value(a), a.t) for a in v.args])
        if k == "sptr": return self.sp_copy(I, v)
        if k == "wptr": return Lib("wptr", ctl=v.ctl, p=v.p)
        if k == "uptr": raise Undecided("copy of unique_ptr")
        if k == "sigact": return Lib("sigact", h=I.cell(v.h.v, None, "sa_handler"), flags=I.cell(v.flags.v, None, "sa_flags"), mask=I.cell(Lib("sigset", v=I.cell(v.mask.v.v.v)), None, "sa_mask"))
        if k == "sigset": return Lib("sigset", v=I.cell(v.v.v))
        if k == "pair": return Lib("pair", first=I.cell(I.copy_value(v.first), v.first.t), second=I.cell(I.copy_value(v.second), v.second.t))
        if k == "map": return Lib("map", seq=I.cell(tuple(x if isinstance(x, Seg) else I.cell(I.copy_value(x), x.t) for x in I.load(v.seq)), None, v.seq.name), kt=v.kt, vt=v.vt)
        if k == "vec": return Lib("vec", seq=I.cell(tuple(x if isinstance(x, Seg) else I.cell(I.copy_value(x), x.t) for x in I.load(v.seq)), None, v.seq.name), et=v.et)
        if k == "shared_future": return v
        raise Undecided("copy of %s" % k)
    def move(self, I, c):
        v = c.v; k = v.kind
        if k in self.IMM: return self.copy(I, c)
        if k == "uptr":
            p = I.load(v.p); I.store(v.p, NULL); return Lib("uptr", p=I.cell(p), et=getattr(v, "et", None))
        if k == "sptr":
            p = I.load(v.p); I.store(v.p, NULL); ctl = v.ctl; v.ctl = None
            return Lib("sptr", p=I.cell(p), ctl=ctl)
        if k in ("func",):
            t = v.target; I.touch(c, True); v.target = None; return Lib("func", target=t)
        if k == "bind": return Lib("bind", fn=I.cell(I.move_value(v.fn)), args=[I.cell(I.move_value(a), a.t) for a in v.args])
        if k in ("ptask", "promise", "future", "thread", "lock", "ofstream", "stream"):
            n = Lib(k); n.__dict__.update(v.__dict__); I.touch(c, True)
            v.moved = True
            if k in ("ptask", "promise", "future"): v.st = None
            if k == "ptask": v.fn = None
            if k == "thread": n.st = I.cell(I.load(v.st)); n.fn = getattr(v, "fn", None); I.store(v.st, "none")
            if k == "lock": v.owns = False; 
            return n
        if k in ("map", "vec"):
            s = I.load(v.seq); I.store(v.seq, ()); n = Lib(k); n.__dict__.update(v.__dict__); n.seq = I.cell(s, None, v.seq.name); return n
        return self.copy(I, c)
    def destroy(self, I, c):
        v = c.v; k = v.kind
        if k == "uptr":
            p = I.load(v.p)
            if isinstance(p, Ptr) and p.c is not None: v.p.v = NULL; I.destroy(p.c)
        elif k == "sptr": self.sp_release(I, v)
        elif k == "func":
            if v.target is not None: t = v.target; v.target = None; I.destroy(t)
        elif k == "bind":
            for a in v.args:
                if I.is_obj(a.v): I.destroy(a)
        elif k == "ptask":
            if getattr(v, "fn", None) is not None and not getattr(v, "moved", False):
                f = v.fn; v.fn = None; I.destroy(f)
                self.abandon(I, v)
        elif k == "promise":
            if not getattr(v, "moved", False): self.abandon(I, v)
        elif k == "lock": self.unlock(I, v)
        elif k in ("vec", "map"):
            s = v.seq.v
            for x in s:
                if isinstance(x, Cell): I.destroy(x)
                elif not isinstance(x, Seg): pass
                else:
                    h = I.hooks.get("destroy-seg")
                    if h: h(I, x)
        elif k == "pair":
            for x in (v.first, v.second):
                if I.is_obj(x.v): I.destroy(x)
        elif k == "ofstream": self.of_close(I, v)
        elif k == "thread":
            if I.load(v.st) == "running":
                I.terminate("a joinable std::thread is destroyed")
        elif k == "future":
            h = I.hooks.get("future-destroy")
            if h: h(I, v)
    def abandon(self, I, v):
        st = v.st
        if st is not None and not I.ctx.entails(Z(I.load(st.ready))):
            I.store(st.ready, True); I.store(st.exc, "broken_promise")
    def havoc(self, I, c):
        v = c.v
        if v.kind == "chararr": v2 = Lib("chararr", s=I.ctx.str("h:arr"), n=getattr(v, "n", None), lit=v.lit); c.v = v2; return True
        if v.kind in ("dur", "tp"): c.v = Lib(v.kind, n=I.ctx.int("h"), per=v.per); return True
        if v.kind == "func": c.v = Lib("func", target=None if I.ctx.fork(2) else I.cell(Lib("ufn", name="h:%d" % I.ctx.uid))); return True
        if v.kind == "siter": c.v = Lib("siter", c=v.c, off=I.ctx.int("h", 0)); return True
        return False
    def live(self, I): return I.ctx.cells

    # ------------------------------------------------------------ entry points
    def call(self, I, f, this, args):
        q = short(f.q)
        if this is not None and isinstance(this.v, Lib) and this.v.kind == "proxy" and "::" in q: pass
        h = I.hooks.get("call:" + f.q)
        if h: return h(I, f, this, args)
        I.ctx.pr.models_used.add(f.q)
        parts = q.split("::")
        if f.cls is not None and f.cls.k == "rec":
            cls = short(f.cls.n or "").split("::")[-1]; m = parts[-1]
            m = {"operator=": "assign_op", "operator()": "callop", "operator->": "arrow", "operator*": "star", "operator++": "inc", "operator--": "dec", "operator bool": "conv", "operator conv": "conv",
                 "operator<<": "shl", "operator[]": "index", "operator+=": "addeq", "operator-=": "subeq", "operator==": "eq", "operator!=": "ne", "operator!": "not", "operator-": "minus", "operator+": "plus"}.get(m, m)
            cls = self.CLSALIAS.get(cls, cls)
            h = self.F.get("%s_%s" % (cls, m))
            if h is None: raise Undecided("library function %s" % f.q)
            if this is not None and not this.alive: I.touch(this)
            return h(I, f, this, args)
        m = parts[-1]
        m = {"operator+": "op_add", "operator<<": "op_shl", "operator==": "op_eq", "operator!=": "op_ne", "operator-": "op_sub", "operator|": "op_or", "operator|=": "op_oreq", "operator<": "op_lt",
             "operator>": "op_gt", "operator<=": "op_le", "operator>=": "op_ge", "operator*": "op_mul", "operator/": "op_div", "operator%": "op_mod"}.get(m, m)
        h = self.F.get(m)
        if h is None: raise Undecided("library function %s" % f.q)
        return h(I, f, this, args)
    CLSALIAS = {"basic_string": "string", "sigaction": "sigact", "__sigset_t": "sigset", "basic_ostringstream": "stream", "basic_stringstream": "stream", "basic_ostream": "stream", "basic_ios": "stream", "ios_base": "stream", "basic_iostream": "stream",
                "basic_ofstream": "ofstream", "basic_fstream": "ofstream", "__shared_ptr_access": "sptr", "__shared_ptr": "sptr", "shared_ptr": "sptr", "__weak_ptr": "wptr", "weak_ptr": "wptr", "unique_ptr": "uptr",
                "__atomic_base": "atomic", "_Rb_tree_iterator": "iter", "_Rb_tree_const_iterator": "iter", "__normal_iterator": "iter", "vector": "vec", "array": "vec", "queue": "vec", "deque": "vec", "list": "vec", "_List_base": "vec", "reverse_iterator": "riter", "_List_iterator": "iter", "_List_const_iterator": "iter", "_Node_iterator": "iter", "_Node_const_iterator": "iter", "_Node_iterator_base": "iter",
                "__basic_future": "future", "shared_future": "future", "unordered_map": "map", "__mutex_base": "mutex", "basic_string_view": "strview", "lock_guard": "lock", "unique_lock": "lock", "scoped_lock": "lock"}
    def construct(self, I, t, f, args):
        n = self.tname(t)
        h = I.hooks.get("construct:" + n)
        if h: return h(I, t, f, args)
        I.ctx.pr.models_used.add(n)
        if n == "std::basic_string": return self.mk_string(I, t, f, args)
        if not args or (len(args) == 1 and isinstance(args[0].c, Lib) and args[0].c.kind == "opaque" and "allocator" in str(args[0].c.name)): return self.default(I, t)
        if (f.copy or f.move):
            return self.take(I, args[0])
        if n in ("std::lock_guard", "std::unique_lock", "std::scoped_lock"):
            if len(args) > 1: raise Undecided("lock with options")
            l = Lib("lock", m=args[0].c, owns=True); self.lock(I, args[0].c); return l
        if n == "std::unique_ptr":
            a = args[0]; v = self.val(I, a)
            if isinstance(v, Lib) and v.kind == "uptr": r = self.take(I, a); r.et = t.args[0]; return r
            if v is NULL or isinstance(v, Ptr): return Lib("uptr", p=I.cell(v), et=t.args[0], deleter=self.val(I, args[1]) if len(args) > 1 else None)
            if isinstance(v, CStr): return Lib("uptr", p=I.cell(v), et=t.args[0])
        if n == "std::shared_ptr":
            a = args[0]; v = self.val(I, a)
            if isinstance(v, Lib) and v.kind == "sptr": return self.take(I, a)
            if isinstance(v, Lib) and v.kind == "wptr":
                r = self.wp_lock(I, v)
                if I.load(r.p).c is None: raise CppThrow(Lib("exc", ty="std::bad_weak_ptr", what=Str("bad_weak_ptr")), "std::bad_weak_ptr")
                return r
            if isinstance(v, Lib) and v.kind == "uptr":
                p = I.load(v.p); I.store(v.p, NULL); return self.sp_new(I, p.c) if p.c else self.default(I, t)
            if isinstance(v, Ptr): return self.sp_new(I, v.c) if v.c else Lib("sptr", p=I.cell(NULL), ctl=None)
        if n == "std::weak_ptr":
            v = self.val(I, args[0]); 
            if v.kind in ("sptr", "wptr"): return Lib("wptr", ctl=v.ctl, p=I.load(v.p) if isinstance(v.p, Cell) else v.p)
        if n == "std::atomic": return Lib("atomic", v=I.cell(self.val(I, args[0]), t.args[0] if t.args else None))
        if n == "std::function":
            v = self.val(I, args[0])
            if isinstance(v, Lib) and v.kind == "func":
                # function of another signature or same: wrap
                return self.take(I, args[0])
            if isinstance(v, Ptr) and v.c is None: return Lib("func", target=None)
            if isinstance(v, FnPtr): return Lib("func", target=I.cell(v))
            tv = self.take(I, args[0]); tc = I.cell(tv, None)
            return Lib("func", target=tc)
        if n == "std::packaged_task":
            tv = self.take(I, args[0]); return self.new_ptask(I, tv)
        if n == "std::thread":
            c = Lib("thread", st=I.cell("running"), fn=[(lambda v: v.c if isinstance(v, Lib) and v.kind == "refw" else I.cell(v))(self.take(I, a)) for a in args])
            c.tid = I.ctx.ufint("id of thread", str(I.ctx.uid), lo=1)
            I.ctx.event("thread-start", fn=c.fn)
            h = I.hooks.get("thread-start")
            if h: h(I, c)
            return c
        if n == "std::chrono::duration":
            v = self.val(I, args[0])
            if isinstance(v, Lib) and v.kind == "dur": return self.conv_dur(I, v, self.period(t))
            return Lib("dur", n=v, per=self.period(t))
        if n == "std::chrono::time_point":
            v = self.val(I, args[0])
            return Lib("tp", n=self.conv_n(I, v.n, v.per, self.period(t)), per=self.period(t))
        if n == "std::pair":
            a, b = self.as_elem(I, args[0], t.args[0]), self.as_elem(I, args[1], t.args[1])
            return Lib("pair", first=I.cell(a, t.args[0]), second=I.cell(b, t.args[1]))
        if n == "std::vector" and t.args and t.args[0].k == "int" and t.args[0].w == 8 and args and (isc(self.val(I, args[0])) or isinstance(self.val(I, args[0]), z3.ExprRef)):
            sz = self.val(I, args[0]); x = I.ctx
            fill = self.val(I, args[1]) if len(args) > 1 and t.args and args[1].ty is not None and args[1].ty.strip().k == 'int' else 0
            if not isc(fill): raise Undecided("vector fill")
            a = x.atom("filled", frozenset([fill % 256])); x.assume(fold(Z(a.len) == Z(sz)))
            return Lib("cvec", arr=I.cell(Lib("chararr", s=Str((a,)), n=sz, lit=False)), n=sz)
        if n in ("std::map", "std::unordered_map"):
            v = self.val(I, args[0])
            if isinstance(v, Lib) and v.kind == "initlist":
                m = Lib("map", unord=n != "std::map", seq=I.cell(()), kt=t.args[0], vt=t.args[1])
                for x in v.el:
                    pv = x.v
                    it = self.map_find(I, m, I.load(pv.first), True)
                    if it[1]:
                        e = m.seq.v[it[0]].v.second; e.v = I.copy_value(pv.second); e.t = t.args[1]
                return m
        if n in ("std::vector", "std::queue", "std::deque", "std::list") :
            v = self.val(I, args[0])
            if isinstance(v, Lib) and v.kind == "initlist": return Lib("vec", seq=I.cell(tuple(I.cell(I.copy_value(x), t.args[0]) for x in v.el)), et=t.args[0])
        if n in ("std::basic_ostringstream", "std::basic_stringstream"):
            v = self.val(I, args[0])
            if isinstance(v, (Str, CStr)): return self.new_stream(I, self.S(I, args[0]))
            return self.new_stream(I)
        if n == "std::basic_ofstream":
            o = self.new_ofstream(I); self.of_open(I, o, self.S(I, args[0]), self.val(I, args[1]) if len(args) > 1 else 16); return o
        if n in ("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument"): return Lib("exc", ty=n, what=self.S(I, args[0]))
        if n == "__gnu_cxx::__normal_iterator" or n.endswith("_iterator"): return self.take(I, args[0])
        if n in ("std::allocator", "std::less"): return opq(n)
        if n == "std::fpos": v = self.val(I, args[0]); return Lib("fpos", n=v.n if isinstance(v, Lib) else v)
        if n == "std::basic_string_view": return Lib("strview", s=self.S(I, args[0]))
        if n == "std::exception_ptr" or n.endswith("exception_ptr"): return self.take(I, args[0])
        raise Undecided("constructor of %s" % t.s)
    def as_elem(self, I, a, t):
        if t.k == "rec" and (t.n == "std::basic_string"): return self.S(I, a)
        if t.k == "rec" and t.id in I.P.recs:
            v = self.val(I, a)
            if isinstance(v, RecV) and v.cls is I.P.recs[t.id]: return self.take(I, a)
            # converting constructor
            fs = [f for f in I.P.ctors.get(t.id, []) if not f.copy and not f.move and f.p]
            for f in fs:
                if f.d and len(f.p) == 1 or (f.d and len(f.p) >= 1 and all("def" in p or True for p in f.p[1:])):
                    pt = f.p[0].strip()
                    if isinstance(v, RecV) and pt.id == v.cls.key:
                        ar = [a]
                        if len(f.p) > 1: continue
                        return I.construct(t, f, ar)
            raise Undecided("element conversion to %s" % t.s)
        return self.take(I, a)
    def aggregate(self, I, t, vals):
        n = self.tname(t)
        h = I.hooks.get("aggregate:" + n)
        if h: return h(I, t, vals)
        if n == "std::array" and (not vals or len(vals) == 1):
            v = vals[0] if vals else None; et = t.args[0]; N = self.asize(t); el = list(v.el) if isinstance(v, Lib) and v.kind == "arr" and v.el else []
            if et.k == "int" and et.w == 8:
                if not el:
                    a = I.ctx.atom("zeroes", frozenset([0])); I.ctx.assume(fold(a.len == N)); return Lib("cvec", arr=I.cell(Lib("chararr", s=Str((a,)), n=N, lit=False)), n=N)
                if len(el) == N: return Lib("cvec", arr=I.cell(Lib("chararr", s=Str(tuple(self.chr_of(I, I.load(c)) for c in el)), n=N, lit=False)), n=N)
            elif len(el) == N or et.k in ("int", "ptr", "bool", "enum"):
                z = {"ptr": NULL, "bool": False}.get(et.k, 0)
                return Lib("vec", seq=I.cell(tuple(el + [I.cell(z, et) for _ in range(N - len(el))])), et=et)
        if n == "sigaction" or n.startswith("sigaction::") or "sigset_t" in n or "sigset_t" in t.s:
            def zero(v): return v is NULL or isc(v) and v == 0 or isinstance(v, Opaque) and v.name == "zero" or isinstance(v, Lib) and (v.kind == "opaque" and v.name == "zero" or v.kind == "arr" and all(zero(c.v) for c in v.el))
            if all(zero(v) for v in vals): return self.new_sigact(I, NULL, 0, 0) if n == "sigaction" else opq("zero")
        if n in ("tm", "timespec", "timeval") and all(v is NULL or isc(v) and v == 0 for v in vals):
            v = RecV(n); v.ghost = ("all zero", 0); return v
        raise Undecided("aggregate %s %r" % (t.s, vals))
    def extern(self, I, q, t):
        n = short(q)
        if n in ("cerr", "cout", "clog"): return I.cell(self.new_stream(I, name=n), t, n)
        if n in ("stderr", "stdout"): return I.cell(Ptr(I.cell(opq(n))), t, n)
        if n == "environ" or n == "errno": return I.cell(I.ctx.int(n), t, n)
        if n.startswith("placeholders::_"): return I.cell(Lib("ph", n=int(n[-1])), t, n)
        if n.endswith("npos"): return I.cell(NPOS, t, n)
        if n in ("nullopt", "defer_lock", "piecewise_construct", "nothrow", "ignore"): return I.cell(opq(n), t, n)
        MODE = {"in": 8, "out": 16, "app": 1, "ate": 2, "trunc": 32, "binary": 4}
        if n.split("::")[-1] in MODE: return I.cell(MODE[n.split("::")[-1]], t, n)
        BITS = {"goodbit": 0, "badbit": 1, "eofbit": 2, "failbit": 4}
        if n.split("::")[-1] in BITS: return I.cell(BITS[n.split("::")[-1]], t, n)
        raise Undecided("external object %s" % q)
    def cfield(self, I, c, f, t):
        h = I.hooks.get("cfield:%s" % c.v.cls)
        if h: return h(I, c, f, t)
        if t is not None and t.k == "rec": 
            v = RecV(t.s); return I.cell(v, t, f)
        if c.v.ghost == "sym" and t is not None: return I.cell(I.sym(t, "%s.%s" % (c.v.tag, f)), t, f)
        return I.cell(UNINIT, t, f)
    def field(self, I, c, f, t):
        v = c.v
        if v.kind == "sigact":
            if f == "__sigaction_handler": return c
            if f in ("sa_handler", "sa_sigaction"): return v.h
            if f == "sa_flags": return v.flags
            if f == "sa_mask": return v.mask
        if v.kind == "pair" and f in ("first", "second"): return getattr(v, f)
        raise Undecided("field %s of %s" % (f, v.kind))
    def elem(self, I, p):
        v = p.c.v
        if isinstance(v, Lib) and v.kind == "arr":
            if isc(p.idx) and v.el is not None and 0 <= p.idx < len(v.el): return v.el[p.idx]
            if isc(p.idx) and (p.idx < 0 or p.idx >= v.n): I.ctx.fail("no access outside an array", "", True); raise PathEnd("oob")
        raise Undecided("array element")
    def charcell(self, I, p, i):
        off = fold(Z(p.off) + Z(i)) if not (isc(p.off) and isc(i)) else p.off + i
        x = I.ctx
        def get():
            s, _ = self.cs(I, p)
            n = x.slen(s)
            lim = fold(Z(off) < Z(n)); 
            lo = fold(Z(off) >= 0)
            if not x.entails(AND(lo, fold(Z(off) <= Z(n)))):
                x.prove(AND(lo, fold(Z(off) <= Z(n))), "no read outside a string", safety=True); x.assume(AND(lo, fold(Z(off) <= Z(n))))
            if not x.branch(lim):
                return 0
            return self.chr_val(I, x.at(s, off))
        def set_(v):
            if p.src is None: raise Undecided("write through const char pointer")
            if isinstance(p.src.v, Lib):
                n = p.src.v.n
                if not x.entails(AND(fold(Z(off) >= 0), fold(Z(off) < n))):
                    x.prove(AND(fold(Z(off) >= 0), fold(Z(off) < n)), "no write outside a buffer", safety=True); x.assume(AND(fold(Z(off) >= 0), fold(Z(off) < n)))
                if p.src.v.s is None: p.src.v = Lib("chararr", s=x.str("uninit"), n=n, lit=False)
                s = p.src.v.s
            else: s = p.src.v
            a, b = x.cut(s, off); _, r = x.headtail(b)
            ns = a + Str((self.chr_of(I, v),)) + r
            I.touch(p.src, True)
            if isinstance(p.src.v, Str): p.src.v = ns
            else: p.src.v = Lib("chararr", s=ns, n=p.src.v.n, lit=False)
        return I.cell(Lib("proxy", get=get, set=set_))
    def resolve(self, I, p): return p.fn(I)
    def index(self, I, b, i):
        if isinstance(b, CStr): return self.charcell(I, b, i)
        if isinstance(b, Ptr):
            if b.c is not None and isinstance(b.c.v, Lib) and b.c.v.kind == "arr":
                n = b.c.v.n; x = I.ctx
                idx = fold(Z(b.idx or 0) + Z(i))
                x.prove(AND(fold(Z(idx) >= 0), fold(Z(idx) < n)), "no access outside an array", safety=True)
                if isc(idx) and b.c.v.el: return b.c.v.el[idx]
            h = I.hooks.get("index")
            if h: return h(I, b, i)
        if isinstance(b, Lib) and b.kind == "carr": return b.at(I, i)
        raise Undecided("index of %r" % (b,))
    def decay(self, I, c):
        v = c.v
        if isinstance(v, Lib) and v.kind == "chararr":
            if v.lit: return CStr(v.s, 0, None)
            return CStr(None, 0, c)
        if isinstance(v, Lib) and v.kind in ("arr",): return Ptr(c, 0)
        if isinstance(v, Lib) and v.kind == "valist": return Ptr(c)
        if isinstance(v, CStr): return v
        raise Undecided("decay of %r" % (v,))
    def addr(self, I, c):
        if not isinstance(c, Cell): c = I.cell(c); I.fr_temp(c)
        if isinstance(c.v, Lib) and c.v.kind == "proxy": 
            if hasattr(c.v, "addr"): return c.v.addr()
            raise Undecided("address of a character")
        if isinstance(c.v, Lib) and c.v.kind == "chararr" and not c.v.lit: return CStr(None, 0, c)
        return Ptr(c)
    def ptr_add(self, I, v, n):
        if isinstance(v, CStr):
            o = fold(Z(v.off) + Z(n)); return CStr(v.s, o, v.src, v.term)
        if isinstance(v, Ptr) and v.idx is not None: return Ptr(v.c, fold(Z(v.idx) + Z(n)))
        raise Undecided("pointer arithmetic")
    def ptr_diff(self, I, a, b):
        if isinstance(a, CStr) and isinstance(b, CStr) and (a.src is b.src) and (a.s is None or a.s == b.s): return fold(Z(a.off) - Z(b.off))
        raise Undecided("pointer difference")
    def ptr_eq(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Lib) and x.kind == "maybe": return self.ptr_eq(I, self.resolve(I, x), y)
        if isinstance(a, (int,)) and a == 0: a = NULL
        if isinstance(b, (int,)) and b == 0: b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.c is b.c:
                if a.idx is None and b.idx is None or a.c is None: return True
                return EQ(a.idx or 0, b.idx or 0)
            return False
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            if a.key is not None and b.key is not None: return a.key == b.key
            if a is b: return True
            k = [isinstance(x.h, tuple) and x.h[0] == "constant" for x in (a, b)]
            if all(k): return a.h == b.h
            if k[0] and b.key is not None or k[1] and a.key is not None: return False
            r = I.hooks["fn-eq"](a, b) if "fn-eq" in I.hooks else None
            return I.ctx.ufbool("fneq", a.q, b.q) if r is None else r
        if isinstance(a, CStr) and isinstance(b, Ptr) and b.c is None: return False
        if isinstance(b, CStr) and isinstance(a, Ptr) and a.c is None: return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, FnPtr) and isinstance(y, Ptr) and y.c is None:
                # a handler the application installed may be the default one (a null pointer)
                return I.ctx.ufbool("fneq", x.q, "null") if isinstance(x.h, tuple) and x.h[0] in ("application's handler", "some handler") else False
        raise Undecided("pointer comparison %r %r" % (a, b))
    def uf_call(self, I, fv, args):
        name = fv.h[1] if isinstance(fv.h, tuple) else fv.q
        h = I.hooks.get("uf:" + name) or I.hooks.get("uf")
        if h: return h(I, name, args)
        raise Undecided("call of unknown function %s" % name)

    # ------------------------------------------------------------ callables
    def invoke(self, I, c, args):
        v = c.v
        I.touch(c)
        if v.kind == "func":
            if v.target is None: raise CppThrow(Lib("exc", ty="std::bad_function_call", what=Str("bad_function_call")), "std::bad_function_call")
            return I.invoke(v.target, args)
        if v.kind == "ufn":
            h = I.hooks.get("ufn:" + v.name) or I.hooks.get("ufn")
            if h: return h(I, v, args)
            raise Undecided("call of unknown callable %s" % v.name)
        if v.kind == "bind":
            al = []
            for a in v.args:
                if isinstance(a.v, Lib) and a.v.kind == "ph": al.append(args[a.v.n - 1])
                elif isinstance(a.v, Lib) and a.v.kind == "bind": raise Undecided("nested bind")
                elif isinstance(a.v, Lib) and a.v.kind == "refw": al.append(Arg("l", a.v.c, a.v.t))
                else: al.append(Arg("l", a, a.t))
            return self.invoke_target(I, v.fn, al)
        if v.kind == "ptask": return self.ptask_run(I, v, args)
        if v.kind == "memfn": return I.invoke(v.fn, args)
        raise Undecided("call of %s" % v.kind)
    def invoke_target(self, I, fc, args):
        fv = fc.v
        if isinstance(fv, MemFn):
            # std::invoke semantics incl. copies into by-value parameters
            return I.invoke(fv, args)
        return I.invoke(fc if I.is_obj(fv) else fv, args)
    def f_function_callop(self, I, f, this, args): return self.invoke(I, this, args)
    def f_function_conv(self, I, f, this, args): return this.v.target is not None
    def f_function_assign_op(self, I, f, this, args):
        v = self.val(I, args[0])
        if isinstance(v, FnPtr): nv = Lib("func", target=I.cell(v))
        elif isinstance(v, Ptr): nv = Lib("func", target=None)
        else:
            nv = self.take(I, args[0])
            if not (isinstance(nv, Lib) and nv.kind == "func"): nv = Lib("func", target=I.cell(nv))
        old = this.v; I.store(this, nv)
        if isinstance(old, Lib) and old.kind == "func" and old.target is not None: I.destroy(old.target)
        return this
    def f_bind(self, I, f, this, args):
        return Lib("bind", fn=I.cell(self.take(I, args[0])), args=[I.cell(self.take(I, a), a.ty) for a in args[1:]])
    def f__Bind_callop(self, I, f, this, args): return self.invoke(I, this, args)
    def f_invoke(self, I, f, this, args): return I.invoke(args[0].c if isinstance(args[0].c, Cell) else args[0].c, args[1:])
    # ------------------------------------------------------------ futures
    def new_state(self, I):
        return Lib("state", ready=I.cell(False), val=I.cell(None), exc=I.cell(None), got=I.cell(False))
    def new_promise(self, I): return Lib("promise", st=self.new_state(I))
    def new_ptask(self, I, tv): return Lib("ptask", fn=I.cell(tv), st=self.new_state(I), ran=I.cell(0))
    def ptask_run(self, I, v, args):
        if v.st is None or v.fn is None: raise CppThrow(Lib("exc", ty="std::future_error", what=Str("no state")), "std::future_error")
        if I.ctx.entails(Z(I.load(v.st.ready))): raise CppThrow(Lib("exc", ty="std::future_error", what=Str("already satisfied")), "std::future_error")
        try:
            r = I.invoke(v.fn, args)
            if isinstance(r, Cell): r = I.copy_value(r) if I.is_obj(r.v) else I.load(r)
            I.store(v.st.val, r)
        except CppThrow as e: I.store(v.st.exc, e)
        I.store(v.st.ready, True)
        return None
    def f_packaged_task_callop(self, I, f, this, args): return self.ptask_run(I, this.v, args)
    def f_packaged_task_get_future(self, I, f, this, args):
        if this.v.st is None: raise CppThrow(Lib("exc", ty="std::future_error", what=Str("no state")), "std::future_error")
        return Lib("future", st=this.v.st)
    f_promise_get_future = f_packaged_task_get_future
    def f_packaged_task_assign_op(self, I, f, this, args):
        nv = self.take(I, args[0]); old = I.cell(this.v); I.touch(this, True); this.v = nv; I.destroy(old); return this
    f_promise_assign_op = f_packaged_task_assign_op
    f_future_assign_op = f_packaged_task_assign_op
    def f_packaged_task_valid(self, I, f, this, args): return this.v.st is not None
    def f_promise_set_exception(self, I, f, this, args):
        st = this.v.st; I.store(st.exc, self.val(I, args[0])); I.store(st.ready, True)
    def f_promise_set_value(self, I, f, this, args):
        st = this.v.st; I.store(st.val, self.take(I, args[0]) if args else None); I.store(st.ready, True)
    def f_future_valid(self, I, f, this, args): return this.v.st is not None
    def f_future_wait(self, I, f, this, args):
        h = I.hooks.get("future-wait")
        I.ctx.event("future-wait")
        if h: h(I, this.v)
        elif this.v.st is None or not I.ctx.entails(Z(I.load(this.v.st.ready))): raise Undecided("wait for a future nobody completes")
    def f_future_wait_for(self, I, f, this, args):
        """waits until the result is there or the time is over, whichever the environment chooses"""
        if this.v.st is not None and not I.ctx.entails(Z(I.load(this.v.st.ready))) and I.ctx.fork(2): return 1
        self.f_future_wait(I, f, this, args); return 0
    f_future_wait_until = f_future_wait_for
    def f_future_get(self, I, f, this, args):
        self.f_future_wait(I, f, this, args)
        st = this.v.st; e = I.load(st.exc)
        this.v.st = None
        if isinstance(e, CppThrow): raise e
        if e is not None: raise self.thrown(I, e)
        return I.load(st.val)
    def f_make_exception_ptr(self, I, f, this, args): 
        v = self.val(I, args[0]); t = f.p[0].strip().n
        if t in (None, getattr(v, "ty", t)): return Lib("excptr", ty=getattr(v, "ty", t), what=getattr(v, "what", None), org=v)
        return Lib("excptr", ty=t, what=Str(t))      # sliced
    def f_current_exception(self, I, f, this, args):
        if not I.handling: raise Undecided("current_exception outside a handler")
        return Lib("excptr", ty=I.handling[-1].ty, what=None, thrown=I.handling[-1])
    def f_rethrow_exception(self, I, f, this, args): raise self.thrown(I, self.val(I, args[0]))
    def thrown(self, I, e):
        t = getattr(e, "thrown", None); return t if t is not None else CppThrow(e, getattr(e, "ty", "user"))
    def f_runtime_error_what(self, I, f, this, args): return CStr(this.v.what)
    # ------------------------------------------------------------ utility
    def f_move(self, I, f, this, args):
        c = self.cell_of(I, args[0]); return c
    def f_forward(self, I, f, this, args): return self.cell_of(I, args[0])
    f_as_const = f_forward
    def f_ref(self, I, f, this, args): return Lib("refw", c=args[0].c, t=args[0].ty)
    f_cref = f_ref
    def f_reference_wrapper_get(self, I, f, this, args): return this.v.c
    f_reference_wrapper_conv = f_reference_wrapper_get
    f_move_if_noexcept = f_move
    def f_swap(self, I, f, this, args):
        a, b = args[0].c, args[1].c
        va = I.move_value(a); vb = I.move_value(b)
        self.assign(I, a, vb); self.assign(I, b, va)
    def assign(self, I, c, v):
        """c = value"""
        if isinstance(c.v, RecV) and isinstance(v, RecV):
            fs = [g for g in I.P.find(c.v.cls.q + "::operator=") if g.d]
            fs = [g for g in fs if len(g.p) == 1]
            if fs:
                g = next((x for x in fs if x.p[0].k == "rref"), None) or fs[0]
                I.call(g, c, [Arg("x" if g.p[0].k == "rref" else "l" if g.p[0].k == "ref" else "r", I.cell(v, c.t) if g.p[0].k in ("ref", "rref") else v, g.p[0])]); return
        I.store(c, v)
    def f_exchange(self, I, f, this, args):
        old = I.move_value(args[0].c); self.assign(I, args[0].c, self.take(I, args[1])); return old
    def f_addressof(self, I, f, this, args): return Ptr(args[0].c)
    def f_min(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1]); return I.cell(ITE(fold(Z(b) < Z(a)), b, a))
    def f_max(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1]); return I.cell(ITE(fold(Z(a) < Z(b)), b, a))
    def f_make_pair(self, I, f, this, args): return Lib("pair", first=I.cell(self.take(I, args[0])), second=I.cell(self.take(I, args[1])))
    def new_object(self, I, t, args):
        """heap object of type t from forwarded args"""
        if t.k != "rec": return I.cell(self.take(I, args[0]) if args else 0, t)
        c = I.cell(UNINIT, t); c.heap = True; c.name = "new %s" % t.s
        if t.id in I.P.recs:
            fs = [g for g in I.P.ctors.get(t.id, []) if not g.del_ and (len(g.p) == len(args) or len(g.p) > len(args)) and (g.d or g.copy or g.move or g.dflt)]
            fs = self.pick(I, fs, args)
            if fs is None: raise Undecided("make of %s" % t.s)
            al = list(args)
            # conversions of arguments to by-value/reference std::string parameters
            al = [self.coerce(I, a, p) for a, p in zip(al, fs.p)]
            al += I.default_args(fs, len(al))
            I.construct(t, fs, al, c)
        else:
            tmp = Lib("f"); 
            c.v = self.make_lib(I, t, args)
        return c
    def make_lib(self, I, t, args):
        if not args: return self.default(I, t)
        class G: pass
        g = G(); g.copy = False; g.move = False; g.q = "make"; g.p = [a.ty for a in args]
        v = self.val(I, args[0])
        if len(args) == 1 and isinstance(v, Lib) and self.tname(t) == self.tname(args[0].ty.strip()): g.copy = True
        return self.construct(I, t, g, args)
    def coerce(self, I, a, p):
        pt = p.strip(); v = self.val(I, a) if not (isinstance(a.c, Cell) and isinstance(a.c.v, (RecV, Lib))) else a.c.v
        if pt.k == "rec" and pt.n == "std::basic_string" and isinstance(v, (CStr,)) or (pt.k == "rec" and pt.n == "std::basic_string" and isinstance(v, Lib) and v.kind == "chararr"):
            return Arg("r", self.S(I, a), pt)
        if pt.k == "rec" and pt.n == "std::function" and isinstance(v, (FnPtr, RecV)) :
            return Arg("r", Lib("func", target=I.cell(self.take(I, a) if isinstance(v, RecV) else v)), pt)
        if pt.k == "rec" and pt.n in ("std::unique_ptr",) and isinstance(v, Ptr): return Arg("r", Lib("uptr", p=I.cell(v), et=pt.args[0]), pt)
        return a
    def pick(self, I, fs, args):
        best = None; bs = -1
        for g in fs:
            if len(g.p) != len(args) and not (len(g.p) > len(args) and g.pd and all(d is not None for d in g.pd[len(args):])): continue
            s = 0; ok = True
            for a, p in zip(args, g.p):
                pt = p.strip(); at = a.ty.strip() if a.ty is not None else None
                if at is not None and pt.s.replace("const ", "") == at.s.replace("const ", ""): s += 3
                elif at is not None and pt.k == at.k == "rec" and pt.id and at.id and pt.id in I.P.recs and at.id in I.P.recs:
                    if I.P.derives(at.id, pt.id): s += 1
                    else: ok = False
                elif pt.k == "rec" and pt.n == "std::basic_string": s += 1
                elif at is not None and pt.k == at.k: s += 1
                elif pt.k == "rec" and at is not None and at.k == "rec" and pt.n == at.n: s += 1
                elif pt.k in ("int", "enum", "bool") and at is not None and at.k in ("int", "enum", "bool"): s += 1
                elif pt.k == "rec" and pt.n == "std::function": s += 1
                else: ok = False
                if p.k == "rref" and a.m == "l": ok = False
                if p.k == "rref" and a.m != "l": s += 1
                if p.k == "ref" and not p.t.c and a.m != "l": ok = False
            if ok and s > bs: best, bs = g, s
        return best
    def f_make_unique(self, I, f, this, args):
        t = f.r.args[0]; c = self.new_object(I, t, args); return Lib("uptr", p=I.cell(Ptr(c)), et=t)
    def f_make_shared(self, I, f, this, args):
        t = f.r.args[0]; c = self.new_object(I, t, args); return self.sp_new(I, c)
    # ------------------------------------------------------------ smart pointers
    def sp_new(self, I, c):
        ctl = Lib("ctl", n=I.cell(1), obj=c, ext=None)
        return Lib("sptr", p=I.cell(Ptr(c)), ctl=ctl)
    def sp_copy(self, I, v):
        if v.ctl is not None: I.store(v.ctl.n, self.plus(I.load(v.ctl.n), 1))
        return Lib("sptr", p=I.cell(I.load(v.p)), ctl=v.ctl)
    def plus(self, a, b): return a + b if isc(a) and isc(b) else fold(Z(a) + b)
    def sp_release(self, I, v):
        ctl = v.ctl
        if ctl is None: return
        v.ctl = None; v.p.v = NULL
        n = self.plus(I.load(ctl.n), -1); I.store(ctl.n, n)
        I.ctx.event("sp-release", ctl=ctl)
        if I.ctx.branch(EQ(n, 0)):
            I.ctx.event("sp-destroy", ctl=ctl)
            I.destroy(ctl.obj)
    def wp_event(self, I):
        """other threads may drop their share of an object at any access to a weak pointer"""
        h = I.hooks.get("wptr")
        if h: h(I)
    def wp_lock(self, I, v):
        self.wp_event(I)
        if v.ctl is None: return Lib("sptr", p=I.cell(NULL), ctl=None)
        n = I.load(v.ctl.n)
        if I.ctx.branch(EQ(n, 0)): return Lib("sptr", p=I.cell(NULL), ctl=None)
        I.store(v.ctl.n, self.plus(n, 1))
        return Lib("sptr", p=I.cell(Ptr(v.ctl.obj)), ctl=v.ctl)
    def f_wptr_lock(self, I, f, this, args): return self.wp_lock(I, this.v)
    def f_wptr_expired(self, I, f, this, args): self.wp_event(I); return EQ(I.load(this.v.ctl.n), 0) if this.v.ctl else True
    def f_wptr_assign_op(self, I, f, this, args):
        v = self.val(I, args[0]); n = Lib("wptr", ctl=v.ctl, p=I.load(v.p) if isinstance(v.p, Cell) else v.p)
        I.store(this, n); return this
    def f_wptr_reset(self, I, f, this, args): I.store(this, Lib("wptr", ctl=None, p=NULL))
    def f_wptr_use_count(self, I, f, this, args): self.wp_event(I); return I.load(this.v.ctl.n) if this.v.ctl else 0
    def f_sptr_use_count(self, I, f, this, args): return I.load(this.v.ctl.n) if this.v.ctl else 0
    def f_sptr_get(self, I, f, this, args): return I.load(this.v.p)
    f_sptr_arrow = f_sptr_get
    def f_sptr_star(self, I, f, this, args): return I.deref(I.load(this.v.p))
    def f_sptr_conv(self, I, f, this, args): return I.truth(I.load(this.v.p))
    def f_sptr_reset(self, I, f, this, args):
        old = Lib("sptr", p=I.cell(I.load(this.v.p)), ctl=this.v.ctl)
        I.touch(this, True)
        if args and self.val(I, args[0]).c is not None: n = self.sp_new(I, self.val(I, args[0]).c)
        else: n = Lib("sptr", p=I.cell(NULL), ctl=None)
        this.v = n; self.sp_release(I, old)
    def f_sptr_assign_op(self, I, f, this, args):
        n = self.val(I, args[0])
        if isinstance(n, Ptr): nv = Lib("sptr", p=I.cell(NULL), ctl=None)
        elif n.kind == "uptr":
            p = I.load(n.p); I.store(n.p, NULL); nv = self.sp_new(I, p.c) if p.c else Lib("sptr", p=I.cell(NULL), ctl=None)
        else: nv = self.take(I, args[0])
        old = this.v; I.touch(this, True); this.v = nv; self.sp_release(I, old); return this
    def f_function_swap(self, I, f, this, args): self.f_swap(I, f, None, [Arg("l", this, this.t), args[0]])
    def f_sptr_swap(self, I, f, this, args):
        a, b = this, args[0].c; a.v, b.v = b.v, a.v; I.touch(a, True); I.touch(b, True)
    def f_static_pointer_cast(self, I, f, this, args): return self.take(I, args[0])
    f_dynamic_pointer_cast = f_static_pointer_cast
    def f_uptr_get(self, I, f, this, args): return I.load(this.v.p)
    f_uptr_arrow = f_uptr_get
    def f_uptr_star(self, I, f, this, args): return I.deref(I.load(this.v.p))
    def f_uptr_conv(self, I, f, this, args): return I.truth(I.load(this.v.p))
    def f_uptr_release(self, I, f, this, args):
        p = I.load(this.v.p); I.store(this.v.p, NULL); return p
    def f_uptr_reset(self, I, f, this, args):
        n = self.val(I, args[0]) if args else NULL
        old = I.load(this.v.p); I.store(this.v.p, n)
        if isinstance(old, Ptr) and old.c is not None: I.destroy(old.c)
    def f_uptr_assign_op(self, I, f, this, args):
        v = self.val(I, args[0])
        n = NULL
        if isinstance(v, Lib):
            n = I.load(v.p); I.store(v.p, NULL)
            if v.p is this.v.p: I.store(v.p, n); return this
        old = I.load(this.v.p); I.store(this.v.p, n)
        if isinstance(old, Ptr) and old.c is not None: I.destroy(old.c)
        return this
    def f_uptr_swap(self, I, f, this, args):
        b = args[0].c; x, y = I.load(this.v.p), I.load(b.v.p); I.store(this.v.p, y); I.store(b.v.p, x)
    # ------------------------------------------------------------ mutex & co
    def lock(self, I, m):
        I.touch(m)
        x = I.ctx
        if "before-lock" in I.hooks: I.hooks["before-lock"](I, m)
        if any(h is m for h in I.held): x.fail("no mutex is locked twice by one thread", "line %s" % I.line, True); raise PathEnd("deadlock")
        I.held.append(m); x.event("lock", m=m)
        h = I.hooks.get("lock")
        if h: h(I, m)
    def unlock(self, I, l):
        if not l.owns: return
        l.owns = False; m = l.m
        self.unlock_m(I, m)
    def unlock_m(self, I, m):
        h = I.hooks.get("unlock")
        if h: h(I, m)
        I.held = [x for x in I.held if x is not m]; I.ctx.event("unlock", m=m)
    def f_mutex_lock(self, I, f, this, args): self.lock(I, this)
    def f_mutex_unlock(self, I, f, this, args):
        if not any(h is this for h in I.held): I.ctx.fail("no mutex is unlocked that is not held", "", True); raise PathEnd("unlock")
        self.unlock_m(I, this)
    def f_mutex_try_lock(self, I, f, this, args):
        if I.ctx.fork(2): return False
        self.lock(I, this); return True
    def f_lock_unlock(self, I, f, this, args):
        if not this.v.owns: raise CppThrow(Lib("exc", ty="std::system_error", what=Str("unlock")), "std::system_error")
        self.unlock(I, this.v)
    def f_lock_lock(self, I, f, this, args): self.lock(I, this.v.m); this.v.owns = True
    def f_lock_owns_lock(self, I, f, this, args): return this.v.owns
    def f_condition_variable_notify_one(self, I, f, this, args): I.ctx.event("notify", cv=this, all=False, held=list(I.held))
    def f_condition_variable_notify_all(self, I, f, this, args): I.ctx.event("notify", cv=this, all=True, held=list(I.held))
    def f_condition_variable_wait(self, I, f, this, args):
        l = args[0].c.v
        if not l.owns: I.ctx.fail("waiting requires holding the mutex", "", True); raise PathEnd("wait")
        def once():
            I.ctx.event("wait", cv=this, m=l.m)
            m = l.m; self.unlock_m(I, m)
            h = I.hooks.get("wait")
            if h: h(I, this, m)
            self.lock(I, m)
        if len(args) == 1: once(); return None
        p = args[1]
        pc = p.c if isinstance(p.c, Cell) else I.cell(p.c)
        if I.ctx.branch(I.truth(I.invoke(pc, []))): return None
        I.hooks.get("blocked", lambda *a: None)(I)
        once()
        r = I.truth(I.invoke(pc, []))
        I.ctx.assume(fold(r) if not isinstance(r, bool) else r)
        return None
    def f_call_once(self, I, f, this, args):
        fl = args[0].c.v
        if "before-once" in I.hooks: I.hooks["before-once"](I, fl)
        if I.ctx.branch(I.load(fl.done)): return None
        if getattr(fl, "busy", None) is not None:
            if "once-busy" in I.hooks: I.hooks["once-busy"](I, fl)
            I.ctx.fail("no thread waits for itself (std::call_once)", "line %s" % I.line, True); raise PathEnd("deadlock")
        c = args[1].c if isinstance(args[1].c, Cell) else I.cell(args[1].c)
        fl.busy = True
        if "once-begin" in I.hooks: I.hooks["once-begin"](I, fl)
        try: I.invoke(c, args[2:])
        finally: fl.busy = None
        I.store(fl.done, True)
    def f_thread_join(self, I, f, this, args):
        st = I.load(this.v.st)
        if st != "running": raise CppThrow(Lib("exc", ty="std::system_error", what=Str("join")), "std::system_error")
        I.ctx.event("join", th=this)
        h = I.hooks.get("join")
        if h: h(I, this)
        I.store(this.v.st, "none")
    def f_thread_get_id(self, I, f, this, args):
        return Lib("tid", id=getattr(this.v, "tid", 0) if I.load(this.v.st) == "running" else 0)
    def f_thread_joinable(self, I, f, this, args): return I.load(this.v.st) == "running"
    def f_thread_detach(self, I, f, this, args): I.ctx.event("detach", th=this); I.store(this.v.st, "none")
    def f_thread_assign_op(self, I, f, this, args):
        v = self.val(I, args[0])
        if I.load(this.v.st) == "running": I.terminate("assignment to a joinable std::thread")
        I.store(this.v.st, I.load(v.st)); this.v.fn = getattr(v, "fn", None); this.v.tid = getattr(v, "tid", 0); I.store(v.st, "none"); return this
    def f_get_id(self, I, f, this, args): return Lib("tid", id=I.hooks["tid"](I) if "tid" in I.hooks else I.ctx.ufint("this_thread_id", lo=0))
    def f_id_id(self, I, f, this, args): return self.take(I, args[0])
    def f_sleep_for(self, I, f, this, args):
        I.ctx.event("sleep"); h = I.hooks.get("sleep")
        if h: h(I)
    f_sleep_until = f_sleep_for
    def f_yield(self, I, f, this, args): I.ctx.event("sleep")
    # atomics
    def aload(self, I, this):
        h = I.hooks.get("atomic-load")
        if h: h(I, this)
        v = I.load(this.v.v); I.ctx.event("aload", a=this, v=v); return v
    def astore(self, I, this, v):
        I.store(this.v.v, v); I.ctx.event("astore", a=this, v=v)
    def f_atomic_load(self, I, f, this, args): return self.aload(I, this)
    f_atomic_conv = f_atomic_load
    def aval(self, I, this, a):
        v = self.val(I, a); t = this.v.v.t
        return I.truth(v) if t is not None and t.k == "bool" else v
    def meanwhile(self, I, this):
        """other threads may run between an earlier load and a plain store"""
        h = I.hooks.get("atomic-store")
        if h: h(I, this)
    def f_atomic_store(self, I, f, this, args): self.meanwhile(I, this); self.astore(I, this, self.aval(I, this, args[0]))
    def f_atomic_assign_op(self, I, f, this, args): v = self.aval(I, this, args[0]); self.meanwhile(I, this); self.astore(I, this, v); return v
    def f_atomic_exchange(self, I, f, this, args):
        o = self.aload(I, this); self.astore(I, this, self.aval(I, this, args[0])); return o
    def f_atomic_fetch_add(self, I, f, this, args):
        o = self.aload(I, this); t = this.v.v.t
        n = self.plus(o, self.val(I, args[0])) if isc(o) and isc(self.val(I, args[0])) else fold(Z(o) + Z(self.val(I, args[0])))
        if t is not None: n = I.wrap(n, *I.irange(t))
        self.astore(I, this, n); return o
    def f_atomic_inc(self, I, f, this, args):
        o = self.aload(I, this); n = fold(Z(o) + 1); t = this.v.v.t
        if t is not None: n = I.wrap(n, *I.irange(t))
        self.astore(I, this, n); return n if not args else o
    def f_atomic_compare_exchange_strong(self, I, f, this, args):
        o = self.aload(I, this); e = I.load(args[0].c)
        eq = I.compare("==", o, e)
        if I.ctx.branch(eq): self.astore(I, this, self.aval(I, this, args[1])); return True
        I.store(args[0].c, o); return False
    f_atomic_compare_exchange_weak = f_atomic_compare_exchange_strong
    # ------------------------------------------------------------ strings
    def mk_string(self, I, t, f, args):
        if not args: return EMPTY
        a = args[0]; v = self.val(I, a)
        if isinstance(v, Lib) and v.kind == "opaque": return EMPTY
        if isinstance(v, Lib) and v.kind == "siter":
            b = self.val(I, args[1])
            if v.c is None or b.c is not v.c: raise Undecided("string from iterators")
            _, r = I.ctx.cut(self.content(I, v.c), v.off); m, _ = I.ctx.cut(r, fold(Z(b.off) - Z(v.off))); return m
        if isinstance(v, (Str,)) and len(args) == 1:
            return I.move_value(a.c) if f.move and a.m == "x" else v
        def opq_(x):
            y = x.c.v if isinstance(x.c, Cell) else x.c
            return isinstance(y, Lib) and y.kind == "opaque"
        n = [x for x in args if not opq_(x)]
        if len(n) == 2:
            w = self.val(I, n[1])
            if isinstance(v, (CStr,)) :
                s, off = self.cs(I, v); _, r = I.ctx.cut(s, off); 
                if I.ctx.branch(fold(Z(w) <= Z(I.ctx.slen(r)))): return I.ctx.cut(r, w)[0]
                raise Undecided("string(ptr, n) beyond text")
            if isinstance(v, Str): return self.substr(I, v, w, NPOS)
            if (isc(v) or isinstance(v, z3.ExprRef)):
                ch = self.chr_of(I, w)
                if not isc(v):
                    for k in range(41):
                        if I.ctx.branch(EQ(v, k)): v = k; break
                    else:
                        if not isc(w): raise Undecided("string(n,c) symbolic")
                        if not I.ctx.entails(fold(Z(v) < (1 << 60))): raise CppThrow(Lib("exc", ty="std::length_error", what=Str("string")), "std::length_error")
                        a = I.ctx.atom("filled", frozenset([w % 256])); I.ctx.assume(EQ(a.len, v)); return Str((a,))
                if v > 1 << 62: raise CppThrow(Lib("exc", ty="std::length_error", what=Str("string")), "std::length_error")
                return Str(tuple([ch] * v))
        if len(n) == 3 and isinstance(v, Str): return self.substr(I, v, self.val(I, n[1]), self.val(I, n[2]))
        if isinstance(v, Lib) and v.kind == "initlist": return Str(tuple(self.chr_of(I, I.load(c)) for c in v.el))
        return self.S(I, a)
    def substr(self, I, s, pos, n):
        x = I.ctx; L = x.slen(s)
        if not x.branch(fold(Z(pos) <= Z(L))): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("substr")), "std::out_of_range")
        _, r = x.cut(s, pos)
        if n == NPOS: return r
        if x.branch(fold(Z(n) >= Z(x.slen(r)))): return r
        return x.cut(r, n)[0]
    def str_(self, I, this): return I.load(this)
    def f_string_c_str(self, I, f, this, args): 
        return CStr(I.load(this), 0, this) if True else None
    f_string_data = f_string_c_str
    def f_string_size(self, I, f, this, args):
        s = I.ctx.norm(I.load(this))
        for p in s.p:
            if isinstance(p, Atom) and p.dec is not None: I.ctx.declen(p)
        return I.ctx.slen(s)
    f_string_length = f_string_size
    def f_string_empty(self, I, f, this, args): return self.is_empty(I, I.load(this))
    def is_empty(self, I, s): return EQ(I.ctx.slen(s), 0)
    def f_string_clear(self, I, f, this, args): I.store(this, EMPTY)
    def f_string_reserve(self, I, f, this, args): return None
    f_string_shrink_to_fit = f_string_reserve
    def f_string_capacity(self, I, f, this, args): return I.ctx.int("capacity", 0)
    def f_string_assign_op(self, I, f, this, args):
        a = args[0]
        if isinstance(a.c, Cell) and isinstance(a.c.v, Str) and f.move and a.m != "l":
            if a.c is this: return this
            v = I.move_value(a.c)
        else: v = self.S(I, a)
        I.store(this, v); return this
    def f_string_assign(self, I, f, this, args):
        if len(args) == 1: return self.f_string_assign_op(I, f, this, args)
        I.store(this, self.mk_string(I, None, f, args)); return this
    def f_string_append(self, I, f, this, args):
        n = len(args); v0 = self.val(I, args[0])
        if n == 2 and (isc(v0) or isinstance(v0, z3.ExprRef)) or n == 2:
            s = self.mk_string(I, None, f, args)
        elif n == 3: s = self.substr(I, self.S(I, args[0]), self.val(I, args[1]), self.val(I, args[2]))
        else: s = self.S(I, args[0])
        I.store(this, I.load(this) + s); return this
    f_string_addeq = f_string_append
    def f_string_push_back(self, I, f, this, args): I.store(this, I.load(this) + self.S(I, args[0]))
    def f_string_pop_back(self, I, f, this, args):
        s = I.load(this)
        if not I.ctx.branch(NOT(self.is_empty(I, s))): I.ctx.fail("no element is removed from an empty string", "", True); raise PathEnd("pop_back")
        _, r = I.ctx.lasttail(s); I.store(this, r)
    def charref(self, I, this, i):
        return self.charcell(I, CStr(None, 0, this), i)
    def f_string_at(self, I, f, this, args):
        i = self.val(I, args[0])
        if not I.ctx.branch(AND(fold(Z(i) >= 0), fold(Z(i) < Z(I.ctx.slen(I.load(this)))))): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("at")), "std::out_of_range")
        return self.charref(I, this, i)
    def f_string_index(self, I, f, this, args): return self.charref(I, this, self.val(I, args[0]))
    def f_string_front(self, I, f, this, args): self.nonempty(I, this); return self.charref(I, this, 0)
    def f_string_back(self, I, f, this, args):
        self.nonempty(I, this)
        c, r = I.ctx.lasttail(I.load(this)); 
        def st(v): raise Undecided("write to back()")
        return I.cell(Lib("proxy", get=lambda: self.chr_val(I, c), set=st))
    def nonempty(self, I, this):
        if not I.ctx.branch(NOT(self.is_empty(I, I.load(this)))): I.ctx.fail("no element of an empty string is accessed", "", True); raise PathEnd("empty access")
    def f_string_substr(self, I, f, this, args):
        return self.substr(I, I.load(this), self.val(I, args[0]) if args else 0, self.val(I, args[1]) if len(args) > 1 else NPOS)
    def chset(self, I, a):
        v = self.val(I, a)
        if isc(v): return frozenset([v % 256])
        s = self.S(I, a).lit()
        if s is None:
            p = I.ctx.norm(self.S(I, a)).p
            if len(p) == 1 and isinstance(p[0], Chr): raise Undecided("symbolic character set")
            raise Undecided("symbolic character set")
        return cset(s)
    def findset(self, I, this, args, neg=False, last=False):
        s = I.load(this); v = self.val(I, args[0])
        if isinstance(v, z3.ExprRef) and not neg and not last: return self.find_code(I, s, fold(v % 256), self.val(I, args[1]) if len(args) > 1 else 0)
        cs = self.chset(I, args[0])
        if neg: cs = ALL - cs
        pos = self.val(I, args[1]) if len(args) > 1 else (NPOS if last else 0)
        x = I.ctx
        if len(args) > 2: raise Undecided("find with count")
        if last:
            if not (isc(pos) and pos == NPOS) : 
                if x.branch(fold(Z(pos) + 1 >= Z(x.slen(s)))): pass
                else: s = x.cut(s, fold(Z(pos) + 1))[0]
            r = x.find_set(s, cs, True)
            return NPOS if r is None else x.slen(r[0])
        base = 0
        if not (isc(pos) and pos == 0):
            if not x.branch(fold(Z(pos) < Z(x.slen(s)))): return NPOS
            base = pos; _, s = x.cut(s, pos)
        r = x.find_set(s, cs)
        return NPOS if r is None else fold(Z(base) + Z(x.slen(r[0])))
    def f_string_find_first_of(self, I, f, this, args): return self.findset(I, this, args)
    def f_string_find_last_of(self, I, f, this, args): return self.findset(I, this, args, last=True)
    def f_string_find_first_not_of(self, I, f, this, args): return self.findset(I, this, args, neg=True)
    def f_string_find_last_not_of(self, I, f, this, args): return self.findset(I, this, args, neg=True, last=True)
    def find_code(self, I, s, code, pos=0):
        """position of a symbolic character in a literal text"""
        t = I.ctx.norm(s).lit()
        if t is None or not isc(pos): raise Undecided("find of a symbolic character")
        t = t[pos:]
        if not I.ctx.branch(I.ctx.chartest(code, cset(t))): return NPOS
        for c in dict.fromkeys(t):
            if I.ctx.branch(EQ(code, ord(c))): return t.index(c) + pos
        raise PathEnd("infeasible")
    def f_string_find(self, I, f, this, args):
        v = self.val(I, args[0])
        if isc(v): return self.findset(I, this, args)
        if isinstance(v, z3.ExprRef): return self.find_code(I, I.load(this), fold(v % 256), self.val(I, args[1]) if len(args) > 1 else 0)
        sp = I.ctx.norm(self.S(I, args[0])); pat = sp.lit()
        if pat is None and len(sp.p) == 1 and isinstance(sp.p[0], Chr): return self.find_code(I, I.load(this), sp.p[0].code, self.val(I, args[1]) if len(args) > 1 else 0)
        if pat is None: raise Undecided("find of a symbolic pattern")
        if len(pat) == 1: return self.findset(I, this, args)
        x = I.ctx; s = I.load(this); pos = self.val(I, args[1]) if len(args) > 1 else 0; base = 0
        if not (isc(pos) and pos == 0):
            if not x.branch(fold(Z(pos) <= Z(x.slen(s)))): return NPOS
            base = pos; _, s = x.cut(s, pos)
        if pat == "": return base
        r = x.find_lit(s, pat)
        return NPOS if r is None else fold(Z(base) + Z(x.slen(r[0])))
    def f_string_rfind(self, I, f, this, args):
        v = self.val(I, args[0])
        if isc(v): return self.findset(I, this, args, last=True)
        pat = self.S(I, args[0]).lit()
        if pat is not None and len(pat) == 1: return self.findset(I, this, args, last=True)
        raise Undecided("rfind of a string")
    def f_string_erase(self, I, f, this, args):
        x = I.ctx; s = I.load(this)
        a = self.val(I, args[0]) if args else 0
        if isinstance(a, Lib) and a.kind == "siter":
            if len(args) == 1: b = fold(Z(a.off) + 1)
            else: b = self.val(I, args[1]).off
            l, r = x.cut(s, a.off); _, r2 = x.cut(r, fold(Z(b) - Z(a.off)))
            I.store(this, l + r2); return Lib("siter", c=this, off=a.off)
        n = self.val(I, args[1]) if len(args) > 1 else NPOS
        L = x.slen(s)
        if not x.branch(fold(Z(a) <= Z(L))): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("erase")), "std::out_of_range")
        l, r = x.cut(s, a)
        if n == NPOS or x.branch(fold(Z(n) >= Z(x.slen(r)))): I.store(this, l)
        else: I.store(this, l + x.cut(r, n)[1])
        return this
    def f_string_insert(self, I, f, this, args):
        x = I.ctx; s = I.load(this); a = self.val(I, args[0])
        if isinstance(a, Lib) and a.kind == "siter":
            l, r = x.cut(s, a.off); I.store(this, l + self.S(I, args[1]) + r); return Lib("siter", c=this, off=a.off)
        if len(args) == 3: 
            n = self.val(I, args[1])
            if not isc(n): raise Undecided("insert count")
            ins = Str(tuple([self.chr_of(I, self.val(I, args[2]))] * n))
        else: ins = self.S(I, args[1])
        if not x.branch(fold(Z(a) <= Z(x.slen(s)))): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("insert")), "std::out_of_range")
        l, r = x.cut(s, a); I.store(this, l + ins + r); return this
    def f_string_replace(self, I, f, this, args):
        x = I.ctx; s = I.load(this); a = self.val(I, args[0]); n = self.val(I, args[1])
        if isinstance(a, Lib): raise Undecided("replace by iterators")
        if len(args) != 3: raise Undecided("replace form")
        ins = self.S(I, args[2])
        if not x.branch(fold(Z(a) <= Z(x.slen(s)))): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("replace")), "std::out_of_range")
        l, r = x.cut(s, a)
        if n == NPOS or x.branch(fold(Z(n) >= Z(x.slen(r)))): r = EMPTY
        else: _, r = x.cut(r, n)
        I.store(this, l + ins + r); return this
    def f_string_compare(self, I, f, this, args):
        if len(args) != 1: raise Undecided("compare with positions")
        e = I.ctx.seq(I.load(this), self.S(I, args[0]))
        if I.ctx.branch(e): return 0
        v = I.ctx.int("cmp"); I.ctx.assume(v != 0); return v
    def f_string_swap(self, I, f, this, args): 
        b = args[0].c; x, y = I.load(this), I.load(b); I.store(this, y); I.store(b, x)
    def f_string_resize(self, I, f, this, args):
        n = self.val(I, args[0]); x = I.ctx; s = I.load(this); L = x.slen(s)
        if x.branch(fold(Z(n) <= Z(L))): I.store(this, x.cut(s, n)[0]); return
        d = fold(Z(n) - Z(L))
        if isc(d) and d < 64: I.store(this, s + Str(tuple([self.chr_of(I, self.val(I, args[1]) if len(args) > 1 else 0)] * d))); return
        raise Undecided("resize to a larger size")
    def f_string_begin(self, I, f, this, args): return Lib("siter", c=this, off=0)
    f_string_cbegin = f_string_begin
    def f_string_rbegin(self, I, f, this, args): return Lib("riter", c=this, off=I.ctx.slen(I.load(this)))
    def f_string_rend(self, I, f, this, args): return Lib("riter", c=this, off=0)
    f_string_crbegin = f_string_rbegin; f_string_crend = f_string_rend
    def f_riter_base(self, I, f, this, args): return Lib("siter", c=this.v.c, off=this.v.off)
    def f_riter_star(self, I, f, this, args): return self.charref(I, this.v.c, fold(Z(this.v.off) - 1))
    def f_riter_inc(self, I, f, this, args):
        v = this.v; I.store(this, Lib("riter", c=v.c, off=fold(Z(v.off) - 1))); return this if not args else v
    def f_riter_assign_op(self, I, f, this, args): I.store(this, self.take(I, args[0])); return this
    def is_ri(self, I, a): v = self.val(I, a); return isinstance(v, Lib) and v.kind == "riter"
    def ri_find(self, I, args, cs):
        c, l, m, _ = self.span(I, [args[1], args[0]]); r = I.ctx.find_set(m, cs, True)
        return Lib("riter", c=c, off=I.ctx.slen(l) if r is None else fold(Z(I.ctx.slen(l + r[0])) + 1))
    def f_string_end(self, I, f, this, args): return Lib("siter", c=this, off=I.ctx.slen(I.load(this)))
    f_string_cend = f_string_end
    def f_string_conv(self, I, f, this, args): return Lib("strview", s=I.load(this))
    def f_remove_if(self, I, f, this, args):
        a = self.val(I, args[0])
        if isinstance(a, Lib) and a.kind == "iter": return self.vec_remove(I, args, self.elem_pred(I, args[2], a))
        return self.remove(I, args, self.pred_set(I, args[2]))
    def pred_set(self, I, a):
        v = self.val(I, a)
        if isinstance(v, FnPtr) and v.q in ("isspace", "std::isspace"): return WS
        if isinstance(v, RecV) and v.cls.lam:
            # evaluate the predicate on every character code
            out = set()
            c = a.c if isinstance(a.c, Cell) else I.cell(a.c)
            for k in range(256):
                r = I.truth(I.invoke(c, [Arg("r", k - 256 if k > 127 else k, None)]))
                if not isinstance(r, bool): r = fold(r)
                if not isinstance(r, bool): raise Undecided("symbolic predicate")
                if r: out.add(k)
            return frozenset(out)
        raise Undecided("predicate %r" % (v,))
    def f_remove(self, I, f, this, args):
        a = self.val(I, args[0])
        if isinstance(a, Lib) and a.kind == "siter": return self.remove(I, args, self.chset(I, args[2]))
        return self.vec_remove(I, args, lambda e: self.same_elem(I, e, args[2]))
    def remove(self, I, args, cs):
        a, b = self.val(I, args[0]), self.val(I, args[1]); x = I.ctx
        if a.kind != "siter": raise Undecided("remove_if on container")
        if cs is None: raise Undecided("remove")
        s = self.content(I, a.c)
        l, r = x.cut(s, a.off); m, r2 = x.cut(r, fold(Z(b.off) - Z(a.off)))
        k = x.maprope(m, {}, ALL - cs)
        d = fold(Z(x.slen(m)) - Z(x.slen(k)))
        if isc(d) and d == 0: tail = EMPTY
        else: t = x.atom("removed-tail"); x.assume(t.len == d); tail = Str((t,))
        I.store(a.c, l + k + tail + r2)
        return Lib("siter", c=a.c, off=x.slen(l + k))
    def f_replace(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1]); x = I.ctx
        if a.kind != "siter": raise Undecided("replace on container")
        o, n = self.val(I, args[2]), self.val(I, args[3])
        if not isc(o) or not isc(n): raise Undecided("symbolic replace")
        s = self.content(I, a.c)
        l, r = x.cut(s, a.off); m, r2 = x.cut(r, fold(Z(b.off) - Z(a.off)))
        I.store(a.c, l + x.maprope(m, {o % 256: n % 256}, ALL) + r2)
    def f_isspace(self, I, f, this, args):
        v = self.val(I, args[0]); return ITE(I.ctx.chartest(self.code(v), WS), 1, 0)
    def code(self, v): return v % 256 if isc(v) else fold(z3.If(v < 0, v + 256, v))
    def f_strlen(self, I, f, this, args): return I.ctx.slen(self.S(I, args[0]))
    def f_strcmp(self, I, f, this, args): return ITE(I.ctx.seq(self.S(I, args[0]), self.S(I, args[1])), 0, 1)
    def f_to_string(self, I, f, this, args):
        v = I.as_i(self.val(I, args[0])); return I.ctx.decimal(v)
    def f_op_add(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if isinstance(a, Lib) and a.kind in ("tp", "dur"): return self.tadd(I, a, b, 1, f)
        if isinstance(a, Lib) and a.kind == "siter": return Lib("siter", c=a.c, off=fold(Z(a.off) + Z(b)))
        return self.S(I, args[0]) + self.S(I, args[1])
    def f_op_sub(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if isinstance(a, Lib) and a.kind in ("tp", "dur"): return self.tadd(I, a, b, -1, f)
        if isinstance(a, Lib) and a.kind == "siter" and isinstance(b, Lib): return fold(Z(a.off) - Z(b.off))
        raise Undecided("operator-")
    def f_op_eq(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        return self.equal(I, args[0], args[1], a, b)
    def equal(self, I, x, y, a, b):
        ks = {v.kind for v in (a, b) if isinstance(v, Lib)}
        if "iter" in ks: return self.iter_eq(I, a, b)
        if "siter" in ks or "riter" in ks: return EQ(a.off, b.off)
        if ks & {"uptr", "sptr"}:
            pa, pb = [I.load(v.p) if isinstance(v, Lib) else v for v in (a, b)]
            return self.ptr_eq(I, pa, pb)
        if "tp" in ks or "dur" in ks: return self.tcmp(I, "==", a, b)
        if "tid" in ks: return EQ(a.id, b.id)
        if "func" in ks: f = a if isinstance(a, Lib) and a.kind == "func" else b; return f.target is None
        if isinstance(a, (Str, CStr)) or isinstance(b, (Str, CStr)) or "chararr" in ks or "strview" in ks: return I.ctx.seq(self.S(I, x), self.S(I, y))
        if "fpos" in ks: return EQ(*[v.n if isinstance(v, Lib) else v for v in (a, b)])
        if ks: raise Undecided("comparison of %s" % sorted(ks))
        return I.compare("==", a, b)
    def f_op_ne(self, I, f, this, args): return NOT(self.f_op_eq(I, f, this, args))
    def f_iter_eq(self, I, f, this, args): return self.f_op_eq(I, f, None, [this] + args)
    def f_iter_ne(self, I, f, this, args): return NOT(self.f_op_eq(I, f, None, [this] + args))
    def cmpop(self, I, op, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if isinstance(a, Lib) and a.kind in ("tp", "dur"): return self.tcmp(I, op, a, b)
        raise Undecided("operator%s" % op)
    def f_op_lt(self, I, f, this, args): return self.cmpop(I, "<", args)
    def f_op_gt(self, I, f, this, args): return self.cmpop(I, ">", args)
    def f_op_le(self, I, f, this, args): return self.cmpop(I, "<=", args)
    def f_op_ge(self, I, f, this, args): return self.cmpop(I, ">=", args)
    # ------------------------------------------------------------ time
    def conv_n(self, I, n, frm, to):
        if frm == to: return n
        if frm > to and frm % to == 0:
            r = n * (frm // to) if isc(n) else fold(n * (frm // to)); return r
        if to % frm == 0: return self.tdiv(I, n, to // frm)
        raise Undecided("duration conversion")
    def tdiv(self, I, n, d):
        if isc(n): q = abs(n) // d; return q if n >= 0 else -q
        q, r = I.ctx.divmod(n, d)
        if I.ctx.entails(n >= 0): return q
        return fold(z3.If(z3.And(n < 0, r != 0), q + 1, q))
    def fdiv(self, I, n, d): return I.ctx.divmod(n, d)[0]
    def conv_dur(self, I, v, per): return Lib("dur", n=self.conv_n(I, v.n, v.per, per), per=per)
    def tadd(self, I, a, b, sg, f):
        per = min(a.per, b.per)
        x = self.conv_n(I, a.n, a.per, per); y = self.conv_n(I, b.n, b.per, per)
        r = fold(Z(x) + sg * Z(y))
        k = "tp" if (a.kind == "tp") != (b.kind == "tp") else "dur" if (a.kind == "dur" or sg < 0) else "tp"
        lo, hi = -(1 << 63), (1 << 63) - 1
        if not I.ctx.entails(AND(fold(Z(r) >= lo), fold(Z(r) <= hi))):
            I.ctx.event("time-overflow-assumed")
            I.ctx.pr.trust.add("assumed: no 64-bit overflow in std::chrono arithmetic (time points within the representable range)")
            I.ctx.assume(AND(fold(Z(r) >= lo), fold(Z(r) <= hi)))
        return Lib(k, n=r, per=per)
    def tcmp(self, I, op, a, b):
        per = min(a.per, b.per)
        return I.compare(op, self.conv_n(I, a.n, a.per, per), self.conv_n(I, b.n, b.per, per))
    def f_duration_cast(self, I, f, this, args): return self.conv_dur(I, self.val(I, args[0]), self.period(f.r))
    def f_time_point_cast(self, I, f, this, args):
        v = self.val(I, args[0]); p = self.period(f.r); return Lib("tp", n=self.conv_n(I, v.n, v.per, p), per=p)
    def f_floor(self, I, f, this, args):
        v = self.val(I, args[0]); p = self.period(f.r)
        n = self.fdiv(I, v.n, p // v.per) if p >= v.per else self.conv_n(I, v.n, v.per, p)
        return Lib(v.kind, n=n, per=p)
    def f_duration_count(self, I, f, this, args): return this.v.n
    def dur_op(self, I, this, args, sg):
        r = self.tadd(I, this.v, self.val(I, args[0]), sg, None); per = this.v.per
        I.store(this, Lib(this.v.kind, n=self.conv_n(I, r.n, r.per, per), per=per)); return this
    def f_duration_subeq(self, I, f, this, args): return self.dur_op(I, this, args, -1)
    def f_duration_addeq(self, I, f, this, args): return self.dur_op(I, this, args, 1)
    f_time_point_addeq = f_duration_addeq
    f_time_point_subeq = f_duration_subeq
    def f_op_mod(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if not (isinstance(a, Lib) and a.kind == "dur"): raise Undecided("operator%")
        if isinstance(b, Lib):
            per = min(a.per, b.per); x = self.conv_n(I, a.n, a.per, per); y = self.conv_n(I, b.n, b.per, per)
        else: per, x, y = a.per, a.n, b
        if not isc(y): raise Undecided("duration %")
        q = self.tdiv(I, x, y); return Lib("dur", n=fold(Z(x) - Z(q) * y), per=per)
    def f_op_div(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if isinstance(a, Lib) and a.kind == "dur":
            if isinstance(b, Lib):
                per = min(a.per, b.per); x = self.conv_n(I, a.n, a.per, per); y = self.conv_n(I, b.n, b.per, per)
                if isc(y) and y > 0: return self.tdiv(I, x, y)
            elif isc(b) and b > 0: return Lib("dur", n=self.tdiv(I, a.n, b), per=a.per)
        raise Undecided("operator/")
    def f_time_point_time_since_epoch(self, I, f, this, args): return Lib("dur", n=this.v.n, per=this.v.per)
    def f_system_clock_now(self, I, f, this, args):
        h = I.hooks.get("now")
        I.ctx.event("now")
        n = h(I) if h else I.ctx.int("now", -(1 << 62), (1 << 62))
        return Lib("tp", n=n, per=1)
    f_now = f_system_clock_now
    f_high_resolution_clock_now = f_system_clock_now
    f_steady_clock_now = f_system_clock_now
    def f_system_clock_to_time_t(self, I, f, this, args):
        v = self.val(I, args[0]); return self.conv_n(I, v.n, v.per, 10 ** 9)
    f_to_time_t = f_system_clock_to_time_t
    def f_system_clock_from_time_t(self, I, f, this, args):
        return Lib("tp", n=self.conv_n(I, self.val(I, args[0]), 10 ** 9, 1), per=1)
    # ------------------------------------------------------------ streams
    def put(self, I, st, s):
        st = st.v if isinstance(st, Cell) else st
        w = I.load(st.width)
        if isc(w) and w > 0:
            L = I.ctx.slen(s)
            if not isc(L):
                p = I.ctx.norm(s).p
                if len(p) == 1 and isinstance(p[0], Atom) and p[0].dec is not None: L = I.ctx.declen(p[0])
                else: raise Undecided("setw on text of unknown length")
            if L < w: s = Str(chr(I.load(st.fill)) * (w - L)) + s
            I.store(st.width, 0)
        elif not isc(w): raise Undecided("symbolic width")
        if st.kind == "ofstream":
            if "ofstream-put" in I.hooks: I.hooks["ofstream-put"](I, st, s)
            else: I.store(st.buf, I.load(st.buf) + s)
            return
        if st.name is not None: I.ctx.event("out", stream=st.name, text=s)
        else: I.store(st.buf, I.load(st.buf) + s)
    def is_alpha(self, I, st): return I.ctx.branch(I.load(st.alpha))
    def fmtval(self, I, st, v, ty):
        t = ty.strip() if ty is not None else None
        if isinstance(v, bool) or isinstance(v, z3.ExprRef) and z3.is_bool(v) or (t is not None and t.k == "bool"):
            b = I.ctx.branch(I.truth(v))
            if self.is_alpha(I, st): return Str("true" if b else "false")
            return Str("1" if b else "0")
        if isinstance(v, (int, z3.ExprRef)):
            if t is not None and t.k == "int" and t.w == 8: return Str((self.chr_of(I, v),))
            return I.ctx.decimal(v)
        if isinstance(v, Ptr): return I.ctx.ufstr("address", v.c.uid if v.c else 0)
        raise Undecided("output of %r" % (v,))
    def f_stream_shl(self, I, f, this, args):
        v = self.val(I, args[0])
        if isinstance(v, FnPtr): self.manip(I, this, v.q); return this
        self.put(I, this, self.fmtval(I, this.v, v, f.p[0])); return this
    f_ofstream_shl = f_stream_shl
    def manip(self, I, this, q):
        n = q.split("::")[-1]; st = this.v
        if n == "endl": self.put(I, this, Str("\n")); self.flush(I, this)
        elif n == "flush": self.flush(I, this)
        elif n == "boolalpha": I.store(st.alpha, True)
        elif n == "noboolalpha": I.store(st.alpha, False)
        elif n in ("dec", "left", "right"): pass
        else: raise Undecided("manipulator %s" % q)
    def flush(self, I, this):
        st = this.v
        if st.kind == "ofstream":
            if "ofstream-flush" in I.hooks: I.hooks["ofstream-flush"](I, st)
        elif st.name: I.ctx.event("flush", stream=st.name)
    def f_endl(self, I, f, this, args): self.manip(I, args[0].c, "endl"); return args[0].c
    def f_flush(self, I, f, this, args): self.flush(I, args[0].c); return args[0].c
    def f_stream_flush(self, I, f, this, args): self.flush(I, this); return this
    f_ofstream_flush = f_stream_flush
    def f_boolalpha(self, I, f, this, args): self.manip(I, args[0].c, "boolalpha"); return args[0].c
    def f_setw(self, I, f, this, args): return Lib("mani", k="width", n=self.val(I, args[0]))
    def f_setfill(self, I, f, this, args): return Lib("mani", k="fill", n=self.val(I, args[0]))
    def f_op_shl(self, I, f, this, args):
        c = args[0].c; v = self.val(I, args[1])
        if not (isinstance(c, Cell) and isinstance(c.v, Lib) and c.v.kind in ("stream", "ofstream")): raise Undecided("operator<<")
        if isinstance(v, Lib) and v.kind == "tid": self.put(I, c, self.tid_text(I, v)); return c
        if isinstance(v, Lib) and v.kind == "mani":
            I.store(getattr(c.v, v.k), v.n); return c
        if isinstance(v, (Str, CStr)) or isinstance(v, Lib) and v.kind in ("chararr", "strview"): self.put(I, c, self.S(I, args[1])); return c
        t = f.p[1].strip()
        if t.k == "int" and t.w == 8: self.put(I, c, Str((self.chr_of(I, v),))); return c
        if isinstance(v, Ptr) and v.c is None and t.k == "ptr": raise Undecided("null C string streamed")
        raise Undecided("operator<< with %r" % (v,))
    def tid_text(self, I, v): return I.ctx.ufstr("thread-id-text", v.id, chars=NONUL)
    def f_stream_str(self, I, f, this, args):
        if args: I.store(this.v.buf, self.S(I, args[0])); return None
        return I.load(this.v.buf)
    def f_stream_tellp(self, I, f, this, args):
        if this.v.kind != "stream" or this.v.name is not None: raise Undecided("tellp")
        return Lib("fpos", n=I.ctx.slen(I.load(this.v.buf)))
    def f_fpos_conv(self, I, f, this, args): return this.v.n
    def f_stream_clear(self, I, f, this, args): return None
    def f_stream_put(self, I, f, this, args): self.put(I, this, self.S(I, args[0])); return this
    def f_stream_write(self, I, f, this, args):
        p = self.val(I, args[0]); n = self.val(I, args[1]); s, off = self.cs(I, p)
        if I.ctx.entails(EQ(n, I.ctx.slen(s))) and off == 0: self.put(I, this, s); return this
        raise Undecided("stream write")
    f_ofstream_write = f_stream_write; f_ofstream_put = f_stream_put
    def f_stream_rdstate(self, I, f, this, args): return I.load(this.v.state) if this.v.kind == "ofstream" else 0
    f_ofstream_rdstate = f_stream_rdstate
    def f_stream_good(self, I, f, this, args): return EQ(I.load(this.v.state), 0) if this.v.kind == "ofstream" else True
    f_ofstream_good = f_stream_good
    def f_stream_fail(self, I, f, this, args): return NOT(self.f_stream_good(I, f, this, args))
    f_stream_not = f_stream_fail; f_stream_bad = f_stream_fail; f_stream_conv = f_stream_good
    f_ofstream_not = f_stream_fail; f_ofstream_fail = f_stream_fail; f_ofstream_conv = f_stream_good; f_ofstream_bad = f_stream_fail
    def f_stream_setf(self, I, f, this, args): raise Undecided("setf")
    def f_stream_width(self, I, f, this, args): I.store(this.v.width, self.val(I, args[0])); return 0
    def f_stream_fill(self, I, f, this, args):
        if args: I.store(this.v.fill, self.val(I, args[0]))
        return I.load(this.v.fill)
    # ofstream: hooks implement the file system
    def of_open(self, I, o, name, mode):
        h = I.hooks.get("ofstream-open")
        if h: return h(I, o, name, mode)
        I.ctx.event("open", name=name, mode=mode, o=o)
        ok = I.ctx.bool("open-ok")
        if I.ctx.branch(ok): I.store(o.open, True); I.store(o.file, name)
        else: I.store(o.state, 4)
    def of_close(self, I, o):
        h = I.hooks.get("ofstream-close")
        if h: return h(I, o)
        I.store(o.open, False)
    def f_ofstream_open(self, I, f, this, args): self.of_open(I, this.v, self.S(I, args[0]), self.val(I, args[1]) if len(args) > 1 else 16)
    def f_ofstream_close(self, I, f, this, args): self.of_close(I, this.v)
    def f_ofstream_is_open(self, I, f, this, args): return I.load(this.v.open)
    def f_ofstream_clear(self, I, f, this, args): I.store(this.v.state, 0)
    def f_op_oreq(self, I, f, this, args):
        c = args[0].c; v = I.load(c) | self.val(I, args[1]); I.store(c, v); return c
    def f_op_or(self, I, f, this, args): return self.val(I, args[0]) | self.val(I, args[1])
    def f_ofstream_assign_op(self, I, f, this, args):
        v = self.take(I, args[0]); self.of_close(I, this.v); I.touch(this, True); this.v = v; return this
    # ------------------------------------------------------------ containers
    def symmap(self, I, t, name, inv=None):
        kt, vt = t.args[0], t.args[1]
        def gen(I2, s):
            k = I2.ctx.int(s.name + ".key", *I2.irange(kt))
            return self.mapent(I2, kt, vt, k, I2.sym(vt, s.name + ".val"))
        return Lib("map", unord=self.tname(t) != "std::map", seq=I.cell((Seg(name, gen),), None, name), kt=kt, vt=vt)
    def mapent(self, I, kt, vt, k, v): return I.cell(Lib("pair", first=I.cell(k, kt), second=I.cell(v, vt)))
    def key(self, e): return e.v.first.v
    def seg_split(self, I, cont, i, e):
        """replace segment i by seg<, e, seg> (maps: e's key inside)"""
        s = cont.seq.v; sg = s[i]
        k = self.key(e) if cont.kind == "map" else None
        a = Seg(sg.name + "<", sg.gen, sg.lo, k, sg.absent); b = Seg(sg.name + ">", sg.gen, k, sg.hi, sg.absent)
        cont.seq.v = s[:i] + (a, e, b) + s[i+1:]
        return i + 1
    def bound(self, I, sg, k):
        cs = []
        if sg.lo is not None: cs.append(fold(Z(k) > Z(sg.lo)))
        if sg.hi is not None: cs.append(fold(Z(k) < Z(sg.hi)))
        for a in sg.absent: cs.append(NOT(EQ(k, a)))
        return AND(*cs)
    def map_find(self, I, m, key, insert=False, mk=None):
        """(index, created) or (None, False)"""
        I.load(m.seq)
        x = I.ctx; i = 0
        while True:
            s = m.seq.v
            if i >= len(s): pos = len(s); break
            e = s[i]
            if isinstance(e, Cell):
                if x.branch(EQ(key, self.key(e))): return i, False
                if x.branch(fold(Z(key) < Z(self.key(e)))): pos = i; break
                i += 1; continue
            # segment: does the key lie before the next concrete entry?
            nxt = s[i + 1] if i + 1 < len(s) else None
            while nxt is not None and isinstance(nxt, Seg): raise Undecided("adjacent segments")
            if nxt is not None and not x.branch(fold(Z(key) < Z(self.key(nxt)))): i += 1; continue
            b = self.bound(I, e, key)
            absent = any(x.entails(EQ(key, a)) for a in e.absent)
            if not absent and x.feasible(b if not isinstance(b, bool) else b):
                if x.fork(2) == 0:
                    x.assume(b)
                    ent = e.gen(I, e); x.assume(EQ(self.key(ent), key)); ent.v.first.v = key
                    self.map_inv(I, ent)
                    return self.seg_split(I, m, i, ent), False
            ns = Seg(e.name, e.gen, e.lo, e.hi, e.absent + (key,)); m.seq.v = s[:i] + (ns,) + s[i+1:]
            pos = (i, "in"); break
        if not insert: return None, False
        v = mk() if mk else I.default_cell(m.vt).v
        ent = self.mapent(I, m.kt, m.vt, key, v)
        I.touch(m.seq, True)
        if isinstance(pos, tuple): return self.seg_split(I, m, pos[0], ent), True
        s = m.seq.v; m.seq.v = s[:pos] + (ent,) + s[pos:]
        return pos, True
    def map_inv(self, I, ent):
        h = I.hooks.get("map-inv")
        if h: h(I, ent)
    def mkiter(self, c, pos, gen=None): return Lib("iter", cont=c, pos=pos, gen=gen, ver=None)
    def f_map_find(self, I, f, this, args):
        i, _ = self.map_find(I, this.v, self.val(I, args[0])); 
        return self.mkiter(this.v, "end") if i is None else self.mkiter(this.v, this.v.seq.v[i])
    def f_map_count(self, I, f, this, args):
        i, _ = self.map_find(I, this.v, self.val(I, args[0])); return 0 if i is None else 1
    def f_map_contains(self, I, f, this, args): return self.f_map_count(I, f, this, args) == 1
    def f_map_index(self, I, f, this, args):
        i, _ = self.map_find(I, this.v, self.val(I, args[0]), True); return this.v.seq.v[i].v.second
    def f_map_at(self, I, f, this, args):
        i, _ = self.map_find(I, this.v, self.val(I, args[0]))
        if i is None: raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("map::at")), "std::out_of_range")
        return this.v.seq.v[i].v.second
    def f_map_erase(self, I, f, this, args):
        v = self.val(I, args[0]); m = this.v
        if isinstance(v, Lib) and v.kind == "iter":
            if v.pos == "end": I.ctx.fail("no erase of the end iterator", "", True); raise PathEnd("erase end")
            s = I.load(m.seq); i = [n for n, e in enumerate(s) if e is v.pos]
            if not i: I.ctx.fail("no use of an invalid iterator", "", True); raise PathEnd("bad iterator")
            self.erase_at(I, m, i[0]); return self.mkiter(m, self.norm_pos(m, i[0]))
        i, _ = self.map_find(I, m, v)
        if i is None: return 0
        self.erase_at(I, m, i); return 1
    def erase_at(self, I, m, i):
        s = I.load(m.seq); e = s[i]; k = self.key(e) if m.kind == "map" else None
        l, r = s[:i], s[i+1:]
        if m.kind == "map":
            # merge neighbouring segments; the key is now absent
            if l and isinstance(l[-1], Seg) and r and isinstance(r[0], Seg):
                a, b = l[-1], r[0]
                l = l[:-1]; r = (Seg(a.name, a.gen, a.lo, b.hi, tuple(dict.fromkeys(a.absent + b.absent)) + (k,)),) + r[1:]
        I.store(m.seq, l + r); I.destroy(e)
    def norm_pos(self, m, i):
        s = m.seq.v
        return s[i] if i < len(s) else "end"
    def f_map_begin(self, I, f, this, args): return self.mkiter(this.v, self.norm_pos(this.v, 0)) if True else None
    f_map_cbegin = f_map_begin
    def f_map_end(self, I, f, this, args): return self.mkiter(this.v, "end")
    f_map_cend = f_map_end
    f_vec_begin = f_map_begin; f_vec_cbegin = f_map_begin; f_vec_end = f_map_end; f_vec_cend = f_map_end
    def f_begin(self, I, f, this, args): return self.begin_of(I, args[0].c, True)
    def f_end(self, I, f, this, args): return self.begin_of(I, args[0].c, False)
    f_cbegin = f_begin; f_cend = f_end
    def begin_of(self, I, c, b):
        if isinstance(c.v, Str): return self.f_string_begin(I, None, c, []) if b else self.f_string_end(I, None, c, [])
        return self.f_map_begin(I, None, c, []) if b else self.f_map_end(I, None, c, [])
    def f_map_empty(self, I, f, this, args):
        s = I.load(this.v.seq)
        if any(isinstance(x, Cell) for x in s): return False
        if not s: return True
        return self.drop_or_grow(I, this.v) is False
    def drop_or_grow(self, I, m):
        """decide whether a container consisting of segments only is empty; True if it has an element"""
        while True:
            s = I.load(m.seq)
            if not s: return False
            if isinstance(s[0], Cell): return True
            n = I.ctx.ufint("size", s[0].name, lo=0)
            if I.ctx.fork(2) == 0: I.ctx.assume(EQ(n, 0)); I.ctx.event("seg-empty", seg=s[0].name); m.seq.v = s[1:]; continue
            if m.kind == "map": raise Undecided("front of a symbolic map")
            e = s[0].gen(I, s[0]); r = Seg(s[0].name + "'", s[0].gen, s[0].lo, s[0].hi, s[0].absent)
            I.ctx.assume(EQ(n, fold(I.ctx.ufint("size", r.name, lo=0) + 1))); m.seq.v = (e, r) + s[1:]
            return True
    f_vec_empty = f_map_empty
    def f_map_size(self, I, f, this, args):
        n = 0
        for x in I.load(this.v.seq):
            n = n + (1 if isinstance(x, Cell) else I.ctx.ufint("size", x.name, lo=0))
        return fold(n) if not isc(n) else n
    def f_vec_size(self, I, f, this, args):
        if this.v.kind == "cvec": return this.v.n
        return self.f_map_size(I, f, this, args)
    def f_vec_data(self, I, f, this, args):
        if this.v.kind != "cvec": raise Undecided("vector data")
        return CStr(None, 0, this.v.arr)
    def f_map_clear(self, I, f, this, args):
        s = I.load(this.v.seq); I.store(this.v.seq, ())
        for x in s:
            if isinstance(x, Cell): I.destroy(x)
            else:
                h = I.hooks.get("destroy-seg")
                if h: h(I, x)
    f_vec_clear = f_map_clear
    def f_map_assign_op(self, I, f, this, args):
        a = args[0]; n = self.take(I, a)
        old = I.load(this.v.seq); I.store(this.v.seq, n.seq.v)
        for x in old:
            if isinstance(x, Cell): I.destroy(x)
        return this
    f_vec_assign_op = f_map_assign_op
    def ins_result(self, I, m, i, new): return Lib("pair", first=I.cell(self.mkiter(m, m.seq.v[i])), second=I.cell(new))
    def f_map_insert(self, I, f, this, args):
        p = self.val(I, args[0])
        if not (isinstance(p, Lib) and p.kind == "pair"): raise Undecided("map insert")
        i, new = self.map_find(I, this.v, I.load(p.first), True, lambda: I.copy_value(p.second)); return self.ins_result(I, this.v, i, new)
    def f_map_emplace(self, I, f, this, args):
        if len(args) == 1: return self.f_map_insert(I, f, this, args)
        i, new = self.map_find(I, this.v, self.val(I, args[0]), True, lambda: self.as_elem(I, args[1], this.v.vt)); return self.ins_result(I, this.v, i, new)
    f_map_try_emplace = f_map_emplace
    def f_map_insert_or_assign(self, I, f, this, args):
        v = self.as_elem(I, args[1], this.v.vt)
        i, new = self.map_find(I, this.v, self.val(I, args[0]), True, lambda: v)
        if not new: self.assign(I, this.v.seq.v[i].v.second, v)
        return self.ins_result(I, this.v, i, new)
    # iterators
    def item(self, I, it):
        if it.pos == "end": I.ctx.fail("no dereference of the end iterator", "line %s" % I.line, True); raise PathEnd("end deref")
        if isinstance(it.pos, Seg):
            raise Undecided("dereference of an iterator into unknown elements")
        s = I.load(it.cont.seq)
        if not any(e is it.pos for e in s): I.ctx.fail("no use of an invalid iterator", "line %s" % I.line, True); raise PathEnd("bad iterator")
        return it.pos
    def f_iter_star(self, I, f, this, args):
        if this.v.kind == "siter": return self.charref(I, this.v.c, this.v.off)
        return self.item(I, this.v)
    def f_iter_arrow(self, I, f, this, args): return Ptr(self.item(I, this.v))
    def f_iter_inc(self, I, f, this, args):
        v = this.v
        if v.kind == "siter":
            old = v; I.store(this, Lib("siter", c=v.c, off=fold(Z(v.off) + 1))); return this if not args else old
        old = Lib("iter", cont=v.cont, pos=v.pos, gen=v.gen, ver=v.ver)
        s = v.cont.seq.v
        i = [n for n, e in enumerate(s) if e is v.pos]
        if not i: raise Undecided("increment of an invalid iterator")
        if getattr(v.cont, "unord", False) and i[0] + 1 < len(s) and isinstance(v.pos, Cell) and isinstance(s[i[0] + 1], Cell): raise Undecided("order of an unordered container")
        I.touch(this, True)
        this.v = self.mkiter(v.cont, s[i[0] + 1] if i[0] + 1 < len(s) else "end", v.gen)
        return this if not args else old
    def f_iter_assign_op(self, I, f, this, args): I.store(this, self.take(I, args[0])); return this
    def f_iter_plus(self, I, f, this, args):
        if this.v.kind == "siter": return Lib("siter", c=this.v.c, off=fold(Z(this.v.off) + Z(self.val(I, args[0]))))
        raise Undecided("iterator arithmetic")
    def f_iter_minus(self, I, f, this, args):
        if this.v.kind == "siter": return Lib("siter", c=this.v.c, off=fold(Z(this.v.off) - Z(self.val(I, args[0]))))
        raise Undecided("iterator arithmetic")
    def iter_eq(self, I, a, b):
        if a.cont is not b.cont:
            if a.cont.seq is not b.cont.seq: raise Undecided("iterators of different containers compared")
        for p, q in ((a.pos, b.pos), (b.pos, a.pos)):
            if isinstance(p, Seg) and p is not q:
                # end() or an entry against a segment: only equal when everything between is empty
                raise Undecided("comparison of an iterator into unknown elements")
        return a.pos is b.pos
    def at_segment(self, I, it):
        return isinstance(it.pos, Seg) and any(e is it.pos for e in it.cont.seq.v)
    def seg_skip(self, I, it, empty, modified=False):
        s = it.cont.seq.v; i = next(n for n, e in enumerate(s) if e is it.pos)
        if empty: I.ctx.event("seg-empty", seg=s[i].name); ns = s[:i] + s[i+1:]; j = i
        else:
            sg = s[i]; n = Seg(sg.name + "'", sg.gen, sg.lo, sg.hi, sg.absent); ns = s[:i] + (n,) + s[i+1:]; j = i + 1
            if it.cont.kind == "vec": I.ctx.assume(EQ(self.seg_size(I, n), self.seg_size(I, sg)))
        if empty and it.cont.kind == "vec": I.ctx.assume(EQ(self.seg_size(I, s[i]), 0))
        it.cont.seq.v = ns
        it.pos = ns[j] if j < len(ns) else "end"
        ix = getattr(it, "index", None)
        if ix is not None:
            p = sum((1 if isinstance(e, Cell) else Z(self.seg_size(I, e)) for e in ns[:j]), 0)
            I.store(ix, p if isc(p) else fold(p))
    def seg_size(self, I, sg):
        n = I.ctx.ufint("size", sg.name, lo=0)
        if not isc(n): I.ctx.assume(n <= 1 << 48)      # a container does not exceed the address space
        return n
    def seg_enter(self, I, it):
        s = it.cont.seq.v; i = next(n for n, e in enumerate(s) if e is it.pos)
        sg = s[i]; ent = sg.gen(I, sg)
        if it.cont.kind == "map":
            I.ctx.assume(self.bound(I, sg, self.key(ent))); self.map_inv(I, ent)
        k = self.key(ent) if it.cont.kind == "map" else None
        a = Seg(sg.name + "<done", sg.gen, sg.lo, k, sg.absent); b = Seg(sg.name + ">todo", sg.gen, k, sg.hi, sg.absent)
        it.cont.seq.v = s[:i] + (a, ent, b) + s[i+1:]
        it.pos = ent
        if it.cont.kind == "vec": I.ctx.assume(EQ(self.seg_size(I, sg), fold(Z(self.seg_size(I, a)) + 1 + Z(self.seg_size(I, b)))))
        ix = getattr(it, "index", None)
        if ix is not None:
            p = sum((1 if isinstance(e, Cell) else Z(self.seg_size(I, e)) for e in s[:i] + (a,)), 0)
            I.store(ix, p if isc(p) else fold(p))
        return (a, ent, b, it.cont)
    def seg_leave(self, I, it, seg):
        a, ent, b, cont = seg; s = cont.seq.v
        if not any(e is ent for e in s): raise Undecided("loop removes the visited element")
        if it.pos is not b: raise Undecided("loop does not advance by one element")
        h = I.hooks.get("map-inv-check")
        if h and cont.kind == "map": h(I, ent)
    # vector / queue
    def f_vec_push_back(self, I, f, this, args):
        I.store(this.v.seq, I.load(this.v.seq) + (I.cell(self.take(I, args[0]), this.v.et),))
    f_vec_push = f_vec_push_back
    def f_vec_emplace_back(self, I, f, this, args):
        if len(args) != 1: raise Undecided("emplace")
        v = self.take(I, args[0])
        if isinstance(v, RecV) and this.v.et is not None and this.v.et.n == "std::function": v = Lib("func", target=I.cell(v))
        c = I.cell(v, this.v.et); I.store(this.v.seq, I.load(this.v.seq) + (c,)); return c
    f_vec_emplace = f_vec_emplace_back
    def f_vec_insert(self, I, f, this, args):
        if len(args) != 2: raise Undecided("insert")
        a = self.val(I, args[0]); s = I.load(this.v.seq); c = I.cell(self.take(I, args[1]), this.v.et)
        if not (isinstance(a, Lib) and a.kind == "iter"): raise Undecided("insert")
        i = len(s) if a.pos == "end" else next((n for n, e in enumerate(s) if e is a.pos), None)
        if i is None: raise Undecided("insert with invalid iterator")
        I.store(this.v.seq, s[:i] + (c,) + s[i:]); return self.mkiter(this.v, c)
    def f_vec_reserve(self, I, f, this, args): return None
    def f_vec_front(self, I, f, this, args):
        if not self.drop_or_grow(I, this.v): I.ctx.fail("no front() of an empty container", "line %s" % I.line, True); raise PathEnd("front empty")
        return this.v.seq.v[0]
    def f_vec_back(self, I, f, this, args): 
        s = I.load(this.v.seq)
        if s and isinstance(s[-1], Cell): return s[-1]
        raise Undecided("back()")
    def f_vec_pop(self, I, f, this, args):
        if not self.drop_or_grow(I, this.v): I.ctx.fail("no pop() of an empty container", "line %s" % I.line, True); raise PathEnd("pop empty")
        s = this.v.seq.v; I.store(this.v.seq, s[1:]); I.ctx.event("q-pop", e=s[0])
        I.destroy(s[0])
    f_vec_pop_front = f_vec_pop
    def f_vec_push_front(self, I, f, this, args):
        I.store(this.v.seq, (I.cell(self.take(I, args[0]), this.v.et),) + I.load(this.v.seq))
    def f_vec_emplace_front(self, I, f, this, args):
        if len(args) != 1: raise Undecided("emplace")
        self.f_vec_push_front(I, f, this, args); return this.v.seq.v[0]
    def f_vec_pop_back(self, I, f, this, args):
        s = I.load(this.v.seq)
        if not s: I.ctx.fail("no pop_back() of an empty container", "line %s" % I.line, True); raise PathEnd("pop empty")
        if not isinstance(s[-1], Cell): raise Undecided("pop_back()")
        I.store(this.v.seq, s[:-1]); I.destroy(s[-1])
    def f_vec_remove(self, I, f, this, args): return self.list_remove(I, this.v, lambda e: self.same_elem(I, e, args[0]))
    def f_vec_remove_if(self, I, f, this, args):
        it = self.f_map_begin(I, f, this, []); return self.list_remove(I, this.v, self.elem_pred(I, args[0], it))
    def list_remove(self, I, cont, pred):
        e = self.vec_remove(I, [Arg("r", self.mkiter(cont, self.norm_pos(cont, 0)), None), Arg("r", self.mkiter(cont, "end"), None)], pred)
        drop = cont.pending; s = I.load(cont.seq); I.store(cont.seq, s[:len(s) - len(drop)])
        for d in drop: I.destroy(d)
    def f_vec_swap(self, I, f, this, args):
        b = args[0].c; x, y = I.load(this.v.seq), I.load(b.v.seq); I.store(this.v.seq, y); I.store(b.v.seq, x)
    def same_elem(self, I, e, val):
        """equality of a vector element with a value"""
        return self.equal(I, e, val, self.val(I, e), self.val(I, val))
    def elem_pred(self, I, fa, it):
        fc = fa.c if isinstance(fa.c, Cell) else I.cell(fa.c)
        def pred(e):
            r = I.invoke(fc, [Arg("l", e, it.cont.et if it.cont.kind == "vec" else None)])
            if isinstance(r, Cell): r = I.load(r)
            return I.truth(r)
        return pred
    def seg_none(self, I, sg, pred, what):
        """no element of a segment satisfies the predicate: shown on a generic element"""
        r = pred(sg.gen(I, sg)); r = fold(r) if not isinstance(r, bool) else r
        if r is False or r is not True and I.ctx.entails(NOT(r)): return
        raise Undecided(what + " over unknown elements")
    def span(self, I, args):
        """(cell, before, walked, after) of a character range"""
        a, b = self.val(I, args[0]), self.val(I, args[1]); x = I.ctx
        l, r = x.cut(self.content(I, a.c), a.off); m, r2 = x.cut(r, fold(Z(b.off) - Z(a.off))); return a.c, l, m, r2
    def is_si(self, I, a): v = self.val(I, a); return isinstance(v, Lib) and v.kind == "siter"
    def si_find(self, I, args, cs):
        c, l, m, _ = self.span(I, args); r = I.ctx.find_set(m, cs)
        return Lib("siter", c=c, off=I.ctx.slen(l + (m if r is None else r[0])))
    def f_find_first_of(self, I, f, this, args):
        if not self.is_si(I, args[0]): raise Undecided("find_first_of")
        s = None
        if self.is_si(I, args[2]): s = self.span(I, args[2:4])[2].lit()
        else:
            p, q = self.val(I, args[2]), self.val(I, args[3])
            if isinstance(p, CStr) and isinstance(q, CStr):
                t, o = self.cs(I, p); t = t.lit(); s = t[o:q.off] if t is not None and isc(o) and isc(q.off) else None
        if s is None or len(args) > 4: raise Undecided("find_first_of")
        return self.si_find(I, args, cset(s))
    def quant(self, I, args, neg, want):
        if self.is_si(I, args[0]):
            cs = self.pred_set(I, args[2]); r = I.ctx.find_set(self.span(I, args)[2], ALL - cs if neg else cs)
            return (r is not None) == want
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if not (isinstance(a, Lib) and a.kind == "iter") or b.pos != "end": raise Undecided("range predicate")
        p = self.elem_pred(I, args[2], a); on = False
        for e in I.load(a.cont.seq):
            on = on or e is a.pos
            if not on: continue
            if isinstance(e, Seg): self.seg_none(I, e, (lambda y: NOT(p(y))) if neg else p, "range predicate"); continue
            if I.ctx.branch(NOT(p(e)) if neg else p(e)): return want
        return not want
    def f_any_of(self, I, f, this, args): return self.quant(I, args, False, True)
    def f_none_of(self, I, f, this, args): return self.quant(I, args, False, False)
    def f_all_of(self, I, f, this, args): return self.quant(I, args, True, False)
    def f_find_if_not(self, I, f, this, args):
        if self.is_si(I, args[0]): return self.si_find(I, args, ALL - self.pred_set(I, args[2]))
        if self.is_ri(I, args[0]): return self.ri_find(I, args, ALL - self.pred_set(I, args[2]))
        raise Undecided("find_if_not")
    def f_back_inserter(self, I, f, this, args): return Lib("binsert", c=args[0].c)
    def bi(self, I, a):
        v = self.val(I, a)
        if isinstance(v, Lib) and v.kind == "binsert" and isinstance(v.c.v, Str): return v
        raise Undecided("output iterator")
    def f_copy_if(self, I, f, this, args):
        o = self.bi(I, args[2]); m = self.span(I, args)[2]
        I.store(o.c, I.load(o.c) + I.ctx.maprope(m, {}, self.pred_set(I, args[3]))); return o
    def f_copy(self, I, f, this, args):
        o = self.bi(I, args[2]); I.store(o.c, I.load(o.c) + self.span(I, args)[2]); return o
    def f_remove_copy_if(self, I, f, this, args):
        o = self.bi(I, args[2]); I.store(o.c, I.load(o.c) + I.ctx.maprope(self.span(I, args)[2], {}, ALL - self.pred_set(I, args[3]))); return o
    def f_transform(self, I, f, this, args):
        if len(args) != 4 or not self.is_si(I, args[0]): raise Undecided("transform")
        a = args[3]; v = self.val(I, a)
        if not (isinstance(v, RecV) and v.cls.lam): raise Undecided("transform with %r" % (v,))
        c = a.c if isinstance(a.c, Cell) else I.cell(a.c); T = {}
        for k in range(256):
            r = I.invoke(c, [Arg("r", k - 256 if k > 127 else k, None)])
            if isinstance(r, Cell): r = I.load(r)
            if not isc(r): raise Undecided("symbolic predicate")
            if r % 256 != k: T[k] = r % 256
        cell, l, m, r2 = self.span(I, args); t = I.ctx.maprope(m, T, ALL); d = self.val(I, args[2])
        if isinstance(d, Lib) and d.kind == "binsert": I.store(d.c, I.load(d.c) + t); return d
        if not (isinstance(d, Lib) and d.kind == "siter" and d.c is cell and I.ctx.entails(EQ(d.off, I.ctx.slen(l)))): raise Undecided("transform")
        I.store(cell, l + t + r2); return Lib("siter", c=cell, off=I.ctx.slen(l + t))
    def f_find_if(self, I, f, this, args):
        if self.is_si(I, args[0]): return self.si_find(I, args, self.pred_set(I, args[2]))
        if self.is_ri(I, args[0]): return self.ri_find(I, args, self.pred_set(I, args[2]))
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if not (isinstance(a, Lib) and a.kind == "iter") or b.pos != "end": raise Undecided("find_if")
        p = self.elem_pred(I, args[2], a); s = I.load(a.cont.seq); on = False
        for e in s:
            on = on or e is a.pos
            if not on: continue
            if isinstance(e, Seg): self.seg_none(I, e, p, "find_if"); continue
            if I.ctx.branch(p(e)): return self.mkiter(a.cont, e)
        return self.mkiter(a.cont, "end")
    def vec_remove(self, I, args, pred):
        """std::remove: observable result handled together with erase"""
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if not (a.kind == "iter" and b.kind == "iter" and a.cont is b.cont): raise Undecided("remove range")
        cont = a.cont; s = I.load(cont.seq); x = I.ctx
        if not (s and a.pos is s[0] or (not s and a.pos == "end")) or b.pos != "end": raise Undecided("remove on a sub-range")
        keep = []; drop = []
        for e in s:
            if isinstance(e, Seg): self.seg_none(I, e, pred, "remove"); keep.append(e); continue
            if x.branch(pred(e)): drop.append(e)
            else: keep.append(e)
        cont.pending = drop
        mark = Lib("rest", drop=drop)
        I.store(cont.seq, tuple(keep) + tuple(drop))
        if drop: pos = drop[0]
        else: pos = "end"
        it = self.mkiter(cont, pos); it.rm = True
        return it
    def f_vec_erase(self, I, f, this, args):
        a = self.val(I, args[0]); s = I.load(this.v.seq)
        b = self.val(I, args[1]) if len(args) > 1 else None
        if a.pos == "end":
            if b is not None: return self.mkiter(this.v, "end")
            I.ctx.fail("no erase of the end iterator", "", True); raise PathEnd("erase end")
        i = next((n for n, e in enumerate(s) if e is a.pos), None)
        if i is None: raise Undecided("erase with invalid iterator")
        if b is None: j = i + 1
        elif b.pos == "end": j = len(s)
        else: j = next(n for n, e in enumerate(s) if e is b.pos)
        I.store(this.v.seq, s[:i] + s[j:])
        for e in s[i:j]:
            if isinstance(e, Cell): I.destroy(e)
            else: raise Undecided("erase of unknown elements")
        return self.mkiter(this.v, self.norm_pos(this.v, i))
    def f_for_each(self, I, f, this, args):
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if not (isinstance(a, Lib) and a.kind == "iter" and isinstance(b, Lib) and b.kind == "iter"): raise Undecided("for_each")
        cur = I.cell(self.mkiter(a.cont, a.pos), None, "for_each position"); fc = args[2].c if isinstance(args[2].c, Cell) else I.cell(args[2].c)
        def body():
            r = I.invoke(fc, [Arg("l", self.item(I, cur.v), a.cont.et if a.cont.kind == "vec" else None)])
        I.loop(("for_each", I.line), lambda: NOT(self.iter_eq(I, cur.v, b)), body, lambda: self.f_iter_inc(I, f, cur, []), [], None, [cur]); return args[2].c
    def vec_prefix(self, I, s):
        """number of elements in front of each entry of a sequence"""
        n = 0
        for e in s:
            yield e, n
            n = n + (1 if isinstance(e, Cell) else self.seg_size(I, e))
            n = fold(n) if not isc(n) else n
    def index_at_segment(self, I, ic, oc, cont=None):
        cont = cont or oc.v; i = ic.v
        if i is UNINIT or isinstance(i, (Lib, RecV, Str, bool)): return None
        for e, n in self.vec_prefix(I, cont.seq.v):
            if isinstance(e, Seg) and (i is n or isc(i) and isc(n) and i == n or not (isc(i) and isc(n)) and I.ctx.entails(fold(Z(i) == Z(n)))): return e
        return None
    def f_vec_index(self, I, f, this, args):
        i = self.val(I, args[0]); s = I.load(this.v.seq)
        if isc(i) and 0 <= i < len(s) and all(isinstance(e, Cell) for e in s[:i + 1]): return s[i]
        for e, n in self.vec_prefix(I, s):
            if isinstance(e, Cell) and (isc(n) and isc(i) and n == i or not (isc(n) and isc(i)) and I.ctx.entails(fold(Z(i) == Z(n)))): return e
        if not any(isinstance(e, Seg) for e in s) and isc(i) and not 0 <= i < len(s): I.ctx.fail("no access outside a sequence", "line %s" % I.line, True); raise PathEnd("index")
        raise Undecided("element of a sequence of unknown elements")
    def f_vec_at(self, I, f, this, args):
        i = self.val(I, args[0]); s = I.load(this.v.seq)
        if not any(isinstance(e, Seg) for e in s) and isc(i) and not 0 <= i < len(s): raise CppThrow(Lib("exc", ty="std::out_of_range", what=Str("vector::at")), "std::out_of_range")
        return self.f_vec_index(I, f, this, args)
    def ilist(self, I, this):
        v = I.load(this)
        if getattr(v, "arr", None) is None: v.arr = I.cell(Lib("arr", el=list(v.el), n=len(v.el)))
        return v
    def f_initializer_list_begin(self, I, f, this, args): return Ptr(self.ilist(I, this).arr, 0)
    def f_initializer_list_end(self, I, f, this, args): v = self.ilist(I, this); return Ptr(v.arr, len(v.el))
    def f_initializer_list_size(self, I, f, this, args): return len(self.ilist(I, this).el)
    def f_get(self, I, f, this, args):
        a = args[0]; v = self.val(I, a); n = next((x for x in f.ta if isinstance(x, str) and x.startswith("#")), None)
        if isinstance(v, Lib) and v.kind == "pair" and n in ("#0", "#1"): return v.first if n == "#0" else v.second
        raise Undecided("std::get of %r" % (v,))
    def f_strchr(self, I, f, this, args):
        p = self.val(I, args[0])
        if not isinstance(p, CStr): raise Undecided("strchr")
        s, off = self.cs(I, p); t = s.lit(); c = self.val(I, args[1])
        if t is None or not isc(off): raise Undecided("strchr in a symbolic text")
        t = t[off:].split("\0")[0] + "\0"; c = fold(c % 256) if not isc(c) else c % 256
        r = t.find(chr(c)) if isc(c) else self.find_code(I, Str(t), c)
        return NULL if r in (-1, NPOS) else CStr(p.s, off + r, p.src, p.term)
    def f_iter_dec(self, I, f, this, args):
        v = this.v
        if v.kind == "siter":
            I.store(this, Lib("siter", c=v.c, off=fold(Z(v.off) - 1))); return this if not args else v
        raise Undecided("iterator decrement")
    def f_find(self, I, f, this, args):
        if self.is_si(I, args[0]):
            v = self.val(I, args[2])
            if not isc(v): raise Undecided("std::find of a symbolic character")
            return self.si_find(I, args, frozenset([v % 256]))
        if self.is_ri(I, args[0]):
            v = self.val(I, args[2])
            if not isc(v): raise Undecided("std::find of a symbolic character")
            return self.ri_find(I, args, frozenset([v % 256]))
        a, b = self.val(I, args[0]), self.val(I, args[1])
        if a.kind != "iter": raise Undecided("std::find on string")
        s = I.load(a.cont.seq)
        for e in s:
            if isinstance(e, Seg): self.seg_none(I, e, lambda g: self.same_elem(I, g, args[2]), "find"); continue
            if I.ctx.branch(self.same_elem(I, e, args[2])): return self.mkiter(a.cont, e)
        return self.mkiter(a.cont, "end")
    # ------------------------------------------------------------ C library
    def f_abort(self, I, f, this, args): I.ctx.event("abort"); self.noreturn(I, "abort")
    def f_exit(self, I, f, this, args): I.ctx.event("exit", code=self.val(I, args[0])); self.noreturn(I, "exit")
    f__exit = f_exit; f__Exit = f_exit; f_quick_exit = f_exit
    def noreturn(self, I, why):
        h = I.hooks.get("noreturn")
        if h: h(I, why)
        raise PathEnd(why)
    def f_terminate(self, I, f, this, args): I.terminate("std::terminate called")
    def f_perror(self, I, f, this, args): I.ctx.event("out", stream="stderr", text=self.S(I, args[0]))
    def f_vsnprintf(self, I, f, this, args):
        x = I.ctx; p, n, fmt = self.val(I, args[0]), self.val(I, args[1]), self.S(I, args[2])
        if not isinstance(p, CStr) or p.src is None: raise Undecided("vsnprintf target")
        size = p.src.v.n if isinstance(p.src.v, Lib) else None
        if size is None: raise Undecided("vsnprintf target size")
        c = AND(fold(Z(n) >= 0), fold(Z(p.off) + Z(n) <= size), fold(Z(p.off) >= 0))
        if not x.entails(c): x.prove(c, "no write outside a buffer", "vsnprintf", True); x.assume(c)
        I.hooks.get("vsnprintf", lambda *a: None)(I, fmt)
        if x.fork(2) == 1:
            x.covers.add("format-error")
            r = x.int("vsnprintf-error", -(1 << 31), -1)
            p.src.v = Lib("chararr", s=x.str("after-error"), n=size, lit=False); I.touch(p.src, True)
            x.event("formatted", ok=False); return r
        F = x.str("formatted", NONUL, inp=True); L = x.slen(F)
        x.assume(fold(Z(L) <= (1 << 31) - 1))
        x.event("formatted", ok=True, text=F, fmt=fmt)
        if p.off != 0: raise Undecided("vsnprintf at an offset")
        I.touch(p.src, True)
        if not x.branch(EQ(n, 0)):
            if x.branch(fold(Z(L) < Z(n))): t = F
            else: t, _ = x.cut(F, fold(Z(n) - 1))
            rest = x.atom("beyond"); x.assume(fold(Z(rest.len) == Z(size) - Z(x.slen(t)) - 1))
            p.src.v = Lib("chararr", s=t + Str("\0") + Str((rest,)), n=size, lit=False)
        return L
    def f___builtin_va_start(self, I, f, this, args): return None
    f___builtin_va_end = f___builtin_va_start
    def f_localtime_r(self, I, f, this, args):
        t = I.load(I.deref(self.val(I, args[0]))); o = I.deref(self.val(I, args[1]))
        if I.ctx.fork(2) == 1 and "localtime-may-fail" in I.hooks: return NULL
        v = RecV("tm"); v.ghost = ("localtime", t); I.store(o, v)
        return self.val(I, args[1])
    def f_tm_assign_op(self, I, f, this, args):
        v = RecV("tm"); c = args[0].c; o = c.v if isinstance(c, Cell) else c
        v.ghost = o.ghost; v.f = {k: I.cell(I.load(q), q.t, q.name) for k, q in o.f.items()}; I.store(this, v)
        return this
    def f_strftime(self, I, f, this, args):
        x = I.ctx; p, n, fmt = self.val(I, args[0]), self.val(I, args[1]), self.S(I, args[2]); tm = I.deref(self.val(I, args[3]))
        size = p.src.v.n
        c = AND(fold(Z(n) >= 0), fold(Z(p.off) + Z(n) <= size))
        if not x.entails(c): x.prove(c, "no write outside a buffer", "strftime", True); x.assume(c)
        if not isinstance(tm.v, RecV): raise Undecided("tm")
        if tm.v.ghost is None: x.fail("no use of an uninitialised value", "tm", True); raise PathEnd("tm")
        E = x.ufstr("strftime", fmt, tm.v.ghost[0], tm.v.ghost[1], chars=NONUL)
        L = x.slen(E); I.touch(p.src, True)
        x.event("strftime", fmt=fmt, tm=tm.v.ghost, text=E)
        if x.branch(AND(fold(Z(L) < Z(n)))):
            rest = x.atom("beyond"); x.assume(fold(Z(rest.len) == Z(size) - Z(L) - 1))
            p.src.v = Lib("chararr", s=E + Str("\0") + Str((rest,)), n=size, lit=False)
            return L
        p.src.v = Lib("chararr", s=x.str("indeterminate"), n=size, lit=False)
        return 0
    def f_put_time(self, I, f, this, args): raise Undecided("put_time")
    def f_write(self, I, f, this, args):
        x = I.ctx; fd, p, n = [self.val(I, a) for a in args]
        if not isinstance(p, CStr): raise Undecided("write")
        s, off = self.cs(I, p)
        c = AND(fold(Z(n) >= 0), fold(Z(off) + Z(n) <= Z(x.slen(s)) + 1))
        if not x.entails(c): x.prove(c, "no read outside a buffer", "write", True); x.assume(c)
        whole = off == 0 and x.entails(EQ(n, x.slen(s)))
        x.event("out", stream="stderr" if fd == 2 else "fd%s" % fd, text=s if whole else x.ufstr("written", s, off, n))
        r = x.int("bytes written", -1); x.assume(fold(Z(r) <= Z(n))); return r
    def f_free(self, I, f, this, args): return None
    def f_getpid(self, I, f, this, args): return I.ctx.ufint("getpid", lo=1)
    def f_strsignal(self, I, f, this, args): return CStr(I.ctx.ufstr("strsignal", self.val(I, args[0]), chars=NONUL))
    def f_assert_fail(self, I, f, this, args): I.ctx.event("abort"); self.noreturn(I, "assert")
    def f_pair_pair(self, I, f, this, args): raise Undecided("pair")
