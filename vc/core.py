"""Symbolic values, path exploration, obligations and back ends."""
import time, os, re, subprocess, tempfile
import z3

class Undecided(Exception):
    """The verifier cannot handle something: never a violation."""
class Restart(Exception):
    def __init__(self, key): self.key = key
class PathEnd(Exception): pass
class CppThrow(Exception):
    def __init__(self, val, ty): self.val = val; self.ty = ty

ALL = frozenset(range(256))
NONUL = frozenset(range(1, 256))
DIG = frozenset(map(ord, "0123456789"))
def cset(s): return frozenset(map(ord, s))

# ---------------------------------------------------------------- ints/bools
def isc(x): return isinstance(x, (int, bool))
def Z(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if not isinstance(x, z3.ExprRef): raise Undecided("not a scalar: %r" % (x,))
    return x
def fold(e):
    """z3 -> python constant when it is one"""
    if isc(e): return e
    s = z3.simplify(e)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s
def AND(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def OR(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def NOT(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def IMP(a, b): return OR(NOT(a), b)
def EQ(a, b):
    if isc(a) and isc(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)): return fold(Z(a) == Z(b))
    return fold(Z(a) == Z(b))
def ITE(c, a, b):
    if isinstance(c, bool): return a if c else b
    return fold(z3.If(c, Z(a), Z(b)))

# ---------------------------------------------------------------- strings
class Atom:
    __slots__ = ("name", "len", "chars", "no", "org", "dec")
    def __init__(self, name, ln, chars=ALL, no=frozenset(), org=None, dec=None):
        self.name = name; self.len = ln; self.chars = chars; self.no = no; self.org = org; self.dec = dec
    def __eq__(self, o): return isinstance(o, Atom) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return "<%s>" % self.name
class Chr:
    """one character with symbolic code 0..255"""
    __slots__ = ("code",)
    def __init__(self, code): self.code = code
    def key(self): return self.code if isc(self.code) else self.code.sexpr()
    def __eq__(self, o): return isinstance(o, Chr) and self.key() == o.key()
    def __hash__(self): return hash(("chr", self.key()))
    def __repr__(self): return "[%s]" % self.code
class Str:
    __slots__ = ("p",)
    def __init__(self, parts=()):
        out = []
        for x in (parts if not isinstance(parts, str) else (parts,)):
            if isinstance(x, Str): items = x.p
            else: items = (x,)
            for y in items:
                if isinstance(y, Chr) and isc(y.code): y = chr(y.code)
                if isinstance(y, str):
                    if y == "": continue
                    if out and isinstance(out[-1], str): out[-1] += y; continue
                out.append(y)
        self.p = tuple(out)
    def __add__(self, o): return Str(self.p + (o.p if isinstance(o, Str) else (o,)))
    def __eq__(self, o): return isinstance(o, Str) and self.p == o.p
    def __hash__(self): return hash(self.p)
    def __repr__(self): return "Str(%s)" % "+".join(repr(x) for x in self.p)
    def lit(self):
        if not self.p: return ""
        return self.p[0] if len(self.p) == 1 and isinstance(self.p[0], str) else None
EMPTY = Str()

class Obligation:
    __slots__ = ("proof", "name", "status", "model", "time", "backend", "line", "note", "path", "safety")

class Ctx:
    """One symbolic path."""
    def __init__(self, pr, prefix, learned):
        self.pr = pr; self.prefix = prefix; self.dec = []; self.alts = []
        self.solver = z3.Solver(); self.solver.set("timeout", 4000)
        self.pc = []; self.cnt = {}; self.rw = {}; self.memo = {}; self.learned = learned
        self.inputs = []; self.events = []; self.uid = 0; self.trackers = []; self.taint = set()
        self.assumed = set(); self.I = None; self.note = []
        self.covers = set(); self.cells = {}

    # -- naming
    def nm(self, base):
        n = self.cnt.get(base, 0); self.cnt[base] = n + 1
        return "%s!%d" % (base, n)
    def int(self, base, lo=None, hi=None, inp=False):
        v = z3.Int(self.nm(base))
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        if inp: self.inputs.append((base, v))
        return v
    def bool(self, base, inp=False):
        v = z3.Bool(self.nm(base))
        if inp: self.inputs.append((base, v))
        return v
    def atom(self, base, chars=ALL, no=frozenset(), org=None, exact=False):
        n = base if exact else self.nm(base)
        ln = z3.Int("|%s|" % n)
        a = Atom(n, ln, chars, no, org)
        self.pc.append(ln >= 0); self.solver.add(ln >= 0, ln <= 1 << 60); self.pc.append(ln <= 1 << 60)   # std::string::max_size bound (trusted)
        if not chars: self.assume(ln == 0)
        return a
    def str(self, base, chars=ALL, no=frozenset(), inp=False):
        s = Str((self.atom(base, chars, no),))
        if inp: self.inputs.append((base, s))
        return s
    def ufstr(self, name, *args, chars=ALL, no=frozenset()):
        k = (name,) + tuple(self.key(a) for a in args)
        if k not in self.memo: self.memo[k] = Str((self.atom(name, chars, no),))
        return self.memo[k]
    def ufint(self, name, *args, lo=None, hi=None):
        k = (name, "i") + tuple(self.key(a) for a in args)
        if k not in self.memo: self.memo[k] = self.int(name, lo, hi)
        return self.memo[k]
    def ufbool(self, name, *args):
        k = (name, "b") + tuple(self.key(a) for a in args)
        if k not in self.memo: self.memo[k] = self.bool(name)
        return self.memo[k]
    def key(self, a):
        if isinstance(a, Str): return self.norm(a)
        if isinstance(a, z3.ExprRef):
            a = fold(a); return a if isc(a) else a.sexpr()
        if isinstance(a, (tuple, list)): return tuple(self.key(x) for x in a)
        return a

    def divmod(self, n, d):
        """floor division by a positive constant, as fresh quotient and remainder"""
        n = fold(n)
        if isc(n): return n // d, n % d
        if d == 1: return n, 0
        k = ("divmod", n.sexpr(), d)
        if k not in self.memo:
            q, r = z3.Int(self.nm("quot")), z3.Int(self.nm("rem"))
            self.assume(n == q * d + r); self.assume(r >= 0); self.assume(r < d); self.memo[k] = (q, r)
        return self.memo[k]

    # -- path condition
    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd("assume false")
        self.pc.append(c); self.solver.add(c)
    def sat(self, *extra):
        t = time.time()
        r = self.solver.check(*[Z(x) for x in extra])
        self.pr.solver_time += time.time() - t; self.pr.queries += 1
        return r
    def feasible(self, c=True):
        if c is False: return False
        return self.sat(c) != z3.unsat if c is not True else self.sat() != z3.unsat
    def entails(self, c):
        if isinstance(c, bool): return c
        c = fold(c)
        if isinstance(c, bool): return c
        return self.sat(z3.Not(c)) == z3.unsat
    def sat_code(self, e, c): return self.feasible(fold(e == c))
    def one_value(self, e):
        """the value of a code expression if the path fixes it"""
        if isc(e): return e
        if self.solver.check() != z3.sat: return None
        v = self.solver.model().eval(e, model_completion=True)
        if not z3.is_int_value(v): return None
        v = v.as_long(); return v if self.entails(EQ(e, v)) else None
    def _choose(self, options):
        i = len(self.dec)
        if i < len(self.prefix): ch = self.prefix[i]
        else:
            ch = options[0]
            for o in options[1:]: self.alts.append(self.dec + [o])
        self.dec.append(ch)
        if len(self.dec) > 6000: raise Undecided("too many decisions on one path")
        return ch
    def fork(self, n): return self._choose(list(range(n)))
    def branch(self, c):
        if isinstance(c, bool): return c
        if not z3.is_bool(c): c = c != 0
        c = fold(c)
        if isinstance(c, bool): return c
        if len(self.dec) < len(self.prefix): ch = self._choose([None])
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            ch = self._choose([1, 0] if t and f else [1] if t else [0])
        self.assume(c if ch else z3.Not(c))
        return bool(ch)
    # forced branches are recorded too, so a replayed prefix needs no solver call

    # -- strings
    def norm(self, s):
        if not self.rw: return s
        while True:
            ch = False; out = []
            for x in s.p:
                if isinstance(x, Atom) and x.name in self.rw: out.extend(self.rw[x.name]); ch = True
                else: out.append(x)
            if not ch: return s
            s = Str(out)
    def plen(self, x):
        if isinstance(x, str): return len(x)
        if isinstance(x, Chr): return 1
        return x.len
    def slen(self, s):
        s = self.norm(s); n = 0
        for x in s.p:
            l = self.plen(x)
            n = n + l if not (isc(n) and isc(l)) else n + l
        return fold(n)
    def decompose(self, a, parts):
        if a.org and a.org[0].name not in self.rw: parts = self.split_base(a, parts)
        self.rw[a.name] = tuple(Str(parts).p)
        n = 0
        for x in self.rw[a.name]: n = n + self.plen(x)
        self.assume(fold(Z(a.len) == n))
    def split_base(self, a, parts):
        """a = filter(base) is split: some split of base corresponds to it (a filtered text of every part, a kept character for every character)"""
        base, nk, nt = a.org; inv = {}
        for c in nk: inv.setdefault(nt.get(c, c), set()).add(c)
        out = []; bp = []
        def code(z):
            pre = frozenset(k for v in ([z] if isc(z) else list(inv)) for k in inv.get(v, ()))
            if isc(z): ch = self.newchar(pre)
            elif all(nt.get(c, c) == c for c in nk): ch = Chr(z)
            else:
                ch = self.newchar(pre); e = Z(ord(ch)) if isinstance(ch, str) else ch.code
                for k, v in nt.items(): e = ITE(EQ(ch.code, k), v, e) if isinstance(ch, Chr) else Z(nt.get(ord(ch), ord(ch)))
                self.assume(fold(Z(e) == Z(z)))
            bp.append(ch)
        at = [False]
        def gap():
            if nk != base.chars and not at[0]: bp.append(self.atom(base.name + "_", base.chars - nk, base.no))
        for y in parts:
            if isinstance(y, str):
                for c in y: gap(); at[0] = False; code(ord(c)); out.append(c)
            elif isinstance(y, Chr): gap(); at[0] = False; code(y.code); out.append(y)
            else:
                at[0] = True; u = self.atom(base.name + "|", frozenset(c for c in base.chars if c not in nk or nt.get(c, c) in y.chars), base.no)
                un = u.chars & nk; ut = {k: v for k, v in nt.items() if k in un}; bp.append(u)
                if un == u.chars and not ut: self.assume(fold(Z(u.len) == Z(y.len))); self.rw[y.name] = (u,); out.append(u); continue
                self.assume(y.len <= u.len)
                if un == u.chars: self.assume(y.len == u.len)
                y.org = (u, un, ut); self.memo[("flt", u.name, un, tuple(sorted(ut.items())))] = y; out.append(y)
        gap(); self.decompose(base, bp)
        return out
    def chartest(self, code, cs):
        """membership of a code expression in a char set"""
        if isc(code): return code in cs
        if cs == ALL: return True
        neg = len(cs) > 128
        L = sorted(ALL - cs if neg else cs)
        rng = []; i = 0
        while i < len(L):
            j = i
            while j + 1 < len(L) and L[j + 1] == L[j] + 1: j += 1
            rng.append(code == L[i] if i == j else z3.And(code >= L[i], code <= L[j])); i = j + 1
        e = z3.Or(*rng) if rng else z3.BoolVal(False)
        return fold(z3.Not(e) if neg else e)
    def newchar(self, cs=ALL, base="ch"):
        if len(cs) == 1: return chr(next(iter(cs)))
        c = self.int(base, 0, 255)
        t = self.chartest(c, cs)
        self.assume(t)
        return Chr(c)
    def empty_split(self, a):
        """decide emptiness of an atom; True if empty"""
        if self.branch(a.len == 0):
            if a.name not in self.rw: self.rw[a.name] = ()
            return True
        return False
    def cut(self, s, i):
        """(s[:i], s[i:]) for 0<=i<=len(s) (assumed by the caller)"""
        s = self.norm(s); acc = 0; left = []; parts = list(s.p)
        while True:
            if self.entails(EQ(acc, i)): return Str(left), self.norm(Str(parts))
            if not parts: raise Undecided("cut beyond end")
            x = parts.pop(0); l = self.plen(x); nacc = fold(Z(acc) + l) if not (isc(acc) and isc(l)) else acc + l
            if self.entails(fold(Z(i) >= nacc)) or (not isc(i) or not isc(nacc)) and self._ge(i, nacc):
                left.append(x); acc = nacc; continue
            # strictly inside x
            if isinstance(x, str):
                d = fold(Z(i) - acc)
                if not isc(d):
                    for k in range(len(x)):
                        if self.branch(d == k): d = k; break
                    else: raise Undecided("cut inside literal")
                left.append(x[:d]); return Str(left), self.norm(Str([x[d:]] + parts))
            if isinstance(x, Chr):
                return Str(left), self.norm(Str([x] + parts))
            if x.dec is not None: raise Undecided("cut inside number")
            d = fold(Z(i) - acc)
            if d == 1: a1 = self.newchar(x.chars)
            else:
                a1 = self.atom(x.name + "<", x.chars, x.no); self.assume(fold(a1.len == d))
            rest = fold(x.len - d)
            a2 = self.atom(x.name + ">", x.chars, x.no)
            self.decompose(x, [a1, a2])
            left.append(a1); return Str(left), self.norm(Str([a2] + parts))
    def _ge(self, i, n): return self.branch(fold(Z(i) >= Z(n)))
    def at(self, s, i):
        """code of the i-th char"""
        _, r = self.cut(s, i)
        h, _ = self.headtail(r)
        return h
    def headtail(self, s):
        """(code, rest) of a non-empty string (emptiness decided by caller)"""
        s = self.norm(s); parts = list(s.p)
        while parts:
            x = parts.pop(0)
            if isinstance(x, str): return ord(x[0]), Str([x[1:]] + parts)
            if isinstance(x, Chr): return x.code, Str(parts)
            if x.dec is not None: raise Undecided("head of number")
            if self.empty_split(x): continue
            c = self.newchar(x.chars - self.memo.get(("nostart", x.name), frozenset())); r = self.atom(x.name + ">", x.chars, x.no)
            self.decompose(x, [c, r])
            return (ord(c) if isinstance(c, str) else c.code), Str([r] + parts)
        raise PathEnd("head of empty")
    def lasttail(self, s):
        s = self.norm(s); parts = list(s.p)
        while parts:
            x = parts.pop()
            if isinstance(x, str): return ord(x[-1]), Str(parts + [x[:-1]])
            if isinstance(x, Chr): return x.code, Str(parts)
            if x.dec is not None: raise Undecided("last of number")
            if self.empty_split(x): continue
            c = self.newchar(x.chars); r = self.atom(x.name + "<", x.chars, x.no)
            self.decompose(x, [r, c])
            return (ord(c) if isinstance(c, str) else c.code), Str(parts + [r])
        raise PathEnd("last of empty")
    def find_set(self, s, cs, last=False):
        """first/last char in cs: None or (before, code, after)"""
        s = self.norm(s); parts = list(s.p); done = []
        while parts:
            x = parts.pop(-1 if last else 0)
            if isinstance(x, str):
                idx = [i for i, c in enumerate(x) if ord(c) in cs]
                if idx:
                    i = idx[-1] if last else idx[0]
                    if last: return Str(parts + [x[:i]]), ord(x[i]), Str([x[i+1:]] + done)
                    return Str(done + [x[:i]]), ord(x[i]), Str([x[i+1:]] + parts)
            elif isinstance(x, Chr):
                if self.branch(self.chartest(x.code, cs)):
                    return (Str(parts), x.code, Str(done)) if last else (Str(done), x.code, Str(parts))
            else:
                hit = x.chars & cs
                if hit:
                    if x.chars <= cs:
                        if not self.empty_split(x):
                            if x.dec is not None: raise Undecided("search in number")
                            c = self.newchar(x.chars); r = self.atom(x.name + "~", x.chars, x.no)
                            self.decompose(x, [r, c] if last else [c, r])
                            code = ord(c) if isinstance(c, str) else c.code
                            return (Str(parts + [r]), code, Str(done)) if last else (Str(done), code, Str([r] + parts))
                        x = ""
                    elif self.fork(2) == 0:
                        if x.dec is not None: raise Undecided("search in number")
                        a = self.atom(x.name + "<", x.chars if last else x.chars - cs, x.no)
                        b = self.atom(x.name + ">", x.chars - cs if last else x.chars, x.no)
                        c = self.newchar(hit)
                        self.decompose(x, [a, c, b])
                        if len(self.dec) >= len(self.prefix) and not self.feasible(): raise PathEnd("infeasible")
                        code = ord(c) if isinstance(c, str) else c.code
                        if last: return Str(parts + [a]), code, Str([b] + done)
                        return Str(done + [a]), code, Str([b] + parts)
                    else:
                        y = self.atom(x.name + "-", x.chars - cs, x.no, None)
                        if x.dec is not None: raise Undecided("search in number")
                        self.decompose(x, [y]); x = y
            if last: done.insert(0, x)
            else: done.append(x)
        return None
    def find_lit(self, s, pat):
        """first occurrence of literal pat: None or (before, after)"""
        if len(pat) == 0: return EMPTY, s
        if len(pat) == 1:
            r = self.find_set(s, cset(pat))
            return None if r is None else (r[0], r[2])
        s = self.norm(s); parts = list(s.p); done = []
        pc = [ord(c) for c in pat]
        while parts:
            x = parts.pop(0)
            if isinstance(x, str):
                i = x.find(pat)
                if i >= 0: return Str(done + [x[:i]]), Str([x[i+len(pat):]] + parts)
                if parts and self._straddle(x, parts[0], pat): raise Undecided("pattern may straddle")
            elif isinstance(x, Chr):
                if parts and self.feasible(self.chartest(x.code, frozenset(pc[:-1]))):
                    if self.branch(self.chartest(x.code, frozenset(pc[:1]))):
                        if len(pat) == 2 and isinstance(parts[0], Atom) and parts[0].dec is None:
                            # only the second character is asked for, the text behind it stays whole
                            nx = parts[0]; nk = ("nostart", nx.name)
                            if len(parts) > 1 and self.branch(nx.len == 0): parts[0] = x; continue
                            if pc[1] in nx.chars and pc[1] not in self.memo.get(nk, ()):
                                if self.feasible(nx.len > 0) and self.fork(2) == 0:
                                    r = self.atom(nx.name + ">", nx.chars, nx.no); self.decompose(nx, [pat[1], r])
                                    return Str(done), Str([r] + parts[1:])
                                self.memo[nk] = self.memo.get(nk, frozenset()) | {pc[1]}
                            done.append(x); continue
                        nxt = Str(parts)
                        if self.branch(self.slen(nxt) == 0) if not isc(self.slen(nxt)) else self.slen(nxt) == 0: done.append(x); break
                        h, r = self.headtail(nxt)
                        if len(pat) != 2: raise Undecided("long pattern")
                        if self.branch(EQ(h, pc[1])): return Str(done), r
                        parts = list(self.norm(nxt).p)
            else:
                if pat not in x.no and all(c in x.chars for c in pc):
                    if self.fork(2) == 0:
                        a = self.atom(x.name + "<", x.chars, x.no | {pat}); b = self.atom(x.name + ">", x.chars, x.no)
                        self.decompose(x, [a, pat, b])
                        if ("nostart", x.name) in self.memo: self.memo["nostart", a.name] = self.memo["nostart", x.name]
                        return Str(done + [a]), Str([b] + parts)
                    y = self.atom(x.name + "-", x.chars, x.no | {pat})
                    self.decompose(x, [y])
                    if ("nostart", x.name) in self.memo: self.memo["nostart", y.name] = self.memo["nostart", x.name]
                    x = y
                if parts and pc[0] in x.chars and self._straddle(x, parts[0], pat): raise Undecided("pattern may straddle")
            done.append(x)
        return None
    def _straddle(self, x, y, pat):
        if isinstance(x, str):
            if not any(x.endswith(pat[:k]) for k in range(1, len(pat))): return False
        if isinstance(y, str): return any(y.startswith(pat[k:]) for k in range(1, len(pat)))
        if isinstance(y, Chr): return True
        return any(ord(pat[k]) in y.chars for k in range(1, len(pat)))
    def maprope(self, s, table, keep):
        """filter (keep) then map (table: dict code->code) char-wise"""
        out = []
        for x in self.norm(s).p:
            if isinstance(x, str): out.append("".join(chr(table.get(ord(c), ord(c))) for c in x if ord(c) in keep))
            elif isinstance(x, Chr):
                if keep != ALL and not self.branch(self.chartest(x.code, keep)): continue
                c = x.code
                for a, b in table.items(): c = ITE(EQ(x.code, a), b, c)
                out.append(Chr(c))
            else:
                k2 = keep & x.chars
                if not k2: continue
                t2 = {a: b for a, b in table.items() if a in k2 and a != b}
                if k2 == x.chars and not t2: out.append(x); continue
                base, bk, bt = x.org if x.org else (x, x.chars, {})
                nk = frozenset(c for c in bk if bt.get(c, c) in k2)
                nt = {c: t2.get(bt.get(c, c), bt.get(c, c)) for c in nk if t2.get(bt.get(c, c), bt.get(c, c)) != c}
                key = ("flt", base.name, nk, tuple(sorted(nt.items())))
                if key not in self.memo:
                    a = self.atom("f(" + base.name + ")", frozenset(nt.get(c, c) for c in nk))
                    a.org = (base, nk, nt)
                    self.assume(a.len <= base.len)
                    if nk == base.chars: self.assume(a.len == base.len)
                    self.memo[key] = a
                out.append(self.memo[key])
        return Str(out)
    def decimal(self, n):
        """decimal text of an int"""
        if isc(n): return Str(str(n))
        n = fold(n)
        if isc(n): return Str(str(n))
        k = ("dec", n.sexpr())
        if k not in self.memo:
            neg = not self.entails(n >= 0)
            a = self.atom("dec", DIG | ({45} if neg else frozenset()))
            a.dec = n; self.assume(a.len >= 1); self.memo[k] = a
        return Str((self.memo[k],))
    def declen(self, a, maxd=20):
        """case split on the digit count of a decimal atom (axiom: |dec(n)|=k iff 10^(k-1)<=|n|<10^k)"""
        n = a.dec
        if isc(a.len): return a.len
        self.pr.trust.add("axiom: a non-negative integer n has k decimal digits iff 10^(k-1) <= n < 10^k")
        neg = self.branch(n < 0)
        m = -n if neg else n
        for k in range(1, maxd + 1):
            if self.branch(m < 10 ** k):
                L = k + (1 if neg else 0); self.assume(a.len == L); a.len = L; return L
        raise Undecided("number too wide")

    # -- z3 view of ropes
    def zstr(self, s):
        s = self.norm(s); ps = []
        for x in s.p:
            if isinstance(x, str): ps.append(z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in x)))
            elif isinstance(x, Chr): ps.append(z3.StrFromCode(Z(x.code)))
            else: ps.append(self.zatom(x))
        if not ps: return z3.StringVal("")
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)
    def zatom(self, a):
        v = z3.String(a.name); k = ("z", a.name)
        if k not in self.memo:
            self.memo[k] = []
            cs = [z3.Length(v) == Z(a.len)]
            ch = a.chars
            if ch != ALL:
                L = sorted(ch); rs = []; i = 0
                while i < len(L):
                    j = i
                    while j + 1 < len(L) and L[j+1] == L[j] + 1: j += 1
                    rs.append(z3.Range(chr_z(L[i]), chr_z(L[j]))); i = j + 1
                re_ = (rs[0] if len(rs) == 1 else z3.Union(*rs)) if rs else None
                cs.append(z3.InRe(v, z3.Star(re_)) if re_ is not None else v == "")
            for p in a.no: cs.append(z3.Not(z3.Contains(v, z3.StringVal(p))))
            if a.dec is not None: cs.append(z3.Implies(Z(a.dec) >= 0, v == z3.IntToStr(Z(a.dec))))
            self.memo[k] = cs
        self.zside.extend(self.memo[k])
        return v
    def seq(self, a, b):
        """equality of two ropes: python bool or a ('seq',a,b) formula"""
        a = self.norm(a); b = self.norm(b)
        if a.p == b.p: return True
        pa, pb = list(a.p), list(b.p)
        def strip(pa, pb, last):
            i = -1 if last else 0
            conds = []
            while pa and pb:
                x, y = pa[i], pb[i]
                if x == y: pa.pop(i); pb.pop(i); continue
                sx, sy = isinstance(x, str), isinstance(y, str)
                if sx and sy:
                    n = 0; m = min(len(x), len(y))
                    if last:
                        while n < m and x[-1-n] == y[-1-n]: n += 1
                        if n == 0: return False
                        nx, ny = x[:len(x)-n], y[:len(y)-n]
                    else:
                        while n < m and x[n] == y[n]: n += 1
                        if n == 0: return False
                        nx, ny = x[n:], y[n:]
                    if n < m: return False
                    pa[i:(i+1) or None] = [nx] if nx else []; pb[i:(i+1) or None] = [ny] if ny else []
                    continue
                if isinstance(x, Atom) and isinstance(y, Atom) and x.dec is not None and y.dec is not None and self.entails(EQ(x.dec, y.dec)): pa.pop(i); pb.pop(i); continue
                if isinstance(x, Chr) and isinstance(y, Chr): conds.append(EQ(x.code, y.code)); pa.pop(i); pb.pop(i); continue
                if isinstance(x, Chr) and sy or sx and isinstance(y, Chr):
                    if sx:
                        conds.append(EQ(y.code, ord(x[i]))); pb.pop(i); r = x[:-1] if last else x[1:]; pa[i:(i+1) or None] = [r] if r else []
                    else:
                        conds.append(EQ(x.code, ord(y[i]))); pa.pop(i); r = y[:-1] if last else y[1:]; pb[i:(i+1) or None] = [r] if r else []
                    continue
                break
            return conds
        c1 = strip(pa, pb, False)
        if c1 is False: return False
        c2 = strip(pa, pb, True)
        if c2 is False: return False
        cs = AND(*(c1 + c2))
        if cs is False: return False
        if not pa and not pb: return cs
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(x, (str, Chr)) for x in rest): return False
            return AND(cs, *[EQ(x.len, 0) for x in rest])
        la, lb = self.slen(Str(pa)), self.slen(Str(pb))
        z1, z2 = self.zstr2(Str(pa)), self.zstr2(Str(pb))
        if not self.feasible(fold(Z(la) == Z(lb))): return False
        return AND(cs, z1 == z2)
    def zstr2(self, s):
        self.zside = []
        v = self.zstr(s)
        for c in self.zside:
            k = ("zs", c.get_id())
            if k not in self.assumed: self.assumed.add(k); self.pc.append(c); self.keep = getattr(self, "keep", []) + [c]
        # string side conditions only go to obligations (kept out of the fast feasibility solver)
        self.strpc = getattr(self, "strpc", []) + self.zside
        return v
    zside = []

    # -- obligations
    def prove(self, c, name, note="", safety=False):
        self.pr.prove(self, c, name, note, safety)
    def fail(self, name, note="", safety=False):
        """an unconditional failure on this (feasible) path"""
        self.pr.prove(self, False, name, note, safety)
    def event(self, kind, **kw):
        kw["kind"] = kind; self.events.append(kw)
        return kw
    def kinds(self): return [e["kind"] for e in self.events]

def chr_z(c): return z3.StringVal("\\u{%x}" % c)

class Proof:
    def __init__(self, name, fns=(), prop=None):
        self.name = name; self.fns = list(fns); self.obl = []; self.paths = 0; self.status = None; self.reason = ""
        self.covers = set(); self.need_covers = set(); self.time = 0.0

class Prover:
    def __init__(self, timeout_ms=8000, cross=False, budget=240):
        self.timeout = timeout_ms; self.proofs = []; self.cur = None; self.solver_time = 0.0; self.queries = 0
        self.trust = set(); self.used_contracts = {}; self.models_used = set(); self.cross = cross; self.backends = {}
        self.inlined = set(); self.budget = budget; self.crossed = 0; self.havocs = 0

    def run(self, name, fn, fns=(), covers=(), max_paths=4000):
        """fn(ctx) executes one path; explored until no alternative is left."""
        pf = Proof(name, fns); self.proofs.append(pf); self.cur = pf
        pf.need_covers = set(covers); t0 = time.time(); c0 = time.process_time()
        learned = {}; work = [[]]; done = []; restarts = 0
        while work:
            prefix = work.pop(); pf.obl = []; again = None; ctx = Ctx(self, prefix, learned)
            try:
                try: fn(ctx)
                except PathEnd: pass
                except CppThrow as e:
                    ctx.fail("no unexpected C++ exception escapes", "exception of type %s" % (e.ty,))
                except Restart as e: again = e
                if time.process_time() - c0 > self.budget or time.time() - t0 > max(self.budget, min(2.5 * self.budget, 400)): raise Undecided("proof budget of %ds used up" % self.budget)
                if len(done) > max_paths: raise Undecided("more than %d paths" % max_paths)
                if restarts > 3000: raise Undecided("invariant inference did not converge")
            except Undecided as e:
                pf.status = "undecided"; pf.reason = str(e)
            except RecursionError:
                pf.status = "undecided"; pf.reason = "recursion depth"
            except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                import traceback
                pf.status = "undecided"; pf.reason = "internal: %r at %s" % (e, traceback.format_exc().strip().splitlines()[-3].strip())
                if os.environ.get("VC_DEBUG"): traceback.print_exc()
            if again is not None and pf.status is None:
                # what was learned about a loop holds for all paths that reach it by the same decisions: only those are run again
                k = again.key; d = k[0]; n = len(d); restarts += 1
                for q in [q for q in learned if q[0][:n] == d and (q[2], q[3]) > (k[2], k[3])]: del learned[q]
                done = [w for w in done if w[0][:n] != d]
                work = [w for w in work + ctx.alts if tuple(w[:n]) != d] + [list(d)]
                continue
            done.append((tuple(ctx.dec), pf.obl, ctx.covers)); work += ctx.alts
            if pf.status is not None: break
        pf.obl = [o for w in done for o in w[1]]; pf.paths = len(done)
        for w in done: pf.covers |= w[2]
        pf.time = time.time() - t0
        if any(o.status == "failed" and not (o.note or "").startswith("[tainted]") for o in pf.obl): pf.status = "failed"
        elif pf.status is None:
            if any(o.status != "discharged" for o in pf.obl): pf.status = "undecided"; pf.reason = "undischarged: " + ", ".join(sorted({o.name for o in pf.obl if o.status != "discharged"}))[:200]
            elif not pf.obl: pf.status = "undecided"; pf.reason = "no obligation generated (vacuous)"
            elif not pf.need_covers <= pf.covers: pf.status = "undecided"; pf.reason = "cover not reached: %s" % sorted(pf.need_covers - pf.covers)
            else: pf.status = "proved"
        self.cur = None
        if os.environ.get("VC_VERBOSE"):
            print("  [%s] %s: %d paths, %d obligations, %.1fs %s" % (pf.status, name, pf.paths, len(pf.obl), pf.time, pf.reason), flush=True)
            for o in pf.obl:
                if o.status != "discharged": print("      %s: %s L%s %s model=%s" % (o.status, o.name, o.line, o.note, str(o.model)[:600]))
        return pf

    def prove(self, ctx, c, name, note, safety):
        o = Obligation(); o.proof = self.cur.name; o.name = name; o.note = note; o.model = None; o.safety = safety
        o.line = getattr(ctx.I, "line", None) if ctx.I else None; o.path = list(ctx.dec)
        t = time.time(); o.backend = "z3"
        if isinstance(c, bool): c = z3.BoolVal(c)
        s = z3.Solver(); s.set("timeout", self.timeout)
        for p in ctx.pc: s.add(Z(p))
        s.add(z3.Not(c))
        r = s.check()
        if r == z3.unknown:
            r2 = self.cvc5(s)
            if r2 is not None: r = r2; o.backend = "cvc5"
        elif self.cross and r == z3.unsat:
            r2 = self.cvc5(s)
            if r2 == z3.sat: r = z3.unknown; note += " (z3 and cvc5 disagree)"
            elif r2 == z3.unsat: self.crossed += 1
        o.time = time.time() - t; self.solver_time += o.time; self.queries += 1
        if r == z3.unsat: o.status = "discharged"
        elif r == z3.sat:
            o.status = "failed"
            try: o.model = self.model(ctx, s.model()) if o.backend == "z3" else {}
            except Exception as e: o.model = {"error": repr(e)}
            if ctx.taint:
                o.note = "[tainted] over-approximated: %s; %s" % (", ".join(sorted(ctx.taint)), note)
        else: o.status = "unknown"
        self.backends[o.backend] = self.backends.get(o.backend, 0) + (o.status == "discharged")
        self.cur.obl.append(o)
        if o.status == "discharged": ctx.assume(c)
        return o.status
    def cvc5(self, s):
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n(set-option :strings-exp true)\n" + s.to_smt2()); n = f.name
            p = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout, n], capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
            os.unlink(n)
            if p.stdout.strip().startswith("unsat"): return z3.unsat
            if p.stdout.strip().startswith("sat"): return z3.sat
        except Exception: pass
        return None
    def model(self, ctx, m):
        out = {}
        def ev(x):
            if isc(x): return x
            v = m.eval(Z(x), model_completion=True)
            if z3.is_int_value(v): return v.as_long()
            if z3.is_true(v): return True
            if z3.is_false(v): return False
            return str(v)
        def sv(s):
            o = ""
            for x in ctx.norm(s).p:
                if isinstance(x, str): o += x
                elif isinstance(x, Chr): o += chr(ev(x.code) % 256)
                elif x.dec is not None: o += str(ev(x.dec))
                else:
                    v = m.eval(z3.String(x.name), model_completion=False)
                    if z3.is_string_value(v) and v.decl().kind() != z3.Z3_OP_UNINTERPRETED: o += re.sub(r"\\u\{([0-9a-f]+)\}", lambda k: chr(int(k.group(1), 16)), v.as_string())
                    else:
                        n = ev(x.len); n = n if isinstance(n, int) else 0
                        c = next((c for c in (97, 98, 48) if c in x.chars), next(iter(sorted(x.chars)), 97))
                        o += chr(c) * min(max(n, 0), 5000)
            return o
        for n, v in ctx.inputs:
            try: out[n] = sv(v) if isinstance(v, Str) else ev(v)
            except Exception as e: out[n] = "?" + repr(e)
        return out
