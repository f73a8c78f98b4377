"""C15 Time format strings are substituted exactly."""
from .common import *
from . import c13
TU = ["client", "time"]
LO, HI = -(1 << 63), (1 << 63) - 1
WIDTH = {"frac_ms": 3, "frac_us": 6, "frac_ns": 9, "frac_nd": 9}

def tp(I, n): return I.cell(Lib("tp", n=n, per=1), None, "ts")
def fractions(I, n):
    """contract of to_string (proved by C14): digits of the given kind; kinds identified through their names"""
    x = I.ctx; kinds = {}; cap = []
    I.contracts["g3::internal::to_string"] = lambda I2, f, this, args: (cap.append(I2.lib.val(I2, args[1])), Str("?"))[1]
    for k in WIDTH: I.call_q("client::" + k, [tp(I, n)]); kinds[cap[-1]] = k
    def val(k): return x.ufstr("fraction", WIDTH[k] if k != "frac_nd" else 9, chars=DIG)
    for k in WIDTH: x.assume(EQ(x.slen(val(k)), WIDTH[k]))
    def to_string(I2, f, this, args):
        c = args[0].c; v = c.v if isinstance(c, Cell) else c
        x.prove(EQ(v.n, n), "fractions are those of the given instant")
        k = I2.lib.val(I2, args[1])
        if not isc(k):
            for c2 in kinds:
                if x.branch(EQ(k, c2)): k = c2; break
        if k not in kinds: raise Undecided("fraction kind %r" % (k,))
        return val(kinds[k])
    I.contracts["g3::internal::to_string"] = to_string
    return val
def step(x, val, R):
    """one left-to-right substitution step: None or (text before, value, rest)"""
    r = x.find_lit(R, "%f")
    if r is None: return None
    a, b = r
    if not x.branch(EQ(x.slen(b), 0)):
        h, t = x.headtail(b)
        for ch, k in (("3", "frac_ms"), ("6", "frac_us"), ("9", "frac_ns")):
            if x.branch(EQ(h, ord(ch))): return a, val(k), t
        b = Str((chr(h) if isc(h) else Chr(h),)) + t
    return a, val("frac_nd"), b
def subst(x, val, s, n=6):
    out = EMPTY
    for _ in range(n):
        r = step(x, val, s)
        if r is None: return out + s
        out, s = out + r[0] + r[1], r[2]
    raise Undecided("too many specifiers")

NPOS = (1 << 64) - 1
class Inv:
    """buffer = D + R, D the substitution of what was before R, position between R's start and the last digits of D"""
    def __init__(self, I, mod, val, orig):
        self.I = I; self.val = val; self.orig = orig; self.mod = mod
        bufs = [(c, v) for c, v in mod if isinstance(v, Str)]
        if len(bufs) != 1: raise Undecided("loop without a single text buffer")
        self.buf, v0 = bufs[0]
        if I.ctx.seq(v0, orig) is not True: raise Undecided("loop entered with another text")
        ps = [(c, v) for c, v in mod if not isinstance(v, (Str, Lib, RecV)) and v is not UNINIT and not (isinstance(v, z3.ExprRef) and z3.is_bool(v)) and not isinstance(v, bool) and c.t is not None and c.t.w == 64]
        if len(ps) != 1: raise Undecided("loop without a single position")
        self.pos, p0 = ps[0]
        self.found = not (isc(p0) and p0 == 0)      # the loop stands before the search for the next specifier, or behind it
        if self.found:
            m = I.ctx.find_lit(orig, "%f")
            if not I.ctx.entails(EQ(p0, NPOS if m is None else I.ctx.slen(m[0]))): raise Undecided("loop does not start at the first specifier")
    def havoc(self):
        x = self.I.ctx
        self.D = x.str("done"); self.digs = x.str("digits", DIG); self.R = x.str("rest", NONUL)
        self.buf.v = self.D + self.digs + self.R
        I = self.I; I.inv = self
        if self.found:
            x.assume(fold(Z(x.slen(self.D + self.digs + self.R)) < 1 << 62)); m = x.find_lit(self.R, "%f"); self.pos.v = NPOS if m is None else fold(Z(x.slen(self.D + self.digs + m[0])))
            return [self.buf.uid, self.pos.uid]
        p = x.int("pos", 0, 1 << 62); x.assume(fold(Z(p) >= Z(x.slen(self.D)))); x.assume(fold(Z(p) <= Z(x.slen(self.D)) + Z(x.slen(self.digs))))
        self.pos.v = p
        return [self.buf.uid, self.pos.uid]
    def check(self):
        x = self.I.ctx; r = step(x, self.val, self.R)
        if r is None: raise Undecided("loop iteration without a specifier")
        a, v, rest = r; pre = self.D + self.digs + a
        ok = x.seq(self.buf.v, pre + v + rest)
        if ok is not True and (ok is False or not x.entails(ok)): raise Undecided("loop invariant (text) not preserved")
        lo, hi = x.slen(pre), x.slen(pre + v); p = self.pos.v
        if self.found:
            m = x.find_lit(rest, "%f")
            if not x.entails(EQ(p, NPOS if m is None else fold(Z(x.slen(pre + v + m[0]))))): raise Undecided("loop invariant (position) not preserved")
        elif not x.entails(AND(fold(Z(p) >= Z(lo)), fold(Z(p) <= Z(hi)))): raise Undecided("loop invariant (position) not preserved")
        self.I.ctx.prove(True, "the substitution invariant is preserved by an iteration")
        x.covers.add("iteration")
def t_general(x, I):
    """for every format, by a loop invariant"""
    n = x.int("ts", LO, HI, True); fmt = x.str("format", NONUL, inp=True); val = fractions(I, n)
    I.inv = None; I.force_ind = True
    I.loop_contract = lambda I2, mod: Inv(I2, mod, val, fmt) if any(isinstance(v, Str) for _, v in mod) else None
    r = I.call_q("g3::internal::localtime_formatted_fractions", [tp(I, n), fmt])
    if I.inv is None: exp = subst(x, val, fmt)
    else:
        x.covers.add("after the loop")
        exp = I.inv.D + I.inv.digs + subst(x, val, I.inv.R)
    x.prove(x.seq(r, exp), "every specifier is replaced once, left to right, and every other character is kept")
SHAPES = [("%f",), ("%f3",), ("%f6",), ("%f9",), ("%f3", "%f"), ("%f", "%f6"), ("%f9", "%f3"), ("%f6", "%f6")]
def t_shape(shape):
    def run(x, I):
        n = x.int("ts", LO, HI, True); val = fractions(I, n); I.unroll = len(shape) + 3
        fmt = x.str("before", NONUL, no=frozenset(["%f"]), inp=True)
        for i, s in enumerate(shape): fmt = fmt + Str(s) + x.str("after%d" % i, NONUL - {37} if s == "%f" else NONUL, no=frozenset(["%f"]), inp=True)
        r = I.call_q("g3::internal::localtime_formatted_fractions", [tp(I, n), fmt])
        x.prove(x.seq(r, subst(x, val, fmt)), "every specifier is replaced once, left to right, and every other character is kept")
    return run
def t_none(x, I):
    n = x.int("ts", LO, HI, True); val = fractions(I, n); fmt = x.str("format", NONUL, no=frozenset(["%f"]), inp=True)
    x.prove(x.seq(I.call_q("g3::internal::localtime_formatted_fractions", [tp(I, n), fmt]), fmt), "a format without specifiers is unchanged")
def t_local(x, I):
    n = x.int("ts", LO, HI, True); fmt = x.str("format", NONUL, inp=True)
    def frac(I2, f, this, args):
        c = args[0].c; v = c.v if isinstance(c, Cell) else c
        x.prove(EQ(v.n, n), "the fractions are those of the given instant"); x.prove(x.seq(I2.lib.S(I2, args[1]), fmt), "the given format is substituted")
        return x.ufstr("substituted", chars=NONUL)
    I.contracts["g3::internal::localtime_formatted_fractions"] = frac
    r = I.call_q("g3::localtime_formatted", [tp(I, n), I.cell(fmt)]); sub = x.ufstr("substituted", chars=NONUL)
    ev = [e for e in x.events if e["kind"] == "strftime"]
    x.prove(len(ev) == 1, "the standard formatter is used once")
    if len(ev) != 1: return
    e = ev[0]
    x.prove(x.seq(e["fmt"], sub), "the standard formatter gets the substituted format unchanged")
    x.prove(AND(e["tm"][0] == "localtime", EQ(e["tm"][1], x.divmod(n, 10 ** 9)[0])), "the standard formatter gets the local time of the instant")
    L = x.slen(e["text"])
    if x.branch(EQ(L, 0)): x.covers.add("empty"); x.prove(x.seq(r, sub), "an empty result gives the substituted format")
    elif x.branch(fold(Z(L) < 1024)): x.covers.add("fits"); x.prove(x.seq(r, e["text"]), "a result that fits is returned")
    else: x.covers.add("too long"); x.prove(OR(*[q for q in (x.seq(r, sub), x.seq(r, e["text"])) if q is not False]) if x.seq(r, sub) is not True else True, "a result that does not fit gives the substituted format")
def t_sys(x, I):
    """all message times are converted with one and the same offset"""
    a = x.int("first", 0, 1 << 61, True); b = x.int("second", 0, 1 << 61, True)
    clock = [x.int("clock", 0, 1 << 61)]
    def now(I2):
        v = x.int("clock", 0, 1 << 61); x.assume(v >= clock[-1]); clock.append(v); return v
    I.hooks["now"] = now
    def conv(n): return I.call_q("client::to_sys", [tp(I, n)]).n
    ra, rb = conv(a), conv(b)
    x.prove(EQ(fold(Z(rb) - Z(ra)), fold(Z(b) - Z(a))), "message times are converted consistently")
    if len(clock) > 2 and "static-init" in x.kinds():
        x.covers.add("first conversion"); d = fold(Z(ra) - Z(a)); w = fold(Z(clock[-1]) - Z(clock[1]))
        if all(e["var"].startswith("g3::to_system_time") for e in x.events if e["kind"] == "static-init") and len([e for e in x.events if e["kind"] == "static-init"]) == len(clock) - 1:
            x.prove(AND(fold(Z(d) <= Z(w)), fold(Z(d) >= -Z(w))), "the conversion is off by no more than the time between reading the two clocks")
def tasks():
    R = []
    def T(name, fn, fns, cov=(), tus=TU, kind="contract"): R.append(Task(name, fn, tus=tus, fns=fns, covers=cov, kind=kind))
    F = ["g3::internal::localtime_formatted_fractions", "g3::internal::getFractional"]
    T("localtime_formatted_fractions", t_general, F, ["iteration", "after the loop"])
    T("localtime_formatted_fractions (no specifier)", t_none, F)
    for s in SHAPES: T("localtime_formatted_fractions (%s)" % " ".join(s), t_shape(s), F, kind="bounded: %d specifiers, arbitrary text between" % len(s))
    T("localtime_formatted", t_local, ["g3::localtime_formatted", "g3::localtime", "g3::put_time"], ["empty", "fits", "too long"])
    T("to_system_time", t_sys, ["g3::to_system_time"])
    T("LogMessage::timestamp", c13.t_ts, ["g3::LogMessage::timestamp"], tus=c13.TU)
    return R
TRUST = ["contract of g3::internal::to_string (discharged by C14)", "strftime and localtime_r are the standard's (uninterpreted results)"]
ASSUME = ["formats contain no NUL character (C string semantics of strftime)", "the two clocks never go backwards between reading them"]
