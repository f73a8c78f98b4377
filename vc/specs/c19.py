"""C19 Conditional logging logs exactly when it should and is free when not."""
from .common import *
from . import c11
TU = ["client", "client_cond", "g3log", "logcapture", "logmessage", "loglevels"]
def world(I, kind="v"):
    """counts evaluations; the condition is an arbitrary value of its type"""
    x = I.ctx; now, tid = c11.clock(x); g = c11.wire(I, now, tid); w = {"side": 0, "cond": 0, "order": [], "truth": None, "g": g}
    def side(I2, f, this, args): w["side"] += 1; w["order"].append("args"); return x.int("streamed", -(1 << 31), (1 << 31) - 1)
    I.hooks["client::side"] = side
    def setcond(v, truth):
        w["truth"] = truth
        def cond(I2, f, this, args): w["cond"] += 1; w["order"].append("cond"); return v() if callable(v) else v
        I.hooks["client::cond" + kind] = cond
    R = {"i": (-(1 << 31), (1 << 31) - 1), "u": (0, (1 << 64) - 1), "c": (-128, 127), "e": (0, 1)}
    if kind == "v": b = x.bool("condition", True); setcond(b, b)
    elif kind in R: v = x.int("condition", R[kind][0], R[kind][1], True); setcond(v, fold(v != 0))
    elif kind == "p":
        b = x.bool("condition", True); isnull = not x.branch(b)
        setcond(NULL if isnull else Ptr(I.cell(Opaque("thing"), None, "thing")), not isnull)
    else:
        cls = {"b": "client::Booly", "n": "client::Inty"}[kind]
        def obj():
            k = [key for key, r in I.P.recs.items() if r.q == cls]
            if not k: raise Undecided("class %s not found" % cls)
            return RecV(I.P.recs[k[0]])
        if kind == "b": v = x.bool("condition", True); t = v
        else: v = x.int("condition", -(1 << 31), (1 << 31) - 1, True); t = fold(v != 0)
        def conv(I2, f, this, args): return v
        for n in ("operator bool", "operator conv", "operator int"): I.hooks[cls + "::" + n] = conv
        setcond(obj, t)
    def logLevel(I2, f, this, args):
        w["order"].append("level"); c = args[0].c; c = c if isinstance(c, Cell) else I2.cell(c)
        return x.ufbool("enabled", c.v.f["value"].v)
    w["contract"] = logLevel
    def capf(I2, f, this, args): I2.store(I2.call_q("LogCapture::stream", [], this=this).v.buf, x.str("formatted", NONUL)); return None
    I.contracts["LogCapture::capturef"] = capf
    return w
def t_text(name):
    """whatever is streamed, also nothing or an empty text"""
    def run(x, I):
        w = world(I); lv, v, t = c11.levels(I); I.contracts["g3::logLevel"] = w["contract"]; s = x.str("streamed", NONUL, inp=True)
        def text(I2, f, this, args): w["side"] += 1; return I2.cell(s)
        I.hooks["client::text"] = text
        I.call_q("client::" + name, [lv]); e = x.branch(x.ufbool("enabled", v))
        x.prove(w["g"].n == (1 if e else 0), "exactly one message is produced, whatever its text, if the level is enabled")
        if name == "cLOGs": x.prove(w["side"] == (1 if e else 0), "the arguments are evaluated exactly when a message is produced")
    return run
def judge(x, w, produced, what, cond, level):
    n = 1 if produced else 0
    x.covers.add("produced" if produced else "not produced")
    x.prove(w["g"].n == n, "%s message is produced" % ("exactly one" if n else "no"))
    x.prove(w["side"] == n, "the arguments are evaluated exactly when a message is produced")
def t_log(name, cond, kind, dynamic):
    def run(x, I):
        w = world(I, kind); lv, v, t = c11.levels(I)
        if dynamic: I.contracts["g3::logLevel"] = w["contract"]; en = x.ufbool("enabled", v)
        else: en = True                              # without dynamic levels every level is enabled (real logLevel)
        I.call_q("client::" + name, [lv])
        e = x.branch(en); c = x.branch(w["truth"]) if cond else True
        judge(x, w, e and c, name, cond, True)
        if cond: x.prove(w["cond"] == (1 if e else 0), "the condition is evaluated once if the level is enabled, and not otherwise")
        if cond and w["side"]: x.prove(w["order"].index("cond") < w["order"].index("args"), "the condition is evaluated before the arguments")
        if w["g"].n: x.prove(w["g"].m["_level.value"][1] is v or EQ(w["g"].m["_level.value"][1], v), "the message has the given level")
    return run
def t_check(name, kind):
    def run(x, I):
        w = world(I, kind); I.call_q("client::" + name, [])
        ok = x.branch(w["truth"])
        judge(x, w, not ok, name, True, False)
        x.prove(w["cond"] == 1, "the expression is evaluated exactly once")
        if w["g"].n: x.prove(EQ(w["g"].fatal, True), "a false contract raises a fatal event")
    return run
def t_else(name, kind, level):
    """the macros are single statements: an enclosing else belongs to its own if"""
    def run(x, I):
        w = world(I, kind); a = x.bool("outer", True); I.contracts["g3::logLevel"] = w["contract"]; args = []
        if level: lv, v, t = c11.levels(I); args = [lv]
        r = I.call_q("client::" + name, args + [a])
        x.prove(EQ(r, ITE(a, 3, 7)), "the surrounding if and else are taken as written")
        if not x.branch(a): x.prove(w["g"].n == 0 and w["side"] == 0 and w["cond"] == 0, "nothing happens in a branch that is not taken")
    return run
def tasks():
    R = []; C = ["LogCapture::LogCapture", "LogCapture::~LogCapture", "LogCapture::stream", "g3::internal::saveMessage"]
    def T(n, fn, fns, cov=(), cfg="def"): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov, cfg=cfg))
    B = ["produced", "not produced"]
    for n, c in (("mLOG", False), ("mLOG_IF", True), ("mLOGF", False), ("mLOGF_IF", True)):
        T(n[1:] + " (dynamic levels)", t_log(n, c, "v", True), ["macro " + n[1:]] + C, B, "dyn")
        T(n[1:], t_log(n, c, "v", False), ["macro " + n[1:], "g3::logLevel"] + C, B if c else ["produced"])
    for n in ("mCHECK", "mCHECKF", "mCHECK_F"): T(n[1:], t_check(n, "v"), ["macro " + n[1:]] + C, B)
    for k, d in (("i", "int"), ("u", "unsigned long"), ("p", "pointer"), ("b", "explicit operator bool"), ("n", "operator int"), ("e", "enumeration"), ("c", "signed char")):
        for n in ("CHECK", "CHECKF", "CHECK_F"): T("%s of type %s" % (n, d), t_check("c" + n + k, k), ["macro " + n], B)
        for n in ("LOG_IF", "LOGF_IF"): T("%s of type %s" % (n, d), t_log("c" + n + k, True, k, True), ["macro " + n], B, "dyn")
    T("LOG in if/else", t_else("mElse", "v", True), ["macro LOG"]); T("LOG_IF in if/else", t_else("mElseIf", "v", True), ["macro LOG_IF"]); T("CHECK in if/else", t_else("mElseC", "v", False), ["macro CHECK"])
    T("LOGF in if/else", t_else("cElseF", "v", True), ["macro LOGF"]); T("LOGF_IF in if/else", t_else("cElseIfF", "v", True), ["macro LOGF_IF"])
    T("CHECKF in if/else", t_else("cElseCF", "v", False), ["macro CHECKF"]); T("CHECK_F in if/else", t_else("cElseC_F", "v", False), ["macro CHECK_F"])
    T("LOG of nothing", t_text("cLOG0"), ["macro LOG"] + C, cfg="dyn"); T("LOG of any text", t_text("cLOGs"), ["macro LOG"] + C, cfg="dyn")
    return R
TRUST = ["boundary contracts: pushMessageToLogger (C03, C20) and fatalCall (C09) receive the message; with dynamic levels logLevel tells whether the level is enabled (C18)"]
ASSUME = ["the condition's own conversion to bool has no effect on g3log", "floating-point conditions are only exercised natively (bounded)"]
