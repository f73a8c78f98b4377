"""C18 Dynamic level control affects exactly the levels it names."""
from ..core import *
from ..interp import *
from ..lib import Seg
from ..harness import Task
TU = ["loglevels"]
DEF = {100: "DEBUG", 300: "INFO", 500: "WARNING", 1000: "FATAL"}
NS = "g3::log_levels::"

def is_registry(t): return t.k == "rec" and t.n == "std::map" and "LoggingLevel" in t.s

def level(I, name, v=None, text=None):
    """arbitrary LEVELS object (texts are C strings: no NUL)"""
    t = I.P.types["LEVELS"] if "LEVELS" in I.P.types else None
    r = I.rec("LEVELS"); o = RecV(r)
    o.f["value"] = I.cell(v if v is not None else I.ctx.int(name + ".value", -(1 << 31), (1 << 31) - 1, inp=True), None, "value")
    o.f["text"] = I.cell(text if text is not None else I.ctx.str(name + ".text", NONUL, inp=True), None, "text")
    for n, ft, _ in I.P.all_fields(r): o.f[n].t = ft
    return I.cell(o, next((t for tys in I.P.tt.values() for t in tys if t.id == "LEVELS"), None), name)

def lvl_of(ent): return ent.v.second.v.f["level"].v.f
def status_of(ent): return ent.v.second.v.f["status"].v.f["value_"].v.v.v

class Setup:
    """registry with arbitrary content, observed at an arbitrary key k"""
    def __init__(s, I):
        s.I = I; x = I.ctx; s.k = x.int("k", -(1 << 31), (1 << 31) - 1, inp=True); s.cell = None
        s.present = x.fork(2) == 0
        x.inputs.append(("k.present", s.present))
        I.hooks["map-inv"] = s.inv
        I.hooks["map-inv-check"] = s.inv_check
        I.hooks["sym:std::map"] = lambda I, t, name: s.make(t, name)
        old = I.sym
        s.pre_on = s.pre_text = None
        # materialise the global now
        for key in I.P.gorder:
            d, tu = I.P.globals[key]; t = I.P.tt[tu][d["t"]]
            if is_registry(t) and not t.c:
                I.globals[key] = I.cell(s.make(t, d["n"]), t, d["n"]); s.cell = I.globals[key]; s.gkey = key
        if s.cell is None: raise Undecided("no level registry found")
    def inv(s, I, ent):
        lf = lvl_of(ent); I.ctx.assume(EQ(I.load(lf["value"]), I.load(ent.v.first)))
        t = I.load(lf["text"])
    def inv_check(s, I, ent):
        I.ctx.prove(EQ(I.load(lvl_of(ent)["value"]), I.load(ent.v.first)), "registry invariant: an entry's level has the entry's value")
    def make(s, t, name):
        I = s.I; kt, vt = t.args[0], t.args[1]
        def gen(I2, sg):
            v = RecV(I2.P.recs[vt.id]); 
            val = I2.sym(vt, sg.name + ".val")
            val.f["level"].v.f["text"].v = I2.ctx.str(sg.name + ".text", NONUL)
            return I2.lib.mapent(I2, kt, vt, I2.ctx.int(sg.name + ".key", *I2.irange(kt)), val)
        if s.present:
            val = I.sym(vt, "entry", True); val.f["level"].v.f["text"].v = I.ctx.str("entry.text", NONUL, inp=True)
            ent = I.lib.mapent(I, kt, vt, s.k, val); s.inv(I, ent)
            seq = (Seg("lo", gen, None, s.k), ent, Seg("hi", gen, s.k, None))
            s.pre_on = status_of(ent); s.pre_text = lvl_of(ent)["text"].v
        else: seq = (Seg("all", gen, None, None, (s.k,)),)
        return Lib("map", seq=I.cell(seq, None, name), kt=kt, vt=vt)
    def find(s, k=None, m=None):
        i, _ = s.I.lib.map_find(s.I, m or s.cell.v, s.k if k is None else k)
        return None if i is None else (m or s.cell.v).seq.v[i]
    def check(s, present, on=None, text=None, what="", m=None):
        """the registry's final state at k"""
        x = s.I.ctx; e = s.find(m=m)
        if present is None: return e
        x.prove((e is not None) == present if isinstance(present, bool) else (present if e is not None else NOT(present)), what + "registered levels are exactly the specified ones")
        if e is not None:
            s.inv_check(s.I, e)
            if on is not None: x.prove(EQ(status_of(e), on), what + "a level's status is exactly the specified one")
            if text is not None: x.prove(x.seq(s.I.load(lvl_of(e)["text"]), text), what + "a level's text is preserved")
        return e
    def unchanged(s, what="frame: "):
        s.check(s.present, s.pre_on, s.pre_text, what)

def level_eq_text(s, L):
    """assume: if the argument names the observed level it is that level (same text)"""
    if s.present:
        x = s.I.ctx
        if x.branch(EQ(L.v.f["value"].v, s.k)): L.v.f["text"].v = s.pre_text

def t_set(fn, arg):
    def run(x, I):
        s = Setup(I); L = level(I, "level"); level_eq_text(s, L)
        lv = L.v.f["value"].v; on = None
        if arg == "sym": on = x.bool("enabled", inp=True); args = [Arg("r", I.copy_value(L), L.t), on]
        else: on = arg; args = [Arg("r", I.copy_value(L), L.t)]
        I.call_q(NS + fn, args)
        if s.present and x.branch(EQ(lv, s.k)): x.covers.add("hit"); s.check(True, on, s.pre_text, "named level: ")
        else: x.covers.add("other"); s.unchanged()
    return run
def t_sethighest(x, I):
    s = Setup(I); L = level(I, "level"); level_eq_text(s, L); lv = L.v.f["value"].v
    # is the argument registered in the pre-state?
    reg = s.find(lv) is not None
    I.call_q(NS + "setHighest", [Arg("r", I.copy_value(L), L.t)])
    if reg:
        x.covers.add("registered")
        if s.present: s.check(True, fold(Z(s.k) >= Z(lv)), s.pre_text, "at or above: ")
        else: s.check(False)
    else: x.covers.add("unregistered"); s.unchanged()
def t_all(fn, on):
    def run(x, I):
        s = Setup(I); I.call_q(NS + fn, [])
        if s.present: s.check(True, on, s.pre_text)
        else: s.check(False)
    return run
def t_add(n):
    def run(x, I):
        s = Setup(I); L = level(I, "level"); lv, lt = L.v.f["value"].v, L.v.f["text"].v
        on = x.bool("enabled", inp=True) if n == 2 else True
        I.call_q("g3::only_change_at_initialization::addLogLevel", [Arg("r", I.copy_value(L), L.t)] + ([on] if n == 2 else []), nparams=n)
        if x.branch(EQ(lv, s.k)): x.covers.add("hit"); s.check(True, on, lt, "added: ")
        else: s.unchanged()
    return run
def defaults(s, what, m=None):
    x = s.I.ctx
    for v, t in DEF.items():
        if x.branch(EQ(s.k, v)): s.check(True, True, Str(t), what, m); x.covers.add(t); return
    s.check(False, what=what, m=m)
def t_reset(x, I):
    s = Setup(I); I.call_q("g3::only_change_at_initialization::reset", [])
    defaults(s, "after reset: ")
def t_initial(x, I):
    s = Setup(I); c = I.run_global_init(s.gkey); defaults(s, "initially: ", c.v)
def t_status(x, I):
    s = Setup(I); L = level(I, "level", v=s.k)
    r = I.call_q(NS + "getStatus", [Arg("r", I.copy_value(L), L.t)])
    x.prove(EQ(r, ITE(s.pre_on, 1, 2) if s.present else 0) if True else None, "getStatus reports the level's status (absent/enabled/disabled)")
    s.unchanged("query: ")
def t_status2(x, I):
    s = Setup(I); L = level(I, "level"); I.call_q(NS + "getStatus", [Arg("r", I.copy_value(L), L.t)]); s.unchanged("query: ")
def t_loglevel(x, I):
    s = Setup(I); L = level(I, "level", v=s.k)
    r = I.call_q("g3::logLevel", [L])
    x.prove(EQ(r, s.pre_on if s.present else False), "logLevel is true exactly for a registered, enabled level")
    s.unchanged("query: ")
def t_loglevel2(x, I):
    s = Setup(I); L = level(I, "level"); I.call_q("g3::logLevel", [L]); s.unchanged("query: ")
def t_getall(x, I):
    s = Setup(I); r = I.call_q(NS + "getAll", [])
    m = r if isinstance(r, Lib) else r.v
    x.prove(m.seq is not s.cell.v.seq, "the snapshot is a copy")
    s.check(s.present, s.pre_on, s.pre_text, "snapshot: ", m); s.unchanged("query: ")
def t_static(x, I):
    L = level(I, "level"); r = I.call_q("g3::logLevel", [L])
    x.prove(EQ(r, True), "without dynamic levels every level is enabled")
def line(I, k, text, on):
    return Str("name: ") + text + Str(" level: ") + I.ctx.decimal(k) + Str(" status: ") + Str("1" if on else "0") + Str("\n")
def t_listing(n):
    def run(x, I):
        """text listing: each registered level contributes exactly its line, in registry order (shown for an arbitrary element by the segment rule)"""
        s = Setup(I)
        def app(I2, c, ent, X, seg):
            # decimal text of a bool promoted to int
            on = x.branch(status_of(ent))
            x.prove(x.seq(x.norm(X), line(I2, I2.load(ent.v.first), I2.load(lvl_of(ent)["text"]), on)), "each level contributes exactly its line to the listing")
        I.on_append = app
        lo_hi = [e for e in s.cell.v.seq.v]
        if n == 1: r = I.call_q(NS + "to_string", [Arg("r", I.copy_value(s.cell), s.cell.t)], nparams=1)
        else: r = I.call_q(NS + "to_string", [], nparams=0)
        exp = Str()
        for e in lo_hi:
            if isinstance(e, Seg): exp = exp + I.seg_text(e)
            else: exp = exp + line(I, s.k, s.pre_text, x.branch(s.pre_on))
        x.prove(x.seq(r, exp), "the listing is the concatenation of the lines of the registered levels, in order")
        s.unchanged("query: ")
    return run

def tasks():
    D = dict(tus=TU, cfg="dyn"); R = []
    def T(name, fn, fns, covers=(), **k): R.append(Task(name, fn, fns=fns, covers=covers, **{**D, **k}))
    T("setHighest", t_sethighest, [NS + "setHighest", NS + "set", NS + "enable", NS + "disable"], ["registered", "unregistered"])
    T("set", t_set("set", "sym"), [NS + "set"], ["hit", "other"])
    T("enable", t_set("enable", True), [NS + "enable"], ["hit", "other"])
    T("disable", t_set("disable", False), [NS + "disable"], ["hit", "other"])
    T("enableAll", t_all("enableAll", True), [NS + "enableAll"])
    T("disableAll", t_all("disableAll", False), [NS + "disableAll"])
    T("addLogLevel/2", t_add(2), ["g3::only_change_at_initialization::addLogLevel"], ["hit"])
    T("addLogLevel/1", t_add(1), ["g3::only_change_at_initialization::addLogLevel"], ["hit"])
    T("reset", t_reset, ["g3::only_change_at_initialization::reset"], list(DEF.values()))
    T("initial registry", t_initial, ["g3::internal::g_log_levels (initialiser)"], list(DEF.values()))
    T("getStatus", t_status, [NS + "getStatus"])
    T("getStatus frame", t_status2, [NS + "getStatus"])
    T("logLevel", t_loglevel, ["g3::logLevel"])
    T("logLevel frame", t_loglevel2, ["g3::logLevel"])
    T("getAll", t_getall, [NS + "getAll"])
    T("to_string(map)", t_listing(1), [NS + "to_string"])
    T("to_string()", t_listing(0), [NS + "to_string"])
    T("logLevel (static build)", t_static, ["g3::logLevel"], cfg="def")
    return R
