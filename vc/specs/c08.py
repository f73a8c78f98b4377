"""C08 Signal handler installation never loses the application's own handlers."""
from .common import *
TU = ["crashhandler"]
DEFAULTS = {6: "SIGABRT", 8: "SIGFPE", 4: "SIGILL", 11: "SIGSEGV", 15: "SIGTERM"}
SIGINFO = 4
class Observed:
    """a map seen at one key: everything else in it is arbitrary"""
    def __init__(self, I, cell, k): self.I = I; self.cell = cell; self.k = k; I.cell_inv[cell.v.seq.uid] = (self.havoc, self.check)
    def at(self, seq=None):
        x = self.I.ctx; seq = self.cell.v.seq.v if seq is None else seq
        for e in seq:
            if isinstance(e, Cell) and x.entails(EQ(self.I.lib.key(e), self.k)): return e
            if isinstance(e, Seg):
                b = self.I.lib.bound(self.I, e, self.k)
                if b is not False and x.feasible(fold(Z(b))): raise Undecided("the map at the observed key is not known")
            elif x.feasible(EQ(self.I.lib.key(e), self.k)): raise Undecided("the map at the observed key is not known")
        return None
    def canon(self, e):
        n = self.I.ctx.uid
        if e is None: return (Seg("all%d" % n, self.gen, None, None, (self.k,)),)
        return (Seg("lo%d" % n, self.gen, None, self.k), e, Seg("hi%d" % n, self.gen, self.k, None))
    def havoc(self, c, v0): self.pre = self.at(v0); c.v = self.canon(self.pre)
    def check(self, c, v0):
        if self.at(c.v) is not self.pre: raise Undecided("the loop does not keep the map's entry for the other keys")
    def fill(self, present, mk):
        m = self.cell.v; e = self.I.lib.mapent(self.I, m.kt, m.vt, self.k, mk()) if present else None
        m.seq.v = self.canon(e); return e
    def gen(self, I, sg): 
        m = self.cell.v; return I.lib.mapent(I, m.kt, m.vt, I.ctx.int(sg.name + ".key", *I.irange(m.kt)), I.sym(m.vt, sg.name + ".val"))
    def find(self):
        i, _ = self.I.lib.map_find(self.I, self.cell.v, self.k); return None if i is None else self.cell.v.seq.v[i]
def is_map(t, val, const=False): return t.k == "rec" and t.n in ("std::map", "std::unordered_map") and bool(t.c) == const and len(t.args) > 1 and (t.args[1].n or t.args[1].s).startswith(val)
class World:
    """signal dispositions, seen at an arbitrary signal k. Invariant: k is replaced iff its application disposition is saved; a replaced signal is in the configured set"""
    def __init__(self, I, state=None, k=None):
        self.I = I; x = I.ctx; self.k = x.int("signal", 1, 64, inp=True) if k is None else k
        I.hooks["sym:sigaction"] = lambda I2, t, name: self.any(name)
        maps = {}
        for key in I.P.gorder:
            d, tu = I.P.globals[key]; t = I.P.tt[tu][d["t"]]
            for nm, v in (("signals", "std::basic_string"), ("saved", "sigaction")):
                if is_map(t, v):
                    if nm in maps: raise Undecided("several maps of this type")
                    maps[nm] = (key, t, d["n"])
        if len(maps) != 2: raise Undecided("the signal tables were not found")
        self.app = (FnPtr(None, "application's handler", h=("application's handler",)), x.int("app.flags", 0, (1 << 31) - 1), x.int("app.mask", 0))
        # one of: configured and replaced; configured, not replaced; neither
        self.state = x.fork(3) if state is None else state; self.replaced = self.state == 0; self.configured = self.state < 2
        self.valid = True if self.replaced else x.branch(x.bool("signal can be handled", inp=True))
        for nm in maps:
            key, t, n = maps[nm]; m = Lib("map", seq=I.cell((), None, n), kt=t.args[0], vt=t.args[1])
            c = I.globals[key] = I.cell(m, t, n); setattr(self, nm, Observed(I, c, self.k))
        self.signals.fill(self.configured, lambda: x.str("signal.name", NONUL))
        self.saved.fill(self.replaced, lambda: I.lib.new_sigact(I, *self.app))
        # g3log's handler is local to its source file: the application cannot have installed it itself
        I.hooks["fn-eq"] = lambda a, b: False if (a.key is None) != (b.key is None) and "application's handler" in (a.q, b.q) else None
        self.disp = I.cell(I.lib.new_sigact(I, *self.app), None, "disposition"); I.hooks["sigaction"] = self.sigaction
        self.writes = []
        if self.replaced:
            # the disposition g3log gives a signal
            h = self.g3_handler(); I.lib.sa_set(I, self.disp, h)
    def any(self, name):
        x = self.I.ctx; return self.I.lib.new_sigact(self.I, FnPtr(None, "handler", h=("some handler", name, x.uid)), x.int(name + ".flags", 0, (1 << 31) - 1), x.int(name + ".mask", 0))
    def g3_handler(self):
        """found by letting the code install it for one signal"""
        I = self.I; got = []; m = self.signals.cell.v; keep, keeps = m.seq.v, self.saved.cell.v.seq.v
        m.seq.v = (I.lib.mapent(I, m.kt, m.vt, 6, Str("SIGABRT")),); self.saved.cell.v.seq.v = ()
        def rec(I2, sig, act, old):
            if act is not None: got.append(I2.lib.sa(I2, act))
            if old is not None: I2.lib.sa_set(I2, old, (NULL, 0, 0))
            return 0
        I.hooks["sigaction"], old = rec, I.hooks["sigaction"]
        I.call_q("g3::installCrashHandler", [])
        I.hooks["sigaction"] = old; m.seq.v, self.saved.cell.v.seq.v = keep, keeps
        if len(got) != 1 or not self.is_g3(got[0]): raise Undecided("no handler found")
        return got[0]
    def is_g3(self, t): return isinstance(t[0], FnPtr) and t[0].key is not None and t[0].key in self.I.P.fns
    def sigaction(self, I, sig, act, old):
        x = I.ctx
        if x.branch(EQ(sig, self.k)):
            if not self.valid: return -1
            if old is not None: I.lib.sa_set(I, old, I.lib.sa(I, self.disp))
            if act is not None: I.lib.sa_set(I, self.disp, I.lib.sa(I, act)); self.writes.append(I.lib.sa(I, act))
            return 0
        if x.fork(2) == 1: return -1
        if old is not None: o = self.any("old"); I.lib.sa_set(I, old, (o.h.v, o.flags.v, o.mask.v.v.v))
        return 0
    def contracts(self, restore=True):
        I = self.I
        I.contracts["g3::internal::writeErrorMessage"] = lambda I2, f, this, args: I2.ctx.int("written", 0)
        if restore: I.contracts["g3::restoreSignalHandler"] = self.restore
    def restore(self, I, f, this, args):
        """contract of restoreSignalHandler, proved by its own task"""
        n = I.lib.val(I, args[0]); c = self.saved.cell.v.seq; e = self.saved.find(); I.touch(c, True); c.v = self.saved.canon(e)
        if not I.ctx.branch(EQ(n, self.k)) or e is None: return
        I.lib.sa_set(I, self.disp, I.lib.sa(I, e.v.second)); self.writes.append(I.lib.sa(I, e.v.second)); c.v = self.saved.canon(None)
    # ---- what is observed afterwards
    def same(self, a, b): return AND(a[0] is b[0] or (isinstance(a[0], FnPtr) and isinstance(b[0], FnPtr) and (a[0].key, a[0].h) == (b[0].key, b[0].h)), EQ(a[1], b[1]), EQ(a[2], b[2]))
    def handled(self, what):
        I = self.I; d = I.lib.sa(I, self.disp)
        I.ctx.prove(self.is_g3(d), what + "the signal is handled by g3log")
        if self.is_g3(d):
            I.ctx.prove((d[1] & SIGINFO) != 0 if isc(d[1]) else False, what + "the handler is installed as one taking signal information")
            I.ctx.prove(EQ(len(I.P.fns[d[0].key].p), 3), what + "the handler takes signal information")
        e = self.saved.find(); I.ctx.prove(e is not None, what + "the application's disposition is remembered")
        if e is not None: I.ctx.prove(self.same(I.lib.sa(I, e.v.second), self.app), what + "the remembered disposition is the application's own")
    def back(self, what):
        I = self.I; d = I.lib.sa(I, self.disp); I.ctx.prove(self.same(d, self.app), what)
        I.ctx.prove(self.saved.find() is None, what + ": nothing is left to restore")
    def untouched(self, what):
        I = self.I
        if self.replaced: self.handled(what)
        else:
            I.ctx.prove(self.same(I.lib.sa(I, self.disp), self.app), what + "the application's disposition stays"); I.ctx.prove(self.saved.find() is None, what + "nothing is saved"); 
            I.ctx.prove(len(self.writes) == 0, what + "the disposition is not written")
    def config(self, present, what):
        e = self.signals.find(); self.I.ctx.prove((e is not None) == present, what)
def t_install(x, I):
    W = World(I); I.call_q("g3::installCrashHandler", [])
    x.covers.add("replaced" if W.replaced else "configured" if W.configured else "other")
    W.config(W.configured, "installing keeps the configured set")
    if W.configured and W.valid: W.handled("after installing: ")
    else: W.untouched("a signal outside the configured set: ")
def t_restore(x, I):
    W = World(I); W.contracts(False); n = x.int("number", -(1 << 31), (1 << 31) - 1, inp=True); I.call_q("g3::restoreSignalHandler", [n])
    W.config(W.configured, "restoring keeps the configured set")
    if x.branch(EQ(n, W.k)):
        if W.replaced: x.covers.add("restored"); W.back("the application's own disposition is back"); x.prove(len(W.writes) == 1, "it is put back once")
        else: x.covers.add("nothing"); W.untouched("restoring a signal that is not replaced changes nothing: ")
    else: x.covers.add("other"); W.untouched("another signal: ")
def t_override(x, I):
    W = World(I); W.contracts(); t = W.signals.cell.t; m = Lib("map", seq=I.cell((), None, "given"), kt=t.args[0], vt=t.args[1]); c = I.cell(m, t, "given")
    new = x.fork(2) == 0; O = Observed(I, c, W.k); O.fill(new, lambda: x.str("new.name", NONUL))
    I.call_q("g3::overrideSetupSignals", [Arg("r", m, t)])
    x.covers.add(("in" if new else "out") + str(W.state)); W.config(new, "the configured set is the given one")
    after(W, new)
def after(W, new):
    if new and W.valid: W.handled("a signal of the new set: ")
    elif W.replaced: W.back("a signal no longer in the set is back to the application's disposition")
    else: W.untouched("a signal that is in no set: ")
def t_defaults(x, I):
    k = x.int("signal", -(1 << 31), (1 << 31) - 1, inp=True); got = []
    I.contracts["g3::overrideSetupSignals"] = lambda I2, f, this, args: got.append(I2.lib.val(I2, args[0]))
    I.call_q("g3::internal::restoreFatalHandlingToDefault", [])
    x.prove(len(got) == 1, "the configured set is replaced once")
    if len(got) == 1:
        i, _ = I.lib.map_find(I, got[0], k); x.covers.add("in" if i is not None else "out")
        x.prove(EQ(i is not None, OR(*[EQ(k, s) for s in DEFAULTS])), "the default set is abort, floating point, illegal instruction, segmentation and termination")
def t_report(x, I):
    k = x.fork(2); s = x.str("message", NONUL, inp=True)
    r = I.call_q("g3::internal::writeErrorMessage", [NULL if k else CStr(s, 0, None)])
    out = [e for e in x.events if e["kind"] == "out"]
    if k: x.prove(EQ(r, 0), "nothing is written for no message"); x.prove(not out, "nothing is written for no message"); x.covers.add("none"); return
    x.prove(len(out) == 1 and out[0]["stream"] == "stderr", "the message goes to standard error in one write"); x.covers.add("some")
    if out: x.prove(x.seq(out[0]["text"], s), "the whole message is written")
def t_initial(x, I):
    k = x.int("signal", -(1 << 31), (1 << 31) - 1, inp=True); n = 0
    for key in I.P.gorder:
        d, tu = I.P.globals[key]; t = I.P.tt[tu][d["t"]]
        if is_map(t, "std::basic_string") or is_map(t, "sigaction"):
            m = I.run_global_init(key).v; i, _ = I.lib.map_find(I, m, k); n += 1
            if is_map(t, "sigaction"): x.prove(i is None, "nothing is replaced at start")
            else: x.prove(EQ(i is not None, OR(*[EQ(k, s) for s in DEFAULTS])), "the default set is abort, floating point, illegal instruction, segmentation and termination")
    if n != 2: raise Undecided("the signal tables were not found")
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    T("installCrashHandler", t_install, ["g3::installCrashHandler", "(anon)::installSignalHandler"], ["replaced", "configured", "other"])
    T("restoreSignalHandler", t_restore, ["g3::restoreSignalHandler"], ["restored", "nothing", "other"])
    T("overrideSetupSignals", t_override, ["g3::overrideSetupSignals"], ["in0", "in1", "in2", "out0", "out1", "out2"])
    T("restoreFatalHandlingToDefault", t_defaults, ["g3::internal::restoreFatalHandlingToDefault"], ["in", "out"])
    T("writeErrorMessage", t_report, ["g3::internal::writeErrorMessage"], ["none", "some"])
    T("initial state", t_initial, ["gSignals, gSavedSigActions"])
    return R
TRUST = ["sigaction(2): sets and reports the disposition of exactly the given signal, or fails and changes nothing (invalid or uncatchable signals)"]
ASSUME = ["the functions are not called by two threads at once (restoreSignalHandler and installCrashHandler take no lock)", "between these calls the application changes only signals that g3log has not replaced"]
