"""A log worker with arbitrary sinks as the active logger, and what happens until the process ends. exitWithDefaultSignalHandler is a contract (proved as C07): it ends the process."""
from .actor import *
TU = ["client", "g3log", "logworker", "logmessage", "loglevels", "crashhandler"]
def contains(x, s, t):
    """t is, as built, a contiguous piece of s"""
    a, b = list(x.norm(s).p), list(x.norm(t).p)
    if not b: return True
    if len(b) == 1 and isinstance(b[0], str): return any(isinstance(p, str) and b[0] in p for p in a)
    for i in range(len(a) - len(b) + 1):
        ok = True
        for j, q in enumerate(b):
            p = a[i + j]
            if isinstance(q, str): ok = isinstance(p, str) and (p.endswith(q) if j == 0 else p.startswith(q) if j == len(b) - 1 else p == q)
            else: ok = p is q or p == q
            if not ok: break
        if ok: return True
    return False
def is_fn(t, pred): return t.k == "rec" and t.n == "std::function" and not t.c and pred(t.s or "")
def globs(I):
    for key in I.P.gorder:
        d, tu = I.P.globals[key]; yield key, d, tu, I.P.tt[tu][d["t"]]
def is_logger(t):
    if t.k == "rec" and t.n == "std::atomic" and t.args: t = t.args[0]
    return t.k == "ptr" and t.t.k == "rec" and (t.t.n or "").split("::")[-1] == "LogWorker"
class Process(World):
    """ends: what is looked at when the process ends"""
    def __init__(self, I, active=True, hook=False, **kw):
        super().__init__(I, **kw); x = I.ctx; A = self.A; self.ends = None; self.dead = False; self.hooks = []; n = 0
        self.dumped = {}
        for key, d, tu, t in globs(I):
            if is_logger(t) and not t.c:
                n += 1; v = Ptr(self.w) if active else NULL; self.logger = I.globals[key] = I.cell(Lib("atomic", v=I.cell(v, t.args[0])) if t.k == "rec" else v, t, d["n"])
            elif t.k == "rec" and t.n == "std::function" and not t.c:
                if "FatalMessage" in t.s or "MoveOnCopy" in t.s: self.handler = I.globals[key] = I.run_global_init(key)
                else: self.hookcell = I.globals[key] = I.cell(Lib("func", target=self.hook() if hook else None), t, d["n"])
            elif t.k == "rec" and t.n == "std::function": I.globals[key] = I.run_global_init(key)
            elif t.k == "rec" and t.n == "std::atomic" and tu in ("crashhandler",): I.globals[key] = I.run_global_init(key)
            elif t.k == "rec" and t.n == "std::atomic" and tu == "g3log": c = I.globals[key] = I.run_global_init(key); c.v.v.v = I.sym(t.args[0], d["n"]); self.counter = c
            elif t.k == "rec" and t.n == "std::unique_ptr" and tu == "g3log": self.kept = I.globals[key] = I.run_global_init(key)
        if n != 1: raise Undecided("the active logger was not found")
        I.contracts["g3::internal::exitWithDefaultSignalHandler"] = self.exit
        I.contracts["g3::internal::exitReasonName"] = lambda I2, f, this, args: x.ufstr("reason", I2.lib.val(I2, args[1]), self.lv(args[0])[1])
        I.contracts["g3::internal::stackdump"] = lambda I2, f, this, args: x.ufstr("stackdump", self.A.ctx if isinstance(self.A.ctx, str) else "worker", chars=NONUL)
        I.hooks["sleep"] = self.sleep; I.hooks["noreturn"] = self.gone
    def hook(self): raise Undecided("hook")
    def lv(self, a):
        c = a.c if isinstance(a, Arg) else a; c = c if isinstance(c, Cell) else self.I.cell(c)
        return c.v.f["value"].v, c.v.f["text"].v
    def cur(self):
        v = self.logger.v; return (v.v.v if isinstance(v, Lib) else v).c
    def key(self, c):
        """the rendering depends on the message as a LogMessage"""
        I = self.I; r = [r for r in I.P.recs.values() if r.q == "g3::LogMessage"][0]; names = {n for n, ft, _ in I.P.all_fields(r)}
        return self.leaves({k: l for k, l in view(I, c).items() if k.split(".")[0] in names})
    def leaves(self, vw): return [l[1] if not isinstance(l[1], (FnPtr, Cell)) else str(l[1]) for l in vw.values() if l[0] in ("n", "s")]
    def fatal_message(self, name):
        c, t, vw, txt = self.message(name, "client::fptr_copy"); return c, t, vw, txt
    def fatal(self, m):
        f = [f for f in self.I.P.fns.values() if f.q == "g3::LogWorker::fatal"]
        if len(f) != 1: raise Undecided("fatal")
        self.I.call(f[0], self.w, [Arg("x", m[0], m[1])], top=True)
    def sleep(self, I):
        """a thread that sleeps lets the others get on"""
        if self.A.ctx is CALLER and any(a.q for a in self.A.all): self.A.idle(); I.ctx.fail("a fatal event ends the process"); raise PathEnd("still alive")
        raise PathEnd("blocked")
    def exit(self, I, f, this, args): self.over("signal", self.lv(args[0]), I.lib.val(I, args[1]))
    def gone(self, I, why): self.over(why, None, None)
    def over(self, how, lv, sig):
        """the process ends here"""
        self.dead = True; self.how, self.elv, self.esig = how, lv, sig; self.ectx = self.A.ctx
        if self.ends is not None: self.ends()
        raise PathEnd("process ends")
    def last(self, m0, vw, sig, what="", text=None):
        """obligations at the end of the process after the fatal message vw; m0: messages before"""
        I = self.I; x = I.ctx; g = self.got; x.prove(self.how == "signal" and sig is not None, what + "the process ends by the fatal event's signal")
        if self.how != "signal": return
        x.prove(EQ(self.esig, sig), what + "the process ends by the fatal event's own signal"); x.prove(EQ(self.elv[0], vw["_level.value"][1]), what + "the fatal event's level is reported")
        if self.e is None:
            out = self.stderr(); r = None
            for e in x.events:
                if e["kind"] == "rendering": r = e
            x.prove(r is not None, what + "the fatal message is rendered")
            if r is not None: self.carries(r["view"], vw, what, text); x.prove(contains(x, out, r["text"]), what + "the fatal message's full text appears on standard error")
            return
        x.prove(len(g) == len(m0) + 1, what + "each sink gets every earlier message and the fatal message exactly once")
        if len(g) != len(m0) + 1: return
        keep = self.got; self.got = keep[:-1]; self.delivered([m[2:] for m in m0], what + "before the fatal message: "); self.got = keep; f = g[-1]
        x.prove(f["sink"] is self.rs and f["ctx"] is self.ebg, what + "the fatal message is the last one each sink receives, on its own thread")
        out = self.stderr()
        if "view" in f:
            self.carries(f["view"], vw, what, text); full = x.ufstr("rendering", *self.leaves(f["view"]))
        else:
            full = f["text"]; r = [e for e in x.events if e["kind"] == "rendering" and x.norm(e["text"]) == x.norm(full)]; x.prove(bool(r), what + "the fatal message's rendering arrives")
            if r: self.carries(r[-1]["view"], vw, what, text)
        x.prove(contains(x, out, full), what + "the fatal message's full text appears on standard error")
        x.prove(not self.rs.alive and not self.e.alive and EQ(self.ectl.n.v, 0) is True, what + "every sink has finished and has been released before the process ends")
        x.prove(not self.list.v.seq.v, what + "no sink stays registered")
    def carries(self, got, want, what, text=None):
        """the message as delivered: the original's data, its text followed by level and reason"""
        I = self.I; x = I.ctx
        for k in want:
            if k == "_message" or k == "_signal_id": continue
            if k not in got: x.fail(what + "the message arrives with its content"); continue
            x.prove(same_leaf(I, got[k], want[k]), what + "the fatal message's content arrives unaltered: " + k.lstrip("_"))
        t = x.norm(got["_message"][1]); o = x.norm(want["_message"][1] if text is None else text)
        n = x.slen(o)
        if x.entails(fold(Z(x.slen(t)) >= Z(n))):
            a, b = x.cut(t, n); x.prove(x.seq(a, o), what + "the fatal message starts with the original text")
        else: x.fail(what + "the fatal message starts with the original text"); return
        x.prove(contains(x, b, want["_level.text"][1]), what + "the fatal message names the level"); x.prove(contains(x, b, x.ufstr("reason", self.esig, want["_level.text"][1])), what + "the fatal message names the reason")
