"""C10 Printf-style capture keeps the whole text or says it was truncated."""
from .common import *
MARK = "[...truncated...]"; LIMIT = 2048

def capture(I):
    """an arbitrary capture object whose stream already holds arbitrary text"""
    t = tyof(I, "LogCapture"); c = I.cell(RecV(I.P.recs[t.id]), t, "capture")
    pre = I.ctx.str("already-streamed")
    for n, ft, _ in I.P.all_fields(c.v.cls):
        if ft.k == "rec" and ft.n and "stringstream" in ft.n:
            st = I.lib.default(I, ft); st.buf.v = pre; c.v.f[n] = I.cell(st, ft, n)
        elif ft.k in ("ref",): c.v.f[n] = symobj(I, "LEVELS", "level")
        elif ft.k == "rec" and ft.n == "std::basic_string": c.v.f[n] = I.cell(I.ctx.str(n), ft, n)
        else: c.v.f[n] = I.cell(I.sym(ft, n), ft, n)
    st = [f for f in c.v.f.values() if isinstance(f.v, Lib) and f.v.kind == "stream"]
    if len(st) != 1: raise Undecided("stream of the capture object")
    return c, st[0], pre
def contains(x, s, lit):
    return any(isinstance(p, str) and lit in p for p in x.norm(s).p)
def t_capture(cfg):
    def run(x, I):
        c, st, pre = capture(I); fmt = x.str("format", NONUL, inp=True); limit = LIMIT
        if cfg == "max":
            limit = x.int("limit", 1, (1 << 31) - 1, inp=True); hit = []
            for key in I.P.gorder:
                d, tu = I.P.globals[key]; t = I.P.tt[tu][d["t"]]
                if d["n"] == "MaxMessageSize": I.globals[key] = I.cell(limit, t, d["n"]); hit.append(key)
            if len(hit) != 1: raise Undecided("message limit variable not found")
        I.call_q("LogCapture::capturef", [CStr(fmt)], this=c)
        ev = [e for e in x.events if e["kind"] == "formatted"]
        out = I.load(st.v.buf)
        x.prove(len(ev) == 1, "the message is formatted exactly once")
        if len(ev) != 1: return
        e = ev[0]
        if not e["ok"]:
            x.covers.add("formatting fails")
            h, t = x.cut(out, x.slen(pre)); x.prove(x.seq(h, pre), "earlier text is kept")
            x.prove(EQ(True, any(x.norm(fmt).p[i:] [:1] == x.norm(fmt).p[:1] for i in [0]) and holds(x, t, fmt)), "a failed format is reported with the format string")
            x.prove("ERROR" in "".join(p for p in x.norm(t).p if isinstance(p, str)), "a failed format is reported as an error")
            return
        x.prove(x.seq(e["fmt"], fmt), "the given format is the one formatted")
        F = e["text"]; n = x.slen(F)
        if x.branch(fold(Z(n) < Z(limit))): x.covers.add("fits"); exp = F
        else:
            x.covers.add("truncated"); h, _ = x.cut(F, fold(Z(limit) - 1)); exp = h + Str(MARK)
        x.prove(x.seq(out, pre + exp), "the text is kept whole when shorter than the limit, else cut to limit-1 and marked")
    return run
def holds(x, t, s):
    """rope t literally contains rope s"""
    a, b = x.norm(t).p, x.norm(s).p
    if not b: return True
    return any(a[i:i + len(b)] == b for i in range(len(a)))
def t_setmax(x, I):
    n = x.int("max_size", 1, (1 << 31) - 1, inp=True)
    I.call_q("g3::only_change_at_initialization::setMaxMessageSize", [n])
    for key in I.P.gorder:
        d, tu = I.P.globals[key]
        if d["n"] == "MaxMessageSize": x.prove(EQ(I.load(I.globals[key]), n), "the configured limit is the one used")
def tasks():
    C = ["fits", "truncated", "formatting fails"]
    return [Task("capturef", t_capture("def"), tus=["logcapture"], fns=["LogCapture::capturef"], covers=C),
            Task("capturef (configurable limit)", t_capture("max"), tus=["logcapture"], cfg="max", fns=["LogCapture::capturef"], covers=C),
            Task("setMaxMessageSize", t_setmax, tus=["logcapture"], cfg="max", fns=["g3::only_change_at_initialization::setMaxMessageSize"])]
ASSUME = ["the formatted text contains no NUL character (C string semantics)", "the configured limit is between 1 and INT_MAX"]
TRUST = ["vsnprintf: returns the full length, writes at most n-1 characters and a terminating NUL, or returns a negative value"]
