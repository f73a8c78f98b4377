"""C13 Rendering contains all the message's data in the documented layout."""
from .common import *
TU = ["client", "logmessage", "loglevels", "g3log"]
LM = "g3::LogMessage"
TIMEFMT = "%Y/%m/%d %H:%M:%S %f6"
FATAL, CONTRACT, SIG, EXC = 1000, 2000, 2001, 2002

def stamps(I):
    """the message time as the time formatter is contracted to give it (C14, C15 prove the formatter)"""
    def sysc(I, f, this, args):
        c = args[0].c if isinstance(args[0], Arg) else args[0]; v = c.v if isinstance(c, Cell) else c
        return Lib("tp", n=I.ctx.ufint("system-time", v.n), per=10 ** 9)
    def fmt(I, f, this, args):
        a = args[0].c; v = a.v if isinstance(a, Cell) else a
        return I.ctx.ufstr("local-time", v.n, I.lib.S(I, args[1]), chars=NONUL)
    I.contracts["g3::to_system_time"] = sysc; I.contracts["g3::localtime_formatted"] = fmt
def stamp(I, pre, fmt): return I.ctx.ufstr("local-time", I.ctx.ufint("system-time", pre["_timestamp"][1]), fmt, chars=NONUL)
def setup(I):
    stamps(I); m = symobj(I, LM, "msg"); return m, view(I, m)
def dec(I, n): return I.ctx.decimal(n)
def details(I, pre, tid=False):
    t = Str()
    if tid: t = I.lib.tid_text(I, Lib("tid", id=pre["_call_thread_id"][1])) + Str(" ")
    return stamp(I, pre, Str(TIMEFMT)) + Str("\t") + pre["_level.text"][1] + Str(" [") + t + pre["_file"][1] + Str("->") + pre["_function"][1] + Str(":") + dec(I, pre["_line"][1]) + Str("]\t")
def frame(I, m, pre, fmt=None):
    now = view(I, m)
    for k in pre:
        if k == "_logDetailsToStringFunc" and fmt is not None: continue
        I.ctx.prove(same_leaf(I, now[k], pre[k]), "rendering leaves the message's " + k.lstrip("_"))
def layout(I, lv, det, pre):
    x = I.ctx; msg = pre["_message"][1]; ts = lambda: stamp(I, pre, Str(TIMEFMT))
    if x.branch(Z(lv) < FATAL): return "normal", det() + msg + Str("\n")
    if x.branch(EQ(lv, SIG)): return "signal", ts() + Str("\n\n***** FATAL SIGNAL RECEIVED ******* \n") + msg + Str("\n")
    if x.branch(EQ(lv, EXC)): return "exception", ts() + Str("\n\n***** FATAL EXCEPTION RECEIVED ******* \n") + msg + Str("\n")
    if x.branch(EQ(lv, FATAL)): return "fatal log", det() + Str("\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"") + msg + Str("\"")
    if x.branch(EQ(lv, CONTRACT)): return "contract", det() + Str("\n\t*******\t EXIT trigger caused by broken Contract: CHECK(") + pre["_expression"][1] + Str(")\n\t\"") + msg + Str("\"")
    return "custom fatal", det() + Str("\t*******UNKNOWN or Custom made Log Message Type\n\t") + msg + Str("\n")
LAY = ["normal", "signal", "exception", "fatal log", "contract", "custom fatal"]
def t_custom(x, I):
    m, pre = setup(I); calls = []
    def details_fn(I2, *a):
        args = a[-1]; c = args[0].c if isinstance(args[0], Arg) else args[0]
        I.ctx.prove(c is m, "the details function is given this message"); calls.append(1)
        return I.ctx.ufstr("custom-details", chars=ALL)
    I.hooks["uf:details"] = details_fn
    r = I.call_q("client::lm_render_with", [m, FnPtr(None, "details", h=("uf", "details"))])
    lay, exp = layout(I, pre["_level.value"][1], lambda: x.ufstr("custom-details", chars=ALL), pre)
    x.covers.add(lay); x.prove(x.seq(r, exp), "a %s message renders in its documented layout with the given details function" % lay)
    frame(I, m, pre, True)
def t_default(x, I):
    m, pre = setup(I)
    r = I.call_q("client::lm_render", [m])
    lay, exp = layout(I, pre["_level.value"][1], lambda: details(I, pre), pre)
    x.covers.add(lay); x.prove(x.seq(r, exp), "a %s message renders in its documented layout with the default details" % lay)
    frame(I, m, pre, True)
def t_details(q, tid):
    def run(x, I):
        m, pre = setup(I); r = I.call_q(q, [m]); x.prove(x.seq(r, details(I, pre, tid)), "details give timestamp, level, %sfile, function and line" % ("thread id, " if tid else ""))
        frame(I, m, pre)
    return run
def t_acc(q, get):
    def run(x, I):
        m, pre = setup(I); r = I.call_q(LM + "::" + q, [], this=m, nparams=0)
        if isinstance(r, Cell): r = I.load(r)
        w = get(I, pre)
        x.prove(x.seq(r, w) if isinstance(w, Str) else EQ(r, w), q + "() gives the message's own data"); frame(I, m, pre)
    return run
def t_ts(x, I):
    m, pre = setup(I); f = x.str("format", NONUL, inp=True)
    r = I.call_q(LM + "::timestamp", [Arg("l", I.cell(f), None)], this=m, nparams=1)
    x.prove(x.seq(r, stamp(I, pre, f)), "timestamp(format) renders the message's own time"); frame(I, m, pre)
def t_tsd(x, I):
    m, pre = setup(I); r = I.call_q("client::lm_timestamp", [m])
    x.prove(x.seq(r, stamp(I, pre, Str(TIMEFMT))), "timestamp() uses the documented default format"); frame(I, m, pre)
def tasks():
    R = []
    def T(name, fn, fns, covers=()): R.append(Task(name, fn, tus=TU, fns=fns, covers=covers))
    P = "g3::LogMessage::"
    helpers = [P + h for h in ("normalToString", "fatalLogToString", "fatalCheckToString", "fatalSignalToString", "fatalExceptionToString", "wasFatal")] + ["g3::internal::wasFatal"]
    T("toString(details function)", t_custom, [P + "toString"] + helpers, LAY)
    T("toString()", t_default, [P + "toString"] + helpers, LAY)
    T("DefaultLogDetailsToString", t_details(P + "DefaultLogDetailsToString", False), [P + "DefaultLogDetailsToString"])
    T("FullLogDetailsToString", t_details(P + "FullLogDetailsToString", True), [P + "FullLogDetailsToString", P + "threadID"])
    for q, g in [("file", lambda I, p: p["_file"][1]), ("file_path", lambda I, p: p["_file_path"][1]), ("function", lambda I, p: p["_function"][1]), ("level", lambda I, p: p["_level.text"][1]), ("message", lambda I, p: p["_message"][1]),
                 ("expression", lambda I, p: p["_expression"][1]), ("write", lambda I, p: p["_message"][1]), ("line", lambda I, p: dec(I, p["_line"][1])), ("wasFatal", lambda I, p: fold(Z(p["_level.value"][1]) >= FATAL)),
                 ("threadID", lambda I, p: I.lib.tid_text(I, Lib("tid", id=p["_call_thread_id"][1])))]:
        T(q + "()", t_acc(q, g), [P + q])
    T("timestamp(format)", t_ts, [P + "timestamp"]); T("timestamp()", t_tsd, [P + "timestamp"])
    return R
TRUST = ["contract of g3::localtime_formatted and g3::to_system_time (functions of their arguments; discharged by checks C14 and C15)"]
