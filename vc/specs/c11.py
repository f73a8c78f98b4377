"""C11 Text, level and call-site data reach the message unaltered."""
import os, re
from .common import *
from ..harness import HERE
TU = ["client", "g3log", "logcapture", "logmessage", "loglevels"]
BANNER = "\n*******\tSTACKDUMP *******\n"
SRC = open(os.path.join(HERE, "client", "client.cpp")).read().splitlines()

class Got:
    def __init__(self): self.n = 0; self.fatal = None; self.m = None; self.sig = None
def wire(I, now, tid):
    """contracts at the boundary: the logging worker (C03, C20), the fatal handler (C09) and the stack dumper"""
    g = Got(); x = I.ctx
    I.hooks["now"] = lambda I2: now
    I.hooks["tid"] = lambda I2: tid
    def obj(a):
        c = a.c if isinstance(a, Arg) else a; v = c.v if isinstance(c, Cell) else c
        for f in v.f.values():
            p = f.v.p.v if isinstance(f.v, Lib) and f.v.kind == "uptr" else None
            if p is not None: return p.c
        raise Undecided("message holder")
    def push(I2, f, this, args):
        g.n += 1; g.fatal = False; g.m = view(I2, obj(args[0])); return None
    def fatal(I2, f, this, args):
        g.n += 1; g.fatal = True; g.m = view(I2, obj(args[0])); return None
    I.contracts["g3::internal::pushMessageToLogger"] = push
    I.contracts["g3::internal::fatalCall"] = fatal
    I.contracts["g3::internal::stackdump"] = lambda I2, f, this, args: x.ufstr("stackdump", I2.lib.S(I2, args[0]) if isinstance(I2.lib.val(I2, args[0]), (CStr, Str)) else "none", chars=NONUL)
    zero = lambda I2, d, t: I2.cell(Lib("atomic", v=I2.cell(0, t.args[0])), t)
    I.global_init["g_fatal_hook_recursive_counter"] = zero
    I.global_init["g_fatal_pre_logging_hook"] = lambda I2, d, t: I2.cell(Lib("func", target=None), t)
    I.global_init["g_pre_fatal_hook_that_does_nothing"] = lambda I2, d, t: I2.cell(Lib("func", target=None), t)
    return g
def base(x, path):
    r = x.find_set(path, cset("/\\"), True)
    return path if r is None else x.cut(path, fold(Z(x.slen(r[0])) + 1))[1]
def check(I, g, want, what):
    x = I.ctx
    x.prove(g.n == 1, what + " yields exactly one message")
    if g.n != 1: return
    x.prove(EQ(g.fatal, fold(Z(want["_level.value"][1]) >= 1000)), "the message is handled as fatal exactly when its level value is at least FATAL's")
    for k in want:
        if k == "_signal_id" and not g.fatal: continue
        if k not in g.m: x.fail("the message's %s arrives" % k.lstrip("_"), "attribute is missing"); continue
        x.prove(same_leaf(I, g.m[k], want[k]), "the message's %s is that of the statement" % k.lstrip("_"))
def expect(I, text, file, line, fn, lv, lt, expr, sig, now, tid):
    x = I.ctx
    return {"_message": ("s", text), "_file": ("s", base(x, file)), "_file_path": ("s", file), "_line": ("n", line), "_function": ("s", fn), "_level.value": ("n", lv), "_level.text": ("s", lt),
            "_expression": ("s", expr), "_timestamp": ("n", now), "_call_thread_id": ("n", tid), "_signal_id": ("n", sig)}
def clock(x): return x.int("now", -(1 << 62), 1 << 62), x.int("thread", 0)
def levels(I, name="level"):
    c = symobj(I, "LEVELS", name); return c, c.v.f["value"].v, c.v.f["text"].v
def setup(I):
    now, tid = clock(I.ctx); g = wire(I, now, tid); lv, v, t = levels(I); return now, tid, g, lv, v, t
def with_trace(x, v, text, dump):
    if x.branch(fold(Z(v) >= 1000)): x.covers.add("fatal"); return text + Str(BANNER) + x.ufstr("stackdump", dump, chars=NONUL)
    x.covers.add("normal"); return text
def t_capture(x, I):
    """constructing and destroying a capture with arbitrary call-site data and arbitrary streamed text"""
    now, tid, g, lv, v, t = setup(I)
    file, fn, ex, dump, text = (x.str(n, NONUL, inp=True) for n in ("file", "function", "expression", "dump", "text"))
    line = x.int("line", -(1 << 31), (1 << 31) - 1, True); sig = x.int("signal", -(1 << 31), (1 << 31) - 1, True)
    T = tyof(I, "LogCapture"); c = I.cell(UNINIT, T, "capture")
    ct = [f for f in I.P.ctors[T.id] if len(f.p) == 7]
    if len(ct) != 1: raise Undecided("capture constructor")
    args = [CStr(file), line, CStr(fn), lv, CStr(ex), sig, CStr(dump)]
    I.construct(T, ct[0], [I.as_arg(a, p) for a, p in zip(args, ct[0].p)], c)
    sf = I.call_q("LogCapture::stream", [], this=c)
    I.store(sf.v.buf, text)
    I.destroy(c)
    check(I, g, expect(I, with_trace(x, v, text, dump), file, line, fn, v, t, ex, sig, now, tid), "a capture")
def t_signal(x, I):
    now, tid, g, lv, v, t = setup(I); text, dump = x.str("text", NONUL, inp=True), x.str("dump", NONUL, inp=True); sig = x.int("signal", 1, 64, True)
    T = tyof(I, "LogCapture"); c = I.cell(UNINIT, T, "capture")
    ct = [f for f in I.P.ctors[T.id] if len(f.p) == 3 and not f.copy and not f.move]
    if len(ct) != 1: raise Undecided("capture constructor")
    I.construct(T, ct[0], [I.as_arg(a, p) for a, p in zip([lv, sig, CStr(dump)], ct[0].p)], c)
    I.store(I.call_q("LogCapture::stream", [], this=c).v.buf, text); I.destroy(c)
    check(I, g, expect(I, with_trace(x, v, text, dump), EMPTY, 0, EMPTY, v, t, EMPTY, sig, now, tid), "a capture made by the signal handler")
def t_save(x, I):
    """saveMessage under contract, from arbitrary buffers"""
    now, tid, g, lv, v, t = setup(I)
    file, fn, ex, text, st = (x.str(n, NONUL, inp=True) for n in ("file", "function", "expression", "text", "stack"))
    line = x.int("line", -(1 << 31), (1 << 31) - 1, True); sig = x.int("signal", -(1 << 31), (1 << 31) - 1, True)
    I.call_q("g3::internal::saveMessage", [CStr(text), CStr(file), line, CStr(fn), lv, CStr(ex), sig, CStr(st)])
    if x.branch(fold(Z(v) >= 1000)): x.covers.add("fatal"); full = text + st
    else: x.covers.add("normal"); full = text
    check(I, g, expect(I, full, file, line, fn, v, t, ex, sig, now, tid), "saving a message")
def t_macro(name, expr=None, contract=False):
    def run(x, I):
        now, tid = clock(x); g = wire(I, now, tid)
        I.contracts["g3::logLevel"] = lambda I2, f, this, args: True
        val = x.int("streamed", -(1 << 31), (1 << 31) - 1)
        I.hooks["client::side"] = lambda I2, f, this, args: val
        I.hooks["client::condv"] = lambda I2, f, this, args: not contract
        def capf(I2, f, this, args):       # C10 proves what capturef stores
            I2.store(I2.call_q("LogCapture::stream", [], this=this).v.buf, x.decimal(val))
        I.contracts["LogCapture::capturef"] = capf
        if contract:
            key = [k for k in I.P.gorder if I.P.globals[k][0]["n"] == "CONTRACT"]
            if not key: raise Undecided("CONTRACT level")
            lv, v, t = None, 2000, Str("CONTRACT"); args = []
        else:
            lv, v, t = levels(I); args = [lv]
        I.call_q("client::" + name, args)
        ln = [i + 1 for i, l in enumerate(SRC) if re.search(r"\bvoid %s\(" % name, l)][0]
        sigs = {f.q for f in I.P.find("client::" + name, len(args))}
        # file, line and function of the statement, as the compiler gives them
        file = Str(os.path.join(HERE, "client", "client.cpp"))
        dump = "none"
        st = Str(BANNER) + x.ufstr("stackdump", dump, chars=NONUL)
        text = x.decimal(val)
        if x.branch(fold(Z(v) >= 1000)): text = text + st
        want = expect(I, text, file, ln, EMPTY, v, t, Str(expr or ""), 6, now, tid)
        fnames = (name, "void client::%s(%s)" % (name, "const LEVELS &" if args else ""), "void client::%s(%s)" % (name, "const LEVELS&" if args else ""))
        del want["_function"]
        check(I, g, want, "the statement")
        if g.n == 1:
            fl = x.norm(g.m["_function"][1]).lit() if g.m["_function"][0] == "s" else None
            x.prove(fl in fnames, "the message's function is the enclosing one")
    return run
def t_split(x, I):
    p = x.str("path", inp=True)
    fs = I.P.find("g3::LogMessage::splitFileName", 1)
    if not fs:
        fs = [f for f in I.P.fns.values() if f.q.split("::")[-1] == "splitFileName" and f.d]
    if not fs: raise Undecided("splitFileName not found")
    a = I.as_arg(I.cell(p) if fs[0].p[0].k == "ref" else p, fs[0].p[0])
    r = I.call(fs[0], None, [a], top=True)
    if isinstance(r, Cell): r = I.load(r)
    x.prove(x.seq(r, base(x, p)), "the file is the base name of the path")
def t_fatal(x, I):
    lv, v, t = levels(I)
    r = I.call_q("g3::internal::wasFatal", [lv]); x.prove(EQ(r, fold(Z(v) >= 1000)), "wasFatal tells whether the level value is at least FATAL's")
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    S = ["g3::internal::saveMessage", "g3::internal::saveFatalMessage", "g3::LogMessage::LogMessage", "g3::LogMessage::setExpression", "g3::LogMessage::write"]
    C = ["LogCapture::LogCapture", "LogCapture::~LogCapture", "LogCapture::stream"]
    T("capture", t_capture, C + S, ["fatal", "normal"]); T("capture by the signal handler", t_signal, C + S, ["fatal", "normal"])
    T("saveMessage", t_save, S, ["fatal", "normal"])
    for n in ("mLOG", "mLOG_IF", "mLOGF", "mLOGF_IF"): T("macro " + n[1:], t_macro(n), ["client::" + n] + C + S)
    for n in ("mCHECK", "mCHECKF", "mCHECK_F"): T("macro " + n[1:], t_macro(n, "condv(2)", True), ["client::" + n] + C + S)
    T("splitFileName", t_split, ["splitFileName"]); T("wasFatal", t_fatal, ["g3::internal::wasFatal"])
    return R
TRUST = ["contracts at the boundary: pushMessageToLogger (C03, C20) and fatalCall (C09) receive the message; stackdump returns some NUL-free text; capturef (C10)"]
ASSUME = ["text and call-site strings contain no NUL character (an embedded NUL in streamed text is the recorded known finding embedded-nul)"]
