"""C17 Log file names and locations are built safely."""
from .common import *
TU = ["client", "filesink"]
DROP = WS | cset("/\\.:")
ILLEGAL = cset("/,|<>:#$%{}[]'\"^!?+* ")

class Strip:
    """loop contract for loops that shorten one text from its end: what was removed consists of separators and blanks"""
    def __init__(self, I, mod):
        self.I = I; x = I.ctx
        ts = [(c, v) for c, v in mod if isinstance(v, Str)]
        if len(ts) != 1: raise Undecided("loop without a single text")
        self.c, self.v0 = ts[0]
    def shrink(self, whole):
        """an arbitrary prefix of whole such that only separators and blanks are cut off"""
        x = self.I.ctx; n = x.int("kept", 0); x.assume(fold(Z(n) <= Z(x.slen(whole))))
        a, b = x.cut(whole, n)
        if x.find_set(b, ALL - cset("/ ")) is not None: raise PathEnd("not a state of the loop")
        return a
    def havoc(self):
        self.c.v = self.a = self.shrink(self.v0); return [self.c.uid]
    def check(self):
        x = self.I.ctx; n = x.slen(self.c.v)
        if not x.entails(fold(Z(n) <= Z(x.slen(self.a)))): raise Undecided("loop lengthens the text")
        p, r = x.cut(self.a, n); e = x.seq(self.c.v, p)
        if e is not True and (e is False or not x.entails(e)): raise Undecided("loop invariant (text is a prefix) not preserved")
        if x.find_set(r, ALL - cset("/ ")) is not None:
            if not x.feasible(): raise PathEnd("infeasible")
            raise Undecided("loop invariant (removed characters) not preserved")
        x.covers.add("iteration")
def strip(I):
    I.strips = 0; I.char_first = True
    def lc(I2, mod):
        if len([1 for _, v in mod if isinstance(v, Str)]) != 1: return None
        I2.strips += 1; return Strip(I2, mod)
    I.loop_contract = lc
def fixed_prefix(x, p): return x.maprope(p, {}, ALL - DROP)
def valid(x, s):
    """a file name prefix is valid iff it is not empty and has no illegal character"""
    if x.branch(EQ(x.slen(s), 0)): return False
    return x.find_set(s, ILLEGAL) is None
def fixed_path(x, path, name):
    u = x.maprope(path, {92: 47}, ALL)
    r = x.find_set(u, ALL - cset("/ "), True)
    if r is not None:
        x.covers.add("directory"); return r[0] + Str((chr(r[1]) if isc(r[1]) else Chr(r[1]),)) + Str("/") + name
    if not x.branch(EQ(x.slen(u), 0)):
        h, _ = x.headtail(u)
        if x.branch(EQ(h, 47)): x.covers.add("root"); return Str("/") + name
    x.covers.add("current"); return name
def short(x, *texts):
    for t in texts: x.assume(fold(Z(x.slen(t)) < (1 << 31) - 1))
def t_valid(x, I):
    s = x.str("prefix", inp=True); short(x, s); r = I.call_q("g3::internal::isValidFilename", [I.cell(s)])
    w = valid(x, s); x.covers.add("valid" if w else "refused")
    x.prove(EQ(I.truth(r), w), "a prefix is refused exactly when it is empty or has an illegal character")
def t_prefix(x, I):
    s = x.str("prefix", inp=True); short(x, s); r = I.call_q("g3::internal::prefixSanityFix", [s])
    w = fixed_prefix(x, s)
    if not valid(x, w): w = EMPTY
    x.prove(x.seq(r, w), "white space, slashes, back-slashes, dots and colons are removed, everything else is kept; an invalid prefix becomes empty")
def t_path(x, I):
    p, n = x.str("path", inp=True), x.str("name", inp=True); strip(I); short(x, p)
    r = I.call_q("g3::internal::pathSanityFix", [p, I.cell(n)])
    if not I.strips: x.covers.add("iteration")      # no loop
    x.prove(x.seq(r, fixed_path(x, p, n)), "directory without trailing separators and blanks, one separator, name")
class FS:
    """the file system: any open may succeed or fail"""
    def __init__(self, I):
        self.opened = []; self.I = I
        def op(I2, o, name, mode):
            ok = I2.ctx.branch(I2.ctx.bool("can be opened")); self.opened.append((name, ok, mode))
            if not ok and len(self.opened) > 1: raise PathEnd("the current directory is assumed to be writable")
            if ok: I2.store(o.open, True); I2.store(o.file, name)
            else: I2.store(o.state, 4)
        I.hooks["ofstream-open"] = op
class Time:
    def __init__(self, I):
        x = I.ctx; self.now = x.int("now", -(1 << 62), 1 << 62); self.calls = []
        I.hooks["now"] = lambda I2: self.now
        def fmt(I2, f, this, args):
            c = args[0].c; v = c.v if isinstance(c, Cell) else c; s = I2.lib.S(I2, args[1]); self.calls.append(s.lit())
            return x.ufstr("local time", v.n, s.lit() or "?", chars=NONUL)
        I.contracts["g3::localtime_formatted"] = fmt
    def text(self, f): return self.I_text(f)
def stamp(x, t): return x.ufstr("local time", t.now, "%Y%m%d-%H%M%S", chars=NONUL)
def file_name(x, t, prefix, id):
    if x.branch(EQ(x.slen(id), 0)): return prefix + Str(".") + stamp(x, t) + Str(".log")
    return prefix + Str(".") + id + Str(".") + stamp(x, t) + Str(".log")
def t_name(x, I):
    p, i = x.str("prefix", inp=True), x.str("id", inp=True); t = Time(I)
    r = I.call_q("g3::internal::createLogFileName", [I.cell(p), I.cell(i)])
    x.prove(x.seq(r, file_name(x, t, p, i)), "prefix, id if any, local creation time, .log, joined by dots")
def t_sink(default):
    def run(x, I):
        p, d = x.str("prefix", inp=True), x.str("directory", inp=True); i = Str("g3log") if default else x.str("id", inp=True); short(x, p, d)
        t = Time(I); fs = FS(I); strip(I)
        I.contracts["g3::internal::pathSanityFix"] = lambda I2, f, this, args: fixed_path(x, I2.lib.S(I2, args[0]), I2.lib.S(I2, args[1]))
        st = {"aborted": False}
        def gone(I2, what): st["aborted"] = True
        I.hooks["noreturn"] = gone
        try: r = I.call_q("client::fs_name_default" if default else "client::fs_name", [I.cell(p), I.cell(d)] + ([] if default else [I.cell(i), x.int("interval", 1, 1 << 62)]))
        except PathEnd:
            if "abort" not in x.kinds(): raise
            w = fixed_prefix(x, p); x.covers.add("refused"); x.prove(not fs.opened, "no file is opened for a refused prefix")
            x.prove(not valid(x, w), "a prefix is refused only when its sanitized form is empty or has an illegal character"); return
        w = fixed_prefix(x, p); x.prove(valid(x, w), "a prefix whose sanitized form is empty or has an illegal character is refused")
        name = file_name(x, t, w, i); want = fixed_path(x, d, name)
        x.prove(len(fs.opened) >= 1, "the log file is opened")
        if not fs.opened: return
        x.prove(x.seq(fs.opened[0][0], want), "the file is created directly in the given directory")
        if fs.opened[0][1]:
            x.covers.add("given"); x.prove(len(fs.opened) == 1, "only one file is created"); x.prove(x.seq(r, want), "the path in use is reported")
        else:
            x.covers.add("fallback"); cur = Str("./") + name
            x.prove(len(fs.opened) == 2, "the current directory is tried when the given one cannot be used")
            if len(fs.opened) == 2:
                x.prove(x.seq(fs.opened[1][0], cur), "the current directory is used instead"); x.prove(x.seq(r, cur), "the path in use is reported")
        x.prove(x.kinds().count("abort") == 0, "a valid prefix is not refused")
    return run
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    T("isValidFilename", t_valid, ["g3::internal::isValidFilename"], ["valid", "refused"])
    T("prefixSanityFix", t_prefix, ["g3::internal::prefixSanityFix"])
    T("pathSanityFix", t_path, ["g3::internal::pathSanityFix"], ["directory", "root", "current", "iteration"])
    T("createLogFileName", t_name, ["g3::internal::createLogFileName"])
    F = ["g3::FileSink::FileSink", "g3::internal::createLogFile", "g3::internal::openLogFile", "g3::FileSink::fileName"]
    T("FileSink", t_sink(False), F, ["refused", "given", "fallback", "directory", "root", "current"]); T("FileSink (default id)", t_sink(True), F)
    return R
TRUST = ["contract of g3::localtime_formatted (C15): the local time of the instant in the given format", "opening a file succeeds or fails arbitrarily"]
ASSUME = ["a prefix and a directory are shorter than 2^31 - 1 characters", "the logger id contains no separators", "the current directory is writable when the given directory is not"]
