"""C16 The file sink writes every message once, in order, and flushes on time."""
from .common import *
from .c17 import Time, file_name
from ..lib import LibModel
TU = ["client", "filesink"]
FS = "g3::FileSink"
FIELDS = {"_log_details_func", "_log_file_with_path", "_log_prefix_backup", "_outptr", "_header", "_firstEntry", "_write_buffer", "_write_counter", "_write_to_log_every_x_message"}
APP, TRUNC = 1, 32
class File:
    """a file: what it held before, what has reached it since"""
    def __init__(self, name, text): self.name = name; self.text = text
class Disk:
    """the file system: opens succeed or fail, a file may or may not exist before; written text reaches the file when flushed"""
    def __init__(self, I, files=()):
        self.I = I; x = I.ctx; self.files = list(files); self.opens = []; self.exists = True
        I.hooks["ofstream-open"] = self.open; I.hooks["ofstream-close"] = self.close
        I.hooks["ofstream-put"] = self.put; I.hooks["ofstream-flush"] = self.flush
    def open(self, I, o, name, mode):
        x = I.ctx
        if not isc(mode): raise Undecided("open mode")
        if not x.branch(x.bool("can be opened")):
            self.opens.append((name, None)); I.store(o.state, 4); return
        old = [f for f in self.files if f.name is not None]
        k = x.fork(len(old) + 1) if len(self.files) else 0
        if k < len(old): f = old[k]; x.covers.add("same file"); x.prove(bool(mode & APP) and not mode & TRUNC, "opening a log file does not erase what has already been logged")
        else: f = File(name, EMPTY); self.files.append(f)
        self.opens.append((name, f)); I.store(o.open, True); I.store(o.file, f); I.store(o.buf, EMPTY)
    def put(self, I, o, s):
        if I.load(o.open) is not True: I.ctx.event("lost", text=s); return
        I.store(o.buf, I.load(o.buf) + s)
    def flush(self, I, o):
        if I.load(o.open) is True:
            f = I.load(o.file); f.text = f.text + I.load(o.buf); I.store(o.buf, EMPTY)
    def close(self, I, o):
        if I.load(o.open) is True: self.flush(I, o); I.store(o.open, False)
class Msgs:
    """messages and their rendering, contracted as a function of the message's content and the details function (C13 proves the rendering)"""
    def __init__(self, I):
        self.I = I
        def to_string(I2, f, this, args):
            v = I2.lib.val(I2, args[0]) if args else FnPtr(None, "g3::LogMessage::DefaultLogDetailsToString")
            return self.text(this, v)
        I.contracts["g3::LogMessage::toString"] = to_string
    def text(self, m, fn):
        vs = view(self.I, m); key = []
        for k in sorted(vs):
            a = vs[k]
            if k.endswith("_logDetailsToStringFunc"): continue
            key.append((k, a[1] if a[0] in ("n", "s") else repr(a[1])))
        h = getattr(fn, "h", None) or getattr(fn, "q", None)
        if h is None: raise Undecided("details function")
        return self.I.ctx.ufstr("rendering", h, tuple(key))
    def new(self, name): return symobj(self.I, "g3::LogMessage", name, False)
DFLT = FnPtr(None, "details", h=("uf", "details")); OTHER = FnPtr(None, "other", h=("uf", "other details"))
def header_text(x, t, h): return Str("\t\tg3log created log at: ") + x.ufstr("local time", t.now, "%a %b %d %H:%M:%S %Y", chars=NONUL) + Str("\n") + h
# what the counter may mean; lag = messages since the last flush. The first meaning which the code keeps is the data invariant
COUNTER = [("modulo", lambda lag, c, N: Z(lag) <= Z(c) % Z(N)), ("reset", lambda lag, c, N: z3.And(Z(lag) <= Z(c), Z(c) < Z(N))),
           ("remaining", lambda lag, c, N: z3.And(Z(c) >= 1, Z(c) <= Z(N), Z(lag) <= Z(N) - Z(c)))]
_INV = {}
def counter_inv(I):
    """the data invariant of the counter: found by proving that fileWrite keeps it and flushes in time, on its own; none: the obligations on it decide nothing"""
    k = id(I.P)
    if k not in _INV:
        _INV[k] = None
        for name, inv in COUNTER:
            def go(ctx): t_write(ctx, Interp(ctx, I.P, LibModel()), inv)
            p = Prover(); p.run("counter", go, [], (), 400); pf = p.proofs[-1]
            if pf.obl and pf.status not in ("failed", "undecided"): _INV[k] = inv; break
    return _INV[k]
class Sink:
    """a sink in an arbitrary state satisfying the invariant: unwritten messages are those in the buffer, `lag` of them have come since the last flush,
    the counter bounds lag (counter_inv), and nothing is buffered before the first message"""
    def __init__(self, I, first=None, inv=None):
        self.I = I; x = I.ctx; self.t = Time(I); self.m = Msgs(I); self.d = Disk(I)
        self.w = x.str("written", inp=False); self.cur = File(Str("current"), x.str("flushed"))
        pre = [x.str("prefix0"), x.str("dir0"), x.str("id0")]
        # an object made by the real constructor, put into an arbitrary state
        I.hooks["sym:std::unique_ptr"] = lambda I2, t, name: Lib("uptr", p=I.cell(NULL))
        r = symobj(I, FS, "sink", False); self.s = r
        if set(r.v.f) != FIELDS: raise Undecided("the sink's fields have changed: %s" % sorted(set(r.v.f) ^ FIELDS))
        F = r.v.f
        o = I.lib.new_ofstream(I); o.open.v = True; o.file.v = self.cur; o.buf.v = x.str("unflushed"); self.o = o
        self.d.files.append(self.cur)
        F["_outptr"].v = Lib("uptr", p=I.cell(Ptr(I.cell(o, None, "stream"))))
        self.path = x.str("path"); F["_log_file_with_path"].v = self.path
        self.prefix = x.str("prefix"); F["_log_prefix_backup"].v = self.prefix
        self.hdr = x.str("header"); F["_header"].v = self.hdr
        self.N = x.int("N", 1, 1 << 62, inp=True); F["_write_to_log_every_x_message"].v = self.N
        self.c = x.int("counter", 0, 1 << 62); F["_write_counter"].v = self.c
        self.first = x.fork(2) == 0 if first is None else first
        F["_firstEntry"].v = self.first
        self.pend = EMPTY if self.first else x.str("buffered"); F["_write_buffer"].v = self.pend
        self.lag = 0 if self.first else x.int("lag", 0)
        self.inv = inv or counter_inv(I)
        if self.inv is None: self.inv = COUNTER[0][1]; x.taint.add("what the message counter means")
        x.assume(fold(self.inv(self.lag, self.c, self.N)))
        F["_log_details_func"].v = DFLT
        self.fn = DFLT; self.text0 = self.cur.text; self.W = self.cur.text + o.buf.v + self.pend
    def pending(self):
        """text handed to the current stream but not yet flushed, and text not yet handed over"""
        F = self.s.v.f; p = self.I.load(F["_outptr"].v.p)
        o = p.c.v; return self.I.load(o.file), self.I.load(o.buf), self.I.load(F["_write_buffer"])
    def write(self, m): self.I.call_q("client::fs_write", [self.s, m])
    def delete(self): self.I.call_q("client::fs_delete", [Ptr(self.s)])
    def change(self, d, i): return self.I.call_q("client::fs_change", [self.s, self.I.cell(d), self.I.cell(i)])
    def name(self): return self.I.call_q("client::fs_current", [self.s])
def cnt(s, a): return sum(1 for p in s.p if p == a)
def tail(x, now, pre, what):
    r = rope_minus(now, pre)
    if r is None: x.prove(x.seq(now, pre), what)      # fails unless provably nothing was added
    else: x.prove(True, what)
    return r
def once(x, s, a, what):
    """the text a (one unknown text) occurs exactly once in s, whole"""
    if isinstance(a, Str):
        if not a.p: return 0
        if len(a.p) != 1: raise Undecided("text was split")
        a = a.p[0]
    n = cnt(s, a)
    if n == 0 and x.entails(EQ(a.len, 0)): return None
    if n == 0 and any(isinstance(p, Atom) and p.org for p in s.p): raise Undecided("text was split")
    x.prove(n == 1, what); return next((i for i, p in enumerate(s.p) if p == a), None)
def t_write(x, I, inv=None):
    S = Sink(I, inv=inv); m = S.m.new("msg"); R = S.m.text(m, S.fn); S.write(m)
    f, buf, wb = S.pending(); H = header_text(x, S.t, S.hdr) if S.first else EMPTY
    x.covers.add("first" if S.first else "later")
    x.prove(f is S.cur, "the message goes to the current file")
    x.prove(x.seq(f.text + buf + wb, S.W + H + R), "everything received so far, then the header if it is the first, then the message; nothing is lost or repeated")
    x.prove(EQ(I.load(S.s.v.f["_firstEntry"]), False), "the header is written once")
    unflushed = x.slen(buf + wb)
    if x.branch(EQ(unflushed, 0)): x.covers.add("flushed"); lag = 0
    else:
        lag = fold(Z(S.lag) + 1); x.covers.add("buffered")
        x.prove(fold(Z(lag) < Z(S.N)), "after every N-th message everything received so far has been written and flushed")
    inv = fold(S.inv(lag, I.load(S.s.v.f["_write_counter"]), I.load(S.s.v.f["_write_to_log_every_x_message"])))
    x.prove(EQ(I.load(S.s.v.f["_write_to_log_every_x_message"]), S.N), "the interval stays")
    if not x.entails(inv): raise Undecided("invariant of the message counter")
    x.prove(inv, "invariant: messages since the last flush are counted")
def t_change(x, I):
    S = Sink(I); d, i = x.str("directory", inp=True), x.str("id", inp=True); m = S.m.new("msg")
    want = None
    r = S.change(d, i); ok = S.d.opens and S.d.opens[-1][1] is not None
    if len(S.d.opens) != 1: raise Undecided("files opened: %d" % len(S.d.opens))
    want, f = S.d.opens[-1]
    x.prove(x.seq(want, d + file_name(x, S.t, S.prefix, i)), "the new file is the directory text followed by prefix, id, time and .log")
    cur = S.name(); R = S.m.text(m, S.fn)
    if ok: x.prove(x.seq(r, want), "the new file's name is returned"); x.prove(x.seq(cur, want), "the new file is in use"); x.covers.add("changed")
    else: x.prove(EQ(x.slen(r), 0), "failure is reported"); x.prove(x.seq(cur, S.path), "the current file stays in use"); x.covers.add("not changed")
    S.write(m); S.delete()
    old = tail(x, S.cur.text, S.text0, "what was in the file before is kept")
    if old is None: return
    if ok and f is not S.cur: new = f.text; allt = old + Str("\x01") + new
    else: new = EMPTY; allt = old
    what = "every message received is in the old or the new file exactly once"
    msgs = [p for p in (S.W.p[len(S.text0.p):])]
    at = [once(x, allt, p, what) for p in msgs]; last = once(x, allt, R, what)
    seen = [a for a in at + [last] if a is not None]
    x.prove(seen == sorted(seen), "messages stay in order")
    if ok and f is not S.cur: x.prove(last is not None and last >= len(old.p), "messages received after the change go to the new file")
    if not ok: x.prove(last is not None, "messages received after a failed change go to the current file")
def due(x, S):
    """the next message is the N-th since the last flush"""
    x.assume(EQ(fold(Z(S.lag) + 1), S.N))
def flushed(x, S, what):
    f, buf, wb = S.pending(); x.prove(EQ(x.slen(buf + wb), 0), what)
def t_keep(op):
    def run(x, I):
        S = Sink(I); due(x, S); m = S.m.new("msg")
        if op == "change": S.change(x.str("directory", inp=True), x.str("id", inp=True)); x.covers.add("changed" if S.d.opens[-1][1] else "not changed")
        elif op == "details": I.call_q("client::fs_details", [S.s, OTHER])
        elif op == "header": I.call_q("client::fs_header", [S.s, I.cell(x.str("other header", inp=True))])
        else: S.name()
        S.write(m); flushed(x, S, "after every N-th message everything received so far has been written and flushed, whatever happened in between")
    return run
def t_delete(x, I):
    S = Sink(I); S.delete()
    r = tail(x, S.cur.text, S.W, "everything received is in the file when the sink is gone")
    x.covers.add("first" if S.first else "later")
    if r is None: return
    stamp = x.ufstr("local time", S.t.now, "%H:%M:%S", chars=NONUL)
    got = Str(r.p)
    a = rope_minus(got, Str("g3log g3FileSink shutdown at: "))
    x.prove(a is not None, "the shutdown line follows")
def t_override(x, I):
    S = Sink(I); m = S.m.new("msg"); k = x.fork(2); h = x.str("other header", inp=True)
    if k == 0: I.call_q("client::fs_details", [S.s, OTHER]); S.fn = OTHER; x.covers.add("details")
    else: I.call_q("client::fs_header", [S.s, I.cell(h)]); S.hdr = h; x.covers.add("header")
    S.write(m); S.delete(); R = S.m.text(m, S.fn)
    H = header_text(x, S.t, S.hdr) if S.first else EMPTY
    r = rope_minus(S.cur.text, S.W + H + R)
    if r is None: x.prove(x.seq(S.cur.text, S.W + H + R), "overridden header and details formatting are honoured")
    else: x.prove(True, "overridden header and details formatting are honoured")
def t_new(n, k):
    """the real constructor, k messages, with an interval of n (bounded in n and k: establishes the invariant without naming a field)"""
    def run(x, I, n=n):
        if n is None: n = x.int("N", 1, 1 << 62, inp=True)
        t = Time(I); M = Msgs(I); D = Disk(I)
        I.contracts["g3::internal::prefixSanityFix"] = lambda I2, f, this, args: x.ufstr("clean prefix", I2.lib.S(I2, args[0]))
        I.contracts["g3::internal::isValidFilename"] = lambda I2, f, this, args: True
        I.contracts["g3::internal::pathSanityFix"] = lambda I2, f, this, args: x.ufstr("path", I2.lib.S(I2, args[0]), I2.lib.S(I2, args[1]))
        op = D.open
        def one(I2, o, name, mode):
            x.assume(True); op(I2, o, name, mode)
            if D.opens[-1][1] is None and len(D.opens) > 1: raise PathEnd("the current directory is assumed to be writable")
        I.hooks["ofstream-open"] = one
        p = I.call_q("client::fs_new", [I.cell(x.str("prefix")), I.cell(x.str("dir")), I.cell(x.str("id")), n])
        s = p.c; f = D.opens[-1][1]
        if f is None: x.fail("a file is opened"); return
        if not k:
            if set(s.v.f) != FIELDS: raise Undecided("the sink's fields have changed")
            x.prove(EQ(I.load(s.v.f["_write_to_log_every_x_message"]), n), "the interval is the one given")
            x.prove(fold((counter_inv(I) or COUNTER[0][1])(0, I.load(s.v.f["_write_counter"]), n)), "a new sink satisfies the invariant of the counter")
            x.prove(EQ(I.load(s.v.f["_firstEntry"]), True), "a new sink satisfies the invariant: the header is due"); x.prove(EQ(x.slen(I.load(s.v.f["_write_buffer"])), 0), "a new sink satisfies the invariant: nothing is buffered")
        want = EMPTY; h = None; fn = FnPtr(None, "g3::LogMessage::DefaultLogDetailsToString")
        for j in range(k):
            m = M.new("msg%d" % j); R = M.text(m, fn); I.call_q("client::fs_write", [s, m])
            want = want + R
            if (j + 1) % n == 0:
                r = f.text
                x.prove(len(r.p) >= len(want.p) and list(r.p[-len(want.p):]) == list(want.p), "after every N-th message everything received so far has been written and flushed"); x.covers.add("flushed")
        I.call_q("client::fs_delete", [p])
        if not k: x.prove(any(isinstance(v, str) and v.endswith("g3log g3FileSink shutdown at: ") for v in f.text.p), "the shutdown line is written"); return
        # header once, then the messages, then the shutdown line
        H = x.ufstr("local time", t.now, "%a %b %d %H:%M:%S %Y", chars=NONUL)
        a = rope_minus(f.text, Str("\t\tg3log created log at: ") + H)
        x.prove(a is not None, "the header comes first")
        if a is None: return
        i = next((q for q, v in enumerate(a.p) if v in want.p), None)
        x.prove(i is not None and list(a.p[i:i + k]) == list(want.p), "every message exactly once, in order")
        x.prove(cnt(a, H.p[0]) == 0 and sum(1 for v in a.p if v in want.p) == k, "the header is written once, every message is written once")
        x.prove(i is not None and len(a.p) > i + k and isinstance(a.p[i + k], str) and a.p[i + k].startswith("g3log g3FileSink shutdown at: "), "the shutdown line follows the messages")
    return run
def tasks():
    R = []
    def T(n, fn, fns, cov=(), kind="contract"): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov, kind=kind))
    H = [FS + "::addLogFileHeader", "g3::internal::header"]
    T("fileWrite", t_write, [FS + "::fileWrite"] + H, ["first", "later", "flushed", "buffered"])
    T("changeLogFile", t_change, [FS + "::changeLogFile", "g3::internal::createLogFile", "g3::internal::openLogFile", "g3::internal::createLogFileName", FS + "::fileName"] + H, ["changed", "not changed", "same file"])
    T("~FileSink", t_delete, [FS + "::~FileSink"], ["first", "later"])
    T("overrideLogDetails, overrideLogHeader", t_override, [FS + "::overrideLogDetails", FS + "::overrideLogHeader"], ["details", "header"])
    for o, q in (("change", "changeLogFile"), ("details", "overrideLogDetails"), ("header", "overrideLogHeader"), ("name", "fileName")):
        T(q + ", then the N-th message", t_keep(o), [FS + "::" + q, FS + "::fileWrite"], ["changed", "not changed"] if o == "change" else [])
    T("new sink", t_new(None, 0), [FS + "::FileSink", FS + "::~FileSink"])
    for n, k in ((1, 2), (2, 5), (3, 4)): T("new sink, interval %d, %d messages" % (n, k), t_new(n, k), [FS + "::FileSink", FS + "::fileWrite", FS + "::~FileSink"], ["flushed"], "bounded")
    return R
TRUST = ["std::ofstream: opened for appending it adds to what the file holds, opened for truncation it erases it; text reaches the file at the latest when flushed or closed; writes succeed (no full disk)",
         "contract of g3::localtime_formatted (C15), of LogMessage::toString (C13)"]
ASSUME = ["write interval of at least 1; fewer than 2^62 messages"]
