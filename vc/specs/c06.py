"""C06 A fatal event flushes all earlier messages before the process dies."""
from .fatal import *
def rendered(W):
    """renderings are noted down"""
    I = W.I; x = I.ctx
    def ts(I2, f, this, args): t = x.ufstr("rendering", *W.key(this)); x.event("rendering", text=t, view={k: v for k, v in view(I2, this).items() if k != "_signal_id"}); return t
    I.contracts["g3::LogMessage::toString"] = ts
def t_fatal(x, I):
    W = Process(I); rendered(W); A = W.A; m0 = W.message("earlier"); early = x.fork(2); W.save(m0)
    if early == 1: A.idle()
    m = W.fatal_message("fatal"); sig = m[2]["_signal_id"][1]; late = W.message("later")
    W.fatal(m); x.prove(not W.got or early == 1, "nothing is delivered on the failing thread"); W.save(late)
    def ends(): W.last([m0], m[2], sig); x.covers.add(W.kind + str(early))
    W.ends = ends; A.idle(); x.fail("a fatal event ends the process")
def t_none(x, I):
    W = Process(I, with_e=False, others=False); rendered(W); A = W.A; m = W.fatal_message("fatal"); W.fatal(m)
    def ends(): W.last([], m[2], m[2]["_signal_id"][1]); x.covers.add("none")
    W.ends = ends; A.idle(); x.fail("a fatal event ends the process")
def t_route(x, I):
    """a fatal log on any thread while a worker is active: from saveMessage to the end of the process"""
    W = Process(I); rendered(W); A = W.A; m0 = W.message("earlier"); W.save(m0); lv = symobj(I, "LEVELS", "level"); v, t = lv.v.f["value"].v, lv.v.f["text"].v
    x.assume(Z(v) >= 1000)
    file, fn, ex, text, st = (x.str(n, NONUL, inp=True) for n in ("file", "function", "expression", "text", "stack")); line = x.int("line", -(1 << 31), (1 << 31) - 1, True); sig = x.int("signal", 1, 64, True)
    now, tid = x.int("now", -(1 << 62), 1 << 62), x.int("thread", 0); I.hooks["now"] = lambda I2: now; I.hooks["tid"] = lambda I2: tid
    want = {"_message": ("s", text), "_file_path": ("s", file), "_line": ("n", line), "_function": ("s", fn), "_level.value": ("n", v), "_level.text": ("s", t), "_expression": ("s", ex), "_timestamp": ("n", now), "_call_thread_id": ("n", tid)}
    def ends(): W.last([m0], want, sig); x.covers.add(W.kind)
    W.ends = ends; I.call_q("g3::internal::saveMessage", [CStr(text), CStr(file), line, CStr(fn), lv, CStr(ex), sig, CStr(st)])
    x.fail("the failing thread does not get past a fatal event")
def t_reason(x, I):
    lv = symobj(I, "LEVELS", "level"); n = x.int("signal", -(1 << 31), (1 << 31) - 1, True); r = I.call_q("g3::internal::exitReasonName", [lv, n])
    for s, nm in ((6, "SIGABRT"), (8, "SIGFPE"), (11, "SIGSEGV"), (4, "SIGILL"), (15, "SIGTERM")):
        if x.branch(EQ(n, s)): x.prove(x.seq(r, Str(nm)), "the reason is the signal's name"); x.covers.add(nm); return
    x.prove(contains(x, r, x.decimal(n)) and contains(x, r, lv.v.f["text"].v), "the reason of another signal gives its number and the level"); x.covers.add("other")
def t_access(x, I):
    W = Process(I, with_e=False, others=False); m = symobj(I, "g3::FatalMessage", "fatal"); v = view(I, m)
    r = I.call_q("g3::FatalMessage::reason", [], this=m, nparams=0); r = I.load(r) if isinstance(r, Cell) else r
    x.prove(x.seq(r, x.ufstr("reason", v["_signal_id"][1], v["_level.text"][1])), "reason() is the reason of the message's own signal and level")
def t_second(x, I):
    """another thread fails while the sinks are still being served"""
    W = Process(I, kind="msg"); rendered(W); A = W.A; m0 = W.message("earlier"); W.save(m0); m = W.fatal_message("fatal"); m2 = W.fatal_message("second"); W.fatal(m); recv = W.recv_msg; n = []
    def got(I2, f, this, args):
        recv(I2, f, this, args)
        if not n and W.cur() is None:
            n.append(1); old = A.ctx; A.ctx = "second thread"; pf = [f for f in I.P.fns.values() if f.q == "g3::internal::pushFatalMessageToLogger"]
            if len(pf) != 1: raise Undecided("pushFatalMessageToLogger")
            try: I.call(pf[0], None, [Arg("x", m2[0], m2[1])], top=True)
            except PathEnd as e:
                if str(e) != "blocked": raise
            A.ctx = old
    I.hooks["client::Sink::recvMsg"] = got
    def ends():
        x.covers.add("ended")
        if A.ctx == "second thread": x.fail("a second fatal event does not end the process before the sinks are done"); raise PathEnd("early")
        W.last([m0], m[2], m[2]["_signal_id"][1])
    W.ends = ends; A.idle(); x.fail("a fatal event ends the process")
def t_held(x, I):
    """another owner of the sink, e.g. a call through its handle in progress"""
    W = Process(I, kind="msg"); rendered(W); A = W.A; W.ectl.n.v = 2; m0 = W.message("earlier"); W.save(m0); m = W.fatal_message("fatal"); W.fatal(m)
    def ends(): x.covers.add("ended"); W.last([m0], m[2], m[2]["_signal_id"][1])
    W.ends = ends; a, b = A.act(W.bg), A.act(W.ebg)
    while a.q: A.step(a)
    x.fail("a fatal event ends the process")
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    B = ["g3::LogWorkerImpl::bgFatal", "g3::internal::Sink<T>::send", "g3::internal::Sink<T>::~Sink", "g3::internal::shutDownLogging"]
    T("fatal: every registered sink", t_fatal, ["g3::LogWorker::fatal"] + B, ["msg0", "msg1", "str0", "str1"])
    T("fatal: no sinks", t_none, B[:1] + ["g3::LogWorker::fatal"], ["none"])
    T("fatal log while a worker is active", t_route, ["g3::internal::saveMessage", "g3::internal::saveFatalMessage", "g3::internal::fatalCall", "g3::internal::pushFatalMessageToLogger", "g3::LogWorker::fatal"] + B, ["msg", "str"])
    T("reason names", t_reason, ["g3::internal::exitReasonName"], ["SIGABRT", "other"]); T("reason", t_access, ["g3::FatalMessage::reason"])
    T("second fatal event", t_second, ["g3::internal::pushFatalMessageToLogger"] + B, ["ended"])
    T("sink held by a client", t_held, B, ["ended"])
    return R
TRUST = ["the background worker's contract (tasks run once each, in order, on the worker's thread; destruction runs what was submitted first), proved as C01/C02", "exitWithDefaultSignalHandler ends the process (contract, proved as C07)", "stackdump returns some text", "std::shared_ptr, std::unique_ptr, std::function, std::vector and std::ostream behave as the standard says", "a message's rendering is a function of its content (LogMessage::toString, C13)"]
ASSUME = ["client sinks do not throw and do not block forever", "a sink's call operates on its argument and its own state only", "the template code is verified for one client sink type with both kinds of receiving method; it treats every type alike", "no other thread raises a fatal event while the first one is processed, and no client owns a sink then (known findings second-fatal and held-sink)", "the fatal event is not raised on the log worker's or a sink's own thread (C07's known finding sink-thread)", "when a signal handler runs on top of code that holds a lock, that lock is not one g3log or malloc needs"]
