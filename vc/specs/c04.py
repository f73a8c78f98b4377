"""C04 Adding and removing sinks is synchronous and exact."""
from .actor import *
TU = ["client", "logworker", "logmessage", "loglevels", "filesink"]
def t_add(x, I):
    W = World(I); A = W.A; W2 = x.fork(2); before = x.fork(2); m0 = W.message("earlier") if before else None
    if before: W.save(m0)
    rs = W.real("added"); h = I.cell(I.call_q("client::addMsgSink" if W2 == 0 else "client::addStrSink", [W.w, Arg("r", Lib("uptr", p=I.cell(Ptr(rs)), et=rs.t), None)], nparams=2), None, "handle")
    sh = W.shape(); x.covers.add("added%d%d" % (W2, before)); new = [e for e in sh if isinstance(e, Cell)]
    x.prove(len(new) == 1, "when adding returns, the sink is registered, once")
    if len(new) != 1: return
    x.prove(W.same_list(sh, [("sinks", "sinks before"), "e", ("sinks", "sinks behind"), new[0]]), "adding leaves the other sinks as they are")
    sp = new[0].v; x.prove(sp.p.v.c is not None and sp.p.v.c.alive, "the registered sink exists")
    hw = [f.v for f in I.deref(h.v.p.v).v.f.values() if isinstance(f.v, Lib) and f.v.kind == "wptr"] if isinstance(h.v, Lib) and h.v.kind == "uptr" and h.v.p.v.c is not None else []
    x.prove(len(hw) == 1 and hw[0].ctl is sp.ctl, "the handle stands for the sink added");
    m = W.message("later"); W.save(m); A.idle(); x.prove(EQ(sp.ctl.n.v, 1), "g3log's list is the only owner of the sink"); other = [g for g in W.got if g["sink"] is not rs]; W.got = [g for g in W.got if g["sink"] is rs]
    rs0, eb0 = W.rs, W.ebg; W.rs = rs; W.ebg = A.all[-1].cell; W.delivered([m[2:]], "a sink receives what is saved after it was added, and nothing earlier: ")
    W.rs, W.ebg, W.got = rs0, eb0, other; W.delivered(([m0[2:]] if before else []) + [m[2:]], "a sink added before: ")
def t_remove(x, I):
    W = World(I); A = W.A; case = x.fork(4); client = x.fork(2) if case in (1, 3) else 0; n = ["null", "registered", "destroyed", "not registered"][case]
    m = W.message("earlier"); W.save(m); want = [m[2:]]
    if case == 0: h = Lib("uptr", p=I.cell(NULL), et=None)
    else: h = W.handle.v
    if case == 2: A.idle(); W.take_out(); W.forget(); want = [m[2:]]
    if case == 3: A.idle(); W.take_out(); W.ectl.n.v = 1; client = 1
    elif client: W.ectl.n.v = 2
    pre = W.shape(); I.call_q("client::removeSink", [W.w, Arg("r", h, None)], nparams=2)
    x.covers.add(n + ("+client" if client and case == 1 else ""))
    post = W.shape()
    if case == 1:
        x.prove(W.same_list(post, [e for e in pre if e != "e"]), "when removing returns, exactly that sink is no longer registered"); x.prove(EQ(W.ectl.n.v, client), "g3log's ownership of the sink is released")
        if not client: x.prove(not W.rs.alive and not W.e.alive, "a sink nobody else owns is destroyed")
        m2 = W.message("later"); W.save(m2); A.idle(); W.delivered(want, "a removed sink receives all that was saved before and nothing later: ")
    else:
        x.prove(W.same_list(post, pre), "removing a %s handle changes nothing" % n); m2 = W.message("later"); W.save(m2); A.idle()
        W.delivered(want + ([m2[2:]] if case == 0 else []), "after removing a %s handle: " % n)
        x.prove(EQ(W.ectl.n.v, 1 if case in (0, 3) else 0), "removing a %s handle releases nothing" % n)
def t_all(x, I):
    W = World(I); A = W.A; client = x.fork(2); W.ectl.n.v = 1 + client; m = W.message("earlier"); W.save(m); I.call_q("client::removeAll", [W.w], nparams=1)
    x.prove(not W.list.v.seq.v, "when removing all sinks returns, none is registered"); x.prove(EQ(W.ectl.n.v, client), "g3log's ownership of the sinks is released"); x.covers.add("all%d" % client)
    if not client: x.prove(not W.rs.alive and not W.e.alive, "a sink nobody else owns is destroyed")
    m2 = W.message("later"); W.save(m2); A.idle(); W.delivered([m[2:]], "a removed sink receives all that was saved before and nothing later: ")
def t_destroy(x, I):
    W = World(I); A = W.A; client = x.fork(2); W.ectl.n.v = 1 + client; m = W.message("earlier"); W.save(m); early = x.fork(2)
    I.contracts["g3::internal::shutDownLoggingForActiveOnly"] = lambda I2, f, this, args: I2.ctx.bool("was active")
    if early: A.step(A.act(W.bg))
    I.destroy(W.w); x.prove(A.act(W.bg).done and not A.pending(W.bg), "destroying the log worker carries out everything submitted before, then ends its thread")
    x.prove(not W.w.alive, "the log worker is destroyed"); x.prove(EQ(W.ectl.n.v, client), "the sinks are released"); x.covers.add("destroyed%d%d" % (client, early))
    if not client: x.prove(not W.rs.alive and not W.e.alive, "a sink nobody else owns is destroyed")
    A.idle(); W.delivered([m[2:]], "everything saved before the log worker's destruction is delivered: ")
def t_default(x, I):
    W = World(I); A = W.A; a = [x.str(n, inp=True) for n in ("prefix", "directory", "id")]; made = []; got = []
    def ctor(I2, f, this, args): made.append((this, [I2.lib.S(I2, b) for b in args[:3]]))
    I.contracts["g3::FileSink::FileSink"] = ctor; I.contracts["~g3::FileSink"] = lambda I2, c: None
    def write(I2, f, this, args): c = I2.bind_param(f.p[0], args[0]); got.append((this, A.ctx, view(I2, W.content(c))))
    I.contracts["g3::FileSink::fileWrite"] = write
    h = I.cell(I.call_q("g3::LogWorker::addDefaultLogger", [I.cell(v) for v in a], this=W.w, nparams=3), None, "handle")
    x.prove(len(made) == 1, "one file sink is made"); new = [e for e in W.shape() if isinstance(e, Cell)]; x.prove(len(new) == 1, "when adding returns, the sink is registered, once"); x.covers.add("default")
    if len(made) != 1 or len(new) != 1: return
    for i, n in enumerate(("prefix", "directory", "id")): x.prove(x.seq(made[0][1][i], a[i]), "the file sink is made with the given " + n)
    m = W.message("later"); W.save(m); A.idle(); x.prove(len(got) == 1, "the file sink receives every message exactly once")
    if len(got) == 1:
        x.prove(got[0][0] is made[0][0] and got[0][1] is A.all[-1].cell, "the file sink receives on its own thread")
        for k in m[2]: x.prove(same_leaf(I, got[0][2][k], m[2][k]) if k in got[0][2] else False, "the message's content arrives unaltered: " + k.lstrip("_"))
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    S = "g3::LogWorker::"
    T("addSink", t_add, [S + "addSink<T> (both kinds)", S + "addWrappedSink", "g3::spawn_task"], ["added%d%d" % (a, b) for a in (0, 1) for b in (0, 1)])
    T("removeSink", t_remove, [S + "removeSink<T>", "g3::SinkHandle<T>::sink", "g3::internal::Sink<T>::~Sink"], ["null", "registered", "registered+client", "destroyed", "not registered"])
    T("removeAllSinks", t_all, [S + "removeAllSinks", "g3::internal::Sink<T>::~Sink"], ["all0", "all1"])
    T("~LogWorker", t_destroy, [S + "~LogWorker", "g3::LogWorkerImpl::~LogWorkerImpl", "g3::internal::Sink<T>::~Sink"], ["destroyed00", "destroyed01", "destroyed10", "destroyed11"])
    T("addDefaultLogger", t_default, [S + "addDefaultLogger", S + "addSink<T>"], ["default"])
    return R
TRUST = ["the background worker's contract (tasks run once each, in order, on the worker's thread; destruction runs what was submitted first), proved as C01/C02", "std::shared_ptr, std::unique_ptr, std::function, std::vector, std::packaged_task and std::future behave as the standard says", "a message's rendering is a function of its content (LogMessage::toString, C13)"]
ASSUME = ["client sinks do not throw (an exception on a background thread ends the process)", "a sink's call operates on its argument and its own state only", "the template code is verified for one client sink type with both kinds of receiving method; it treats every type alike", "the log worker is not used while or after it is being destroyed", "sinks are added and removed from threads other than the log worker's own", "FileSink itself is verified as C16/C17; here its constructor is a contract"]
