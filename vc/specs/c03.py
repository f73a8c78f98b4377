"""C03 Each logged message reaches every sink exactly once, in order."""
from .actor import *
TU = ["client", "logworker", "logmessage", "loglevels"]
def t_save(x, I):
    W = World(I); A = W.A; m = W.message("message"); n0 = A.pending(W.bg)
    W.save(m); x.prove(A.pending(W.bg) == n0 + 1, "saving submits exactly one task to the log worker"); x.prove(not W.got, "nothing is delivered on the logging thread")
    x.prove(A.pending(W.ebg) == 0, "the sinks are served from the log worker's thread only")
    A.step(A.act(W.bg)); x.prove(A.pending(W.ebg) == 1 and not W.got, "each sink is served by its own thread")
    A.idle(); W.delivered([m[2:]], ""); x.covers.add(W.kind)
    x.prove(any(c is W.entry for c in W.list.v.seq.v) and W.ectl.n.v == 1, "the sink stays registered")
    x.prove(len([e for e in x.events if e["kind"] == "out"]) == 0, "a message that reaches a sink is not also printed")
def t_none(x, I):
    W = World(I, with_e=False, others=False); A = W.A; m = W.message("message"); W.save(m); x.prove(not [e for e in x.events if e["kind"] == "out"], "nothing is printed on the logging thread")
    A.idle(); x.prove(holds(x, W.stderr(), m[3]), "without sinks the message's text goes to standard error"); x.covers.add("none")
def holds(x, out, part):
    """part is a contiguous piece of out"""
    a, b = x.norm(out).p, x.norm(part).p
    return any(all(u is v or u == v for u, v in zip(a[i:i + len(b)], b)) for i in range(len(a) - len(b) + 1))
def t_two(x, I):
    W = World(I); A = W.A; m1, m2 = W.message("first"), W.message("second")
    W.save(m1); early = x.fork(2)
    if early: A.idle()
    W.save(m2); A.idle(); W.delivered([m1[2:], m2[2:]], "two messages: "); x.covers.add(W.kind + str(early))
def tasks():
    R = []
    def T(n, fn, fns, cov=()): R.append(Task(n, fn, tus=TU, fns=fns, covers=cov))
    T("save: every registered sink", t_save, ["g3::LogWorker::save", "g3::LogWorkerImpl::bgSave", "g3::internal::Sink<T>::send", "g3::internal::Sink<T>::Sink (both)", "g3::MoveOnCopy<...>"], ["msg", "str"])
    T("save: no sinks", t_none, ["g3::LogWorkerImpl::bgSave"], ["none"])
    T("save twice", t_two, ["g3::LogWorker::save", "g3::internal::Sink<T>::send"], ["msg0", "msg1", "str0", "str1"])
    return R
TRUST = ["the background worker's contract (tasks run once each, in order, on the worker's thread; destruction runs what was submitted first), proved as C01/C02", "std::shared_ptr, std::unique_ptr, std::function, std::vector, std::packaged_task and std::future behave as the standard says", "a message's rendering is a function of its content (LogMessage::toString, C13)"]
ASSUME = ["client sinks do not throw (an exception on a background thread ends the process)", "a sink's call operates on its argument and its own state only", "the template code is verified for one client sink type with both kinds of receiving method; it treats every type alike", "the log worker is not used while or after it is being destroyed"]
