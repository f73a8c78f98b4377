// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test: sinks come and go while other threads log; what is registered and delivered is compared with the calls that have returned.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <vector>
#include <algorithm>
#include "chaos.hpp"
using namespace vc;
struct Rec { std::vector<std::string> got; std::atomic<int> n{0}; std::atomic<bool> dead{false}; int lag = 0; bool late = false; };
struct MsgSink { Rec* r; MsgSink(Rec* p) : r(p) {} MsgSink(const MsgSink&) = delete; ~MsgSink() { r->dead = true; } void recv(g3::LogMessageMover m) { if (r->dead) r->late = true; r->got.push_back(m.get().message()); ++r->n; if (r->lag) usleep(chaos_r() % r->lag); } };
struct StrSink { Rec* r; StrSink(Rec* p) : r(p) {} StrSink(const StrSink&) = delete; ~StrSink() { r->dead = true; } void recv(std::string s) { if (r->dead) r->late = true; size_t p = s.find("T#"), q = s.find('$'); r->got.push_back(p == std::string::npos || q == std::string::npos ? s : s.substr(p, q + 1 - p)); ++r->n; if (r->lag) usleep(chaos_r() % r->lag); } };
static bool badly = false;
#define CHECK_(id, c, w) do { ++cases; if (!(c)) { std::ostringstream o_; o_ << w; fail(id, o_.str()); badly = true; } } while (0)
static int logged = 0;
static void say() { LOG(INFO) << "T#" << logged++ << "$"; }
struct One { std::unique_ptr<Rec> r{new Rec}; bool str = false, in = true, held = false; int from = 0, to = -1; std::unique_ptr<g3::SinkHandle<MsgSink>> m; std::unique_ptr<g3::SinkHandle<StrSink>> s; std::vector<g3::SinkHandle<MsgSink>> cm; std::vector<g3::SinkHandle<StrSink>> cs; std::shared_ptr<g3::internal::Sink<MsgSink>> km; std::shared_ptr<g3::internal::Sink<StrSink>> ks; };
// what the sink got from the main thread: exactly from..to-1
static void mine(One& o, int to, const char* when) {
   std::vector<std::string> g; for (auto& s : o.r->got) if (s.compare(0, 2, "T#") == 0) g.push_back(s);
   bool ok = (int)g.size() == to - o.from; for (int i = 0; ok && i < (int)g.size(); ++i) ok = g[i] == "T#" + std::to_string(o.from + i) + "$";
   CHECK_("exact", ok, when << ": a sink registered while messages " << o.from << " to " << to - 1 << " were saved received " << g.size() << (g.empty() ? "" : " (" + g.front() + " to " + g.back() + ")"));
}
static void add(g3::LogWorker& w, std::vector<One>& all, int lag) {
   One o; o.str = rnd(2); o.r->lag = rnd(2) ? lag : 0; o.from = logged;
   if (o.str) o.s = w.addSink(std::make_unique<StrSink>(o.r.get()), &StrSink::recv); else o.m = w.addSink(std::make_unique<MsgSink>(o.r.get()), &MsgSink::recv);
   if (o.str) o.cs.push_back(*o.s); else o.cm.push_back(*o.m);
   all.push_back(std::move(o));
}
static void gone(One& o, const char* when) {
   o.in = false; o.to = logged; if (o.held) { CHECK_("held", !o.r->dead, when << ": a sink the client still owns was destroyed"); return; }
   CHECK_("released", o.r->dead, when << ": the removed sink is still alive"); if (o.r->dead) mine(o, o.to, when);
   CHECK_("late", !o.r->late, when << ": a destroyed sink was called");
}
static void hold(One& o) { o.held = true; if (o.str) o.ks = o.s->sink().lock(); else o.km = o.m->sink().lock(); CHECK_("handle", o.str ? !!o.ks : !!o.km, "the handle of a registered sink is empty"); }
static void drop(One& o) { o.km.reset(); o.ks.reset(); o.held = false; CHECK_("released", o.r->dead, "a sink nobody owns is still alive"); if (o.r->dead) mine(o, o.to, "held sink"); }
static void remove(g3::LogWorker& w, One& o) { if (o.str) w.removeSink(std::move(o.s)); else w.removeSink(std::move(o.m)); }
static void round_(int ops, int nt, int lag) {
   std::vector<One> all; std::atomic<bool> stop{false}; std::vector<std::thread> th; logged = 0;
   { auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get());
     One keep; { std::vector<One> t; add(*w, t, 0); keep = std::move(t[0]); }
     for (int t = 0; t < nt; ++t) th.emplace_back([&] { while (!stop) { LOG(WARNING) << "other"; usleep(300 + chaos_r() % 1000); } });
     std::unique_ptr<g3::SinkHandle<MsgSink>> deadh;
     for (int i = 0; i < ops && !badly; ++i) {
        std::vector<One*> in; for (auto& o : all) if (o.in) in.push_back(&o);
        switch (rnd(9)) {
        case 0: case 1: if (in.size() < 8) add(*w, all, lag); break;
        case 2: case 3: if (!in.empty()) { auto& o = *in[rnd(in.size())]; if (!o.m && !o.s) break; remove(*w, o); gone(o, "removeSink"); } break;
        case 4: if (rnd(12) == 0) { w->removeAllSinks(); for (auto* o : in) gone(*o, "removeAllSinks"); if (keep.in) gone(keep, "removeAllSinks"); } break;
        case 5: if (!in.empty()) { auto& o = *in[rnd(in.size())]; if (!o.held && (o.m || o.s)) hold(o); } break;
        case 6: for (auto& o : all) if (o.held && !o.in) { drop(o); break; } break;
        case 7: { // a handle whose sink is gone, an empty handle
           std::unique_ptr<g3::SinkHandle<MsgSink>> null; w->removeSink(std::move(null));
           for (auto& o : all) if (!o.in && !o.held && (o.m || o.s)) { remove(*w, o); break; }
           for (auto& o : all) if (!o.in && rnd(3) == 0) { if (o.str) w->removeSink(std::make_unique<g3::SinkHandle<StrSink>>(o.cs[0])); else w->removeSink(std::make_unique<g3::SinkHandle<MsgSink>>(o.cm[0])); break; } break; }
        }
        for (int k = rnd(5); k > 0; --k) say();
     }
     for (auto& o : all) if (o.in && !o.held && rnd(2) && (o.m || o.s)) { remove(*w, o); gone(o, "removeSink"); }
     for (int k = rnd(5); k > 0; --k) say();
     stop = true; for (auto& t : th) t.join();
     for (auto& o : all) if (!o.in) CHECK_("late", !o.r->late, "a destroyed sink was called");
     w.reset();
     for (auto& o : all) if (o.in) gone(o, "~LogWorker");
     if (keep.in) gone(keep, "~LogWorker");
     for (auto& o : all) if (o.held) drop(o);
     for (auto& o : all) if (!badly) mine(o, o.to, "at the end");
   }
}
static void dflt(const std::string& dir) {
   { auto w = g3::LogWorker::createLogWorker(); auto h = w->addDefaultLogger("pre", dir, "ident"); g3::initializeLogging(w.get()); LOG(INFO) << "to the file";
     auto n = h->call(&g3::FileSink::fileName).get(); CHECK_("default", contains(n, dir + "/pre.ident."), "file name " << n); w->removeSink(std::move(h)); auto t = slurp(n); CHECK_("default", count(t, "to the file") == 1, "default logger wrote " << show(t)); }
}
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 15000 : 2000;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int ops = 3 + rnd(60), t = rnd(4), lag = rnd(2) ? 0 : 1 + rnd(100); unsigned ch = rnd(4) ? 1 + rnd(5) : 0;
      Res r = child([&] { chaos = ch; round_(ops, t, lag); _exit(badly ? 3 : 0); }, 90); ++cases;
      std::ostringstream what; what << ops << " operations, " << t << " logging threads";
      if (r.timeout) fail("hang", what.str() + ": nothing happens for 90 s");
      else if (WIFSIGNALED(r.status)) fail("crash", what.str() + ": " + st(r));
      else if (WEXITSTATUS(r.status)) ++failures;
   }
   auto d = scratch; Res r = child([&] { dflt(d); _exit(badly ? 3 : 0); }, 60); VC_EXPECT("default", !r.timeout && r.status == 0, "default logger: " << st(r));
   return finish();
}
