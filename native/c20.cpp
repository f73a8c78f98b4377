// cfg: def
// flags: -fsanitize=address
// libs: -pthread
// time: 240
// Bounded test: random histories of log, initialize, shut down and worker destruction in child processes against a model; the same concurrently; illegal initialization.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include "chaos.hpp"
using namespace vc;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0"; }
static const char MARK[] = "LOGGER NOT INITIALIZED";
static void put(const std::string& s) { (void)!write(1, s.data(), s.size()); }
struct Sink { int n; void recv(g3::LogMessageMover m) { put("<" + std::to_string(n) + ":" + m.get().message() + ">"); } };
static std::unique_ptr<g3::LogWorker> make(int n) { auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(Sink{n}), &Sink::recv); return w; }
/// what <worker:text> entries the output has, per worker, in order
static std::map<int, std::vector<std::string>> parse(const std::string& out) {
   std::map<int, std::vector<std::string>> r; size_t p = 0;
   while ((p = out.find('<', p)) != std::string::npos) { size_t c = out.find(':', p), e = out.find('>', p); if (c == std::string::npos || e == std::string::npos) break; std::string m = out.substr(c + 1, e - c - 1); if (!contains(m, "Attempted to shut down")) r[atoi(out.c_str() + p + 1)].push_back(m); p = e; }
   return r;
}
struct Step { int what, w; };
static void history() {
   static const char* N[] = {"log", "initialize", "shut down", "shut down for", "destroy", "initialize illegally", "printf-style log"};
   int nw = 1 + rnd(3), n = 1 + rnd(14); std::vector<Step> steps; std::ostringstream d; std::vector<std::vector<std::string>> want(64); std::string early; int L = -1, illegal = -1; bool inited = false, kept = false; std::string keptm;
   std::vector<int> id; for (int i = 0; i < nw; ++i) id.push_back(i); int next = nw;      // worker slots, each with the number of the worker in it
   for (int i = 0; i < n; ++i) {
      Step s{(int)rnd(7), (int)rnd(nw)}; if (s.what == 1 && L >= 0) s.what = rnd(2) ? 0 : 2;
      if (s.what == 5 && (i < 4 || rnd(3))) s.what = 0;
      steps.push_back(s); std::string m = "m" + std::to_string(i) + ";"; d << " " << N[s.what] << (s.what == 0 || s.what == 2 || s.what == 6 ? std::string() : " " + std::to_string(id[s.w])) << ";";
      switch (s.what) {
         case 0: case 6: if (L >= 0) want[L].push_back(m); else if (!inited && !kept) { kept = true; keptm = early = m; } break;
         case 1: L = id[s.w]; if (!inited && kept) want[L].push_back("!" + keptm); inited = true; break;
         case 2: L = -1; break;
         case 3: if (L == id[s.w]) L = -1; break;
         case 4: if (L == id[s.w]) L = -1; id[s.w] = next++; break;
         case 5: illegal = i; break;
      }
      if (illegal >= 0) break;
   }
   bool null = rnd(2), stat = rnd(2), act = L >= 0; if (!act) null = true;
   Res r = child([&] {
      static std::vector<std::unique_ptr<g3::LogWorker>> keep; std::vector<std::unique_ptr<g3::LogWorker>> loc; auto& w = stat ? keep : loc; for (int i = 0; i < nw; ++i) w.push_back(make(i)); int nx = nw;
      for (size_t i = 0; i < steps.size(); ++i) { Step s = steps[i]; std::string m = "m" + std::to_string(i) + ";";
         switch (s.what) { case 0: LOG(INFO) << m; break; case 6: LOGF(WARNING, "%s", m.c_str()); break; case 1: g3::initializeLogging(w[s.w].get()); break; case 2: g3::internal::shutDownLogging(); break; case 3: g3::internal::shutDownLoggingForActiveOnly(w[s.w].get()); break; case 4: { w[s.w].reset(); w[s.w] = make(nx++); break; } default: g3::initializeLogging(null ? nullptr : w[s.w].get()); put("<99:survived>"); } }
      for (auto& x : w) { std::unique_ptr<g3::LogWorker> y; if (g3::internal::isLoggingInitialized()) g3::internal::shutDownLogging(); x.reset(); }
   }, 60);
   std::string what = "after" + d.str() + " "; ++cases;
   if (r.timeout) { fail("hang", what + "the process does not end within 60 s"); return; }
   if (illegal < 0) VC_EXPECT("status", r.status == 0, what << "ends with " << st(r) << ": " << show(r.err.substr(0, 600)));
   else { VC_EXPECT("illegal", WIFEXITED(r.status) && WEXITSTATUS(r.status) != 0 && WEXITSTATUS(r.status) != 99 && !contains(r.out, "survived"), what << (null ? "(no worker) " : "") << "ends with " << st(r) << show(r.err.substr(0, 600))); VC_EXPECT("illegal", !r.err.empty(), what << "nothing on standard error"); }
   auto got = parse(r.out); bool all = illegal < 0 || stat;    // otherwise the workers are not destroyed, what is under way may be lost
   for (int i = 0; i < next; ++i) {
      auto& g = got[i]; auto& x = want[i]; bool ok = all ? g.size() == x.size() : g.size() <= x.size();
      for (size_t k = 0; ok && k < g.size(); ++k) ok = x[k][0] == '!' ? contains(g[k], MARK) && g[k].size() >= x[k].size() - 1 && g[k].compare(g[k].size() - x[k].size() + 1, std::string::npos, x[k], 1) == 0 : g[k] == x[k];
      if (!ok) { std::ostringstream o; o << what << "worker " << i << " gets"; for (auto& t : g) o << " " << show(t); o << ", expected"; for (auto& t : x) o << " " << t; fail("messages", o.str()); }
   }
   if (!early.empty()) VC_EXPECT("printed", contains(r.err, MARK) && contains(r.err, early), what << "the first message is not on standard error");
}
/// threads log while logging is initialized and shut down
static std::mutex mu; static std::map<std::string, std::vector<int>> seen; static std::atomic<int> marked{0};
struct Rec { int n; void recv(g3::LogMessageMover m) { std::string t = m.get().message(); std::lock_guard<std::mutex> l(mu); if (contains(t, MARK)) ++marked; size_t p = t.rfind('#'); if (p != std::string::npos) seen[t.substr(p)].push_back(n); } };
static void toggling(int nt, bool early, unsigned c) {
   chaos = c; std::vector<std::unique_ptr<g3::LogWorker>> w; for (int i = 0; i < 2; ++i) { w.push_back(g3::LogWorker::createLogWorker()); w[i]->addSink(std::make_unique<Rec>(Rec{i}), &Rec::recv); }
   std::atomic<bool> stop{false}; std::atomic<int> go{0}; std::vector<std::thread> th; std::vector<int> sent(nt); if (!early) g3::initializeLogging(w[0].get());
   for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { ++go; while (go < nt + 1) {} for (int i = 0; i < 30000 && !stop; ++i) { LOG(INFO) << "#" << t << "." << i; sent[t] = i + 1; } });
   ++go; while (go < nt + 1) {}
   for (volatile int i = 0, n = c * 37 % 500; early && i < n; ++i) {}
   int cur = 0, rounds = thorough ? 3000 : 600; if (early) g3::initializeLogging(w[0].get());
   for (int i = 0; i < rounds; ++i) { if (i % 2) g3::internal::shutDownLogging(); else g3::internal::shutDownLoggingForActiveOnly(w[cur].get()); if (i % 3) g3::internal::shutDownLoggingForActiveOnly(w[cur].get()); cur = !cur; g3::initializeLogging(w[cur].get()); g3::internal::shutDownLoggingForActiveOnly(w[!cur].get()); }
   stop = true; for (auto& t : th) t.join(); LOG(INFO) << "#end"; g3::internal::shutDownLogging(); LOG(INFO) << "#late"; w.clear(); chaos = 0;
   for (auto& kv : seen) if (kv.second.size() != 1) { put("FAIL " + kv.first + " arrives " + std::to_string(kv.second.size()) + " times\n"); break; }
   if (seen["#end"] != std::vector<int>{cur}) put("FAIL a message after initialization did not go to the current worker\n");
   if (seen.count("#late")) put("FAIL a message after shutdown was delivered\n");
   put("MARKED " + std::to_string(marked) + "\n");
}
static void concurrent() {
   int nt = 1 + rnd(4); bool early = rnd(2); unsigned c = rnd(3) ? 1 + rnd(20) : 0; Res r = child([&] { toggling(nt, early, c); }, 120); ++cases;
   std::string what = std::to_string(nt) + " threads log while logging is " + (early ? "first initialized, then " : "") + "shut down and initialized: ";
   if (r.timeout) return;     // a slow machine decides nothing
   VC_EXPECT("race", r.status == 0, what << st(r) << " " << show(r.err.substr(0, 1200))); VC_EXPECT("race", !contains(r.out, "FAIL"), what << show(r.out));
   int printed = count(r.err, MARK), m = contains(r.out, "MARKED 1"); if (r.status == 0) VC_EXPECT("race-first", early ? m <= printed : m == 0, what << printed << " messages printed as too early, " << m << " delivered");
}
/// several threads log for the first time while logging is initialized
static void first() {
   int nt = 1 + rnd(3); unsigned c = 1 + rnd(4), late = rnd(400); Res r = child([&] {
      chaos = c; auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Rec>(Rec{0}), &Rec::recv); std::atomic<int> go{0}; std::vector<std::thread> th;
      for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { ++go; while (go < nt + 1) {} LOG(INFO) << "#" << t; });
      ++go; while (go < nt + 1) {} for (volatile unsigned i = 0; i < late; ++i) {} g3::initializeLogging(w.get()); for (auto& t : th) t.join(); LOG(INFO) << "#end"; w.reset(); int n = 0; for (auto& kv : seen) n += kv.second.size() == 1;
      put("GOT " + std::to_string(n) + " MARKED " + std::to_string(marked) + (n == (int)seen.size() ? "" : " TWICE") + (seen.count("#end") ? "" : " LOST")); }, 60); ++cases;
   if (r.timeout) return;
   std::string what = std::to_string(nt) + " threads log while logging is initialized: "; VC_EXPECT("race-first", r.status == 0 && contains(r.out, "GOT") && !contains(r.out, "TWICE") && !contains(r.out, "LOST"), what << st(r) << " " << show(r.out) << show(r.err.substr(0, 800)));
   int printed = count(r.err, MARK); if (r.status == 0) VC_EXPECT("race-first", contains(r.out, "MARKED " + std::to_string(printed)), what << printed << " messages printed as too early, " << show(r.out)); if (nt == 1 && r.status == 0) VC_EXPECT("race-first", contains(r.out, "GOT 2"), what << "the only message is lost: " << show(r.out));
}
/// a worker is destroyed while another thread logs
static void destroyed() {
   Res r = child([&] {
      chaos = 3; std::atomic<bool> stop{false}; std::vector<std::thread> t; for (int i = 0; i < 16; ++i) t.emplace_back([&] { while (!stop) LOG(INFO) << "x"; });
      for (int i = 0; i < 1000; ++i) { auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get()); usleep(chaos_r() % 100); }
      stop = true; for (auto& x : t) x.join(); }, 120); ++cases;
   if (r.timeout) return;
   size_t p = r.err.find("ERROR: AddressSanitizer"); VC_EXPECT("destroyed-worker", r.status == 0, "a thread logs while the active worker is destroyed: " << st(r) << " " << show(p == std::string::npos ? std::string() : r.err.substr(p, 700)));
}
int main(int argc, char** argv) {
   start(argc, argv); auto t0 = std::chrono::steady_clock::now(); int limit = thorough ? 600 : 60;
   for (int i = 0; i < 4 && !count(std::string(failures, 'x'), "x"); ++i) destroyed();
   int f0 = failures;
   for (unsigned i = 0; failures - f0 < 3 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(limit); ++i) { for (int k = 0; k < 12; ++k) history(); for (int k = 0; k < 4; ++k) first(); if (i % 3 == 0) concurrent(); }
   finish();
}
