// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test: processes with random sinks and histories are brought down by fatal events of all kinds; what the sinks got until the end is compared.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <vector>
#include <mutex>
#include "chaos.hpp"
using namespace vc;
struct Rec { int fd; unsigned lag; int n = 0; };
static void put(int fd, const std::string& s) { std::string t = std::to_string(s.size()) + ":" + s; for (size_t i = 0; i < t.size();) { ssize_t k = write(fd, t.data() + i, t.size() - i); if (k <= 0) _exit(99); i += k; } }
static std::vector<std::string> parse(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t c = s.find(':', i); if (c == std::string::npos) break; size_t n = atol(s.c_str() + i); if (c + 1 + n > s.size()) break; v.push_back(s.substr(c + 1, n)); i = c + 1 + n; } return v; }
static void (*onrecv)(const std::string&) = nullptr;
struct Msg { Rec r; Msg(Rec x) : r(x) {} Msg(const Msg&) = delete; ~Msg() { if (r.lag) usleep(chaos_r() % r.lag); put(r.fd, "D"); } void recv(g3::LogMessageMover m) { if (r.lag) usleep(chaos_r() % r.lag); std::string t = m.get().message(); put(r.fd, "M" + t); put(r.fd, "R" + m.get().toString()); if (onrecv) onrecv(t); } };
struct Txt { Rec r; Txt(Rec x) : r(x) {} Txt(const Txt&) = delete; ~Txt() { if (r.lag) usleep(chaos_r() % r.lag); put(r.fd, "D"); } void recv(std::string s) { if (r.lag) usleep(chaos_r() % r.lag); put(r.fd, "T" + s); if (onrecv) onrecv(s); } };
static const LEVELS mine{1500, {"MYFATAL"}};
static const char* reason_of[] = {"SIGABRT", "SIGABRT", "SIGABRT", "SIGSEGV", "SIGFPE", "SIGILL", "SIGTERM", "SIGABRT"};
static const char* level_of[] = {"FATAL", "CONTRACT", "MYFATAL", "FATAL_SIGNAL", "FATAL_SIGNAL", "FATAL_SIGNAL", "FATAL_SIGNAL", "FATAL_SIGNAL"};
static const int sig_of[] = {SIGABRT, SIGABRT, SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGTERM, SIGABRT};
static void strike(int k, const std::string& text) {
   switch (k) { case 0: LOG(FATAL) << text; break; case 1: CHECK(text.empty()) << text; break; case 2: LOG(mine) << text; break; case 3: raise(SIGSEGV); break; case 4: raise(SIGFPE); break; case 5: raise(SIGILL); break; case 6: raise(SIGTERM); break; case 7: abort(); }
   put(1, "PAST");
}
static void run(int ns, int nm, int nt, int kind, bool other, unsigned lag, unsigned ch, const std::vector<int>& fds, const std::string& text) {
   auto w = g3::LogWorker::createLogWorker(); std::vector<std::unique_ptr<g3::SinkHandle<Msg>>> hm; std::vector<std::unique_ptr<g3::SinkHandle<Txt>>> ht;
   for (int i = 0; i < ns; ++i) if (i % 2) ht.push_back(w->addSink(std::make_unique<Txt>(Rec{fds[i], lag}), &Txt::recv)); else hm.push_back(w->addSink(std::make_unique<Msg>(Rec{fds[i], lag}), &Msg::recv));
   g3::initializeLogging(w.get()); chaos = ch; std::atomic<bool> stop{false}; std::vector<std::thread> th;
   for (int t = 0; t < nt; ++t) th.emplace_back([&] { while (!stop) { LOG(INFO) << "other"; usleep(200 + chaos_r() % 800); } });
   std::thread one([&] { for (int i = 0; i < nm; ++i) LOG(INFO) << "T#" << i << "$"; }); one.join();
   for (int i = nm; i < 2 * nm; ++i) LOG(WARNING) << "T#" << i << "$";
   if (other) { std::thread f([&] { strike(kind, text); }); f.join(); } else strike(kind, text);
   put(1, "PAST"); _exit(98);
}
static void judge(Res& r, const std::vector<std::string>& files, int nm, int kind, const std::string& text, const std::string& what) {
   if (r.timeout) { fail("hang", what + ": the process does not end within 60 s"); return; }
   VC_EXPECT("past", !contains(r.out, "PAST"), what << ": the failing thread goes on after the fatal event");
   VC_EXPECT("signal", WIFSIGNALED(r.status) && WTERMSIG(r.status) == sig_of[kind], what << ": the process ends with " << st(r));
   std::string mark = kind < 3 ? text : std::string(reason_of[kind]);
   VC_EXPECT("stderr", contains(r.err, mark), what << ": the fatal message does not appear on standard error: " << show(r.err));
   for (size_t i = 0; i < files.size(); ++i) {
      auto v = parse(slurp(files[i])); std::string w2 = what + ", sink " + std::to_string(i) + ": "; bool txt = i % 2;
      VC_EXPECT("released", !v.empty() && v.back() == "D", w2 << "the sink has not been released before the end"); std::vector<std::string> m; std::string full;
      for (auto& s : v) { if (s[0] == 'M' || s[0] == 'T') m.push_back(s.substr(1)); if (s[0] == 'R' || s[0] == 'T') full = s.substr(1); }
      std::vector<std::string> mine_; for (auto& s : m) { size_t a = s.find("T#"), b = s.find('$'); if (a != std::string::npos && b != std::string::npos) mine_.push_back(s.substr(a, b - a)); }
      bool ok = (int)mine_.size() == 2 * nm; for (int k = 0; ok && k < 2 * nm; ++k) ok = mine_[k] == "T#" + std::to_string(k);
      VC_EXPECT("earlier", ok, w2 << mine_.size() << " of " << 2 * nm << " earlier messages arrived, or out of order");
      int nf = 0; for (auto& s : m) nf += contains(s, "Exiting after fatal event") || contains(s, mark);
      VC_EXPECT("last", !m.empty() && contains(m.back(), mark), w2 << "the fatal message is not the last one: " << (m.empty() ? "nothing" : show(m.back())));
      VC_EXPECT("once", nf == 1, w2 << "the fatal message arrived " << nf << " times");
      if (!m.empty()) { std::string f = m.back(); size_t p = f.find(mark); std::string rest = p == std::string::npos ? "" : f.substr(p + mark.size());
         VC_EXPECT("level", contains(rest, level_of[kind]), w2 << "no level in " << show(rest)); VC_EXPECT("reason", contains(rest, reason_of[kind]), w2 << "no reason in " << show(rest)); }
      VC_EXPECT("stderr", contains(r.err, full), w2 << "the fatal message's text is not on standard error as delivered: " << show(full));
   }
}
static std::atomic<int> phase{0};
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 6000 : 700;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int ns = rnd(5), nm = rnd(2) ? rnd(6) : rnd(60), nt = rnd(3), kind = rnd(8); bool other = rnd(2); unsigned lag = rnd(2) ? 0 : 1 + rnd(2000), ch = rnd(4) ? 1 + rnd(5) : 0;
      std::vector<std::string> files; std::vector<int> fds; for (int k = 0; k < ns; ++k) { files.push_back(scratch + "/s" + std::to_string(k)); fds.push_back(open(files.back().c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600)); }
      std::string text = "it all ends " + rstr("abc %\n", 30) + "#";
      Res r = child([&] { run(ns, nm, nt, kind, other, lag, ch, fds, text); }, 60); for (int f : fds) close(f);
      std::ostringstream what; what << ns << " sinks, " << 2 * nm << " messages, " << nt << " other threads, fatal event " << kind << (other ? " on another thread" : ""); judge(r, files, nm, kind, text, what.str());
   }
   // what is logged while the fatal event is processed
   {
      auto f = scratch + "/during"; int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      Res r = child([&] { onrecv = [](const std::string& t) { if (contains(t, "it all ends")) for (int i = 0; i < 5; ++i) LOG(INFO) << "too late"; }; run(1, 3, 0, 0, false, 0, 0, {fd}, "it all ends"); }, 60); close(fd);
      judge(r, {f}, 3, 0, "it all ends", "messages logged while the fatal message is received"); for (auto& s : parse(slurp(f))) VC_EXPECT("late", !contains(s, "too late"), "a message logged after the fatal event was delivered");
   }
   // known finding: a second fatal event while the sinks are still being served
   {
      auto f = scratch + "/second"; int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      Res r = child([&] {
         onrecv = [](const std::string&) { if (phase == 0) { phase = 1; for (int i = 0; i < 2000 && g3::internal::isLoggingInitialized(); ++i) usleep(1000); std::thread([] { LOG(FATAL) << "me too"; }).detach(); usleep(500000); } };
         run(1, 3, 0, 0, false, 0, 0, {fd}, "it all ends"); }, 60); close(fd);
      auto v = parse(slurp(f)); bool ok = !r.timeout && !v.empty() && v.back() == "D" && v.size() == 3 * 0 + 2 * 6 + 2 + 1; ++cases;
      if (!ok) fail("second-fatal", "a fatal event on another thread while the sinks still process what was logged before the first one: " + std::to_string(v.size()) + " records arrived, " + st(r));
   }
   // known finding: a sink that the client keeps locked
   {
      auto f = scratch + "/held"; int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      Res r = child([&] {
         auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Msg>(Rec{fd, 0}), &Msg::recv); g3::initializeLogging(w.get());
         onrecv = [](const std::string&) { usleep(300000); }; auto keep = h->sink().lock(); for (int i = 0; i < 5; ++i) LOG(INFO) << "T#" << i << "$"; LOG(FATAL) << "it all ends"; _exit(98); }, 60); close(fd);
      auto v = parse(slurp(f)); int m = 0; for (auto& s : v) m += s[0] == 'M'; ++cases;
      if (r.timeout || m != 6) fail("held-sink", "a sink whose handle the client keeps locked got " + std::to_string(m) + " of 6 messages, " + st(r));
   }
   return finish();
}
