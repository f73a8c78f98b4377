// cfg: def
// Bounded test: random histories of installing, overriding and restoring crash handling, in child processes, against a model of the dispositions.
#include "common.hpp"
#include <g3log/crashhandler.hpp>
#include <set>
using namespace vc;
static void h1(int) {} static void h2(int) {} static void h3(int, siginfo_t*, void*) {}
struct D { void* h; int flags; std::set<int> mask; bool operator==(const D& o) const { return h == o.h && flags == o.flags && mask == o.mask; } };
static bool get(int s, D& d) {
   struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(s, nullptr, &a)) return false;
   d.flags = a.sa_flags & ~0x04000000; d.h = a.sa_flags & SA_SIGINFO ? (void*)a.sa_sigaction : (void*)a.sa_handler; d.mask.clear(); for (int i = 1; i <= 64; ++i) if (sigismember(&a.sa_mask, i) == 1) d.mask.insert(i); return true;
}
static std::string str(const D& d) { std::ostringstream o; if (d.h == (void*)SIG_DFL) o << "default"; else if (d.h == (void*)SIG_IGN) o << "ignore"; else if (d.h == (void*)&h1) o << "own handler 1"; else if (d.h == (void*)&h2) o << "own handler 2"; else if (d.h == (void*)&h3) o << "own handler 3"; else o << "g3log"; o << "/" << std::hex << d.flags << "/mask " << d.mask.size(); return o.str(); }
static const std::set<int> DEF{SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};
static const int POOL[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGINT, SIGUSR1, SIGHUP, SIGBUS, SIGQUIT, 40, SIGKILL, SIGSTOP, 0, 65, -1, 33};
static int pick(unsigned n = 17) { return !ints.empty() && rnd(4) == 0 ? (int)ints[rnd(ints.size())] : POOL[rnd(n)]; }
static bool can(int s) { return s > 0 && s < 65 && s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; }
static void appset(int s, std::map<int, D>& app) {
   struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask);
   switch (rnd(5)) { case 0: a.sa_handler = SIG_DFL; break; case 1: a.sa_handler = SIG_IGN; break; case 2: a.sa_handler = h1; break; case 3: a.sa_handler = h2; break; default: a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO; }
   if (rnd(2)) a.sa_flags |= SA_RESTART; if (rnd(3) == 0) sigaddset(&a.sa_mask, SIGUSR2); if (rnd(4) == 0) sigaddset(&a.sa_mask, SIGALRM);
   if (sigaction(s, &a, nullptr) == 0) { D d; get(s, d); app[s] = d; }
}
static void history(unsigned sd, int ops) {
   rng.seed(sd); std::map<int, D> app; for (int s = 1; s < 65; ++s) { D d; if (can(s) && get(s, d)) app[s] = d; }
   for (int i = 0; i < 6; ++i) { int s = pick(11); appset(s, app); }
   std::set<int> conf = DEF, repl; void* g3h = nullptr; std::string log;
   auto check = [&](const char* op) {
      for (auto& e : app) {
         D d; int s = e.first; if (!get(s, d)) continue; bool r = repl.count(s); done();
         bool g3 = d.h != (void*)SIG_DFL && d.h != (void*)SIG_IGN && d.h != (void*)&h1 && d.h != (void*)&h2 && d.h != (void*)&h3 && (d.flags & SA_SIGINFO);
         if (r) { if (!g3 || (g3h && d.h != g3h)) { fail(op, "after%s: signal %d is not handled by g3log but %s", log.c_str(), s, str(d).c_str()); return false; } g3h = d.h; }
         else if (!(d == e.second)) { fail(op, "after%s: signal %d has disposition %s, the application's was %s", log.c_str(), s, str(d).c_str(), str(e.second).c_str()); return false; }
      }
      return true;
   };
   if (!check("start")) return;
   for (int i = 0; i < ops; ++i) {
      const char* op = "";
      switch (rnd(8)) {
         case 0: case 1: log += " install"; op = "install"; g3::installCrashHandler(); for (int s : conf) if (can(s)) repl.insert(s); break;
         case 2: case 3: { std::map<int, std::string> m; unsigned n = rnd(5); log += " override("; for (unsigned k = 0; k < n; ++k) { int s = pick(); m[s] = "S"; } for (auto& e : m) log += std::to_string(e.first) + ","; log += ")"; op = "override";
            g3::overrideSetupSignals(m); conf.clear(); repl.clear(); for (auto& e : m) { conf.insert(e.first); if (can(e.first)) repl.insert(e.first); } break; }
         case 4: log += " restore-default"; op = "restore-default"; g3::internal::restoreFatalHandlingToDefault(); conf = repl = DEF; break;
         case 5: case 6: { int s = pick(); log += " restore(" + std::to_string(s) + ")"; op = "restore"; g3::restoreSignalHandler(s); repl.erase(s); break; }
         default: { int s = pick(11); if (repl.count(s)) continue; log += " application-sets(" + std::to_string(s) + ")"; op = "application"; appset(s, app); }
      }
      if (!check(op)) return;
   }
}
int main(int argc, char** argv) {
   start(argc, argv);
   unsigned n = thorough ? 3000 : 300;
   for (unsigned i = 0; i < n; ++i) {
      Res r = child([&] { int before = failures; history(seed * 7919 + i, 1 + (int)(i % 40)); fflush(nullptr); _exit(failures > before ? 3 : 0); }, 60);
      if (r.timeout) continue;
      ++cases;
      if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 3) { ++failures; break; }
      if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) { fail("crash", "history %u: %s", i, st(r).c_str()); break; }
      if (r.out.size()) { fail("output", "unexpected output"); break; }
   }
   return finish();
}
