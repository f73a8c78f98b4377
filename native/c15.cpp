// cfg: def
// Bounded test: substitution of %f specifiers against an independent reading of the format, then strftime.
#include "common.hpp"
#include <g3log/time.hpp>
#include <g3log/logmessage.hpp>
#include <ctime>
using namespace vc;
static std::string frac(long long ns, int width) { long long f = ns % 1000000000; if (f < 0) f += 1000000000; char b[16]; snprintf(b, sizeof b, "%09lld", f); return std::string(b, width); }
static std::string subst(const std::string& f, long long ns) {
   std::string o;
   for (size_t i = 0; i < f.size();) {
      if (f[i] != '%' || i + 1 >= f.size() || f[i + 1] != 'f') { o += f[i++]; continue; }
      char c = i + 2 < f.size() ? f[i + 2] : 0; int w = c == '3' ? 3 : c == '6' ? 6 : 9; o += frac(ns, w); i += (c == '3' || c == '6' || c == '9') ? 3 : 2;
   }
   return o;
}
static std::string expect(const std::string& sub, long long ns) {
   long long s = ns / 1000000000; if (ns % 1000000000 < 0) --s;
   time_t t = s; struct tm tm; localtime_r(&t, &tm); static char b[1 << 20]; size_t r = strftime(b, sizeof b, sub.c_str(), &tm);
   return r == 0 || r >= 1024 ? sub : std::string(b, r);
}
static g3::system_time_point tp(long long ns) { return g3::system_time_point{std::chrono::duration_cast<g3::system_time_point::duration>(std::chrono::nanoseconds(ns))}; }
static void one(const std::string& f, long long ns) {
   std::string sub = subst(f, ns), g1, g2;
   try { g1 = g3::internal::localtime_formatted_fractions(tp(ns), f); } catch (...) { g1 = "<exception>"; }
   if (g1 != sub) fail("substitute", "instant %lld format \"%s\": \"%s\" instead of \"%s\"", ns, f.substr(0, 200).c_str(), g1.substr(0, 200).c_str(), sub.substr(0, 200).c_str());
   if (f.find('\0') != std::string::npos) return;
   std::string e = expect(sub, ns);
   try { g2 = g3::localtime_formatted(tp(ns), f); } catch (...) { g2 = "<exception>"; }
   if (g2 != e) fail("format", "instant %lld format \"%s\" (%zu characters): \"%s\" (%zu) instead of \"%s\" (%zu)", ns, f.substr(0, 100).c_str(), f.size(), g2.substr(0, 100).c_str(), g2.size(), e.substr(0, 100).c_str(), e.size());
   done();
}
static long long inst() { long long v = (long long)rnd64(); switch (rnd(4)) { case 0: return v % 5000000000ll; case 1: return v % 4000000000000000000ll; case 2: return v % 4000000000ll * 1000000000ll + (long long)rnd(1000); default: return 1600000000ll * 1000000000ll + v % 100000000000000000ll; } }
int main(int argc, char** argv) {
   start(argc, argv);
   const char* zones[] = {"UTC", "America/New_York", "XXX-5:30", "YYY+11:45"};
   const char* P[] = {"%f", "%f3", "%f6", "%f9", "%f", "%%", "%", "f", "3", "6", "9", "%Y", "%H:%M:%S", "%j", "%z", " ", "/", "x", "%f0", "%ff", "%%f3", "0", "\xc3\xa5", "12", "%d", "\n", "%F %T"};
   unsigned n = thorough ? 200000 : 12000;
   for (auto z : zones) {
      setenv("TZ", z, 1); tzset();
      for (auto& s : strs) for (int i = 0; i < 4; ++i) { one(s, inst()); one(s + "%f", inst()); one(s + "%f3", inst()); }
      for (auto v : ints) { one("%Y-%m-%d %H:%M:%S %f3 %f6 %f9 %f", v); }
      for (auto a : P) for (auto b : P) { one(std::string(a) + b, inst()); one(std::string(a) + b + "%f", inst()); one(std::string(a) + "%f" + b, inst()); }
      for (int len = 1000; len < 1050; ++len) { for (auto a : {"%f", "%f3", "%f6", "%H", "%Y", "x"}) { one(std::string(len, 'y') + a, inst()); one(a + std::string(len, 'y'), inst()); } }
      for (int k = 1; k < 400; k += 7) { std::string f; for (int i = 0; i < k; ++i) f += P[rnd(5)]; one(f, inst()); }
      one("", inst()); one("%p", inst()); one(std::string(100000, '%') + "f", inst());
      for (unsigned i = 0; i < n; ++i) { std::string f; unsigned k = rnd(rnd(20) ? 8 : 60); for (unsigned j = 0; j < k; ++j) f += P[rnd(sizeof P / sizeof *P)]; one(f, inst()); }
   }
   // message times: own creation time, one offset for all
   setenv("TZ", "XXX-5:30", 1); tzset();
   for (int i = 0; i < (thorough ? 2000 : 300); ++i) {
      auto now = [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; };
      long long a = now(); g3::LogMessage m("f", 1, "fn", INFO); long long b = now();
      if (rnd(3) == 0) usleep(rnd(2000));
      long long d = std::chrono::duration_cast<std::chrono::nanoseconds>(g3::to_system_time(m._timestamp).time_since_epoch()).count();
      // bound: the two clocks agree to a few milliseconds unless the clock is being set
      if (d < a - 50000000 || d > b + 50000000) fail("creation time", "created between %lld and %lld, shown as %lld", a, b, d);
      for (auto f : {"%Y-%m-%d %H:%M:%S %f9", "%f3|%f6|%f", "%H%%"}) { std::string e = expect(subst(f, d), d), g = m.timestamp(f); if (g != e) fail("message time", "\"%s\" instead of \"%s\"", g.c_str(), e.c_str()); done(); }
      g3::high_resolution_time_point base = m._timestamp; auto off = std::chrono::nanoseconds((long long)(rnd64() % 1000000000000ull));
      g3::LogMessage m2(m); m2._timestamp = base + off; long long d2 = std::chrono::duration_cast<std::chrono::nanoseconds>(g3::to_system_time(m2._timestamp).time_since_epoch()).count();
      if (d2 - d != off.count()) fail("consistent", "messages %lld ns apart are shown %lld ns apart", (long long)off.count(), d2 - d); done();
   }
   return finish();
}
