// cfg: def
// Bounded test: fractions and the seconds next to them against integer arithmetic on the instant.
#include "common.hpp"
#include <g3log/time.hpp>
#include <ctime>
using namespace vc;
typedef __int128 W;
static std::string digits(W ns, int width, W unit) {
   W f = ns % 1000000000; if (f < 0) f += 1000000000;
   f /= unit; std::string s; for (int i = 0; i < width; ++i) { s.insert(s.begin(), (char)('0' + (int)(f % 10))); f /= 10; }
   return s;
}
static void one(long long ns, bool local) {
   g3::system_time_point tp{std::chrono::duration_cast<g3::system_time_point::duration>(std::chrono::nanoseconds(ns))};
   struct { g3::internal::Fractional k; int w; W u; const char* s; } K[] = {{g3::internal::Fractional::Millisecond, 3, 1000000, "%f3"}, {g3::internal::Fractional::Microsecond, 6, 1000, "%f6"}, {g3::internal::Fractional::Nanosecond, 9, 1, "%f9"}, {g3::internal::Fractional::NanosecondDefault, 9, 1, "%f"}};
   for (auto& k : K) {
      std::string got; try { got = g3::internal::to_string(tp, k.k); } catch (...) { got = "<exception>"; }
      if (got != digits(ns, k.w, k.u)) fail("fraction", "instant %lld ns kind %s: \"%s\" instead of \"%s\"", ns, k.s, got.c_str(), digits(ns, k.w, k.u).c_str());
      done();
   }
   if (!local) return;
   W s = (W)ns / 1000000000; if ((W)ns % 1000000000 < 0) --s;
   time_t t = (time_t)s; struct tm tm; localtime_r(&t, &tm); char b[200]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
   for (auto& k : K) {
      std::string e = std::string(b) + "." + digits(ns, k.w, k.u) + "|", got;
      try { got = g3::localtime_formatted(tp, std::string("%Y-%m-%d %H:%M:%S.") + k.s + "|"); } catch (...) { got = "<exception>"; }
      if (got != e) fail("seconds", "instant %lld ns: \"%s\" instead of \"%s\"", ns, got.c_str(), e.c_str());
      done();
   }
}
int main(int argc, char** argv) {
   start(argc, argv);
   const char* zones[] = {"UTC", "America/New_York", "XXX-5:30", "YYY+11:45"};
   const long long S = 1000000000ll, M = 9223372036854775807ll;
   std::vector<long long> edge = {0, 1, -1, 999, 1000, 1001, 999999, 1000000, 999999999, S, S + 1, -S, -S - 1, -S + 1, M, -M - 1, M - 1, -M, -999, -1000, -999999, -1000000, -1000001, -999000001};
   for (auto z : zones) {
      setenv("TZ", z, 1); tzset();
      for (auto e : edge) one(e, true);
      for (auto v : ints) { one(v, true); if (v < M / S && v > -M / S) one(v * S, true); }
      for (int d = 0; d < 9; ++d) { long long p = 1; for (int i = 0; i < d; ++i) p *= 10; for (long long m : {1ll, 9ll, 5ll}) for (long long b : {0ll, S, -S, 1600000000 * S, -1600000000 * S, 86400 * S, -86400 * S}) { one(b + p * m, true); one(b + p * m - 1, true); one(b - p * m, true); } }
      unsigned n = thorough ? 200000 : 15000;
      for (unsigned i = 0; i < n; ++i) {
         long long v = (long long)rnd64();
         switch (rnd(6)) { case 0: v %= 4000000000ll * 1000000000ll; break; case 1: v %= 3 * S; break; case 2: v = v % 4000000000ll * S + (long long)rnd(3) - 1; break; case 3: v = v % 4000000ll * 1000000 + (long long)rnd(1000); break; case 4: { long long s = v % 4000000000ll; v = s * S + (long long)rnd(1000) * (rnd(2) ? 1 : 1000); } break; default: break; }
         one(v, rnd(4) == 0);
         if (rnd(8) == 0) for (long long d : {1ll << 32, 1ll << 31, 60ll, 3600ll, 86400ll, 1ll, 65536ll}) { W t = (W)v + (W)d * S * (rnd(2) ? 1 : -1); if (t <= M && t >= -(W)M) { one(v, true); one((long long)t, true); } }    // consecutive related instants
      }
   }
   return finish();
}
