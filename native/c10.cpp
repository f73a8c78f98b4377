// cfg: def,max
// flags: -fsanitize=address
// Bounded test of printf-style capture around the message limit.
#include "common.hpp"
#include <cstdarg>
#include <cwchar>
#include <g3log/g3log.hpp>
#include <g3log/logcapture.hpp>
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99"; }
using namespace vc;
static const std::string MARK = "[...truncated...]";
static std::string cap(const std::string& pre, const std::function<void(LogCapture&)>& f) { auto* c = new LogCapture("f.cpp", 1, "fn", INFO); c->stream() << pre; f(*c); return c->stream().str(); }
static void one(size_t limit, size_t n, const std::string& pre, int how) {
   std::string s; for (size_t i = 0; i < n; ++i) s += (char)("abcdefgh%d\n "[rnd(12)]);
   std::string full = s, got;
   switch (how) {
      case 0: got = cap(pre, [&](LogCapture& c) { c.capturef("%s", s.c_str()); }); break;
      case 1: full = "v=" + s + ";" + std::to_string(n); got = cap(pre, [&](LogCapture& c) { c.capturef("v=%s;%d", s.c_str(), (int)n); }); break;
      case 2: { std::string f = s; for (auto& ch : f) if (ch == '%') ch = 'x'; full = f; got = cap(pre, [&](LogCapture& c) { c.capturef(f.c_str(), 0); }); break; }
      default: full = std::string(n > 0 ? n - 1 : 0, ' ') + "7"; if (n == 0) full = "7"; got = cap(pre, [&](LogCapture& c) { c.capturef("%*d", (int)n, 7); }); break;
   }
   std::string want = pre + (full.size() < limit ? full : full.substr(0, limit - 1) + MARK);
   VC_EXPECT("capturef", got == want, "limit " << limit << ", formatted length " << full.size() << ": stored " << got.size() << " characters " << show(got.substr(got.size() > 40 ? got.size() - 40 : 0)) << ", expected " << want.size() << " characters ending " << show(want.substr(want.size() > 40 ? want.size() - 40 : 0)));
}
int main(int argc, char** argv) {
   start(argc, argv);
   std::vector<size_t> limits{2048};
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
   limits = {2048, 1, 2, 3, 17, 100, 4096, 100000};
#endif
   for (size_t L : limits) {
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
      if (!(L == 2048)) g3::only_change_at_initialization::setMaxMessageSize(L);
#endif
      for (int how = 0; how < 4; ++how) {
         for (long long d = -6; d <= 6; ++d) if ((long long)L + d >= 0) one(L, L + d, how % 2 ? "" : "pre", how);
         for (size_t n : {0u, 1u, 2u, 5000u}) one(L, n, "", how);
         for (unsigned i = 0; i < (thorough ? 300u : 40u); ++i) one(L, rnd(3 * L > 9000 ? 9000 : 3 * L), rnd(2) ? "p" : "", how);
         for (auto v : ints) if (v >= 0 && v < 100000) one(L, v, "", how);
      }
      // formatting failure: a wide character that the C locale cannot represent
      wchar_t bad[] = {(wchar_t)0x20AC, 0};
      char tmp[64]; if (snprintf(tmp, 64, "%ls|x", bad) < 0) {
         std::string got = cap("", [&](LogCapture& c) { c.capturef("%ls|x", bad); });
         VC_EXPECT("format-error", contains(got, "%ls|x") && contains(got, "ERROR"), "a failed format stores " << show(got));
      }
   }
   return finish();
}
