// cfg: def
// Bounded differential test of message and level copies.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logmessage.hpp>
#include <g3log/moveoncopy.hpp>
#include <thread>
using namespace vc; using g3::LogMessage; using g3::FatalMessage;
struct V { long long ts; std::thread::id th; std::string file, path; int line; std::string fn; int lv; std::string lt, ex, msg; LogMessage::LogDetailsFunc f; int sig; };
static V view(const LogMessage& m, int sig = 0) { return {(long long)m._timestamp.time_since_epoch().count(), m._call_thread_id, m._file, m._file_path, m._line, m._function, m._level.value, m._level.text, m._expression, m._message, m._logDetailsToStringFunc, sig}; }
static std::string diff(const V& a, const V& b) {
   std::string o;
   if (a.ts != b.ts) o += " timestamp"; if (a.th != b.th) o += " thread"; if (a.file != b.file) o += " file"; if (a.path != b.path) o += " full path"; if (a.line != b.line) o += " line"; if (a.fn != b.fn) o += " function";
   if (a.lv != b.lv || a.lt != b.lt) o += " level"; if (a.ex != b.ex) o += " expression"; if (a.msg != b.msg) o += " text"; if (a.f != b.f) o += " formatting function"; if (a.sig != b.sig) o += " signal";
   return o;
}
static std::string fmt1(const LogMessage&) { return "1"; } static std::string fmt2(const LogMessage&) { return "2"; }
static std::string any(unsigned n) { std::string s; unsigned k = rnd(n); for (unsigned i = 0; i < k; ++i) s += (char)(rnd(8) ? 'a' + rnd(26) : rnd(256)); if (!strs.empty() && rnd(6) == 0) s = strs[rnd(strs.size())]; return s; }
static LogMessage mk() {
   static const LogMessage::LogDetailsFunc fs[] = {LogMessage::DefaultLogDetailsToString, LogMessage::FullLogDetailsToString, fmt1, fmt2};
   LogMessage m(any(60), rint(), any(40), LEVELS{rint(), any(20)});
   m._timestamp = g3::high_resolution_time_point(std::chrono::nanoseconds(((long long)rng() << 31) ^ rng()));
   m._file_path = any(80); m._file = any(50); m.setExpression(any(40)); m.write() = any(rnd(10) ? 60 : 5000); m._logDetailsToStringFunc = fs[rnd(4)];
   std::vector<std::thread::id> ids{std::thread::id(), std::this_thread::get_id()}; m._call_thread_id = ids[rnd(2)];
   return m;
}
static void scribble(LogMessage& m) { m.write() += "#"; m.setExpression(m._expression + "#"); m._file += "#"; m._file_path += "#"; m._function += "#"; m._line ^= 1; m._level = LEVELS{m._level.value ^ 1, m._level.text + "#"}; m._timestamp += std::chrono::nanoseconds(1); m.overrideLogDetailsFunc(fmt1); }
#define SAME(id, a, b) do { std::string d_ = diff(a, b); VC_EXPECT(id, d_.empty(), id ": attributes not preserved:" << d_); } while (0)
int main(int argc, char** argv) {
   start(argc, argv);
   unsigned n = thorough ? 40000 : 6000;
   for (unsigned i = 0; i < n; ++i) {
      LogMessage a = mk(), b = mk(); V va = view(a), vb = view(b);
      { LogMessage c(a); SAME("copy", view(c), va); scribble(c); SAME("copy-source", view(a), va); LogMessage d(std::move(c)); (void)d; }
      { LogMessage c(a); LogMessage d(std::move(c)); SAME("move", view(d), va); }
      { LogMessage c(b); c = a; SAME("assign", view(c), va); scribble(c); SAME("assign-source", view(a), va); }
      { LogMessage c(b), d(a); c = std::move(d); SAME("move-assign", view(c), va); }
      { LogMessage c(a), d(b); swap(c, d); SAME("swap", view(c), vb); SAME("swap", view(d), va); }
      { LogMessage c(a); LogMessage& r = c; c = r; SAME("self-assign", view(c), va); }
      { int s = rint(); FatalMessage f(a, s); V vf = va; vf.sig = s; SAME("fatal", view(f, f._signal_id), vf); FatalMessage g(f); SAME("fatal-copy", view(g, g._signal_id), vf); SAME("fatal-to-log", view(f.copyToLogMessage()), va); scribble(g); SAME("fatal-copy-source", view(f, f._signal_id), vf); SAME("fatal-source", view(a), va); }
      { g3::LogMessageMover m{LogMessage(a)}; g3::LogMessageMover m2(m); SAME("mover-copy", view(m2.get()), va); g3::LogMessageMover m3(std::move(m2)); SAME("mover-move", view(m3.get()), va);
        g3::LogMessageMover m4{LogMessage(b)}; m4 = m3; SAME("mover-assign", view(m4.get()), va); g3::LogMessageMover m5{LogMessage(b)}; m5 = std::move(m4); SAME("mover-massign", view(m5.get()), va); SAME("mover-release", view(m5.release()), va); }
      { g3::LogMessagePtr p{std::make_unique<LogMessage>(a)}; g3::LogMessagePtr q(p); VC_EXPECT("ptr-copy", q.get(), "message lost"); if (q.get()) SAME("ptr-copy", view(*q.get()), va); g3::LogMessagePtr r{std::make_unique<LogMessage>(b)}; r = q; if (r.get()) SAME("ptr-assign", view(*r.get()), va); auto u = r.release(); VC_EXPECT("ptr-release", u, "message lost"); if (u) SAME("ptr-release", view(*u), va); }
      { LEVELS x{rint(), any(20)}, y{rint(), any(20)}; if (rnd(2)) y.value = x.value; if (rnd(2)) y.text = x.text; int xv = x.value, yv = y.value; std::string xt = x.text, yt = y.text;
        bool eq = xv == yv && xt == yt; VC_EXPECT("level-eq", (x == y) == eq && (x != y) == !eq && (y == x) == eq, "levels {" << xv << "," << show(xt) << "} and {" << yv << "," << show(yt) << "} compare wrongly");
        LEVELS c(x); VC_EXPECT("level-copy", c.value == xv && c.text == xt && c == x, "copy of {" << xv << "," << show(xt) << "} is {" << c.value << "," << show(c.text) << "}"); c.text += "#"; VC_EXPECT("level-copy", x.text == xt, "copy aliases");
        LEVELS d(y); d = x; VC_EXPECT("level-assign", d.value == xv && d.text == xt, "assigned level is {" << d.value << "," << show(d.text) << "}"); swap(x, y); VC_EXPECT("level-swap", x.value == yv && x.text == yt && y.value == xv && y.text == xt, "swap"); }
   }
   return finish();
}
