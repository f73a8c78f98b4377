// cfg: def
// Bounded test of message rendering against the documented layouts.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logmessage.hpp>
#include <thread>
using namespace vc; using g3::LogMessage;
static const LogMessage* given; static int calls;
static std::string mydet(const LogMessage& m) { given = &m; ++calls; return "<details>"; }
static std::string stamp(const LogMessage& m) { return g3::localtime_formatted(g3::to_system_time(m._timestamp), "%Y/%m/%d %H:%M:%S %f6"); }
static std::string tid(const LogMessage& m) { std::ostringstream o; o << m._call_thread_id; return o.str(); }
static std::string det(const LogMessage& m, bool full) { return stamp(m) + "\t" + m._level.text + " [" + (full ? tid(m) + " " : "") + m._file + "->" + m._function + ":" + std::to_string(m._line) + "]\t"; }
static std::string expect(const LogMessage& m, const std::string& d) {
   int v = m._level.value; const std::string& t = m._message;
   if (v < 1000) return d + t + "\n";
   if (v == 2001) return stamp(m) + "\n\n***** FATAL SIGNAL RECEIVED ******* \n" + t + "\n";
   if (v == 2002) return stamp(m) + "\n\n***** FATAL EXCEPTION RECEIVED ******* \n" + t + "\n";
   if (v == 1000) return d + "\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"" + t + "\"";
   if (v == 2000) return d + "\n\t*******\t EXIT trigger caused by broken Contract: CHECK(" + m._expression + ")\n\t\"" + t + "\"";
   return d + "\t*******UNKNOWN or Custom made Log Message Type\n\t" + t + "\n";
}
static std::string any(unsigned n) { std::string s; unsigned k = rnd(n); for (unsigned i = 0; i < k; ++i) s += (char)(rnd(8) ? 'a' + rnd(26) : rnd(256)); if (!strs.empty() && rnd(6) == 0) s = strs[rnd(strs.size())]; return s; }
int main(int argc, char** argv) {
   start(argc, argv);
   unsigned n = thorough ? 60000 : 12000;
   for (unsigned i = 0; i < n; ++i) {
      LogMessage m("x", rint(), any(40), LEVELS{rint(), rnd(4) ? any(20) : std::string(rnd(2) ? "FATAL" : "INFO")});
      m._file = any(40); m._file_path = any(60); m.setExpression(any(30)); m.write() = any(rnd(20) ? 80 : 4000);
      m._timestamp += std::chrono::nanoseconds((long long)(int)rng() * 1000003); if (rnd(2)) m._call_thread_id = std::thread::id();
      m._logDetailsToStringFunc = rnd(2) ? LogMessage::FullLogDetailsToString : LogMessage::DefaultLogDetailsToString;
      LogMessage c(m); int v = m._level.value; std::string lv = " (level value " + std::to_string(v) + ")";
      calls = 0; given = nullptr; std::string r = m.toString(mydet);
      VC_EXPECT("toString(fn)", r == expect(m, "<details>"), "toString(custom) is " << show(r) << ", expected " << show(expect(m, "<details>")) << lv);
      VC_EXPECT("toString(fn)", v == 2001 || v == 2002 || given == &m, "details function not given this message");
      r = m.toString(); VC_EXPECT("toString()", r == expect(m, det(m, false)), "toString() is " << show(r) << ", expected " << show(expect(m, det(m, false))) << lv);
      r = m.toString(LogMessage::FullLogDetailsToString); VC_EXPECT("toString(full)", r == expect(m, det(m, true)), "toString(full) is " << show(r) << ", expected " << show(expect(m, det(m, true))) << lv);
      VC_EXPECT("details", LogMessage::DefaultLogDetailsToString(m) == det(m, false), "default details " << show(LogMessage::DefaultLogDetailsToString(m)));
      VC_EXPECT("details", LogMessage::FullLogDetailsToString(m) == det(m, true), "full details " << show(LogMessage::FullLogDetailsToString(m)));
      VC_EXPECT("accessors", m.file() == m._file && m.file_path() == m._file_path && m.function() == m._function && m.level() == m._level.text && m.message() == m._message && m.expression() == m._expression && m.line() == std::to_string(m._line) && m.wasFatal() == (v >= 1000) && m.threadID() == tid(m) && m.timestamp() == stamp(m), "an accessor differs from the data");
      VC_EXPECT("frame", m._timestamp == c._timestamp && m._call_thread_id == c._call_thread_id && m._file == c._file && m._file_path == c._file_path && m._line == c._line && m._function == c._function && m._level == c._level && m._expression == c._expression && m._message == c._message, "rendering altered the message" << lv);
   }
   return finish();
}
