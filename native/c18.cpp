// cfg: dyn,def
// Bounded differential test of the dynamic level registry against a plain map.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/loglevels.hpp>
using namespace vc;
#ifdef G3_DYNAMIC_LOGGING
struct E { std::string text; bool on; };
using M = std::map<int, E>;
static std::string list(const M& m) { std::string s; for (auto& e : m) s += "name: " + e.second.text + " level: " + std::to_string(e.first) + " status: " + std::to_string((int)e.second.on) + "\n"; return s; }
static std::string trace;
static void compare(const M& m, const char* op) {
   std::string id = op;
   auto a = g3::log_levels::getAll();
   VC_EXPECT(id, a.size() == m.size(), "after " << trace << ": registry has " << a.size() << " levels, expected " << m.size());
   for (auto& e : m) {
      auto i = a.find(e.first);
      VC_EXPECT(id, i != a.end(), "after " << trace << ": level " << e.first << " is missing");
      if (i == a.end()) continue;
      VC_EXPECT(id, i->second.level.value == e.first, "after " << trace << ": entry " << e.first << " holds level value " << i->second.level.value);
      VC_EXPECT(id, i->second.level.text == e.second.text, "after " << trace << ": level " << e.first << " text " << show(i->second.level.text) << ", expected " << show(e.second.text));
      VC_EXPECT(id, i->second.status.value() == e.second.on, "after " << trace << ": level " << e.first << " enabled=" << i->second.status.value() << ", expected " << e.second.on);
   }
   for (auto& e : a) VC_EXPECT(id, m.count(e.first), "after " << trace << ": level " << e.first << " must not be registered");
   VC_EXPECT(id, g3::log_levels::to_string() == list(m), "after " << trace << ": listing is " << show(g3::log_levels::to_string()) << ", expected " << show(list(m)));
   VC_EXPECT(id, g3::log_levels::to_string(a) == list(m), "after " << trace << ": to_string(map) differs");
}
static void query(const M& m, int v) {
   LEVELS l{v, "q"};
   bool reg = m.count(v), on = reg && m.at(v).on;
   VC_EXPECT("logLevel", g3::logLevel(l) == on, "after " << trace << ": logLevel(" << v << ")=" << !on << ", expected " << on);
   auto s = g3::log_levels::getStatus(l); auto e = !reg ? g3::log_levels::status::Absent : on ? g3::log_levels::status::Enabled : g3::log_levels::status::Disabled;
   VC_EXPECT("getStatus", s == e, "after " << trace << ": getStatus(" << v << ")=" << (int)s << ", expected " << (int)e);
   VC_EXPECT("logLevel", g3::logLevel(l) == on, "after " << trace << ": second logLevel(" << v << ") differs");
}
#endif
int main(int argc, char** argv) {
   start(argc, argv);
#ifdef G3_DYNAMIC_LOGGING
   M defs{{100, {"DEBUG", true}}, {300, {"INFO", true}}, {500, {"WARNING", true}}, {1000, {"FATAL", true}}};
   M m = defs; trace = "start"; compare(m, "initial");
   unsigned seqs = thorough ? 20000 : 3000;
   for (unsigned s = 0; s < seqs; ++s) {
      trace = ""; g3::only_change_at_initialization::reset(); m = defs; compare(m, "reset");
      unsigned n = 1 + rnd(10);
      for (unsigned i = 0; i < n; ++i) {
         int v = rint(); if (rnd(3) && !m.empty()) { auto it = m.begin(); std::advance(it, rnd(m.size())); v = it->first; }
         std::string t = m.count(v) ? m[v].text : "L" + std::to_string(rnd(99)); LEVELS l{v, t}; bool b = rnd(2);
         std::string vs = std::to_string(v); const char* op = "";
         switch (rnd(11)) {
            case 0: trace += " add(" + vs + ")"; op = "addLogLevel"; { LEVELS l2{v, "N" + std::to_string(rnd(9))}; g3::only_change_at_initialization::addLogLevel(l2); m[v] = {l2.text, true}; } break;
            case 1: trace += " add(" + vs + "," + (b ? "1" : "0") + ")"; op = "addLogLevel"; { LEVELS l2{v, "N" + std::to_string(rnd(9))}; g3::only_change_at_initialization::addLogLevel(l2, b); m[v] = {l2.text, b}; } break;
            case 2: trace += " set(" + vs + "," + (b ? "1" : "0") + ")"; op = "set"; g3::log_levels::set(l, b); if (m.count(v)) m[v].on = b; break;
            case 3: trace += " enable(" + vs + ")"; op = "enable"; g3::log_levels::enable(l); if (m.count(v)) m[v].on = true; break;
            case 4: trace += " disable(" + vs + ")"; op = "disable"; g3::log_levels::disable(l); if (m.count(v)) m[v].on = false; break;
            case 5: trace += " setHighest(" + vs + ")"; op = "setHighest"; g3::log_levels::setHighest(l); if (m.count(v)) for (auto& e : m) e.second.on = e.first >= v; break;
            case 6: trace += " enableAll"; op = "enableAll"; g3::log_levels::enableAll(); for (auto& e : m) e.second.on = true; break;
            case 7: trace += " disableAll"; op = "disableAll"; g3::log_levels::disableAll(); for (auto& e : m) e.second.on = false; break;
            case 8: if (rnd(3)) { --i; continue; } trace += " reset"; op = "reset"; g3::only_change_at_initialization::reset(); m = defs; break;
            default: trace += " query(" + vs + ")"; op = "query"; query(m, v); break;
         }
         compare(m, op);
      }
      for (auto& e : M(m)) query(m, e.first);
      for (int k = 0; k < 3; ++k) query(m, rint());
      compare(m, "query");
   }
   // the snapshot is a copy
   g3::only_change_at_initialization::reset(); auto a = g3::log_levels::getAll(); a.clear(); trace = "clearing a snapshot"; compare(defs, "snapshot");
#else
   for (int i = 0; i < 100000; ++i) { int v = rint(); VC_EXPECT("logLevel(static)", g3::logLevel(LEVELS{v, "x"}), "level " << v << " is not enabled in a build without dynamic levels"); }
#endif
   return finish();
}
