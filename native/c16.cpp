// cfg: def
// Bounded test: random histories of a file sink against a reference model; files only inside the scratch directory.
#include "common.hpp"
#include <g3log/filesink.hpp>
#include <g3log/logmessage.hpp>
using namespace vc;
static const char* DEFH = "\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n";
static std::string det1(const g3::LogMessage& m) { return "<1:" + m.line() + ">"; }
static std::string det2(const g3::LogMessage& m) { return "<2:" + m.file() + ":" + m.line() + ">"; }
static void one(int nr, unsigned N, int ops, const std::string& base) {
   std::string d = base + "/h" + std::to_string(nr) + "_" + std::to_string(N); mkdir(d.c_str(), 0777); mkdir((d + "/b").c_str(), 0777); mkdir((d + "/c").c_str(), 0777); mkdir((d + "/x").c_str(), 0777);
   std::string log;                                     // what was done, for the report
   auto bad = [&](const char* id, const std::string& what) { fail(id, "interval %u, %s: %s", N, log.substr(log.size() > 1500 ? log.size() - 1500 : 0).c_str(), what.c_str()); };
   std::map<std::string, std::vector<std::string>> files;   // expected messages per file
   std::string cur, hdr = DEFH, hdrFile; int details = 0; bool first = true; unsigned since = 0, total = 0; std::string hdr_at_first;
      std::vector<std::string> used; int before = failures;
   auto text_of = [&](bool disk) { (void)disk; std::string t; for (auto& u : used) t += slurp(u); return t; };
   {
      g3::FileSink s("p", d + "/b/", "id" , N); cur = s.fileName(); used.push_back(cur);
      std::vector<std::string> rendered;
      for (int i = 0; i < ops && failures == before; ++i) {
         unsigned op = rnd(20);
         if (op < 14) {
            std::string body = "m" + std::to_string(total) + "~" + (rnd(40) == 0 ? std::string(rnd(9000), 'z') : rnd(20) == 0 ? std::string("a\0b", 3) : rstr("ab \n%", 12)) + "|";
            g3::LogMessage m("f.cpp", 1 + rnd(9999), "fn", rnd(3) ? INFO : WARNING); m.write() = body;
            std::string r = details == 0 ? m.toString() : details == 1 ? m.toString(&det1) : m.toString(&det2);
            if (first) hdr_at_first = hdr;
            first = false; rendered.push_back(r); ++total; ++since;
            s.fileWrite(g3::LogMessageMover(std::move(m))); log += "write ";
            std::string t = text_of(true);
            if (total % N == 0 && N < 1000000) {     // the documented instant: everything so far is in the file
               for (size_t k = 0; k < rendered.size(); ++k) { if (t.find(rendered[k]) == std::string::npos) { bad("flush", "message " + std::to_string(k) + " is not in the file after message " + std::to_string(total)); break; } }
            }
         } else if (op < 15) { details = rnd(3); s.overrideLogDetails(details == 0 ? &g3::LogMessage::DefaultLogDetailsToString : details == 1 ? &det1 : &det2); log += "details "; }
         else if (op < 16) { hdr = "HEADER" + std::to_string(rnd(1000)) + "\n"; s.overrideLogHeader(hdr); log += "header "; }
         else {
            static const char* dirs[] = {"/b/", "/c/", "/x/", "/missing/", "/b//", "/./b/", "/x/../b/"};
            std::string to = d + dirs[rnd(7)], id = rnd(3) ? "id" : rnd(2) ? "" : "k" + std::to_string(rnd(3)); bool can = to.find("missing") == std::string::npos; struct stat sb;
            std::string before_text; for (auto& u : used) before_text += slurp(u);
            std::string r = s.changeLogFile(to, id); log += "change(" + to.substr(d.size()) + "," + id + ") ";
            if (can != !r.empty()) bad("result", can ? "changing the file failed" : "changing to a missing directory succeeded");
            if (can) { if (r.rfind(to + "p." + (id.empty() ? "" : id + "."), 0) != 0) bad("name", "new file " + r); if (s.fileName() != r) bad("current", "file in use is not the returned one"); if (stat(r.c_str(), &sb)) bad("exists", r + " does not exist");
               cur = r; char rp[PATH_MAX]; bool known = false; ino_t me = sb.st_ino; for (auto& u : used) { struct stat su; if (stat(u.c_str(), &su) == 0 && su.st_ino == me) known = true; } (void)rp; if (!known) used.push_back(r);
            } else if (s.fileName() != cur) bad("current", "the current file is not kept after a failure");
         }
      }
      files[cur] = rendered;
      log += "destroy";
   }
   if (failures == before) {
      std::string t = text_of(true); auto& r = files[cur];
      std::string lastf = slurp(cur);
      // every message exactly once over all files; in order within each file
      for (size_t k = 0; k < r.size(); ++k) { std::string tag = "m" + std::to_string(k) + "~"; int n = count(t, tag); if (n != 1) { bad("once", "message " + std::to_string(k) + " occurs " + std::to_string(n) + " times"); break; } if (count(t, r[k]) != 1) { bad("content", "message " + std::to_string(k) + " is altered"); break; } }
      for (auto& u : used) { std::string f = slurp(u); long prev = -1; for (size_t k = 0; k < r.size(); ++k) { size_t q = f.find(r[k]); if (q != std::string::npos) { if ((long)q < prev) { bad("order", "messages out of order in " + u); break; } prev = q; } } }
      if (count(lastf, "g3log g3FileSink shutdown at: ") != 1) bad("shutdown", "no shutdown line in the last file");
      else { size_t q = lastf.find("g3log g3FileSink shutdown at: "); for (auto& x : r) if (lastf.find(x, q) != std::string::npos) bad("shutdown", "a message follows the shutdown line"); }
      if (used.size() == 1 && !contains(log, "change") && !r.empty()) {
         // the exact layout
         size_t b = t.find("\t\tg3log created log at: "), e = t.find('\n'); std::string want = hdr_at_first; for (auto& x : r) want += x;
         if (b != 0 || t.compare(e + 1, want.size(), want) != 0 || t.compare(e + 1 + want.size(), 30, "g3log g3FileSink shutdown at: ") != 0) bad("layout", "the file is not header, messages, shutdown line");
         if (count(t, "g3log created log at") != 1) bad("header", "header is not there exactly once");
      }
   }
   for (auto& u : used) unlink(u.c_str());
   for (auto x : {"/b", "/c", "/x", ""}) rmdir((d + x).c_str());
   done();
}
int main(int argc, char** argv) {
   start(argc, argv);
   std::string base = scratch + "/c16"; mkdir(base.c_str(), 0777); (void)!chdir(base.c_str());
   int devnull = open("/dev/null", O_WRONLY); dup2(devnull, 2);
   std::vector<unsigned> Ns = {1, 2, 3, 4, 5, 7, 10, 100, 1000};
   for (auto v : ints) if (v >= 1 && v <= 100000) Ns.push_back(v);
   int rounds = thorough ? 150 : 12;
   for (int i = 0; i < rounds; ++i) for (auto N : Ns) { one(i, N, 5 + rnd(40), base); if (N >= 7 && i % 4 == 0) one(i + 100000, N, 3 * (N < 400 ? N : 400), base); }
   // no change of file, default interval: exact layout
   for (int i = 0; i < rounds; ++i) {
      std::string f, t; std::vector<std::string> r; unsigned n = rnd(350);
      { g3::FileSink s("p", ".", "d"); f = s.fileName();
        for (unsigned k = 0; k < n; ++k) { g3::LogMessage m("f.cpp", k, "fn", INFO); m.write() = "n" + std::to_string(k) + "~"; r.push_back(m.toString()); s.fileWrite(g3::LogMessageMover(std::move(m)));
           if ((k + 1) % 100 == 0) { t = slurp(f); if (!contains(t, r[k])) fail("flush", "default interval: message %u is not in the file", k + 1); } } }
      t = slurp(f); std::string want = n ? DEFH : ""; for (auto& x : r) want += x;
      size_t e = n ? t.find('\n') + 1 : 0;
      if ((n && t.rfind("\t\tg3log created log at: ", 0) != 0) || t.compare(e, want.size(), want) != 0 || t.compare(e + want.size(), 30, "g3log g3FileSink shutdown at: ") != 0) fail("layout", "%u messages, no change of file: not header, messages, shutdown line", n);
      unlink(f.c_str()); done();
   }
   return finish();
}
