// cfg: def
// Bounded test: names and places of log files, helpers and whole sinks (files only inside the scratch directory).
#include "common.hpp"
#include <g3log/filesink.hpp>
#include <ctime>
using namespace vc;
namespace g3 { namespace internal {
   __attribute__((weak)) bool isValidFilename(const std::string&);
   __attribute__((weak)) std::string prefixSanityFix(std::string);
   __attribute__((weak)) std::string pathSanityFix(std::string, const std::string&);
   __attribute__((weak)) std::string createLogFileName(const std::string&, const std::string&);
} }
static std::string fixp(const std::string& p) { std::string o; for (char c : p) if (!strchr(" \t\n\v\f\r/\\.:", c) || !c) o += c; return o; }
static bool valid(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c && strchr("/,|<>:#$%{}[]'\"^!?+* ", c)) return false; return true; }
static std::string fixpath(std::string p, const std::string& n) {
   for (char& c : p) if (c == '\\') c = '/';
   size_t e = p.size(); while (e && (p[e - 1] == '/' || p[e - 1] == ' ')) --e;
   if (e) return p.substr(0, e) + "/" + n;
   return (!p.empty() && p[0] == '/' ? "/" : "") + n;
}
static std::string stamp() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); time_t t = ts.tv_sec; struct tm tm; localtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y%m%d-%H%M%S", &tm); return b; }
static std::string name(const std::string& p, const std::string& id, const std::string& st) { return p + "." + (id.empty() ? "" : id + ".") + st + ".log"; }
static std::string any(unsigned n) { std::string s; unsigned k = rnd(n); for (unsigned i = 0; i < k; ++i) s += rnd(3) ? "abcXYZ019_-"[rnd(11)] : rnd(3) ? " \t\n\v\f\r/\\.:,|<>#$%{}[]'\"^!?+*()=&;@~`\x01\x7f"[rnd(43)] : (char)(1 + rnd(255)); return s; }
static void sink(const std::string& p, const std::string& dir, const std::string& id, bool exists, bool defid) {
   for (int tries = 0; tries < 5; ++tries) {
      std::string s0 = stamp(), got, f = name(fixp(p), id, s0), want = exists ? fixpath(dir, f) : "./" + f;
      bool there = false;
      { std::unique_ptr<g3::FileSink> s(defid ? new g3::FileSink(p, dir) : new g3::FileSink(p, dir, id)); got = s->fileName(); struct stat sb; there = stat(got.c_str(), &sb) == 0; }
      unlink(got.c_str());
      if (stamp() != s0) continue;
      if (got != want) fail("location", "prefix %s directory %s id %s: file %s instead of %s", show(p).c_str(), show(dir).c_str(), show(id).c_str(), show(got).c_str(), show(want).c_str());
      else if (!there) fail("reported", "the reported file %s does not exist", show(got).c_str());
      done(); return;
   }
}
int main(int argc, char** argv) {
   start(argc, argv);
   using namespace g3::internal;
   std::string names[] = {"n", "a.b.log", "", " n", "/x"};
   auto paths = strs; for (auto p : {"", "/", "//", "/ ", " ", " /", "\\", "\\\\", "a", "a/", "a//", "a /", "a/ / ", "a\\", "a\\b", "a\\b\\", "./", ".", "..", "../", "/a", "/a/", "/a b/ ", "\\a\\", "a b", "a\t/", "  a", "a/\\ ", " \\", "\\ "}) paths.push_back(p);
   unsigned n = thorough ? 300000 : 20000;
   for (unsigned i = 0; i < n; ++i) { std::string s; unsigned k = rnd(9); for (unsigned j = 0; j < k; ++j) s += "ab/\\ .\t:"[rnd(8)]; paths.push_back(s); }
   std::string z; for (int i = 0; i < 3000; ++i) z += "/ \\"[rnd(3)]; paths.push_back(z); paths.push_back("x" + z); paths.push_back(z + "x");
   if (pathSanityFix) for (auto& p : paths) for (auto& f : names) { auto g = pathSanityFix(p, f), w = fixpath(p, f); if (g != w) fail("path", "directory %s name %s: %s instead of %s", show(p).c_str(), show(f).c_str(), show(g).c_str(), show(w).c_str()); done(); }
   auto pre = strs; for (int c = 1; c < 256; ++c) { std::string q(1, (char)c); pre.push_back(q); pre.push_back("ab" + q); pre.push_back(q + "ab"); pre.push_back("a" + q + "b"); pre.push_back(q + q); pre.push_back("a" + q + " " + q + "."); }
   for (unsigned i = 0; i < n; ++i) pre.push_back(any(12));
   pre.push_back(""); pre.push_back(" ./\\:"); pre.push_back(std::string(5000, ' ') + "x");
   for (auto& p : pre) {
      std::string w = fixp(p); bool ok = valid(w); if (!ok) w.clear();
      if (prefixSanityFix) { auto g = prefixSanityFix(p); if (g != w) fail("prefix", "%s: %s instead of %s", show(p).c_str(), show(g).c_str(), show(w).c_str()); done(); }
      if (isValidFilename) { if (isValidFilename(p) != valid(p)) fail("valid", "%s is %s", show(p).c_str(), valid(p) ? "refused" : "accepted"); done(); }
   }
   for (auto z : {"UTC", "XXX-5:30", "YYY+11:45"}) {
      setenv("TZ", z, 1); tzset();
      if (createLogFileName) for (int i = 0; i < 200; ++i) { std::string p = any(5), id = rnd(3) ? any(6) : "", a = name(p, id, stamp()), g = createLogFileName(p, id), b = name(p, id, stamp()); if (g != a && g != b) fail("name", "%s instead of %s", show(g).c_str(), show(a).c_str()); done(); }
   }
   // whole sinks, inside the scratch directory
   std::string base = scratch + "/c17"; mkdir(base.c_str(), 0777); (void)!chdir(base.c_str()); mkdir("d", 0777); mkdir("d e", 0777); mkdir("d/f", 0777); mkdir("d/ g", 0777); chmod(base.c_str(), 0777);
   const char* dirs[] = {"d", "d/", "d//", "d e", "d e/ ", "d\\f", "d\\f\\", "d/f / ", "d/ g", "./d", "", " ", "   ", ".", "./", "d/../d"};
   const char* missing[] = {"nowhere", "nowhere/", "nowhere\\x", "d/nowhere/ ", " d", "./ d/"};
   for (auto d : dirs) for (auto p : {"p", "a.b", " x\ty ", "n:1", "A/B"}) { sink(p, d, "id", true, false); sink(p, d, "", true, false); sink(p, d, "g3log", true, true); sink(p, base + "/" + d, "x", true, false); }
   for (auto d : missing) { sink("p", d, "id", false, false); sink("q.r", base + "/" + d, "", false, false); sink("p", d, "g3log", false, true); }
   // refused prefixes
   for (auto p : {"", " ", "./\\:", "a?b", "x*", "a,b", "100%", "a+b", "[a]", "\"q\"", "a#", "ok|no"}) {
      auto r = child([&] { g3::FileSink s(p, "d", "id"); });
      bool any = false; if (DIR* D = opendir("d")) { while (auto e = readdir(D)) if (strstr(e->d_name, ".log")) any = true; closedir(D); }
      if (!WIFSIGNALED(r.status) || WTERMSIG(r.status) != SIGABRT || any) fail("refused", "prefix %s is not refused (%s%s)", show(p).c_str(), st(r).c_str(), any ? ", a file was created" : ""); done();
   }
   // the root directory, as a user who cannot write there: the attempt must not end up elsewhere unnoticed
   if (geteuid() == 0) for (auto d : {"/", "//", "/ ", "\\"}) {
      auto r = child([&] { if (setgid(65534) || setuid(65534) || access("/", W_OK) == 0) _exit(0); std::string n; { g3::FileSink s("p", d, "id"); n = s.fileName(); } _exit(n.rfind("./p.id.", 0) == 0 ? 0 : 1); });
      if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) fail("root", "directory %s is not taken as the root directory (%s)", show(d).c_str(), st(r).c_str()); done();
   }
   return finish();
}
