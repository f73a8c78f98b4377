// Shared helpers of the native replay / bounded drivers.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <csignal>
#include <climits>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
namespace vc {
inline unsigned seed = 1; inline bool thorough = false; inline long cases = 0; inline std::mt19937 rng; inline int failures = 0;
inline std::vector<long long> ints; inline std::vector<std::string> strs;    // values from the verifier's counterexample
inline std::string scratch;
inline std::string hex(const std::string& s) { std::string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }
inline std::string unhex(const std::string& s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
inline std::string show(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s.substr(0, 300)) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } if (s.size() > 300) o += "...(" + std::to_string(s.size()) + " chars)"; return o + "\""; }
inline int out_fd = -1;     // real stdout
inline void say(const std::string& s) { std::string t = s + "\n"; (void)!write(out_fd, t.data(), t.size()); }
inline void fail(const std::string& id, const std::string& what) { ++failures; say("FAIL [" + id + "] " + what); if (failures > 20) { say("DONE failures=" + std::to_string(failures)); _exit(1); } }
template <class... A> inline void fail(const std::string& id, const char* fmt, A... a) { char b[4096]; snprintf(b, sizeof b, fmt, a...); for (char* p = b; *p; ++p) if (*p == '\n') *p = ' '; fail(id, std::string(b)); }
inline void fail(const std::string& id, const char* what) { fail(id, std::string(what)); }
inline void done() { ++cases; }
#define VC_EXPECT(id, cond, what) do { ++vc::cases; if (!(cond)) { std::ostringstream o_; o_ << what; vc::fail(id, o_.str()); } } while (0)
inline unsigned rnd(unsigned n) { return n ? rng() % n : 0; }
inline unsigned long long rnd64() { return (unsigned long long)rng() << 32 | rng(); }
inline int rint() {
   static const int sp[] = {0, 1, -1, 2, 99, 100, 101, 299, 300, 301, 499, 500, 501, 999, 1000, 1001, 1002, 1999, 2000, 2001, 2002, 2003, INT_MAX, INT_MIN, 250, 750, 1500, 3000};
   if (!ints.empty() && rnd(3) == 0) return (int)ints[rnd(ints.size())];
   unsigned r = rnd(4); if (r < 3) return sp[rnd(sizeof sp / sizeof *sp)]; return (int)rng();
}
inline std::string rstr(const char* alphabet, unsigned maxlen) {
   if (!strs.empty() && rnd(4) == 0) return strs[rnd(strs.size())];
   std::string s; unsigned n = rnd(maxlen + 1), m = strlen(alphabet); for (unsigned i = 0; i < n; ++i) s += alphabet[rnd(m)]; return s;
}
struct Res { int status; std::string out, err; bool timeout; };
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline int childno = 0;
// runs fn in a child process, capturing stdout/stderr and the exit status
inline Res child(const std::function<void()>& fn, int timeout_s = 20) {
   std::string b = scratch + "/c" + std::to_string(getpid()) + "_" + std::to_string(childno++);
   fflush(nullptr);
   pid_t p = fork();
   if (p == 0) {
      int o = open((b + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), e = open((b + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      dup2(o, 1); dup2(e, 2);
      fn(); fflush(nullptr); _exit(0);
   }
   Res r; r.timeout = false; r.status = 0;
   auto t0 = std::chrono::steady_clock::now();
   for (;;) {
      pid_t w = waitpid(p, &r.status, WNOHANG);
      if (w == p) break;
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(timeout_s)) { r.timeout = true; kill(p, SIGKILL); waitpid(p, &r.status, 0); break; }
      usleep(500);
   }
   r.out = slurp(b + ".out"); r.err = slurp(b + ".err"); unlink((b + ".out").c_str()); unlink((b + ".err").c_str());
   return r;
}
inline std::string st(const Res& r) { std::ostringstream o; if (r.timeout) o << "hung"; else if (WIFSIGNALED(r.status)) o << "killed by signal " << WTERMSIG(r.status); else o << "exit " << WEXITSTATUS(r.status); return o.str(); }
inline bool contains(const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; }
inline int count(const std::string& a, const std::string& b) { int n = 0; size_t p = 0; while ((p = a.find(b, p)) != std::string::npos) { ++n; p += b.size(); } return n; }
inline void start(int argc, char** argv) {
   out_fd = dup(1);
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--seed") seed = atoi(argv[++i]);
      else if (a == "--thorough") thorough = true;
      else if (a == "--int") ints.push_back(atoll(argv[++i]));
      else if (a == "--str") strs.push_back(unhex(argv[++i]));
      else if (a == "--scratch") scratch = argv[++i];
   }
   if (scratch.empty()) { char t[] = "/tmp/vcdrvXXXXXX"; scratch = mkdtemp(t); }
   rng.seed(seed);
}
inline int finish() { say("DONE cases=" + std::to_string(cases) + " failures=" + std::to_string(failures)); return failures ? 1 : 0; }
}
