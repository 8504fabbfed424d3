// Shared plumbing of the conformance drivers: reads a program (one command per
// line, traces separated by "begin"), runs every trace in a forked child and
// writes one JSON object per executed command (ndjson).
#ifndef VT_HPP
#define VT_HPP
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vt {

// ------------------------------------------------------------------ JSON
struct J {
  std::string s;
  J() {}
  J(const std::string& x): s(x) {}
};
inline std::string jint(long long v) { return std::to_string(v); }
inline std::string jbool(bool b) { return b ? "true" : "false"; }
inline std::string jstr(const std::string& v) {
  std::string r = "\"";
  for (char c : v) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += "?";
    else r += c;
  }
  return r + "\"";
}
inline std::string jlist(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i]; }
  return r + "]";
}
template <typename T> inline std::string jints(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string((long long)v[i]); }
  return r + "]";
}
struct Obj {
  std::string s = "{";
  bool first = true;
  Obj& raw(const std::string& k, const std::string& v) {
    if (!first) s += ",";
    first = false;
    s += "\"" + k + "\":" + v;
    return *this;
  }
  Obj& i(const std::string& k, long long v) { return raw(k, jint(v)); }
  Obj& b(const std::string& k, bool v) { return raw(k, jbool(v)); }
  Obj& str(const std::string& k, const std::string& v) { return raw(k, jstr(v)); }
  std::string done() const { return s + "}"; }
};

// big integer from its decimal text -> [sign, d0, d1, ...] base 10^4, little endian
inline std::string jbig(const std::string& dec) {
  std::string t = dec;
  int sg = 1;
  if (!t.empty() && t[0] == '-') { sg = -1; t = t.substr(1); }
  if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos)
    return "[9]";                        // not a number at all
  size_t nz = t.find_first_not_of('0');
  if (nz == std::string::npos) return "[0]";
  if (nz) return "[8]";                  // non-canonical text
  std::vector<std::string> v;
  v.push_back(std::to_string(sg));
  for (long e = (long)t.size(); e > 0; e -= 4) {
    long b = e >= 4 ? e - 4 : 0;
    v.push_back(std::to_string(std::stol(t.substr(b, e - b))));
  }
  return jlist(v);
}

// ---------------------------------------------------------------- tokens
struct Cmd {
  std::vector<std::string> t;
  size_t k = 0;
  const std::string& op() const { return t[0]; }
  bool more() const { return k + 1 < t.size(); }
  std::string s() { ++k; if (k >= t.size()) { fprintf(stderr, "driver: short command %s\n", t[0].c_str()); _exit(97); } return t[k]; }
  long long i() { return std::stoll(s()); }
};

inline FILE*& out() { static FILE* f = nullptr; return f; }
// VT_MEM: nothing is logged but the memory in use when a program is over
inline std::function<long()>& memory() { static std::function<long()> f; return f; }
inline bool memOnly() { static int m = getenv("VT_MEM") ? 1 : 0; return m; }
inline void emit(const std::string& line) {
  if (memOnly() && line.find("\"op\":\"abnormal\"") == std::string::npos && line.find("\"op\":\"gone\"") == std::string::npos && line.find("\"op\":\"begin\"") == std::string::npos) return;
  fputs(line.c_str(), out()); fputc('\n', out()); fflush(out()); }

typedef std::vector<Cmd> Trace;
#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((weak, used)) const char* __asan_default_options() { return "detect_leaks=0:max_allocation_size_mb=512:quarantine_size_mb=16"; }
#endif

// run(trace): executes commands, calls emit() once per command.
inline int main_loop(int argc, char** argv, std::function<void(Trace&)> run, int cpu_s = 20) {
  if (argc < 3) { fprintf(stderr, "usage: %s program out.ndjson\n", argv[0]); return 98; }
  std::ifstream in(argv[1]);
  if (!in) return 98;
  std::vector<Trace> traces;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    Cmd c; std::string w;
    while (ss >> w) c.t.push_back(w);
    if (c.t.empty() || c.t[0][0] == '#') continue;
    if (c.t[0] == "begin") { traces.push_back(Trace()); }
    if (traces.empty()) traces.push_back(Trace());
    traces.back().push_back(c);
  }
  int fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (fd < 0) return 98;
  out() = fdopen(fd, "a");
  if (getenv("VT_SHORT") && *getenv("VT_SHORT")) cpu_s /= 2;
  int abnormal = 0;
  for (auto& t : traces) {
    fflush(out());
    pid_t p = fork();
    if (p < 0) return 98;
    if (p == 0) {
      struct rlimit rl; rl.rlim_cur = cpu_s; rl.rlim_max = cpu_s + 2;
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit co; co.rlim_cur = co.rlim_max = 0; setrlimit(RLIMIT_CORE, &co);
#if defined(__SANITIZE_ADDRESS__)
      signal(SIGVTALRM, [](int) { struct rusage u; getrusage(RUSAGE_SELF, &u); if (u.ru_maxrss > 1536 << 10) _exit(95); });
      struct itimerval tv = {{0, 100000}, {0, 100000}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
#else
      struct rlimit as; as.rlim_cur = as.rlim_max = (rlim_t)1536 << 20; setrlimit(RLIMIT_AS, &as);   // a runaway must not take the machine
#endif
      alarm(cpu_s * 12);
      int dn = open("/dev/null", O_WRONLY);
      if (!getenv("VT_STDERR")) { dup2(dn, 2); }
      dup2(dn, 1);
      long m0 = memory() ? memory()() : 0;
      run(t);
      if (memOnly()) { Obj g; g.str("op", "gone").i("curr", memory()() - m0).i("steps", (long long)t.size()); emit(g.done()); }
      fflush(out());
      _exit(77);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    std::string kind, id = t[0].t.size() > 1 ? t[0].t[1] : "";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) kind = "";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 97;
    else if (WIFEXITED(st)) kind = "exit" + std::to_string(WEXITSTATUS(st));
    else if (WIFSIGNALED(st)) kind = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) ? "timeout" : "signal" + std::to_string(WTERMSIG(st));
    if (!kind.empty()) {
      Obj o; o.str("op", "abnormal").str("how", kind);
      emit(o.done());
      if ((abnormal += kind == "timeout" ? 2 : 1) >= 3) break;        // enough: the log is rejected anyway
    }
  }
  return 0;
}

}  // namespace vt
#endif
