// Shared helpers of the harnesses: JSON trace lines, scenario isolation (fork), deterministic random numbers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for(int i = 0; i < 4; i++) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool coin(double p = 0.5) { return unit() < p; }
};

// ---- JSON building
struct J {
  std::string s;
  bool first = true;
  char close;
  static J obj() { J j; j.s = "{"; j.close = '}'; return j; }
  static J arr() { J j; j.s = "["; j.close = ']'; return j; }
  void sep() { if(!first) s += ","; first = false; }
  static std::string q(const std::string& v) {
    std::string r = "\"";
    for(unsigned char c : v) {
      if(c == '"' || c == '\\') { r += '\\'; r += c; }
      else if(c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  J& kv(const char* k, const std::string& v) { sep(); s += q(k) + ":" + q(v); return *this; }
  J& kv(const char* k, const char* v) { return kv(k, std::string(v)); }
  J& kv(const char* k, long long v) { sep(); s += q(k) + ":" + std::to_string(v); return *this; }
  J& kv(const char* k, int v) { return kv(k, (long long)v); }
  J& kv(const char* k, long v) { return kv(k, (long long)v); }
  J& kv(const char* k, unsigned long v) { return kv(k, (long long)v); }
  J& kv(const char* k, bool v) { sep(); s += q(k) + (v ? ":true" : ":false"); return *this; }
  J& raw(const char* k, const std::string& v) { sep(); s += q(k) + ":" + v; return *this; }
  J& add(const std::string& v) { sep(); s += q(v); return *this; }
  J& add(long long v) { sep(); s += std::to_string(v); return *this; }
  J& addraw(const std::string& v) { sep(); s += v; return *this; }
  std::string str() const { return s + close; }
};
template <class V> std::string jints(const V& v) {
  J a = J::arr();
  for(auto x : v) a.add((long long)x);
  return a.str();
}
inline std::string jstrs(const std::vector<std::string>& v) {
  J a = J::arr();
  for(auto& x : v) a.add(x);
  return a.str();
}

// ---- trace output: the file descriptor of the current scenario (a pipe or file); events are written at once so
// that they survive a crash of the scenario.
extern int g_fd;
inline void emit_line(const std::string& l) {
  std::string x = l + "\n";
  const char* p = x.data(); size_t n = x.size();
  while(n) { ssize_t w = write(g_fd, p, n); if(w <= 0) _exit(99); p += w; n -= (size_t)w; }
}
inline void ev(const J& j) { emit_line(j.str()); }

// Runs one scenario in a forked child; events are collected and one trace line is appended to `out`:
// {"id":..,"meta":{..},"ev":[..]} ; a death of the child becomes a last event {"e":"crash",...}.
struct Runner {
  FILE* out;
  int cpu_limit = 20;
  long nscen = 0;
  std::string only;          // run only the scenario with this id (replay)
  explicit Runner(const char* path) { out = fopen(path, "w"); if(!out) { perror(path); exit(98); } }
  ~Runner() { fclose(out); }
  // returns the collected raw lines
  void run(const std::string& id, const std::string& meta, std::function<void()> body) {
    if(!only.empty() && only != id) return;
    nscen++;
    char tmpl[] = "/tmp/vhsXXXXXX";
    int fd = mkstemp(tmpl); unlink(tmpl);
    if(fd < 0) { perror("mkstemp"); exit(98); }
    fflush(NULL);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(98); }
    if(pid == 0) {
      g_fd = fd;
      struct rlimit rl = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
      struct rlimit ra = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &ra);
      body();
      fflush(NULL);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string data; char buf[65536]; ssize_t r; lseek(fd, 0, SEEK_SET);
    while((r = read(fd, buf, sizeof buf)) > 0) data.append(buf, (size_t)r);
    close(fd);
    std::string evs; bool first = true; size_t p = 0;
    while(p < data.size()) {
      size_t q = data.find('\n', p);
      if(q == std::string::npos) break;     // incomplete line of a killed child
      if(q > p) { if(!first) evs += ","; first = false; evs.append(data, p, q - p); }
      p = q + 1;
    }
    std::string crash;
    if(WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      crash = J::obj().kv("e", "crash").kv("why", s == SIGXCPU || s == SIGKILL ? "hang" : "signal").kv("sig", s).str();
    } else if(WEXITSTATUS(st) == 77) {
      crash = J::obj().kv("e", "crash").kv("why", "assert").kv("sig", 6).str();
    } else if(WEXITSTATUS(st) != 0) {
      crash = J::obj().kv("e", "crash").kv("why", WEXITSTATUS(st) == 99 ? "harness" : "exit").kv("sig", WEXITSTATUS(st)).str();
    }
    if(!crash.empty()) { if(!first) evs += ","; evs += crash; }
    fprintf(out, "{\"id\":%s,\"meta\":%s,\"ev\":[%s]}\n", J::q(id).c_str(), meta.c_str(), evs.c_str());
  }
};

// exact integer value of a double, or the given marker when it is not an integer that fits
inline bool is_int(double d, double lim = 1e9) { return d == d && std::fabs(d) <= lim && d == std::floor(d); }
inline long long i_or(double d, long long bad = 2000000001ll) { return is_int(d) ? (long long)d : bad; }

} // namespace vh
