// Event writer for the drivers: one JSON object per line, written with a raw
// system call so that the trace is complete up to the event before a crash.
#ifndef VP_TRACE_H_
#define VP_TRACE_H_
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace vp {

inline int& TraceFd() { static int fd = -1; return fd; }
inline char* CurOp() { static char b[256]; return b; }

typedef void (*SinkFn)(const char*, size_t);
inline SinkFn& RawSink() { static SinkFn f = nullptr; return f; }
inline void RawWrite(const char* p, size_t n) {
  if (RawSink()) { RawSink()(p, n); return; }
  while (n > 0) {
    long r = syscall(SYS_write, TraceFd(), p, n);
    if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(77); }
    p += r; n -= r;
  }
}

class Ev {
 public:
  explicit Ev(const char* e) { b_ = "{\"e\":\""; b_ += e; b_ += "\""; }
  Ev& i(const char* k, long long v) { key(k); b_ += std::to_string(v); return *this; }
  Ev& b(const char* k, bool v) { key(k); b_ += v ? "true" : "false"; return *this; }
  Ev& s(const char* k, const std::string& v) { key(k); str(v); return *this; }
  Ev& raw(const char* k, const std::string& v) { key(k); b_ += v; return *this; }
  Ev& li(const char* k, const std::vector<long long>& v) {
    key(k); b_ += "[";
    for (size_t j = 0; j < v.size(); j++) { if (j) b_ += ","; b_ += std::to_string(v[j]); }
    b_ += "]"; return *this;
  }
  Ev& ls(const char* k, const std::vector<std::string>& v) {
    key(k); b_ += "[";
    for (size_t j = 0; j < v.size(); j++) { if (j) b_ += ","; str(v[j]); }
    b_ += "]"; return *this;
  }
  // lossless run-length form of a byte string: [[value,count],...]
  Ev& rle(const char* k, const char* d, size_t n) { key(k); b_ += Rle(d, n); return *this; }
  Ev& bytes(const char* k, const char* d, size_t n) {
    key(k); b_ += "[";
    for (size_t j = 0; j < n; j++) { if (j) b_ += ","; b_ += std::to_string((unsigned char)d[j]); }
    b_ += "]"; return *this;
  }
  static std::string Rle(const char* d, size_t n) {
    std::string r = "[";
    for (size_t j = 0; j < n;) {
      size_t k = j;
      while (k < n && d[k] == d[j]) k++;
      if (j) r += ",";
      r += "[" + std::to_string((unsigned char)d[j]) + "," + std::to_string(k - j) + "]";
      j = k;
    }
    return r + "]";
  }
  std::string text() const { return b_ + "}"; }
  void out() { b_ += "}\n"; RawWrite(b_.data(), b_.size()); }
 private:
  void key(const char* k) { b_ += ",\""; b_ += k; b_ += "\":"; }
  void str(const std::string& v) {
    b_ += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { b_ += '\\'; b_ += (char)c; }
      else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); b_ += t; }
      else b_ += (char)c;
    }
    b_ += '"';
  }
  std::string b_;
};

inline std::string Hex(const char* d, size_t n) {
  static const char* h = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; i++) { r += h[(unsigned char)d[i] >> 4]; r += h[(unsigned char)d[i] & 15]; }
  return r;
}
inline std::string Hex(const std::string& s) { return Hex(s.data(), s.size()); }

inline void SetOp(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(CurOp(), 256, fmt, ap); va_end(ap);
}

inline void CrashHandler(int sig) {
  char b[512];
  char op[256];
  int j = 0;
  for (char* p = CurOp(); *p && j < 255; ++p) op[j++] = (*p == '"' || *p == '\\' || *p < 32) ? '_' : *p;
  op[j] = 0;
  int n = snprintf(b, sizeof b, "{\"e\":\"Crash\",\"what\":\"signal %d\",\"during\":\"%s\"}\n", sig, op);
  RawWrite(b, n);
  _exit(99);
}

inline void InitTrace() {
  const char* p = getenv("VP_TRACE");
  if (!p) { fprintf(stderr, "VP_TRACE not set\n"); _exit(77); }
  TraceFd() = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  if (TraceFd() < 0) { perror(p); _exit(77); }
  int hi = fcntl(TraceFd(), F_DUPFD_CLOEXEC, 900);
  if (hi >= 0) { close(TraceFd()); TraceFd() = hi; }
  static char stk[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = CrashHandler; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
}

// deterministic generator for all driver choices (not the code under test's)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t upto(uint64_t n) { return n ? next() % n : 0; }        // [0,n)
  long long range(long long a, long long b) { return a + (long long)upto(b - a + 1); }
  bool one(int n) { return upto(n) == 0; }
};

}  // namespace vp
#endif
