// Opening, reading and closing read-only files in several threads (C15).
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "dsched.h"
#include "lsmdb/env.h"
#include "util/env_posix_test_helper.h"
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Fd(int n) { EnvPosixTestHelper::SetReadOnlyFDLimit(n); }
  static void Map(int n) { EnvPosixTestHelper::SetReadOnlyMMapLimit(n); }
};
}  // namespace lsmdb
using namespace lsmdb;
using vp::Ev;

static thread_local bool t_op;          // inside a call of the code under test
static thread_local int t_fault;
static thread_local bool t_fail;        // faults may be injected into this call
static bool Fault() {
  if (!t_op) return false;
  ds::Point();
  if (t_fail && ds::Choice().one(5)) { t_fault++; return true; }
  return false;
}
// after a system call: what it took or gave back, at once, then others may run
static void Did(const char* what, long r, bool good) {
  if (!t_op) return;
  int e = errno;
  if (good) { ds::Quiet q; Ev("Sys").i("t", ds::Self()).s("k", what).out(); }
  ds::Point();
  errno = e;
  (void)r;
}
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...); int __real_close(int);
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __real_mmap64(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
int __real_stat(const char*, struct stat*); int __real_stat64(const char*, struct stat64*); int __real_fstat(int, struct stat*); int __real_fstat64(int, struct stat64*);
#define OPENMODE mode_t m = 0; { va_list ap; va_start(ap, f); if (f & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); }
int __wrap_open(const char* p, int f, ...) { OPENMODE if (Fault()) { errno = EMFILE; return -1; } int r = __real_open(p, f, m); Did("fd", r, r >= 0); return r; }
int __wrap_open64(const char* p, int f, ...) { OPENMODE if (Fault()) { errno = EMFILE; return -1; } int r = __real_open64(p, f, m); Did("fd", r, r >= 0); return r; }
int __wrap_openat(int d, const char* p, int f, ...) { OPENMODE if (Fault()) { errno = EMFILE; return -1; } int r = __real_openat(d, p, f, m); Did("fd", r, r >= 0); return r; }
int __wrap_close(int fd) { if (t_op) ds::Point(); int r = __real_close(fd); Did("close", r, r == 0); return r; }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (fd < 0) return __real_mmap(a, n, p, f, fd, o);
  if (Fault()) { errno = ENOMEM; return MAP_FAILED; } void* r = __real_mmap(a, n, p, f, fd, o); Did("map", 0, r != MAP_FAILED); return r; }
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (fd < 0) return __real_mmap64(a, n, p, f, fd, o);
  if (Fault()) { errno = ENOMEM; return MAP_FAILED; } void* r = __real_mmap64(a, n, p, f, fd, o); Did("map", 0, r != MAP_FAILED); return r; }
int __wrap_munmap(void* a, size_t n) { if (t_op) ds::Point(); int r = __real_munmap(a, n); Did("unmap", r, r == 0); return r; }
int __wrap_stat(const char* p, struct stat* s) { if (Fault()) { errno = EACCES; return -1; } int r = __real_stat(p, s); Did("", r, false); return r; }
int __wrap_stat64(const char* p, struct stat64* s) { if (Fault()) { errno = EACCES; return -1; } int r = __real_stat64(p, s); Did("", r, false); return r; }
int __wrap_fstat(int f, struct stat* s) { if (Fault()) { errno = EIO; return -1; } int r = __real_fstat(f, s); Did("", r, false); return r; }
int __wrap_fstat64(int f, struct stat64* s) { if (Fault()) { errno = EIO; return -1; } int r = __real_fstat64(f, s); Did("", r, false); return r; }
}

static std::string g_dir;
// 0: missing; 1: empty; n > 1: n bytes of value n
static std::string Name(int f) { return g_dir + "/f" + std::to_string(f); }
static int Len(int f) { return f <= 1 ? 0 : 3 + f; }
struct Op { char o; int f; int a; };
struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;
  int M, F, nt; bool faults, weak;
  Env* env;
  struct H { int id = 0; int f = 0; RandomAccessFile* r = nullptr; };
  std::vector<H> han[8];
  H shared;
  int nexth[8] = {0};
  Sc(int p, vp::Rng& r) {
    static const int lim[][2] = {{1, 0}, {0, 1}, {1, 1}, {2, 1}, {1, 2}, {0, 0}, {2, 0}, {0, 2}};
    M = lim[p % 8][0]; F = lim[p % 8][1];
    faults = p / 8 % 2; weak = p / 16 % 2;
    nt = 2 + r.one(3);
    prog.resize(nt + 1);
    for (int t = 1; t <= nt; t++) {
      int n = nt == 2 ? 2 + r.upto(3) : 1 + r.upto(3), have = 0;
      for (int i = 0; i < n; i++) {
        if (have && r.one(2)) { prog[t].push_back(Op{'c', 0, (int)r.upto(have)}); have--; continue; }
        if (have && r.one(3)) { prog[t].push_back(Op{'r', 0, (int)r.upto(have)}); continue; }
        if (r.one(6)) { prog[t].push_back(Op{'g', 0, 0}); continue; }
        prog[t].push_back(Op{'o', r.one(8) ? 0 : r.one(8) ? 1 : 2 + (int)r.upto(3), 0}); have++;
      }
      if (r.one(2)) prog[t].push_back(Op{'c', 0, 0});
    }
  }
  int Threads() override { return nt; }
  bool Weak() override { return weak; }
  void DoOpen(int f, bool alone) {
    int t = ds::Self();
    H h; 
    { ds::Quiet q; h.id = t * 100 + ++nexth[t]; h.f = f; h.r = reinterpret_cast<RandomAccessFile*>(8);
      Ev("O").i("t", t).i("f", f).i("len", Len(f)).out(); }
    bool ok, nf;
    t_fail = faults && !alone;
    { Status st; t_op = true; st = env->NewRandomAccessFile(Name(f), &h.r); t_op = false; ok = st.ok(); nf = st.IsNotFound(); }
    ds::Quiet q;
    Ev("OE").i("t", t).i("h", h.id).i("ok", ok).i("nf", nf).i("null", h.r == nullptr).i("fault", t_fault).i("alone", alone).out();
    t_fault = 0;
    if (ok && h.r) han[t].push_back(h);
  }
  void DoRead(H& h, int k, bool alone) {
    int t = ds::Self(), off = k % 3, n = std::min(3, Len(h.f) - off);
    char buf[8] = {0}; Slice x;
    if (n < 1) return;
    { ds::Quiet q; Ev("R").i("t", t).i("h", h.id).out(); }
    bool ok;
    t_fail = faults && !alone;
    { Status st; t_op = true; st = h.r->Read(off, n, &x, buf); t_op = false; ok = st.ok(); }
    ds::Quiet q;
    bool same = ok && x.size() == (size_t)n;
    for (int i = 0; same && i < n; i++) same = x.data()[i] == (char)(h.f * 16 + off + i);
    Ev("RE").i("t", t).i("h", h.id).i("ok", ok).i("same", same).i("fault", t_fault).out();
    t_fault = 0;
  }
  void DoClose(H h) {
    int t = ds::Self();
    { ds::Quiet q; Ev("C").i("t", t).i("h", h.id).out(); }
    t_fail = false;
    t_op = true; delete h.r; t_op = false;
    ds::Quiet q;
    Ev("CE").i("t", t).i("h", h.id).out();
  }
  H Take(int t, int i) { ds::Quiet q; H h = han[t][i % han[t].size()]; han[t].erase(han[t].begin() + i % han[t].size()); return h; }
  void Setup() override {
    {
      ds::Quiet q;
      for (auto& v : han) v.reserve(64);
      g_dir = std::string(getenv("VP_DIR")) + "/lim" + std::to_string(getpid());
      mkdir(g_dir.c_str(), 0755);
      for (int f = 1; f < 5; f++) {
        int fd = __real_open(Name(f).c_str(), O_WRONLY | O_CREAT, 0644);
        for (int i = 0; i < Len(f); i++) { char c = f * 16 + i; if (write(fd, &c, 1) != 1) _exit(77); }
        __real_close(fd);
      }
      EnvPosixTest::Fd(F); EnvPosixTest::Map(M);
      Ev("Reset").i("n", nt).i("M", M).i("F", F).out();
    }
    env = Env::Default();
    ds::Quiet q; shared = H();
  }
  void Body(int t) override {
    for (auto& o : prog[t]) {
      if (o.o == 'o') DoOpen(o.f, false);
      else if (han[t].empty()) continue;
      else if (o.o == 'c') DoClose(Take(t, o.a));
      else if (o.o == 'r') DoRead(han[t][o.a % han[t].size()], o.a, false);
      else if (o.o == 'g') DoRead(han[t].back(), 1, false);
    }
  }
  void Finish() override {
    // what is open still reads right; then everything is closed
    for (int t = 1; t <= nt; t++) {
      for (auto& h : han[t]) DoRead(h, 2, true);
      while (!han[t].empty()) DoClose(Take(t, 0));
    }
    { ds::Quiet q; Ev("Rest").out(); }
    for (int i = 0; i < M + F + 1; i++) DoOpen(2 + i % 3, true);
    for (auto& h : han[0]) DoRead(h, 0, true);
    while (!han[0].empty()) DoClose(Take(0, 0));
    ds::Quiet q;
    Ev("Rest").out();
    for (int f = 1; f < 5; f++) unlink(Name(f).c_str());
    rmdir(g_dir.c_str());
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
