// Concurrent driver for the POSIX logger (C19).  The locks of stdio streams
// are taken under the scheduler's control.
#include <stdio.h>
#include "log_common.h"
#include "dsched.h"
#include "lsmdb/env.h"
using namespace lsmdb;
using vp::Ev;
static pthread_mutex_t g_io = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
// every call on a stream holds its lock; the scheduler may switch before it
struct Io { Io() { pthread_mutex_lock(&g_io); } ~Io() { pthread_mutex_unlock(&g_io); } };
extern "C" {
size_t __real_fwrite(const void*, size_t, size_t, FILE*); size_t __real_fwrite_unlocked(const void*, size_t, size_t, FILE*);
int __real_fflush(FILE*); int __real_fputs(const char*, FILE*); int __real_fputc(int, FILE*); int __real_putc(int, FILE*);
int __real_vfprintf(FILE*, const char*, va_list);
ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int);
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { Io l; return __real_fwrite(p, a, b, f); }
size_t __wrap_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f) { ds::Point(); return __real_fwrite_unlocked(p, a, b, f); }
int __wrap_fflush(FILE* f) { Io l; return __real_fflush(f); }
int __wrap_fputs(const char* s, FILE* f) { Io l; return __real_fputs(s, f); }
int __wrap_fputc(int c, FILE* f) { Io l; return __real_fputc(c, f); }
int __wrap_putc(int c, FILE* f) { Io l; return __real_putc(c, f); }
int __wrap_vfprintf(FILE* f, const char* m, va_list ap) { Io l; return __real_vfprintf(f, m, ap); }
int __wrap_fprintf(FILE* f, const char* m, ...) { Io l; va_list ap; va_start(ap, m); int r = __real_vfprintf(f, m, ap); va_end(ap); return r; }
int __wrap___vfprintf_chk(FILE* f, int, const char* m, va_list ap) { Io l; return __real_vfprintf(f, m, ap); }
int __wrap___fprintf_chk(FILE* f, int, const char* m, ...) { Io l; va_list ap; va_start(ap, m); int r = __real_vfprintf(f, m, ap); va_end(ap); return r; }
ssize_t __wrap_write(int fd, const void* p, size_t n) { ds::Point(); return __real_write(fd, p, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { ds::Point(); return __real_writev(fd, v, n); }
void __wrap_flockfile(FILE*) { pthread_mutex_lock(&g_io); }
void __wrap_funlockfile(FILE*) { pthread_mutex_unlock(&g_io); }
int __wrap_ftrylockfile(FILE*) { return pthread_mutex_trylock(&g_io); }
}
struct Sc : ds::Scenario {
  std::vector<std::vector<std::string>> prog;
  std::string old; Logger* log = nullptr; lg::View v; int id = 0;
  Sc(int p, vp::Rng& r) {
    lg::PickTime(r); lg::Fake() = false;
    int nt = 2 + r.upto(2);
    prog.resize(nt + 1);
    for (int t = 1; t <= nt; t++) {
      int n = 1 + r.upto(3);
      for (int i = 0; i < n; i++) {
        static const size_t len[] = {0, 1, 20, 460, 470, 480, 600, 4000, 4060, 4096, 5000, 9000};
        std::string m(len[r.upto(p % 3 == 2 ? 12 : 7)], (char)('a' + t * 4 + i));
        if (!m.empty() && r.one(3)) m[m.size() / 2] = '\n';
        if (!m.empty() && r.one(3)) m.back() = '\n';
        prog[t].push_back(m);
      }
    }
    old = r.one(2) ? "old\n" : "";
  }
  int Threads() override { return prog.size() - 1; }
  void Setup() override {
    {
      ds::Quiet q;
      tzset();
      v.path = std::string(getenv("VP_DIR")) + "/l" + std::to_string(getpid());
      lg::PutFile(v.path, old); v.off = old.size();
      Ev("Reset").rle("old", old.data(), old.size()).out();
      lg::Fake() = true;
    }
    Env* env = Env::Default();
    Status s = env->NewLogger(v.path, &log);
    ds::Quiet q; Ev("New").i("ok", s.ok()).out();
    if (!s.ok()) _exit(77);
  }
  void Body(int t) override {
    for (auto& m : prog[t]) {
      { ds::Quiet q; lg::EvLog(t, ++id, lg::Tid(), m); }
      Log(log, "%s", m.c_str());
      ds::Quiet q; lg::EvLogE(t, v);
    }
  }
  void Finish() override {
    delete log;
    ds::Quiet q;
    std::string n = v.Look();
    if (!n.empty()) Ev("LogE").i("t", 0).rle("new", n.data(), n.size()).out();
    std::string o = v.Old(old.size());
    Ev("End").rle("old", o.data(), o.size()).out();
    unlink(v.path.c_str());
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
