// Interposed system calls (linker option --wrap): records what the code under
// test asks of the system and lets the driver decide the outcome of each call.
// Only calls made while Armed() is true are recorded or altered.
#ifndef VP_FAULTS_H_
#define VP_FAULTS_H_
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <string>
#include "trace.h"

namespace vp {
struct Outcome {           // what a call shall do
  enum K { kPass, kShort, kErr } k = kPass;
  long long arg = 0;       // kShort: number of bytes; kErr: errno
};
inline bool& Armed() { static bool a = false; return a; }
struct Arm { Arm() { Armed() = true; } ~Arm() { Armed() = false; } };
// decides the outcome of a call: (name, object class, bytes asked)
inline std::function<Outcome(const char*, const std::string&, long long)>& Decide() {
  static std::function<Outcome(const char*, const std::string&, long long)> f; return f;
}
// classifies an object: by descriptor (>= 0) or path
inline std::function<std::string(int, const char*)>& Classify() {
  static std::function<std::string(int, const char*)> f; return f;
}
// called after each recorded call: (name, class, result, errno)
inline std::function<void(const char*, const std::string&, long long, int)>& After() {
  static std::function<void(const char*, const std::string&, long long, int)> f; return f;
}
// takes the data of a write instead of the system, if set and if it returns >= 0
inline std::function<long long(int, const void*, long long, long long)>& Sink() {
  static std::function<long long(int, const void*, long long, long long)> f; return f;
}
inline long long Written(int fd, const void* b, long long n, long long off, const std::function<long long()>& real) {
  long long r = Sink() ? Sink()(fd, b, n, off) : -1;
  return r >= 0 ? r : real();
}
// maps names the code under test uses to names in the scratch directory
inline std::function<std::string(const char*)>& MapName() {
  static std::function<std::string(const char*)> f; return f;
}
inline std::string Mapped(const char* p) { return MapName() ? MapName()(p) : std::string(p); }

template <class F>
inline long long Do(const char* c, int fd, const char* path, long long n, F real) {
  if (!Armed()) return real(n);
  Armed() = false;
  int e0 = errno;
  std::string cls = Classify() ? Classify()(fd, path) : std::string("?");
  Outcome o = Decide() ? Decide()(c, cls, n) : Outcome();
  long long r;
  int err = 0;
  errno = e0;
  bool always = !strcmp(c, "close");     // a failing close still closes
  if (o.k == Outcome::kErr) {
    if (always) real(n);
    r = -1; err = (int)o.arg;
  } else {
    r = real(o.k == Outcome::kShort && o.arg < n ? o.arg : n);
    if (r < 0) err = errno;
  }
  if (After()) After()(c, cls, r, err);
  errno = err ? err : e0;
  Armed() = true;
  return r;
}
}  // namespace vp

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_openat(int, const char*, int, ...);
int __real_creat(const char*, mode_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_close(int);
int __real_fsync(int);
int __real_fdatasync(int);
off_t __real_lseek(int, off_t, int);
off_t __real_lseek64(int, off_t, int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_stat(const char*, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
int __real_access(const char*, int);
int __real_unlink(const char*);
int __real_mkdir(const char*, mode_t);
int __real_rmdir(const char*);
int __real_rename(const char*, const char*);
int __real_remove(const char*);
DIR* __real_opendir(const char*);
int __real_closedir(DIR*);
struct dirent* __real_readdir(DIR*);
FILE* __real_fdopen(int, const char*);
int __real_fcntl(int, int, ...);

#define VP_OPEN_BODY(call)                                                        \
  mode_t m = 0;                                                                   \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } \
  std::string q = vp::Armed() ? vp::Mapped(p) : std::string(p);                   \
  return (int)vp::Do("open", -1, q.c_str(), fl, [&](long long) { return (long long)call; });
int __wrap_open(const char* p, int fl, ...) { VP_OPEN_BODY(__real_open(q.c_str(), fl, m)) }
int __wrap_open64(const char* p, int fl, ...) { VP_OPEN_BODY(__real_open(q.c_str(), fl, m)) }
int __wrap_openat(int d, const char* p, int fl, ...) { VP_OPEN_BODY(__real_openat(d, q.c_str(), fl, m)) }
int __wrap_creat(const char* p, mode_t m) {
  std::string q = vp::Armed() ? vp::Mapped(p) : std::string(p);
  return (int)vp::Do("open", -1, q.c_str(), O_CREAT | O_WRONLY | O_TRUNC, [&](long long) { return (long long)__real_open(q.c_str(), O_CREAT | O_WRONLY | O_TRUNC, m); });
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return vp::Do("read", fd, 0, n, [&](long long k) { return (long long)__real_read(fd, b, k); }); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return vp::Do("pread", fd, 0, n, [&](long long k) { return (long long)__real_pread(fd, b, k, o); }); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return vp::Do("pread", fd, 0, n, [&](long long k) { return (long long)__real_pread(fd, b, k, o); }); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return vp::Do("write", fd, 0, n, [&](long long k) { return vp::Written(fd, b, k, -1, [&] { return (long long)__real_write(fd, b, k); }); }); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return vp::Do("write", fd, 0, n, [&](long long k) { return vp::Written(fd, b, k, o, [&] { return (long long)__real_pwrite(fd, b, k, o); }); }); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  long long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  return vp::Do("write", fd, 0, n, [&](long long k) {
    if (vp::Sink()) {
      long long got = 0;
      for (int i = 0; i < c && got < k; i++) {
        long long m = std::min<long long>(v[i].iov_len, k - got), r = vp::Sink()(fd, v[i].iov_base, m, -1);
        if (r < 0) break;
        got += r;
        if (r < m) break;
      }
      if (got) return got;
    }
    std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return (long long)__real_write(fd, s.data(), k); });
}
int __wrap_close(int fd) { return (int)vp::Do("close", fd, 0, 0, [&](long long) { return (long long)__real_close(fd); }); }
int __wrap_fsync(int fd) { return (int)vp::Do("sync", fd, 0, 0, [&](long long) { return (long long)__real_fsync(fd); }); }
int __wrap_fdatasync(int fd) { return (int)vp::Do("sync", fd, 0, 0, [&](long long) { return (long long)__real_fdatasync(fd); }); }
off_t __wrap_lseek(int fd, off_t o, int w) { return vp::Do("lseek", fd, 0, o, [&](long long) { return (long long)__real_lseek(fd, o, w); }); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return vp::Do("lseek", fd, 0, o, [&](long long) { return (long long)__real_lseek(fd, o, w); }); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (fd < 0) return __real_mmap(a, n, p, f, fd, o);
  return (void*)vp::Do("mmap", fd, 0, n, [&](long long) { return (long long)__real_mmap(a, n, p, f, fd, o); });
}
int __wrap_munmap(void* a, size_t n) { return __real_munmap(a, n); }
#define VP_PATH1(name, T, call) \
  std::string q = vp::Armed() ? vp::Mapped(p) : std::string(p); \
  return (T)vp::Do(name, -1, q.c_str(), 0, [&](long long) { return (long long)call; });
int __wrap_stat(const char* p, struct stat* s) { VP_PATH1("stat", int, __real_stat(q.c_str(), s)) }
int __wrap_lstat(const char* p, struct stat* s) { VP_PATH1("stat", int, __real_lstat(q.c_str(), s)) }
int __wrap_fstat(int fd, struct stat* s) { return (int)vp::Do("stat", fd, 0, 0, [&](long long) { return (long long)__real_fstat(fd, s); }); }
int __wrap_access(const char* p, int m) { VP_PATH1("access", int, __real_access(q.c_str(), m)) }
int __wrap_unlink(const char* p) { VP_PATH1("unlink", int, __real_unlink(q.c_str())) }
int __wrap_remove(const char* p) { VP_PATH1("unlink", int, __real_remove(q.c_str())) }
int __wrap_mkdir(const char* p, mode_t m) { VP_PATH1("mkdir", int, __real_mkdir(q.c_str(), m)) }
int __wrap_rmdir(const char* p) { VP_PATH1("rmdir", int, __real_rmdir(q.c_str())) }
int __wrap_rename(const char* p, const char* t) {
  std::string q2 = vp::Armed() ? vp::Mapped(t) : std::string(t);
  VP_PATH1("rename", int, __real_rename(q.c_str(), q2.c_str()))
}
DIR* __wrap_opendir(const char* p) {
  std::string q = vp::Armed() ? vp::Mapped(p) : std::string(p);
  long long r = vp::Do("opendir", -1, q.c_str(), 0, [&](long long) { DIR* d = __real_opendir(q.c_str()); return d ? (long long)d : -1ll; });
  return r == -1 ? nullptr : (DIR*)r;
}
int __wrap_closedir(DIR* d) { return __real_closedir(d); }
FILE* __wrap_fdopen(int fd, const char* m) {
  long long r = vp::Do("fdopen", fd, 0, 0, [&](long long) { FILE* f = __real_fdopen(fd, m); return f ? (long long)f : -1ll; });
  return r == -1 ? nullptr : (FILE*)r;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  return (int)vp::Do(cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK ? "lock" : "fcntl", fd, 0, cmd, [&](long long) { return (long long)__real_fcntl(fd, cmd, a); });
}
}
#endif
