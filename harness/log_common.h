// Shared by the logger drivers: a clock under our control, a view of the file.
#ifndef VP_LOG_COMMON_H_
#define VP_LOG_COMMON_H_
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sstream>
#include <string>
#include <thread>
#include "trace.h"
namespace lg {
inline bool& Fake() { static bool f = false; return f; }
inline long long& Sec() { static long long s = 0; return s; }
inline long& Usec() { static long u = 0; return u; }
}
extern "C" {
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (lg::Fake()) { if (tv) { tv->tv_sec = lg::Sec(); tv->tv_usec = lg::Usec(); } return 0; }
  return syscall(SYS_gettimeofday, tv, nullptr);
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (lg::Fake() && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec = lg::Sec(); ts->tv_nsec = lg::Usec() * 1000; return 0; }
  return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t* t) noexcept {
  if (lg::Fake()) { if (t) *t = lg::Sec(); return lg::Sec(); }
  struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
}
namespace lg {
// a local date and time, as day since 1970 and second of the day
inline void PickTime(vp::Rng& r) {
  static const long long special[] = {34164245, 951782399, 951782400, 1078099200, 1230767999, 1262304000, 1709164800, 1735689599, 1234567890, 2147000000, 68169600, 4000000};
  Sec() = r.one(2) ? special[r.upto(12)] + (long long)r.upto(3) : 90000000 + (long long)r.upto(2050000000);
  static const long us[] = {0, 1, 9, 10, 99, 4096, 10000, 99999, 100000, 999999};
  Usec() = r.one(2) ? us[r.upto(10)] : r.upto(1000000);
  Fake() = true;
}
inline std::string Tid() { std::ostringstream s; s << std::this_thread::get_id(); return s.str(); }
// appended to the file since the last look
struct View {
  std::string path; long off = 0;
  std::string Look() {
    std::string r; char b[65536];
    int fd = syscall(SYS_open, path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    for (;;) { long n = syscall(SYS_pread64, fd, b, sizeof b, off); if (n <= 0) break; r.append(b, n); off += n; }
    syscall(SYS_close, fd);
    return r;
  }
  std::string Old(size_t n) { long o = off; off = 0; std::string r = Look(); off = o; return r.substr(0, n); }
};
inline void EvLog(int t, int id, const std::string& tid, const std::string& msg) {
  long long loc = Sec() - timezone;
  vp::Ev("Log").i("t", t).i("id", id).i("day", loc / 86400).i("sec", loc % 86400).i("usec", Usec()).bytes("tid", tid.data(), tid.size()).rle("msg", msg.data(), msg.size()).out();
}
inline void EvLogE(int t, View& v) { std::string n = v.Look(); vp::Ev("LogE").i("t", t).rle("new", n.data(), n.size()).out(); }
inline void PutFile(const std::string& p, const std::string& c) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) _exit(77);
  if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) _exit(77); close(fd);
}
}
#endif
