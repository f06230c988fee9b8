// Services of the POSIX environment: time, sleeping, test directory (C30).
//   services <seed> <rounds>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <algorithm>
#include "faults.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
using namespace lsmdb;
using vp::Ev;

static bool g_script, g_used;                 // a scripted clock, asked?
static long long g_sec, g_usec, g_nsec;
static unsigned g_uid;
extern "C" {
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
uid_t __real_geteuid(); uid_t __real_getuid();
int __wrap_gettimeofday(struct timeval* t, void* z) {
  if (!g_script || !t) return __real_gettimeofday(t, z);
  g_used = true; t->tv_sec = g_sec; t->tv_usec = g_usec; return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_script || c != CLOCK_REALTIME) return __real_clock_gettime(c, t);
  g_used = true; t->tv_sec = g_sec; t->tv_nsec = g_usec * 1000 + g_nsec; return 0;
}
time_t __wrap_time(time_t* t) {
  if (!g_script) return __real_time(t);
  g_used = true; if (t) *t = g_sec; return g_sec;
}
uid_t __wrap_geteuid() { return vp::Armed() ? g_uid : __real_geteuid(); }
uid_t __wrap_getuid() { return vp::Armed() ? g_uid : __real_getuid(); }
}
static std::vector<long long> T(unsigned long long us) { return {(long long)(us / 1000000000000ull), (long long)(us / 1000000 % 1000000), (long long)(us % 1000000)}; }
static unsigned long long Real() { struct timeval t; __real_gettimeofday(&t, nullptr); return t.tv_sec * 1000000ull + t.tv_usec; }
static long long Mono() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
static long long MonoNs() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static void OnAlarm(int) {}

static void Now(bool script, unsigned long long sec, unsigned usec, unsigned nsec) {
  vp::SetOp("time of day, clock at %llu s %u us", sec, usec);
  g_sec = sec; g_usec = usec; g_nsec = nsec;
  for (int tries = 0; tries < 20; tries++) {
    g_used = false;
    unsigned long long a = Real();
    long long m = Mono();
    g_script = script;
    unsigned long long r = Env::Default()->NowMicros();
    g_script = false;
    unsigned long long b = Real();
    long long d = (long long)(b - a) - (Mono() - m);
    if (g_used) { a = b = sec * 1000000ull + usec; }
    else if (d < -2000 || d > 2000) continue;    // the system's clock was set meanwhile
    Ev("Now").b("script", g_used).li("lo", T(a)).li("r", T(r)).li("hi", T(b)).out();
    return;
  }
}
static void SleepFor(int us, int every) {
  vp::SetOp("sleep %d us, a signal each %d us", us, every);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  if (every) { it.it_value.tv_usec = it.it_interval.tv_usec = every; setitimer(ITIMER_REAL, &it, nullptr); }
  long long a, b;
  for (int k = 0; k < 3; k++) {         // the machine may be busy
    a = MonoNs();
    Env::Default()->SleepForMicroseconds(us);
    b = MonoNs();
    if ((b - a) / 1000 <= us + 9000000ll) break;
  }
  memset(&it, 0, sizeof it);
  setitimer(ITIMER_REAL, &it, nullptr);
  Ev("Sleep").i("us", us).b("sig", every > 0).i("took", std::min<long long>((b - a) / 1000, 2000000000)).out();
}
static void TestDir(const std::string& env, bool unset, unsigned uid, vp::Rng& r) {
  if (unset) unsetenv("TEST_TMPDIR"); else setenv("TEST_TMPDIR", env.c_str(), 1);
  g_uid = uid;
  vp::SetOp("test directory, TEST_TMPDIR=%s uid=%u", unset ? "(unset)" : env.c_str(), uid);
  std::string x = r.one(2) ? "left over" : "";
  Status s;
  { vp::Arm a; s = Env::Default()->GetTestDirectory(&x); }
  struct stat st;
  bool made = __real_stat(vp::Mapped(x.c_str()).c_str(), &st) == 0 && S_ISDIR(st.st_mode);
  Ev("TestDir").s("env", unset ? "" : env).s("uid", std::to_string(uid)).b("ok", s.ok()).s("r", x).b("made", made).out();
}
int main(int argc, char** argv) {
  vp::InitTrace();
  const char* d = getenv("VP_DIR");
  if (!d || argc < 3) return 77;
  std::string dir = std::string(d) + "/sv";
  if (__real_mkdir(dir.c_str(), 0755) != 0) return 77;
  // whatever lies outside the scratch directory is made inside it
  vp::MapName() = [dir](const char* p) {
    std::string s = p;
    if (s.empty() || s.compare(0, dir.size(), dir) == 0) return s;
    for (auto& c : s) if (c == '/') c = '_';
    return dir + "/" + s;
  };
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnAlarm;
  sigaction(SIGALRM, &sa, nullptr);
  vp::Rng r(strtoull(argv[1], 0, 10));
  int n = atoi(argv[2]);
  Env* e0 = Env::Default();
  Ev("Reset").out();
  static const unsigned long long secs[] = {0, 1, 999, 1000000, 1700000000ull, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, 4294967, 4295, 2147483, 9007199254ull, 1ull << 40};
  static const unsigned us[] = {0, 1, 499999, 500000, 999999};
  for (auto s : secs) for (auto u : us) Now(true, s, u, r.one(2) ? 999 : 0);
  for (int i = 0; i < n; i++) { Now(true, (unsigned long long)r.range(0, 1000000000) * (1 + r.upto(8)), r.upto(1000000), r.upto(1000)); Now(false, 0, 0, 0); }
  Ev("Reset").out();
  static const int sl[] = {0, 1, 7, 50, 999, 1000, 1001, 20000};
  for (int s : sl) SleepFor(s, 0);
  for (int i = 0; i < 6; i++) SleepFor(5000 + 7000 * i, 1500);
  SleepFor(1100000, 0);
  SleepFor(1050000, 30000);
  for (int i = 0; i < n / 4; i++) SleepFor(r.upto(3000), r.one(2) ? 300 + r.upto(400) : 0);
  Ev("Reset").out();
  static const unsigned ids[] = {0, 1, 2, 10, 11, 100, 101, 1000, 1001, 10001, 100001, 65534, 65535, 65536, 65537, 131072, (1u << 31) - 1, 1u << 31, (1u << 31) + 1, ~0u - 1};
  for (int k = 0; k < 2; k++) for (unsigned u : ids) { TestDir("", true, u, r); if (r.one(3)) TestDir("", false, u, r); }
  for (int i = 0; i < n; i++) {
    if (r.one(2)) TestDir("", r.one(2), ids[r.upto(20)], r);
    else {
      std::string p = dir + "/t" + std::to_string(r.upto(6));
      if (r.one(3)) { __real_mkdir(p.c_str(), 0755); p += "/" + std::string(80 + r.upto(120), 'n'); }
      if (r.one(4)) p += "/";
      TestDir(p, false, ids[r.upto(20)], r);
    }
  }
  Ev("Default").b("same", Env::Default() == e0 && e0 != nullptr).out();
  return 0;
}
