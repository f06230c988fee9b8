// File locks across threads and processes (C13).  Threads of the process under
// the scheduler lock and unlock; some threads stand for other, real processes
// (forked before the run) which stop at each system call of theirs until told
// to go on, so that calls of different processes interleave too.
#include <algorithm>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include "dsched.h"
#include "lsmdb/env.h"
using namespace lsmdb;
using vp::Ev;

static thread_local bool t_op;      // inside a lock or unlock call
static thread_local int t_fault;
static int g_peer = -1;             // in a peer: its socket
static bool g_faults;
static void PeerStop() { char c = 'h'; if (write(g_peer, &c, 1) != 1 || read(g_peer, &c, 1) != 1) _exit(0); }
// before a system call of the code under test; true: it shall fail
static bool Hook(bool canfail) {
  if (!t_op) return false;
  if (g_peer >= 0) { PeerStop(); return false; }
  ds::Point();
  if (canfail && g_faults && ds::Choice().one(9)) { t_fault = 1; return true; }
  return false;
}
static void Hooked() { if (t_op && g_peer < 0) ds::Point(); }
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...); int __real_close(int); int __real_flock(int, int); int __real_lockf(int, int, off_t);
#define OPENMODE mode_t m = 0; { va_list ap; va_start(ap, f); if (f & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); }
int __wrap_open(const char* p, int f, ...) { OPENMODE if (Hook(true)) { errno = EMFILE; return -1; } int r = __real_open(p, f, m); int e = errno; Hooked(); errno = e; return r; }
int __wrap_open64(const char* p, int f, ...) { OPENMODE if (Hook(true)) { errno = EMFILE; return -1; } int r = __real_open64(p, f, m); int e = errno; Hooked(); errno = e; return r; }
int __wrap_openat(int d, const char* p, int f, ...) { OPENMODE if (Hook(true)) { errno = EMFILE; return -1; } int r = __real_openat(d, p, f, m); int e = errno; Hooked(); errno = e; return r; }
static bool Locks(int cmd, void* a) {      // a request to lock: it may fail
  if (cmd != F_SETLK && cmd != F_SETLKW && cmd != F_OFD_SETLK && cmd != F_OFD_SETLKW) return false;
  return static_cast<struct flock*>(a)->l_type != F_UNLCK;
}
#define FCNTL(name) int __wrap_##name(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); \
  if (Hook(Locks(cmd, a))) { errno = ENOLCK; return -1; } int r = __real_##name(fd, cmd, a); int e = errno; Hooked(); errno = e; return r; }
FCNTL(fcntl) FCNTL(fcntl64)
int __wrap_close(int fd) { Hook(false); int r = __real_close(fd); int e = errno; Hooked(); errno = e; return r; }
int __wrap_flock(int fd, int op) { if (Hook(op != LOCK_UN)) { errno = ENOLCK; return -1; } int r = __real_flock(fd, op); int e = errno; Hooked(); errno = e; return r; }
int __wrap_lockf(int fd, int c, off_t n) { if (Hook(c != F_ULOCK)) { errno = ENOLCK; return -1; } int r = __real_lockf(fd, c, n); int e = errno; Hooked(); errno = e; return r; }
}

const int NP = 3;                   // peers, one name each or both
enum K { kLock, kUnlock, kExit, kPause };
struct Op { K k; int f; };
static std::string g_dir;
static std::string Name(int f) { return g_dir + "/f" + std::to_string(f); }

struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;     // by thread; the last np are peers
  int np, own;
  int sock[NP], pid[NP]; bool dead[NP];
  Env* env;
  FileLock* held[16][2];
  int base = 0; long blocks = 0;
  Sc(int p, vp::Rng& r) {
    own = 1 + r.upto(3); np = own == 3 ? r.upto(2) : 1 + r.upto(2);
    int names = p % 3 == 2 ? 2 : 1;
    faults = p % 4 == 3;
    prog.resize(own + np + 1);
    for (int t = 1; t <= own + np; t++) {
      int n = 1 + r.upto(t <= own ? 3 : 2);
      for (int i = 0; i < n; i++) {
        int f = r.upto(names);
        prog[t].push_back(Op{kLock, f});
        if (r.one(2)) prog[t].push_back(Op{kPause, f});
        if (names == 2 && r.one(3)) { prog[t].push_back(Op{kLock, 1 - f}); prog[t].push_back(Op{kUnlock, 1 - f}); }
        if (t > own && r.one(5)) { prog[t].push_back(Op{kExit, f}); break; }
        prog[t].push_back(Op{kUnlock, f});
      }
      if (r.one(4)) prog[t].push_back(Op{kLock, (int)r.upto(names)});    // held to the end
    }
  }
  bool faults;
  int Threads() override { return own + np; }
  bool Peer(int t) { return t > own; }

  // ---- the other side of a peer
  [[noreturn]] void PeerMain(int s) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_peer = s;
    Env* e = Env::Default();
    FileLock* l[2] = {nullptr, nullptr};
    for (;;) {
      char c[2];
      if (read(s, c, 2) != 2) _exit(0);
      int f = c[1]; char r[4] = {'d', 0, 0, 0};
      t_op = true;
      if (c[0] == 'L') {
        FileLock* x = reinterpret_cast<FileLock*>(8);
        Status st = e->LockFile(Name(f), &x);
        r[1] = st.ok(); r[2] = x == nullptr; r[3] = st.IsIOError();
        if (st.ok()) l[f] = x;
      } else {
        Status st = e->UnlockFile(l[f]);
        r[1] = st.ok(); r[2] = 1; l[f] = nullptr;
      }
      t_op = false;
      if (write(s, r, 4) != 4) _exit(0);
    }
  }
  bool Get(int i, char* b, int n) {
    struct pollfd pf = {sock[i], POLLIN, 0};
    if (poll(&pf, 1, 8000) != 1) { Ev("Hang").i("t", ds::Self()).out(); kill(pid[i], SIGKILL); return false; }
    return read(sock[i], b, n) == n;
  }
  // runs one operation in a peer; `step`: let others run at its system calls
  bool PeerOp(int i, char op, int f, char* r, bool step) {
    char c[2] = {op, (char)f};
    { ds::Quiet q; if (write(sock[i], c, 2) != 2) return false; }
    for (;;) {
      char h;
      { ds::Quiet q; if (!Get(i, &h, 1)) return false; if (h == 'd') return Get(i, r + 1, 3); }
      if (step) ds::Point();
      ds::Quiet q; char g = 'g'; if (write(sock[i], &g, 1) != 1) return false;
    }
  }
  void LE(int t, bool ok, bool null, bool io, int f) { ds::Quiet q; Ev("LE").i("t", t).i("ok", ok).i("null", null).i("io", io).i("fault", t_fault).out(); t_fault = 0; (void)f; }
  void DoLock(int t, int f) {
    { ds::Quiet q; Ev("L").i("t", t).i("p", Peer(t) ? t - own : 0).i("f", f).out(); }
    if (Peer(t)) {
      char r[4];
      if (PeerOp(t - own - 1, 'L', f, r, true)) { LE(t, r[1], r[2], r[3], f); held[t][f] = r[1] ? reinterpret_cast<FileLock*>(8) : nullptr; }
      return;
    }
    FileLock* x = reinterpret_cast<FileLock*>(8);
    bool ok, io;
    { Status st; t_op = true; st = env->LockFile(Name(f), &x); t_op = false; ok = st.ok(); io = st.IsIOError(); }
    LE(t, ok, x == nullptr, io, f);
    held[t][f] = ok ? x : nullptr;
    if (!ok) Probe(f);
  }
  void DoUnlock(int t, int f) {
    if (!held[t][f]) return;
    FileLock* x = held[t][f]; held[t][f] = nullptr;
    { ds::Quiet q; Ev("U").i("t", t).i("f", f).out(); }
    bool ok = true;
    if (Peer(t)) { char r[4]; if (!PeerOp(t - own - 1, 'U', f, r, true)) return; ok = r[1]; }
    else { t_op = true; { Status st = env->UnlockFile(x); ok = st.ok(); } t_op = false; }
    { ds::Quiet q; Ev("UE").i("t", t).i("f", f).i("ok", ok).out(); }
    if (!Peer(t)) Probe(f);
  }
  // another process tries the lock, at once, and lets it go again
  void Probe(int f) {
    ds::Quiet q;
    int i = NP - 1, t = own + np + 1;
    char r[4];
    Ev("L").i("t", t).i("p", i + 1).i("f", f).out();
    if (!PeerOp(i, 'L', f, r, false)) return;
    Ev("LE").i("t", t).i("ok", r[1]).i("null", r[2]).i("io", r[3]).i("fault", 0).out();
    if (!r[1]) return;
    Ev("U").i("t", t).i("f", f).out();
    if (!PeerOp(i, 'U', f, r, false)) return;
    Ev("UE").i("t", t).i("f", f).i("ok", r[1]).out();
  }
  void DoExit(int t) {
    ds::Quiet q;
    int i = t - own - 1;
    kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); dead[i] = true;
    for (int f = 0; f < 2; f++) held[t][f] = nullptr;
    Ev("Exit").i("t", t).out();
  }
  int Fds() { int n = 0; for (int i = 0; i < 200; i++) if (__real_fcntl(i, F_GETFD) >= 0) n++; return n; }

  void Setup() override {
    {
      ds::Quiet q;
      alarm(12);
      g_dir = std::string(getenv("VP_DIR")) + "/lk" + std::to_string(getpid());
      mkdir(g_dir.c_str(), 0755);
      g_faults = false;
      memset(held, 0, sizeof held);
      for (int i = 0; i < NP; i++) {
        dead[i] = true;
        if (i >= np && i < NP - 1) continue;
        int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) _exit(77);
        pid_t p = fork();
        if (p < 0) _exit(77);
        if (p == 0) { __real_close(s[0]); PeerMain(s[1]); }
        __real_close(s[1]); sock[i] = s[0]; pid[i] = p; dead[i] = false;
      }
      Ev("Reset").i("n", own + np + 1).i("names", 2).out();
    }
    env = Env::Default();
    // once, so that everything allocated once is there
    DoLock(0, 0); DoUnlock(0, 0);
    ds::Quiet q; base = Fds(); blocks = ds::LiveBlocks(); g_faults = faults;
  }
  void Body(int t) override {
    for (auto& o : prog[t]) {
      if (Peer(t) && dead[t - own - 1]) return;
      switch (o.k) {
        case kLock: if (!held[t][o.f]) DoLock(t, o.f); break;
        case kUnlock: DoUnlock(t, o.f); break;
        case kExit: DoExit(t); return;
        case kPause: ds::Point(); if (!Peer(t)) Probe(o.f); break;
      }
    }
  }
  void Finish() override {
    { ds::Quiet q; g_faults = false; Ev("Rest").i("fds", Fds() - base).i("blocks", 0).out(); }
    Probe(0); Probe(1);
    for (int t = 1; t <= own + np; t++) for (int f = 0; f < 2; f++) if (!Peer(t) || !dead[t - own - 1]) DoUnlock(t, f);
    { ds::Quiet q; Ev("Rest").i("fds", Fds() - base).i("blocks", ds::LiveBlocks() - blocks).out(); }
    // nobody holds anything: everybody can
    for (int f = 0; f < 2; f++) { Probe(f); DoLock(0, f); Probe(f); DoUnlock(0, f); Probe(f); }
    ds::Quiet q;
    for (int i = 0; i < NP; i++) if (!dead[i]) { kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); }
    for (int f = 0; f < 2; f++) unlink(Name(f).c_str());
    rmdir(g_dir.c_str());
  }
};
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
