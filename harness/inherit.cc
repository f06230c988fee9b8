// Descriptors of the POSIX environment and programs started meanwhile (C29).
//   inherit <seed> <scenarios> <ops> <fd limit> <mmap limit>
//   inherit child <baseline...>        (a program that was started)
#include <spawn.h>
#include <sys/wait.h>
#include <algorithm>
#include <set>
#include "faults.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Fd(int n) { EnvPosixTestHelper::SetReadOnlyFDLimit(n); }
  static void Map(int n) { EnvPosixTestHelper::SetReadOnlyMMapLimit(n); }
};
}  // namespace lsmdb
using namespace lsmdb;
using vp::Ev;
using vp::Outcome;
extern char** environ;

static std::string g_dir, g_self;
static std::set<int> g_base;
static std::vector<int> Fds() {
  std::vector<int> r;
  DIR* d = __real_opendir("/proc/self/fd");
  if (!d) _exit(77);
  int me = dirfd(d);
  while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != me) r.push_back(atoi(e->d_name));
  __real_closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}
static std::string Table() {
  std::string t = "[";
  for (int f : Fds()) {
    if (g_base.count(f)) continue;
    int x = __real_fcntl(f, F_GETFD);
    if (t.size() > 1) t += ",";
    t += "[" + std::to_string(f) + "," + (x >= 0 && (x & FD_CLOEXEC) ? "1" : "0") + "]";
  }
  return t + "]";
}
static int g_fail;           // countdown to a call made to fail
static Outcome Choose(const char* c, const std::string&, long long) {
  Outcome o;
  if (g_fail > 0 && --g_fail == 0 && strcmp(c, "write") && strcmp(c, "close")) { o.k = Outcome::kErr; o.arg = EIO; }
  return o;
}
static void Seen(const char* c, const std::string&, long long, int) { Ev("Sys").s("c", c).raw("fds", Table()).out(); }
static void Spawn() {
  int p[2];
  if (pipe2(p, O_CLOEXEC) != 0) _exit(77);
  int hi = __real_fcntl(p[1], F_DUPFD, 800);      // the only one the program is meant to get
  __real_close(p[1]);
  std::vector<std::string> a = {g_self, "child", std::to_string(hi)};
  for (int b : g_base) a.push_back(std::to_string(b));
  std::vector<char*> v;
  for (auto& x : a) v.push_back(&x[0]);
  v.push_back(nullptr);
  pid_t pid;
  bool ran = posix_spawn(&pid, g_self.c_str(), nullptr, nullptr, v.data(), environ) == 0;
  __real_close(hi);
  std::string got;
  char b[4096];
  ssize_t k;
  while (ran && (k = __real_read(p[0], b, sizeof b)) > 0) got.append(b, k);
  __real_close(p[0]);
  int st = 0;
  if (ran) waitpid(pid, &st, 0);
  ran = ran && WIFEXITED(st) && WEXITSTATUS(st) == 0 && got.size() >= 2 && got[0] == '[';
  Ev("Exec").b("ran", ran).raw("given", ran ? got : "[]").out();
}
static int Child(int argc, char** argv) {
  int out = atoi(argv[2]);
  std::set<int> base;
  for (int i = 3; i < argc; i++) base.insert(atoi(argv[i]));
  std::string t = "[";
  for (int f : Fds()) if (f != out && !base.count(f)) { if (t.size() > 1) t += ","; t += std::to_string(f); }
  t += "]";
  return __real_write(out, t.data(), t.size()) == (ssize_t)t.size() ? 0 : 1;
}
static void Vlog(Logger* g, const char* f, ...) { va_list ap; va_start(ap, f); g->Logv(f, ap); va_end(ap); }

struct Sess {
  std::vector<WritableFile*> w;
  std::vector<SequentialFile*> s;
  std::vector<RandomAccessFile*> r;
  std::vector<Logger*> g;
  std::vector<FileLock*> k;
  vp::Rng& rng;
  explicit Sess(vp::Rng& x) : rng(x) {}
  void Ret(const char* o) { Ev("Ret").s("o", o).i("held", w.size() + s.size() + r.size() + g.size() + k.size()).raw("fds", Table()).out(); }
  template <class T> bool Pick(std::vector<T*>& v, size_t* i) { if (v.empty()) return false; *i = rng.upto(v.size()); return true; }
  void Op() {
    static const char* const names[] = {"a", "b", "c", "MANIFEST-1", "sub/MANIFEST-2", "sub/x"};
    Env* e = Env::Default();
    std::string n = g_dir + "/" + names[rng.upto(6)];
    size_t i;
    char buf[64];
    Slice x;
    int o = rng.upto(22);
    vp::SetOp("op %d on %s", o, n.c_str());
    g_fail = rng.one(5) ? 1 + rng.upto(4) : 0;
    Status st;
    {
      vp::Arm arm;
      if (o < 2) { WritableFile* p; if (e->NewWritableFile(n, &p).ok()) w.push_back(p); }
      else if (o < 4) { WritableFile* p; if (e->NewAppendableFile(n, &p).ok()) w.push_back(p); }
      else if (o < 6) { SequentialFile* p; if (e->NewSequentialFile(n, &p).ok()) s.push_back(p); }
      else if (o < 9) { RandomAccessFile* p; if (e->NewRandomAccessFile(n, &p).ok()) r.push_back(p); }
      else if (o < 10) { Logger* p; if (e->NewLogger(n, &p).ok()) g.push_back(p); }
      else if (o < 11) { FileLock* p; if (e->LockFile(g_dir + "/LOCK" + std::to_string(rng.upto(3)), &p).ok()) k.push_back(p); }
      else if (o < 13) { if (Pick(r, &i)) r[i]->Read(0, 4, &x, buf); }
      else if (o < 14) { if (Pick(s, &i)) s[i]->Read(4, &x, buf); }
      else if (o < 16) { if (Pick(w, &i)) { w[i]->Append("some bytes"); w[i]->Sync(); } }
      else if (o < 17) { if (Pick(g, &i)) Vlog(g[i], "line %d", 7); }
      else if (o < 18) { std::vector<std::string> v; e->GetChildren(g_dir, &v); uint64_t z; e->GetFileSize(n, &z); e->FileExists(n); }
      else if (o < 19) { e->RenameFile(n, g_dir + "/b"); }
      else if (o < 20) { std::string d = "data"; if (rng.one(2)) WriteStringToFile(e, d, g_dir + "/whole"); else ReadFileToString(e, g_dir + "/whole", &d); }
      else CloseOne();
    }
    g_fail = 0;
    Ret("op");
    if (rng.one(6)) Spawn();
  }
  bool CloseOne() {
    size_t i;
    if (Pick(w, &i)) { delete w[i]; w.erase(w.begin() + i); }
    else if (Pick(r, &i)) { delete r[i]; r.erase(r.begin() + i); }
    else if (Pick(s, &i)) { delete s[i]; s.erase(s.begin() + i); }
    else if (Pick(g, &i)) { delete g[i]; g.erase(g.begin() + i); }
    else if (Pick(k, &i)) { if (!Env::Default()->UnlockFile(k[i]).ok()) { /* reported */ } k.erase(k.begin() + i); }
    else return false;
    return true;
  }
};
int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "child")) return Child(argc, argv);
  vp::InitTrace();
  const char* d = getenv("VP_DIR");
  if (!d || argc < 6) return 77;
  g_self = argv[0];
  g_dir = std::string(d) + "/inh";
  if (__real_mkdir(g_dir.c_str(), 0755) != 0 || __real_mkdir((g_dir + "/sub").c_str(), 0755) != 0) return 77;
  vp::Classify() = [](int, const char*) { return std::string(); };
  vp::Decide() = Choose;
  vp::After() = Seen;
  EnvPosixTest::Fd(atoi(argv[4]));
  EnvPosixTest::Map(atoi(argv[5]));
  vp::Rng r(strtoull(argv[1], 0, 10));
  for (int f : Fds()) g_base.insert(f);
  for (int i = 0; i < atoi(argv[2]); i++) {
    Ev("Reset").out();
    Sess s(r);
    for (int k = 0; k < atoi(argv[3]); k++) s.Op();
    Spawn();
    { vp::Arm a; while (s.CloseOne()) {} }
    Ev("End").raw("fds", Table()).out();
  }
  return 0;
}
