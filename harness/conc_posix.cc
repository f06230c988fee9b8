// Threads using the POSIX environment at the same time (C28): names, files,
// one random access file shared by all threads, first use of the environment.
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include "dsched.h"
#include "lsmdb/env.h"
#include "util/env_posix_test_helper.h"
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Fd(int n) { EnvPosixTestHelper::SetReadOnlyFDLimit(n); }
  static void Map(int n) { EnvPosixTestHelper::SetReadOnlyMMapLimit(n); }
};
}  // namespace lsmdb
using namespace lsmdb;
using vp::Ev;

static thread_local bool t_op;          // inside a call of the code under test
static void Before() { if (t_op) { int e = errno; ds::Point(); errno = e; } }
static void Mem(const void* a, long n, bool write, void* pc) { if (t_op && n > 0) { int e = errno; ds::Touch(a, n, write, pc); errno = e; } }
#define PC __builtin_return_address(0)
extern "C" {
// calls that fill (WR) or use (RD) the caller's memory
#define WM(ret, name, params, args, buf, n, wr) ret __real_##name params; ret __wrap_##name params { Before(); ret r = __real_##name args; Mem(buf, n, wr, PC); Before(); return r; }
#define W0(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { Before(); ret r = __real_##name args; Before(); return r; }
#define OPENMODE mode_t m = 0; { va_list ap; va_start(ap, f); if (f & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); }
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
int __wrap_open(const char* p, int f, ...) { OPENMODE Before(); int r = __real_open(p, f, m); Before(); return r; }
int __wrap_open64(const char* p, int f, ...) { OPENMODE Before(); int r = __real_open64(p, f, m); Before(); return r; }
int __wrap_openat(int d, const char* p, int f, ...) { OPENMODE Before(); int r = __real_openat(d, p, f, m); Before(); return r; }
W0(int, close, (int a), (a))
WM(ssize_t, read, (int a, void* b, size_t n), (a, b, n), b, r, true)
WM(ssize_t, write, (int a, const void* b, size_t n), (a, b, n), b, r, false)
WM(ssize_t, pread, (int a, void* b, size_t n, off_t o), (a, b, n, o), b, r, true)
WM(ssize_t, pread64, (int a, void* b, size_t n, off64_t o), (a, b, n, o), b, r, true)
WM(ssize_t, pwrite, (int a, const void* b, size_t n, off_t o), (a, b, n, o), b, r, false)
W0(ssize_t, readv, (int a, const struct iovec* b, int n), (a, b, n))
W0(ssize_t, writev, (int a, const struct iovec* b, int n), (a, b, n))
W0(off_t, lseek, (int a, off_t o, int w), (a, o, w))
W0(off64_t, lseek64, (int a, off64_t o, int w), (a, o, w))
WM(int, stat, (const char* p, struct stat* s), (p, s), s, r ? 0 : (long)sizeof *s, true)
WM(int, stat64, (const char* p, struct stat64* s), (p, s), s, r ? 0 : (long)sizeof *s, true)
WM(int, lstat, (const char* p, struct stat* s), (p, s), s, r ? 0 : (long)sizeof *s, true)
WM(int, fstat, (int f, struct stat* s), (f, s), s, r ? 0 : (long)sizeof *s, true)
WM(int, fstat64, (int f, struct stat64* s), (f, s), s, r ? 0 : (long)sizeof *s, true)
W0(int, access, (const char* p, int m), (p, m))
W0(int, rename, (const char* p, const char* q), (p, q))
W0(int, link, (const char* p, const char* q), (p, q))
W0(int, unlink, (const char* p), (p))
W0(int, remove, (const char* p), (p))
W0(int, mkdir, (const char* p, mode_t m), (p, m))
W0(int, rmdir, (const char* p), (p))
W0(int, ftruncate, (int f, off_t n), (f, n))
W0(DIR*, opendir, (const char* p), (p))
W0(int, closedir, (DIR* d), (d))
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (fd < 0) return __real_mmap(a, n, p, f, fd, o);
  Before(); void* r = __real_mmap(a, n, p, f, fd, o); Before(); return r; }
int __wrap_munmap(void* a, size_t n) { Before(); return __real_munmap(a, n); }
}

static std::string g_dir;
static const char* St(const Status& s) { return s.ok() ? "ok" : s.IsNotFound() ? "nf" : s.IsIOError() ? "io" : "other"; }
struct Op { std::string o, n, to; int h, off, len; };
// names: f.. files read at random (never truncated), s.. not even renamed or
// removed, w.. written from scratch, d.. directories
static std::string Path(const std::string& n) { return g_dir + "/" + n; }

struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;
  int M, F, nt, fam, kind[2]; bool weak, first, share;
  Env* env = nullptr;
  Env* seen[8] = {nullptr};
  struct H { int id = 0; char k = 0; void* p = nullptr; };
  std::vector<H> han[8];
  RandomAccessFile* shared = nullptr;
  int nexth[8] = {0}, wrote[8] = {0};
  std::vector<std::pair<std::string, int>> files;    // at the start

  Sc(int p, vp::Rng& r) {
    static const int lim[][2] = {{9, 9}, {0, 9}, {0, 0}, {1, 0}, {0, 1}, {1, 9}};
    fam = p % 4;
    int li = p / 4 % 6;
    if (fam >= 2 && (li == 2 || li == 3 || li == 4)) li = li == 2 ? 0 : li == 3 ? 1 : 5;
    M = lim[li][0]; F = lim[li][1];
    kind[0] = p / 4 % 12; kind[1] = r.one(2) ? kind[0] : r.upto(12);
    weak = p / 24 % 2;
    first = fam != 0 && r.one(2);
    share = fam == 0 || (fam == 1 && !first);
    nt = fam == 0 ? 2 + r.upto(2) : 2 + r.one(3);
    prog.resize(nt + 1);
    files = {{"s0", 7}, {"f0", 5}};
    if (r.one(2)) files.push_back({"f1", 2 + (int)r.upto(9)});
    if (r.one(2)) files.push_back({"w0", 3});
    if (r.one(4)) files.push_back({"f2", 0});
    for (int t = 1; t <= nt; t++) {
      int n = nt == 2 ? 2 + r.upto(3) : 1 + r.upto(2);
      std::vector<char> have;
      for (int i = 0; i < n; i++) Add(t, r, have);
    }
  }
  void Push(int t, const std::string& o, const std::string& n, const std::string& to = "", int h = 0, int off = 0, int len = 0) {
    prog[t].push_back(Op{o, n, to, h, off, len});
  }
  void Add(int t, vp::Rng& r, std::vector<char>& have) {
    static const char* fs[] = {"f0", "f0", "f1", "f2"};
    static const char* ws[] = {"w0", "w1"};
    std::string f = fs[r.upto(4)], w = ws[r.upto(2)], any = r.one(3) ? w : f;
    if (fam == 0) {                                  // one file, many readers
      Push(t, "rread", "", "", 0, r.upto(9), 1 + r.upto(6));
      return;
    }
    if (fam == 1) {                                  // readers of files that stay
      int x = r.upto(10);
      if (share && x < 4) { Push(t, "rread", "", "", 0, r.upto(9), 1 + r.upto(6)); return; }
      if (have.empty() || x == 9) { Push(t, r.one(2) ? "randopen" : "seqopen", "s0"); have.push_back(1); return; }
      Push(t, "read", "", "", 1 + r.upto(have.size()), r.upto(8), 1 + r.upto(6));
      return;
    }
    if (fam == 2) {                                  // opening against renaming, removing, appending
      if (t == 1 && prog[t].empty()) { Push(t, r.upto(4) ? "randopen" : "seqopen", "f0"); have.push_back(1); Push(t, "read", "", "", 1, 0, 4); Push(t, "read", "", "", 1, r.upto(5), 2 + r.upto(8)); return; }
      int x = r.upto(8);
      if (t != 1 && x < 3) { Push(t, "rename", r.one(2) ? "f1" : "w0", "f0"); return; }
      if (t != 1 && x < 4) { Push(t, "remove", "f0"); return; }
      if (t != 1 && x < 6) { Push(t, "append", "f0"); have.push_back(2); Push(t, "app", "", "", (int)have.size(), 0, 1 + r.upto(3)); return; }
    }
    int x = r.upto(20);                              // anything, mostly of two kinds
    if (r.one(4) == 0) { f = "f0"; any = r.one(4) ? "w0" : "f0"; w = "w0"; }
    if (!have.empty() && x < 5) {
      Push(t, r.one(8) ? "close" : have.back() == 1 ? "read" : "app", "", "", (int)have.size(), r.upto(6), 1 + r.upto(5));
      return;
    }
    switch (r.upto(4) ? kind[r.upto(2)] : (int)r.upto(12)) {
      case 0: Push(t, "exists", any); break;
      case 1: Push(t, "size", any); break;
      case 2: Push(t, "list", ""); break;
      case 3: Push(t, "remove", any); break;
      case 4: Push(t, "rename", any, f); break;
      case 5: Push(t, "mkdir", "d0"); break;
      case 6: Push(t, "rmdir", "d0"); break;
      case 7: Push(t, "create", w); have.push_back(2); break;
      case 8: Push(t, "append", any); have.push_back(2); break;
      case 9: Push(t, "seqopen", any); have.push_back(1); break;
      case 10: Push(t, "randopen", f); have.push_back(1); break;
      default: Push(t, "rename", w, f); break;
    }
  }
  int Threads() override { return nt; }
  bool Weak() override { return weak; }
  void Setup() override {
    {
      ds::Quiet q;
      for (auto& v : han) v.reserve(64);
      g_dir = std::string(getenv("VP_DIR")) + "/px" + std::to_string(getpid());
      mkdir(g_dir.c_str(), 0755);
      std::string fj = "[";
      int id = 0;
      for (auto& f : files) {
        int fd = __real_open(Path(f.first).c_str(), O_WRONLY | O_CREAT, 0644);
        std::string c;
        for (int i = 0; i < f.second; i++) c += (char)(16 * (id + 1) + i);
        if ((int)__real_write(fd, c.data(), c.size()) != (int)c.size()) _exit(77);
        __real_close(fd);
        Ev e("F"); e.s("n", f.first).bytes("d", c.data(), c.size());
        if (id++) fj += ",";
        fj += e.text();
      }
      EnvPosixTest::Fd(F); EnvPosixTest::Map(M);
      Ev("Reset").i("n", nt).raw("files", fj + "]").out();
    }
    if (!first) env = Env::Default();
    if (share) {
      Status st = env->NewRandomAccessFile(Path("s0"), &shared);
      if (!st.ok()) { ds::Quiet q; Ev("Crash").s("what", "cannot open the shared file").out(); _exit(99); }
    }
  }
  Ev Call(const Op& o, int h) {
    Ev e("Call");
    e.i("t", ds::Self()).s("o", o.o).s("n", o.n).s("to", o.to).i("h", h).i("off", o.off).i("len", o.len);
    return e;
  }
  void Do(const Op& o0) {
    int t = ds::Self();
    Op o = o0;
    H* h = nullptr;
    std::string data;
    int hid = 0;
    Env* e = nullptr;
    char buf[64];
    {
      ds::Quiet q;
      if (o.h) {
        if (han[t].size() < (size_t)o.h) return;
        h = &han[t][o.h - 1];
        if (!h->p) return;
        hid = h->id;
        if (o.o == "read") o.o = h->k == 'r' ? "rread" : h->k == 's' ? "sread" : "app";
        else if (o.o == "app") o.o = h->k == 'w' ? "app" : h->k == 'r' ? "rread" : "sread";
        if (o.o == "app") for (int i = 0; i < o.len; i++) data += (char)(128 + t * 16 + wrote[t]++ % 16);
      } else if (o.o == "randopen" || o.o == "seqopen" || o.o == "create" || o.o == "append") hid = t * 10 + ++nexth[t];
      Call(o, hid).bytes("d", data.data(), data.size()).out();
    }
    const char* st = "ok"; bool null = false; long long r = 0; std::string got; std::vector<std::string> names;
    void* out = nullptr; char k = 0;
    {
      Status s; Slice x;
      uint64_t sz = 0;
      std::string path, to;
      { ds::Quiet q; path = o.n.empty() ? g_dir : Path(o.n); to = Path(o.to); }
      t_op = true;
      if (first) e = seen[t] = Env::Default(); else e = env;
      if (o.o == "exists") r = e->FileExists(path);
      else if (o.o == "size") { s = e->GetFileSize(path, &sz); r = sz; }
      else if (o.o == "list") s = e->GetChildren(path, &names);
      else if (o.o == "remove") s = e->RemoveFile(path);
      else if (o.o == "rename") s = e->RenameFile(path, to);
      else if (o.o == "mkdir") s = e->CreateDir(path);
      else if (o.o == "rmdir") s = e->RemoveDir(path);
      else if (o.o == "randopen") { RandomAccessFile* p = reinterpret_cast<RandomAccessFile*>(8); s = e->NewRandomAccessFile(path, &p); out = p; k = 'r'; }
      else if (o.o == "seqopen") { SequentialFile* p = reinterpret_cast<SequentialFile*>(8); s = e->NewSequentialFile(path, &p); out = p; k = 's'; }
      else if (o.o == "create") { WritableFile* p = reinterpret_cast<WritableFile*>(8); s = e->NewWritableFile(path, &p); out = p; k = 'w'; }
      else if (o.o == "append") { WritableFile* p = reinterpret_cast<WritableFile*>(8); s = e->NewAppendableFile(path, &p); out = p; k = 'w'; }
      else if (o.o == "rread") { RandomAccessFile* p = h ? static_cast<RandomAccessFile*>(h->p) : shared; s = p->Read(o.off, o.len, &x, buf); }
      else if (o.o == "sread") s = static_cast<SequentialFile*>(h->p)->Read(o.len, &x, buf);
      else if (o.o == "app") { s = static_cast<WritableFile*>(h->p)->Append(Slice(data)); if (s.ok()) s = static_cast<WritableFile*>(h->p)->Flush(); }
      else if (o.o == "close") {
        if (h->k == 'r') delete static_cast<RandomAccessFile*>(h->p);
        else if (h->k == 's') delete static_cast<SequentialFile*>(h->p);
        else { s = static_cast<WritableFile*>(h->p)->Close(); delete static_cast<WritableFile*>(h->p); }
      }
      t_op = false;
      st = St(s);
      ds::Quiet q;
      if (s.ok() && (o.o == "rread" || o.o == "sread")) got = x.ToString();
    }
    ds::Quiet q;
    if (o.o == "close") h->p = nullptr;
    if (k) { null = out == nullptr; H n; n.id = hid; n.k = k; n.p = !strcmp(st, "ok") ? out : nullptr; han[t].push_back(n); }
    std::sort(names.begin(), names.end());
    Ev("Ret").i("t", t).s("st", st).b("null", null).i("r", r).bytes("got", got.data(), got.size()).ls("names", names).out();
  }
  void Body(int t) override { for (auto& o : prog[t]) Do(o); }
  void Finish() override {
    std::vector<H> all;
    bool same = true;
    for (int t = 1; t <= nt; t++) {
      for (auto& h : han[t]) if (h.p) { han[0].push_back(h); }
      if (first && seen[t] && seen[t] != Env::Default()) same = false;
    }
    if (!env) env = Env::Default();
    first = false;
    int n = han[0].size();
    for (int i = 1; i <= n; i++) {
      Op o{"read", "", "", i, 0, 3};
      if (han[0][i - 1].k != 'w') Do(o);
      Do(Op{"close", "", "", i, 0, 0});
    }
    if (shared) { Do(Op{"rread", "", "", 0, 0, 7}); delete shared; }
    ds::Quiet q;
    std::string fj = "[";
    DIR* d = __real_opendir(g_dir.c_str());
    std::vector<std::string> ns;
    while (struct dirent* x = readdir(d)) if (x->d_name[0] != '.') ns.push_back(x->d_name);
    __real_closedir(d);
    std::sort(ns.begin(), ns.end());
    for (auto& x : ns) {
      std::string c;
      bool dir = x[0] == 'd';
      if (!dir) { int fd = __real_open(Path(x).c_str(), O_RDONLY); char b[256]; ssize_t k; while ((k = __real_read(fd, b, 256)) > 0) c.append(b, k); __real_close(fd); __real_unlink(Path(x).c_str()); }
      else __real_rmdir(Path(x).c_str());
      Ev e("F"); e.s("n", x).b("dir", dir).bytes("d", c.data(), c.size());
      if (fj.size() > 1) fj += ",";
      fj += e.text();
    }
    Ev("End").b("same", same).raw("files", fj + "]").out();
    __real_rmdir(g_dir.c_str());
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
