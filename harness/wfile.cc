// Driver for the POSIX writable file (C11, C12).
//   wfile rand <seed> <scenarios> <ops>
//   wfile tour <seed>       (programs on stdin: tokens of spec/BufFileMC)
#include <deque>
#include <iostream>
#include <sstream>
#include "faults.h"
#include "huge.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"

using namespace lsmdb;
using vp::Ev;
using vp::Outcome;

static const size_t kBuf = 65536;
static std::string g_dir;
static std::string g_path, g_dpath;          // real path of the file and of its directory
static std::deque<Outcome> g_plan;           // outcomes of write/sync/dir open/close, in order
static int g_pct = 0;                        // random mode: chance of a fault per call, percent
static vp::Rng* g_rng;
static bool g_tour;

static vp::UnitRle* g_virt;     // huge mode: the file's contents, kept here instead of on disk
static const size_t kU = 4096;
static bool Same(const struct stat& a, const struct stat& b) { return a.st_dev == b.st_dev && a.st_ino == b.st_ino; }
static std::string Cls(int fd, const char* path) {
  struct stat f, d, x;
  bool hf = __real_stat(g_path.c_str(), &f) == 0, hd = __real_stat(g_dpath.c_str(), &d) == 0;
  int r = fd >= 0 || !path ? __real_fstat(fd, &x) : __real_stat(path, &x);
  if (r != 0) return fd < 0 && path ? "none" : "badfd";
  if (hf && Same(f, x)) return "file";
  if (hd && Same(d, x)) return "dir";
  return "other";
}
static std::string Content() {
  int fd = __real_open(g_path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return "";
  struct stat s; __real_fstat(fd, &s);
  std::string b(s.st_size, 0);
  size_t got = 0;
  while (got < b.size()) { ssize_t k = __real_read(fd, &b[got], b.size() - got); if (k <= 0) break; got += k; }
  b.resize(got);
  __real_close(fd);
  return b;
}
static std::string ContentRle() {
  if (g_virt) return g_virt->text();
  std::string c = Content();
  return Ev::Rle(c.data(), c.size());
}
static int OpenFds() {
  int n = 0;
  DIR* d = __real_opendir("/proc/self/fd");
  struct stat f;
  if (!d) _exit(77);
  if (__real_stat(g_path.c_str(), &f) != 0) { __real_closedir(d); return 0; }
  while (struct dirent* e = readdir(d)) {
    struct stat x;
    if (e->d_name[0] == '.') continue;
    if (__real_fstat(atoi(e->d_name), &x) == 0 && Same(f, x)) n++;
  }
  __real_closedir(d);
  return n;
}
static bool Significant(const char* c, const std::string& cls) {
  if (!strcmp(c, "write")) return cls == "file";
  if (!strcmp(c, "sync")) return true;
  if (!strcmp(c, "open")) return cls == "dir";
  if (!strcmp(c, "close")) return cls == "file";
  return false;
}
static bool g_inj;     // the outcome of the current call was decided here
static Outcome Choose1(const char* c, const std::string& cls, long long n) {
  Outcome o;
  if (!Significant(c, cls)) return o;
  if (g_tour) {
    if (g_plan.empty()) return o;
    o = g_plan.front(); g_plan.pop_front();
    if (o.k == Outcome::kShort) {
      if (strcmp(c, "write")) return Outcome();
      o.arg = std::min<long long>(std::max<long long>(1, o.arg), std::max<long long>(1, n - 1));
    }
    if (o.k == Outcome::kErr && o.arg == EINTR && strcmp(c, "write")) return Outcome();
    return o;
  }
  if ((int)g_rng->upto(100) >= g_pct) return o;
  static const int errs[] = {EIO, ENOSPC, EDQUOT, EBADF, ENOENT, EINVAL, EFBIG, EAGAIN};
  if (!strcmp(c, "write")) {
    int w = g_rng->upto(10);
    if (w < 4 && n > 1) { o.k = Outcome::kShort; o.arg = g_rng->one(3) ? 1 : g_rng->one(2) ? n - 1 : g_rng->range(1, n - 1); return o; }
    if (w < 7) { o.k = Outcome::kErr; o.arg = EINTR; return o; }
    if (w < 8) { o.k = Outcome::kShort; o.arg = 0; return o; }       // nothing was written
  } else if (!g_rng->one(3)) return o;
  o.k = Outcome::kErr; o.arg = errs[g_rng->upto(8)];
  return o;
}
static Outcome Choose(const char* c, const std::string& cls, long long n) {
  Outcome o = Choose1(c, cls, n);
  if (g_virt && o.k == Outcome::kShort && o.arg) { o.arg = (o.arg + kU - 1) / kU * kU; if (o.arg >= n) o = Outcome(); }
  g_inj = o.k != Outcome::kPass;
  return o;
}
static std::string g_pending;  // huge mode: of successive successful writes the last one is recorded
static void Flush() {
  if (!g_pending.empty()) vp::RawWrite(g_pending.data(), g_pending.size());
  g_pending.clear();
}
static void Seen(const char* c, const std::string& cls, long long r, int err) {
  if (!strcmp(c, "stat") || !strcmp(c, "lseek")) return;
  Ev e("Sys");
  e.s("c", c).s("f", cls).i("ret", std::min<long long>(r, 2000000000)).i("err", err).b("intr", err == EINTR).b("inj", g_inj);
  if (!strcmp(c, "write") && cls == "file" && r > 0) {
    e.raw("c2", ContentRle());
    if (g_virt) { g_pending = e.text() + "\n"; return; }
  }
  Flush();
  e.out();
}

struct File {
  WritableFile* w = nullptr;
  bool closed = false;
  int val = 0;
  // name: as given to the environment; real: where it lives
  bool Open(const std::string& name, const std::string& real, const std::string& dreal, bool app, const std::string& base, bool manifest) {
    g_path = real; g_dpath = dreal;
    __real_unlink(real.c_str());
    if (!base.empty()) {
      int fd = __real_open(real.c_str(), O_CREAT | O_WRONLY, 0644);
      if (fd < 0 || __real_write(fd, base.data(), base.size()) != (ssize_t)base.size()) _exit(77);
      __real_close(fd);
    }
    Ev("Reset").rle("base", app ? base.data() : "", app ? base.size() : 0).b("man", manifest).s("name", name).out();
    vp::SetOp("open %s", name.c_str());
    Status s;
    { vp::Arm a; s = app ? Env::Default()->NewAppendableFile(name, &w) : Env::Default()->NewWritableFile(name, &w); }
    Ret("open", s);
    return s.ok() && w;
  }
  void Ret(const char* op, const Status& s) {
    Flush();
    Ev("Ret").s("o", op).b("ok", s.ok()).i("fds", OpenFds()).raw("c", ContentRle()).out();
  }
  void Call(const char* op, const std::string& d = "") {
    vp::SetOp("%s %zu", op, d.size());
    Ev("Call").s("o", op).rle("d", d.data(), d.size()).out();
    Status s;
    std::string note;
    char* p = nullptr;
    if (op[0] == 'a') { p = new char[d.size() + 1]; memcpy(p, d.data(), d.size()); }
    {
      vp::Arm a;
      switch (op[0]) {
        case 'a': s = w->Append(Slice(p, d.size())); break;
        case 'f': s = w->Flush(); break;
        case 's': s = w->Sync(); break;
        case 'c': s = w->Close(); break;
        default: delete w; w = nullptr;
      }
    }
    if (p) { memset(p, 0xEE, d.size()); delete[] p; }
    Ret(op, s);
  }
  std::string Data(vp::Rng& r, size_t n) {
    std::string b;
    int runs = n < 4 ? 4 : 1 + r.upto(4);
    while (b.size() < n) {
      size_t k = runs-- > 1 ? r.upto(n - b.size()) + 1 : n - b.size();
      b.append(k, (char)(val++ % 251));
      if (r.one(2)) val += 3;
    }
    return b;
  }
};

// One append of more than 2 or 4 GiB among small ones; all lengths multiples
// of 4 KiB.  A write takes at most what Linux takes, or less.
static void Huge(uint64_t seed, int n) {
  vp::Rng r(seed);
  g_rng = &r;
  const size_t G2 = (1ull << 31) / kU, G4 = (1ull << 32) / kU;
  static const size_t big[] = {G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 33, G4 + 17, 0x7ffff, 0x80010};
  vp::Sink() = [](int fd, const void* b, long long n, long long off) -> long long {
    if (!g_virt || Cls(fd, nullptr) != "file") return -1;
    size_t have = 0;
    for (auto& x : g_virt->runs) have += x.second;
    if (off >= 0 && (size_t)off != have * kU) g_virt->whole = false;
    long long m = std::min<long long>(n, 0x7ffff000);
    g_virt->add((const char*)b, m);
    return m;
  };
  for (int i = 0; i < n; i++) {
    vp::UnitRle virt(kU);
    File f;
    int val = 0;
    g_pct = 0;
    g_virt = &virt;
    if (!f.Open(g_dir + "/D/plain", g_dir + "/D/plain", g_dir + "/D", r.one(3), "", false)) { g_virt = nullptr; continue; }
    g_pct = i >= 9 ? 20 : 0;
    auto app = [&](size_t units) {
      unsigned char v = ++val;
      vp::SetOp("append of %zu units", units);
      Ev("Call").s("o", "append").raw("d", units ? "[[" + std::to_string(v) + "," + std::to_string(units) + "]]" : "[]").out();
      char* p = vp::Repeat((units ? units : 1) * kU, v);
      Status s;
      { vp::Arm a; s = f.w->Append(Slice(p, units * kU)); }
      vp::Unmap(p, (units ? units : 1) * kU);
      f.Ret("append", s);
    };
    for (int k = r.upto(3); k > 0; k--) app(r.upto(20));
    app(big[(seed + i) % 9]);
    for (int k = r.upto(3); k > 0; k--) app(r.upto(20));
    if (r.one(2)) f.Call(r.one(2) ? "flush" : "sync");
    if (r.one(3)) app(big[r.upto(9)]);
    if (r.one(2)) f.Call("close");
    f.Call("destroy");
    f.Ret("end", Status::OK());
    g_virt = nullptr;
    __real_unlink(g_path.c_str());
  }
  vp::Sink() = nullptr;
}

struct Name { const char* name; const char* real; const char* dir; bool man; };
// names given to the environment, where they live, and their directory
static const Name kNames[] = {
  {"D/plain", "D/plain", "D", false}, {"D/MANIFEST-000001", "D/MANIFEST-000001", "D", true},
  {"MANIFEST-7", "MANIFEST-7", ".", true}, {"plain.log", "plain.log", ".", false},
  {"/MANIFEST-3", "root/MANIFEST-3", "root", true}, {"/plain", "root/plain", "root", false},
  {"MANIFEST-d/000005.log", "MANIFEST-d/000005.log", "MANIFEST-d", false},
  {"D/xMANIFEST", "D/xMANIFEST", "D", false}, {"D/MANIFEST", "D/MANIFEST", "D", true},
  {"D/MANIFES", "D/MANIFES", "D", false}, {"D//MANIFEST-2", "D/MANIFEST-2", "D", true},
  {"./MANIFEST-8", "MANIFEST-8", ".", true}, {"D/manifest-1", "D/manifest-1", "D", false},
  {"D/../D/E/MANIFESTO", "D/E/MANIFESTO", "D/E", true}, {"/D2/MANIFEST-1", "root/D2/MANIFEST-1", "root/D2", true},
  {"D/E/CURRENT", "D/E/CURRENT", "D/E", false}, {"ABS/D/MANIFEST-5", "D/MANIFEST-5", "D", true},
  {"M", "M", ".", false}, {"MANIFEST", "MANIFEST", ".", true},
#define VP_L "LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL"
#define VP_D VP_L "/" VP_L
  {VP_D "/MANIFEST-000009", VP_D "/MANIFEST-000009", VP_D, true}, {VP_D "/MANIFEST", VP_D "/MANIFEST", VP_D, true},
  {VP_D "/plain", VP_D "/plain", VP_D, false}, {"D/MANIFEST-" VP_L, "D/MANIFEST-" VP_L, "D", true},
  {VP_D "/x" VP_L "MANIFEST", VP_D "/x" VP_L "MANIFEST", VP_D, false}, {"ABS/" VP_D "/MANIFEST-" VP_L, VP_D "/MANIFEST-" VP_L, VP_D, true},
  {"D////////////////////////////////////////////////////////////MANIFEST-1", "D/MANIFEST-1", "D", true},
};
static const int kNNames = sizeof kNames / sizeof *kNames;

static std::string Base(vp::Rng& r) { return r.one(2) ? std::string() : std::string(1 + r.upto(9), '\xfe') + std::string(r.one(2) ? 0 : 65530 + r.upto(10), '\xfd'); }

static bool OpenName(File& f, vp::Rng& r, const Name& n, bool app) {
  std::string name = n.name;
  if (name.compare(0, 4, "ABS/") == 0) name = g_dir + name.substr(3);
  return f.Open(name, g_dir + "/" + n.real, g_dir + "/" + n.dir, app, Base(r), n.man);
}

static size_t Size(vp::Rng& r) {
  switch (r.upto(8)) {
    case 0: return r.upto(3);
    case 1: return r.upto(200);
    case 2: return kBuf - 2 + r.upto(5);
    case 3: return 2 * kBuf - 2 + r.upto(5);
    case 4: return r.upto(kBuf);
    case 5: return r.upto(3 * kBuf);
    case 6: return r.upto(5000);
    default: return 40000 + r.upto(30000);
  }
}

static void Rand(uint64_t seed, int n, int ops) {
  vp::Rng r(seed);
  g_rng = &r;
  for (int i = 0; i < n; i++) {
    File f;
    g_pct = 0;
    const Name& nm = kNames[i < 2 * kNNames ? i % kNNames : r.upto(kNNames)];
    if (!OpenName(f, r, nm, r.one(3))) continue;
    static const int pcts[] = {0, 0, 10, 30, 60};
    g_pct = pcts[r.upto(5)];
    size_t total = 0;
    for (int k = 0; k < ops && total < 500000; k++) {
      int o = r.upto(12);
      if (o < 8) {
        size_t z = Size(r);
        if (r.one(6) && total % kBuf) z = kBuf - total % kBuf + r.upto(2);
        total += z; f.Call("append", f.Data(r, z));
      } else if (o < 9) f.Call("flush");
      else f.Call("sync");
    }
    if (r.one(2)) f.Call("close");
    f.Call("destroy");
    f.Ret("end", Status::OK());
    __real_unlink(g_path.c_str());
  }
}

static void Tour(uint64_t seed) {
  vp::Rng r(seed);
  g_rng = &r; g_tour = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string t;
    std::vector<std::string> ops;
    bool man = false;
    g_plan.clear();
    static const int errs[] = {EIO, ENOSPC, EACCES, EFBIG};
    while (is >> t) {
      if (t == "man") man = true;
      else if (t == "plain") man = false;
      else if (t[0] == 'w') {
        Outcome o;
        if (t[1] == 'i') { o.k = Outcome::kErr; o.arg = EINTR; }
        else if (t[1] == 'e') { o.k = Outcome::kErr; o.arg = errs[r.upto(4)]; }
        else if (t[1] == 's') { o.k = Outcome::kShort; o.arg = atoi(t.c_str() + 2) * (kBuf / 2) - r.upto(2); }
        g_plan.push_back(o);
      } else if (t[0] == 'y') { Outcome o; if (t[1] == 'e') { o.k = Outcome::kErr; o.arg = errs[r.upto(4)]; } g_plan.push_back(o); }
      else ops.push_back(t);
    }
    File f;
    std::deque<Outcome> keep; keep.swap(g_plan);
    if (!OpenName(f, r, man ? kNames[1] : kNames[0], r.one(2))) continue;
    keep.swap(g_plan);
    bool gone = false;
    for (auto& o : ops) {
      if (o[0] == 'a') {
        int u = atoi(o.c_str() + 1);
        long long z = u * (long long)(kBuf / 2) + (u ? r.range(-1, 1) * (int)r.upto(2) : 0);
        f.Call("append", f.Data(r, z));
      } else if (o == "flush") f.Call("flush");
      else if (o == "sync") f.Call("sync");
      else if (o == "close") f.Call("close");
      else if (o == "destroy") { f.Call("destroy"); gone = true; }
    }
    if (!gone) f.Call("destroy");
    f.Ret("end", Status::OK());
    __real_unlink(g_path.c_str());
  }
}

int main(int argc, char** argv) {
  vp::InitTrace();
  const char* d = getenv("VP_DIR");
  if (!d) return 77;
  g_dir = d;
  for (const char* s : {"D", "D/E", "MANIFEST-d", "root", "root/D2", VP_L, VP_D}) if (__real_mkdir((g_dir + "/" + s).c_str(), 0755) != 0 && errno != EEXIST) return 77;
  Env::Default();
  vp::Classify() = Cls; vp::Decide() = Choose; vp::After() = Seen;
  vp::MapName() = [](const char* p) -> std::string {
    std::string s = p;
    if (!s.empty() && s[0] == '/' && s.compare(0, g_dir.size(), g_dir) != 0) return g_dir + "/root" + s;
    return s;
  };
  uint64_t seed = strtoull(argv[2], 0, 10);
  if (std::string(argv[1]) == "huge") Huge(seed, atoi(argv[3]));
  else if (std::string(argv[1]) == "rand") Rand(seed, atoi(argv[3]), atoi(argv[4]));
  else Tour(seed);
  return 0;
}
