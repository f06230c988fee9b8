// Driver for reading through the POSIX environment (C15, C16).
//   rfile read <seed> <scenarios> <ops> <mmap limit> <fd limit>
//   rfile limits <seed> <scenarios> <ops> <mmap limit> <fd limit | -rlimit>
//   rfile huge <seed> <scenarios> <ops> <mmap limit> <fd limit>      (in units of 4 KiB)
//   rfile tour <seed> <mmap limit> <fd limit>      (programs on stdin)
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include "faults.h"
#include "huge.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"

namespace lsmdb {
class EnvPosixTest {
 public:
  static void Fd(int n) { EnvPosixTestHelper::SetReadOnlyFDLimit(n); }
  static void Map(int n) { EnvPosixTestHelper::SetReadOnlyMMapLimit(n); }
};
}  // namespace lsmdb
using namespace lsmdb;
using vp::Ev;
using vp::Outcome;

static std::string g_dir;
static vp::Rng* g_rng;
static std::deque<std::pair<std::string, Outcome>> g_next;   // faults for the coming call
static int g_inj, g_intr;
static Outcome Choose(const char* c, const std::string&, long long n) {
  for (size_t i = 0; i < g_next.size(); i++)
    if (g_next[i].first == c) {
      Outcome o = g_next[i].second;
      g_next.erase(g_next.begin() + i);
      if (o.k == Outcome::kShort) { if (n < 2) return Outcome(); o.arg = 1 + o.arg % (n - 1); return o; }
      if (o.k == Outcome::kErr) { if (o.arg == EINTR) g_intr++; else g_inj++; }
      return o;
    }
  return Outcome();
}
static long long Clip(uint64_t v) { return v > 2000000000ull ? 2000000000ll : (long long)v; }
static const char* St(const Status& s) { return s.ok() ? "ok" : s.IsNotFound() ? "nf" : s.IsIOError() ? "io" : "other"; }

// descriptors and mappings of files in the scratch directory's data folder
static void Held(int* fds, int* maps) {
  *fds = *maps = 0;
  std::string pre = g_dir + "/data/";
  DIR* d = __real_opendir("/proc/self/fd");
  if (!d) _exit(77);
  while (struct dirent* e = readdir(d)) {
    char b[512];
    if (e->d_name[0] == '.') continue;
    ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b - 1);
    if (k > 0 && std::string(b, k).compare(0, pre.size(), pre) == 0) (*fds)++;
  }
  __real_closedir(d);
  FILE* f = fopen("/proc/self/maps", "r");
  if (!f) _exit(77);
  char line[1024];
  while (fgets(line, sizeof line, f)) if (strstr(line, pre.c_str())) (*maps)++;
  fclose(f);
}
static std::string Path(const std::string& n) { return g_dir + "/data/" + n; }
static void Put(const std::string& n, const std::string& c, bool app = false) {
  int fd = __real_open(Path(n).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | (app ? O_APPEND : O_TRUNC), 0644);
  if (fd < 0 || __real_write(fd, c.data(), c.size()) != (ssize_t)c.size()) _exit(77);
  __real_close(fd);
}
static std::string Data(vp::Rng& r, size_t n) {
  std::string b;
  int runs = 1 + r.upto(6);
  int v = r.upto(200);
  while (b.size() < n) {
    size_t k = runs-- > 1 ? 1 + r.upto(std::min<size_t>(n - b.size(), 1 + n / 3)) : n - b.size();
    b.append(k, (char)(v++ % 251));
  }
  return b;
}

struct H { int id; std::string f; SequentialFile* s; RandomAccessFile* r; };
struct Sess {
  vp::Rng& r;
  bool counts;
  std::map<std::string, std::string> files;
  std::vector<H> hs;
  int next = 0;
  Sess(vp::Rng& rr, bool c) : r(rr), counts(c) {
    Ev("Reset").out();
    static const size_t sizes[] = {0, 1, 10, 4095, 4096, 4097, 8192, 70000, 100};
    for (int i = 0; i < 6; i++) File("f" + std::to_string(i), Data(r, i == 0 && r.one(2) ? 0 : sizes[r.upto(9)]));
  }
  ~Sess() {
    while (!hs.empty()) Close(hs.size() - 1);
    for (auto& f : files) __real_unlink(Path(f.first).c_str());
  }
  void File(const std::string& n, const std::string& c) { files[n] = c; Put(n, c); Ev("File").s("n", n).rle("c", c.data(), c.size()).out(); }
  void Grow(const std::string& n, const std::string& c) { files[n] += c; Put(n, c, true); Ev("Grow").s("n", n).rle("c", c.data(), c.size()).out(); }
  void Fin(Ev& e) {
    e.i("inj", g_inj).i("intr", g_intr);
    if (counts) { int f, m; Held(&f, &m); e.i("fds", f).i("maps", m); }
    e.out();
    g_next.clear(); g_inj = g_intr = 0;
  }
  void Open(char k, const std::string& n) {
    vp::SetOp("open %c %s", k, n.c_str());
    H h{++next, n, nullptr, nullptr};
    Status s;
    bool null;
    {
      vp::Arm a;
      if (k == 's') { h.s = (SequentialFile*)8; s = Env::Default()->NewSequentialFile(Path(n), &h.s); null = !h.s; }
      else { h.r = (RandomAccessFile*)8; s = Env::Default()->NewRandomAccessFile(Path(n), &h.r); null = !h.r; }
    }
    Ev e("Open");
    e.s("k", std::string(1, k)).s("n", n).i("h", h.id).s("st", St(s)).b("null", null);
    if (s.ok() && !null) hs.push_back(h);
    Fin(e);
  }
  void SRead(int i, size_t n) {
    vp::SetOp("sread %d %zu", hs[i].id, n);
    size_t cap = std::min<size_t>(n, 200000);
    char* p = new char[cap ? cap : 1];
    Slice x("junk", 4);
    Status s;
    { vp::Arm a; s = hs[i].s->Read(n, &x, p); }
    Ev e("SRead");
    e.i("h", hs[i].id).i("len", Clip(n)).s("st", St(s));
    if (s.ok()) e.rle("d", x.data(), x.size());
    delete[] p;
    Fin(e);
  }
  void Skip(int i, uint64_t n) {
    vp::SetOp("skip %d %llu", hs[i].id, (unsigned long long)n);
    Status s;
    { vp::Arm a; s = hs[i].s->Skip(n); }
    Ev e("Skip");
    e.i("h", hs[i].id).i("len", Clip(n)).b("huge", n > (1ull << 62)).s("st", St(s));
    Fin(e);
  }
  void RRead(int i, uint64_t off, size_t n) {
    vp::SetOp("rread %d %llu %zu", hs[i].id, (unsigned long long)off, n);
    size_t cap = std::min<size_t>(n, 200000);
    char* p = new char[cap ? cap : 1];
    Slice x("junk", 4);
    Status s;
    { vp::Arm a; s = hs[i].r->Read(off, n, &x, p); }
    Ev e("RRead");
    e.i("h", hs[i].id).i("off", Clip(off)).i("len", Clip(n)).s("st", St(s));
    if (s.ok()) e.i("n", Clip(x.size())).rle("d", x.data(), std::min<size_t>(x.size(), 400000));
    delete[] p;
    Fin(e);
  }
  void Close(int i) {
    vp::SetOp("close %d", hs[i].id);
    H h = hs[i];
    hs.erase(hs.begin() + i);
    { vp::Arm a; delete h.s; delete h.r; }
    Ev e("Close");
    e.i("h", h.id);
    Fin(e);
  }
  int Pick(char k) {
    std::vector<int> c;
    for (size_t i = 0; i < hs.size(); i++) if ((hs[i].s != nullptr) == (k == 's')) c.push_back(i);
    return c.empty() ? -1 : c[r.upto(c.size())];
  }
};

static void Plan(vp::Rng& r, const char* c, bool intr, bool shrt) {
  static const int errs[] = {EIO, ENOENT, ENOMEM, EACCES, EMFILE, EINVAL, EAGAIN};
  int k = 1 + r.upto(3);
  if (intr && r.one(2)) { while (k--) { Outcome o; o.k = Outcome::kErr; o.arg = EINTR; g_next.push_back({c, o}); } if (r.one(2)) return; }
  Outcome o;
  if (shrt && r.one(2)) { o.k = Outcome::kShort; o.arg = r.upto(100000); }
  else { o.k = Outcome::kErr; o.arg = errs[r.upto(7)]; }
  g_next.push_back({c, o});
}

static uint64_t Big(vp::Rng& r) {
  static const uint64_t b[] = {~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 5, 1ull << 62, 1ull << 32, (1ull << 31), ~0ull - 4096, ~0ull - 9};
  return b[r.upto(10)] - (r.one(3) ? r.upto(70) : 0);
}
static size_t Near(vp::Rng& r, size_t size, uint64_t pos) {
  switch (r.upto(6)) {
    case 0: return r.upto(4);
    case 1: return size > pos ? size - pos : 0;
    case 2: return (size > pos ? size - pos : 0) + 1;
    case 3: return size > pos + 1 ? size - pos - 1 : 0;
    case 4: return r.upto(size + 20);
    default: return r.upto(5000);
  }
}

static void Read(uint64_t seed, int n, int ops) {
  vp::Rng r(seed);
  g_rng = &r;
  for (int i = 0; i < n; i++) {
    Sess s(r, true);
    for (int k = 0; k < ops; k++) {
      int o = r.upto(20);
      std::string f = "f" + std::to_string(r.upto(6));
      int hs = s.Pick('s'), hr = s.Pick('r');
      size_t sz = hs >= 0 ? s.files[s.hs[hs].f].size() : 0;
      if (o < 2 && s.hs.size() < 9) s.Open('s', f);
      else if (o < 5 && s.hs.size() < 9) { if (r.one(8)) { static const char* const w[] = {"open", "stat", "mmap"}; Plan(r, w[r.upto(3)], false, false); } s.Open('r', f); }
      else if (o < 6 && !s.hs.empty()) s.Close(r.upto(s.hs.size()));
      else if (o < 7) {
        // an unbuffered file may grow while it is read sequentially
        std::string g = "g" + std::to_string(r.upto(2));
        if (!s.files.count(g)) s.File(g, Data(r, r.upto(50))); else s.Grow(g, Data(r, 1 + r.upto(60)));
        if (s.hs.size() < 10 && r.one(2)) s.Open('s', g);
      } else if (o < 11 && hs >= 0) { if (r.one(4)) Plan(r, "read", true, true); s.SRead(hs, Near(r, sz, r.upto(sz + 1))); }
      else if (o < 14 && hs >= 0) s.Skip(hs, r.one(4) ? Big(r) : Near(r, sz, r.upto(sz + 1)));
      else if (hr >= 0) {
        size_t z = s.files[s.hs[hr].f].size();
        uint64_t off = r.one(6) ? Big(r) : r.upto(z + 3);
        uint64_t len = r.one(8) ? Big(r) : Near(r, z, off);
        if (off > (1ull << 31) && r.one(2)) len = r.one(2) ? 0 - off + r.upto(z + 1) : Near(r, z, 0);
        if (r.one(10)) Plan(r, r.one(3) ? "open" : "pread", false, false);
        s.RRead(hr, off, len);
      }
    }
  }
}
static void Limits(uint64_t seed, int n, int ops) {
  vp::Rng r(seed);
  g_rng = &r;
  for (int i = 0; i < n; i++) {
    Sess s(r, true);
    int maxh = 2 + r.upto(40);
    for (int k = 0; k < ops; k++) {
      int o = r.upto(10);
      std::string f = r.one(12) ? "missing" : "f" + std::to_string(r.upto(6));
      if (o < 5 && (int)s.hs.size() < maxh) {
        if (r.one(5)) { static const char* const w[] = {"open", "stat", "mmap"}; Plan(r, w[r.upto(3)], false, false); }
        s.Open('r', f);
      } else if (o < 8 && !s.hs.empty()) s.Close(r.upto(s.hs.size()));
      else { int h = s.Pick('r'); if (h >= 0) { if (r.one(6)) Plan(r, r.one(2) ? "open" : "pread", false, false); s.RRead(h, r.upto(20), r.upto(50)); } }
    }
  }
}
static void Tour(uint64_t seed) {
  vp::Rng r(seed);
  g_rng = &r;
  std::string line;
  while (std::getline(std::cin, line)) {
    Sess s(r, true);
    s.File("e", ""); s.File("x", "0123456789");
    std::istringstream is(line);
    std::string t;
    while (is >> t) {
      if (t == "open") s.Open('r', "x");
      else if (t == "empty") s.Open('r', "e");
      else if (t == "miss") s.Open('r', "missing");
      else if (t == "nostat") { Outcome o; o.k = Outcome::kErr; o.arg = EIO; g_next.push_back({"stat", o}); s.Open('r', "x"); }
      else if (t == "nomap") { Outcome o; o.k = Outcome::kErr; o.arg = ENOMEM; g_next.push_back({"mmap", o}); s.Open('r', "x"); }
      else if (t.compare(0, 6, "close:") == 0) { int i = atoi(t.c_str() + 6) - 1; if (i < (int)s.hs.size()) s.Close(i); }
      if (!s.hs.empty()) s.RRead(r.upto(s.hs.size()), r.upto(4), r.upto(6));
    }
  }
}

// Files of more than 4 GiB, sparse; every length and offset is a multiple of
// the unit, and so are those recorded.
static const size_t kU = 4096;
static void Huge(uint64_t seed, int n, int ops, bool mapped) {
  vp::Rng r(seed);
  g_rng = &r;
  const size_t G2 = (1ull << 31) / kU, G4 = (1ull << 32) / kU;
  static const size_t edges[] = {0, G2, G4, G4 + G2, 2 * G4};
  for (int i = 0; i < n; i++) {
    Sess s(r, true);
    static const size_t tops[] = {G4 + 40, G4 + G2 + 9, G2 + 30, 2 * G4 + 50};
    size_t top = tops[i % 4], at = 0;
    // contents: zeros, and pages of distinct values around the edges
    std::string nm = "huge";
    int fd = __real_open(Path(nm).c_str(), O_RDWR | O_CREAT | O_CLOEXEC | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, top * kU) != 0) _exit(77);
    vp::UnitRle c(kU);
    int v = 0;
    auto page = [&](size_t u) {
      if (u < at || u >= top) return;
      std::string b(kU, (char)(v = v % 250 + 1));
      if (pwrite(fd, b.data(), kU, u * kU) != (ssize_t)kU) _exit(77);
      c.run(0, u - at);
      c.run(v, 1);
      at = u + 1;
    };
    for (size_t e : edges) for (int k = -3; k < 6; k++) if (k >= 0 || e) page(e + k);
    for (int k = 8; k > 0; k--) page(top - k);
    c.run(0, top - at);
    __real_close(fd);
    s.files[nm] = "";
    Ev("File").s("n", nm).raw("c", c.text()).out();
    s.Open('s', nm);
    const bool grows = i % 2;   // (a file is not mapped while it grows)
    if (!grows) s.Open('r', nm);
    if (s.hs.size() < (grows ? 1 : 2)) continue;
    auto near = [&]() -> size_t { size_t e = r.one(4) ? top : edges[r.upto(5)]; long long x = (long long)e - 4 + r.upto(9); return x < 0 ? 0 : x; };
    uint64_t pos = 0;
    for (int k = 0; k < ops; k++) {
      int o = r.upto(6);
      char* p = new char[40 * kU];
      Slice x("junk", 4);
      Status st;
      if (o == 0) {
        size_t m = r.upto(12);
        vp::SetOp("sread of %zu units", m);
        { vp::Arm a; st = s.hs[0].s->Read(m * kU, &x, p); }
        Ev e("SRead");
        e.i("h", s.hs[0].id).i("len", m).s("st", St(st));
        if (st.ok()) { e.raw("d", vp::Units(x.data(), x.size(), kU)); pos += x.size() / kU; }
        s.Fin(e);
      } else if (o == 1) {
        size_t to = near(), m = to > pos && !r.one(5) ? to - pos : r.upto(30);
        vp::SetOp("skip of %zu units", m);
        { vp::Arm a; st = s.hs[0].s->Skip(m * kU); }
        Ev e("Skip");
        e.i("h", s.hs[0].id).i("len", m).b("huge", false).s("st", St(st));
        if (st.ok()) pos = std::min<uint64_t>(top, pos + m);
        s.Fin(e);
        if (r.one(8) && pos == top) { s.Close(0); s.Open('s', nm); std::swap(s.hs[0], s.hs[s.hs.size() - 1]); pos = 0; if (!s.hs[0].s) _exit(77); }
      } else if (grows) {
        if (pos == top && !r.one(3)) {
          size_t m = 1 + r.upto(4);
          std::string b(m * kU, (char)(v = v % 250 + 1));
          int fd = __real_open(Path(nm).c_str(), O_WRONLY | O_CLOEXEC | O_APPEND);
          if (fd < 0 || __real_write(fd, b.data(), b.size()) != (ssize_t)b.size()) _exit(77);
          __real_close(fd);
          top += m;
          Ev("Grow").s("n", nm).raw("c", vp::Units(b.data(), b.size(), kU)).out();
        }
      } else {
        size_t off = near(), m = r.upto(14);
        bool wide = mapped && k == 7;
        if (wide) { off = r.upto(2); m = top - off - r.upto(3); }
        vp::SetOp("rread of %zu units at %zu", m, off);
        { vp::Arm a; st = s.hs[1].r->Read(off * kU, m * kU, &x, p); }
        Ev e("RRead");
        e.i("h", s.hs[1].id).i("off", off).i("len", m).s("st", St(st));
        if (st.ok()) e.i("n", Clip(x.size() / kU)).raw("d", vp::Units(x.data(), x.size(), kU));
        s.Fin(e);
      }
      delete[] p;
    }
  }
}

int main(int argc, char** argv) {
  vp::InitTrace();
  const char* d = getenv("VP_DIR");
  if (!d || argc < 4) return 77;
  g_dir = d;
  if (__real_mkdir((g_dir + "/data").c_str(), 0755) != 0) return 77;
  std::string m = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int mi = m == "tour" ? 3 : 5;
  EnvPosixTest::Map(atoi(argv[mi]));
  int fl = atoi(argv[mi + 1]);
  if (fl >= 0) EnvPosixTest::Fd(fl);
  else { struct rlimit rl; rl.rlim_cur = -fl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = -fl; if (setrlimit(RLIMIT_NOFILE, &rl)) return 77; }
  vp::Decide() = Choose;
  vp::Classify() = [](int, const char*) { return std::string(); };
  { std::string t; Env::Default()->FileExists("x"); }
  if (m == "read") Read(seed, atoi(argv[3]), atoi(argv[4]));
  else if (m == "huge") Huge(seed, atoi(argv[3]), atoi(argv[4]), atoi(argv[mi]) > 0);
  else if (m == "limits") Limits(seed, atoi(argv[3]), atoi(argv[4]));
  else Tour(seed);
  return 0;
}
