// Sequential driver for the in-memory environment (C08, C09).
//   mem_seq rand <seed> <scenarios> <ops> <profile: names|data>
//   mem_seq tour <seed>      (programs on stdin)
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include "trace.h"
#include "huge.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"

using namespace lsmdb;
using vp::Ev;
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
static size_t Allocated() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

static const char* St(const Status& s) { return s.ok() ? "ok" : s.IsNotFound() ? "nf" : s.IsIOError() ? "io" : "other"; }
static std::string Ints(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
static long long Clip(uint64_t v) { return v > 2000000000ull ? 2000000000ll : (long long)v; }

struct H { char k; int id; WritableFile* w; SequentialFile* s; RandomAccessFile* r; };

struct Sess {
  size_t before;
  Env* env;
  std::vector<H> hs;
  int next = 0;
  Sess() {
    before = Allocated();
    env = NewMemEnv(Env::Default());
    hs.reserve(64);
    Ev("Reset").out();
  }
  int Find(int id) { for (size_t i = 0; i < hs.size(); i++) if (hs[i].id == id) return i; return -1; }
  void Open(const char* o, const std::string& n) {
    vp::SetOp("open %s %s", o, n.c_str());
    H h{o[0] == 's' ? 's' : o[0] == 'r' ? 'r' : 'w', ++next, nullptr, nullptr, nullptr};
    Status st;
    bool null;
    if (!strcmp(o, "create")) { h.w = (WritableFile*)8; st = env->NewWritableFile(n, &h.w); null = !h.w; }
    else if (!strcmp(o, "append")) { h.w = (WritableFile*)8; st = env->NewAppendableFile(n, &h.w); null = !h.w; }
    else if (!strcmp(o, "seq")) { h.s = (SequentialFile*)8; st = env->NewSequentialFile(n, &h.s); null = !h.s; }
    else { h.r = (RandomAccessFile*)8; st = env->NewRandomAccessFile(n, &h.r); null = !h.r; }
    Ev("Op").s("o", o).raw("n", Ints(n)).i("h", h.id).s("st", St(st)).b("null", null).out();
    if (st.ok() && !null) hs.push_back(h); else next--;
  }
  void Exists(const std::string& n) { vp::SetOp("exists"); bool r = env->FileExists(n); Ev("Op").s("o", "exists").raw("n", Ints(n)).b("r", r).out(); }
  void SizeOf(const std::string& n) {
    vp::SetOp("size"); uint64_t z = 77777777; Status s = env->GetFileSize(n, &z);
    Ev("Op").s("o", "size").raw("n", Ints(n)).s("st", St(s)).i("r", Clip(z)).out();
  }
  void Remove(const std::string& n) { vp::SetOp("remove %s", n.c_str()); Status s = env->RemoveFile(n); Ev("Op").s("o", "remove").raw("n", Ints(n)).s("st", St(s)).out(); }
  void Rename(const std::string& n, const std::string& t) {
    vp::SetOp("rename %s %s", n.c_str(), t.c_str()); Status s = env->RenameFile(n, t);
    Ev("Op").s("o", "rename").raw("n", Ints(n)).raw("to", Ints(t)).s("st", St(s)).out();
  }
  void List(const std::string& d) {
    vp::SetOp("list %s", d.c_str());
    std::vector<std::string> r; r.push_back("junk"); Status s = env->GetChildren(d, &r);
    std::string a = "[";
    for (size_t i = 0; i < r.size(); i++) { if (i) a += ","; a += Ints(r[i]); }
    Ev("Op").s("o", "list").raw("n", Ints(d)).s("st", St(s)).raw("r", a + "]").out();
  }
  void App(int i, const std::string& data) {
    vp::SetOp("append to %d: %zu bytes", hs[i].id, data.size());
    char* p = new char[data.size() + 1];   // the file must copy the bytes
    memcpy(p, data.data(), data.size());
    Status s = hs[i].w->Append(Slice(p, data.size()));
    memset(p, 0xEE, data.size()); delete[] p;
    Ev("Op").s("o", "app").i("h", hs[i].id).rle("d", data.data(), data.size()).s("st", St(s)).out();
  }
  void Nop(int i, int which) {
    vp::SetOp("flush/sync"); Status s = which ? hs[i].w->Flush() : hs[i].w->Sync();
    Ev("Op").s("o", "nop").i("h", hs[i].id).s("st", St(s)).out();
  }
  void SRead(int i, size_t n) {
    vp::SetOp("sequential read %d len %zu", hs[i].id, n);
    std::unique_ptr<char[]> b(new char[n]); memset(b.get(), 0x5A, n);
    Slice r("unset"); Status s = hs[i].s->Read(n, &r, b.get());
    if (!s.ok()) r = Slice();
    Ev("Op").s("o", "sread").i("h", hs[i].id).i("len", n).s("st", St(s)).rle("d", r.data(), r.size()).out();
  }
  void Skip(int i, uint64_t n) {
    vp::SetOp("skip %d %llu", hs[i].id, (unsigned long long)n);
    Status s = hs[i].s->Skip(n);
    Ev("Op").s("o", "skip").i("h", hs[i].id).i("len", Clip(n)).s("st", St(s)).out();
  }
  void RRead(int i, uint64_t off, size_t n) {
    vp::SetOp("random read %d at %llu len %zu", hs[i].id, (unsigned long long)off, n);
    std::unique_ptr<char[]> b(new char[n]); memset(b.get(), 0x5A, n);
    Slice r("unset"); Status s = hs[i].r->Read(off, n, &r, b.get());
    if (!s.ok()) r = Slice();
    Ev("Op").s("o", "rread").i("h", hs[i].id).i("off", Clip(off)).i("len", n).s("st", St(s)).rle("d", r.data(), r.size()).out();
  }
  void Close(int i) {
    H h = hs[i];
    hs.erase(hs.begin() + i);
    vp::SetOp("close %d", h.id);
    if (h.w) { h.w->Close(); delete h.w; }
    delete h.s; delete h.r;
    Ev("Op").s("o", "close").i("h", h.id).out();
  }
  void EnvGone() { vp::SetOp("destroy env"); delete env; env = nullptr; Ev("EnvGone").out(); }
  void End(bool first) {
    if (env) EnvGone();
    while (!hs.empty()) Close(hs.size() - 1);
    std::vector<H>().swap(hs);
    long long left = (long long)Allocated() - (long long)before;
    Ev("End").i("leaked", first ? 0 : left).out();
  }
};

static std::string Data(vp::Rng& r, size_t n, int style) {
  std::string d;
  while (d.size() < n) {
    size_t run = n < 40 && style < 2 ? 1 + r.upto(3) : style == 0 ? 1 + r.upto(600) : style == 1 ? 1 + r.upto(3000) : n;
    d.append(std::min(run, n - d.size()), (char)r.upto(256));
  }
  return d;
}

static void Rand(uint64_t seed, int scenarios, int ops, bool data) {
  for (int sc = 0; sc < scenarios; sc++) {
    vp::Rng r(seed * 100003 + sc * 2 + data);
    std::vector<std::string> pool = {"/a", "/a/b", "/ab", "a", "", "/a/", "/dir/x", "/dir/y", "/dir/sub/z", "/dir", "/dir/", "/dirx/y", "/dir//w", std::string("/dir/n\0l", 8), "/", "dir/x", std::string("/dir/\xff\x80", 7)};
    std::vector<std::string> dirs = {"/dir", "/a", "", "/", "/dir/sub", "/di", "/nothing", "/dir/", "a"};
    std::vector<std::string> names;
    int nn = data ? 2 : r.range(2, 7);
    if (!data && r.one(3)) {
      // one directory whose files and near-namesakes are interleaved in every order
      static const char* const bases[] = {"/d", "/dir", "/a/b", "d"};
      static const char* const tails[] = {"/x", "/y", "/z/w", "", "-old", ".bak", "0", "/", "//x", "-old/x", "0/x", "/\xff", "\xff", "/x/", ".", "/.", "/!", "!", "/0", "/x-old"};
      std::string b = bases[r.upto(4)];
      nn = r.range(4, 9);
      names.push_back(b + "/x"); names.push_back(b + "/y");
      for (int i = 2; i < nn; i++) names.push_back(b + tails[r.upto(20)]);
      dirs = {b, b, b, b, b + "/z", b + "/", b + "-old", b + "0", b.substr(0, b.size() - 1)};
    } else
    for (int i = 0; i < nn; i++) names.push_back(pool[r.upto(pool.size())]);
    std::map<std::string, size_t> approx;  // rough sizes, to aim at boundaries
    Sess s;
    auto nm = [&]() -> const std::string& { return names[r.upto(names.size())]; };
    auto pick = [&](char k) { std::vector<int> c; for (size_t i = 0; i < s.hs.size(); i++) if (s.hs[i].k == k) c.push_back(i); return c.empty() ? -1 : c[r.upto(c.size())]; };
    size_t size = 0;
    auto len = [&]() -> size_t {
      int x = r.upto(10);
      if (x < 4) return r.upto(20);
      if (x < 6) { long to = 8192 - (long)(size % 8192) + r.range(-2, 2); return to < 0 ? 0 : to; }
      if (x < 7) return 8192 + r.range(-1, 1);
      if (x < 8) return 16384 + r.range(-1, 1);
      if (x < 9) return r.upto(9000);
      return r.upto(30000);
    };
    int style = r.upto(3);
    for (int i = 0; i < ops; i++) {
      int x = r.upto(100);
      if ((int)s.hs.size() > 8) s.Close(r.upto(s.hs.size()));
      if (!data) {
        if (x < 14) s.Open("create", nm());
        else if (x < 26) s.Open("append", nm());
        else if (x < 34) s.Open("seq", nm());
        else if (x < 42) s.Open("rand", nm());
        else if (x < 50) s.Exists(nm());
        else if (x < 56) s.SizeOf(nm());
        else if (x < 66) s.Remove(nm());
        else if (x < 78) s.Rename(nm(), r.one(6) ? names[0] : nm());
        else if (x < 84) s.List(r.one(3) ? nm() : dirs[r.upto(dirs.size())]);
        else if (x < 92) { int h = pick('w'); if (h >= 0) s.App(h, Data(r, r.upto(6), 0)); }
        else if (x < 95) { int h = pick('r'); if (h >= 0) s.RRead(h, r.upto(3), r.upto(40)); }
        else if (x < 97) { int h = pick('s'); if (h >= 0) s.SRead(h, r.upto(10)); }
        else if (!s.hs.empty()) s.Close(r.upto(s.hs.size()));
      } else {
        if (x < 3) {
          const std::string n = nm();
          int style2 = r.upto(5);
          if (style2 == 0) {   // overwrite a file of exactly k blocks (or one byte less or more), then use it
            s.Open("create", n);
            size_t z = 8192 * r.range(1, 3) + (r.one(3) ? r.range(-1, 1) : 0);
            for (size_t done = 0; done < z;) { size_t m = std::min<size_t>(z - done, r.one(2) ? z : 1 + r.upto(9000)); s.App(s.hs.size() - 1, Data(r, m, style)); done += m; }
            s.Close(s.hs.size() - 1);
            s.Open("create", n);
            size_t y = r.one(2) ? r.upto(30) : r.one(2) ? z : 8192 + r.upto(9000);
            s.App(s.hs.size() - 1, Data(r, y, style));
            s.Open("rand", n);
            s.RRead(s.hs.size() - 1, 0, 40000);
            s.Close(s.hs.size() - 1);
            size = y;
          } else { s.Open("create", n); size = 0; }
        }
        else if (x < 6) s.Open("append", nm());
        else if (x < 11) s.Open("seq", nm());
        else if (x < 15) s.Open("rand", nm());
        else if (x < 17) s.Remove(nm());
        else if (x < 19) s.Rename(nm(), nm());
        else if (x < 40) { int h = pick('w'); if (h >= 0) { size_t n = len(); s.App(h, Data(r, n, style)); size += n; } }
        else if (x < 60) { int h = pick('s'); if (h >= 0) s.SRead(h, len()); }
        else if (x < 72) {
          int h = pick('s');
          static const uint64_t big[] = {~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1};
          if (h >= 0) s.Skip(h, r.one(12) ? big[r.upto(5)] - r.upto(3) : len());
        }
        else if (x < 92) {
          int h = pick('r');
          static const uint64_t big[] = {~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1};
          uint64_t off = r.one(15) ? big[r.upto(5)] - r.upto(3) : r.one(3) ? (size > 0 ? size - r.upto(std::min<size_t>(size, 3)) + r.upto(3) : 0) : r.one(2) ? 8192 * r.upto(size / 8192 + 1) + r.upto(2) : r.upto(size + 2);
          if (h >= 0) s.RRead(h, off, len());
        }
        else if (x < 94) s.SizeOf(nm());
        else if (x < 96) { int h = pick('w'); if (h >= 0) s.Nop(h, r.upto(2)); }
        else if (x < 97 && i > ops * 3 / 4 && r.one(3)) break;
        else if (!s.hs.empty() && r.one(2)) s.Close(r.upto(s.hs.size()));
      }
    }
    if (r.one(2)) {   // the files outlive the environment
      s.EnvGone();
      for (size_t i = 0; i < s.hs.size(); i++) {
        if (s.hs[i].k == 'w') s.App(i, Data(r, 10, 0));
        else if (s.hs[i].k == 'r') s.RRead(i, 0, 20000);
        else s.SRead(i, 20000);
      }
    } else {
      for (auto& n : names) { s.Exists(n); s.SizeOf(n); }
      for (auto& n : names) { s.Open("rand", n); if (!s.hs.empty() && s.hs.back().k == 'r') s.RRead(s.hs.size() - 1, 0, 300000); }
    }
    std::vector<std::string>().swap(names);
    std::vector<std::string>().swap(pool);
    std::vector<std::string>().swap(dirs);
    s.End(true);
  }
  // leak test: scenarios without containers of the driver's own
  for (int k = 0; k < 6; k++) {
    Sess s;
    vp::Rng r(seed + k);
    std::string d1 = Data(r, 20000, 1);
    s.Open("create", "/f"); s.App(0, d1); s.Open("seq", "/f"); s.Open("rand", "/f");
    if (k & 1) s.Remove("/f");
    if (k & 2) { s.Open("append", "/g"); s.App(s.hs.size() - 1, d1); s.Rename("/g", "/f"); }
    if (k & 4) s.EnvGone();
    s.RRead(2, 100, 9000); s.SRead(1, 20001);
    std::string().swap(d1);
    s.End(false);
  }
}

// Files, reads and skips beyond 31 and 32 bits, in units of 4 KiB.
static const size_t kU = 4096;
struct Big : Sess {
  char* scratch; static const size_t kScratch = 0x1c0000000ull;
  Big() : scratch(vp::Reserve(kScratch)) {}
  ~Big() { vp::Unmap(scratch, kScratch); }
  long long U(uint64_t n) { return n % kU ? -1 : (long long)(n / kU); }
  void Size(const std::string& n) {
    vp::SetOp("size"); uint64_t z = 77777777; Status s = env->GetFileSize(n, &z);
    Ev("Op").s("o", "size").raw("n", Ints(n)).s("st", St(s)).i("r", U(z)).out();
  }
  void App(size_t units, unsigned char v) {
    vp::SetOp("append %zu units", units);
    H& h = hs[Last('w')];
    char* p = vp::Repeat(units * kU, v);
    Status s = h.w->Append(Slice(p, units * kU));
    vp::Unmap(p, units * kU);
    Ev("Op").s("o", "app").i("h", h.id).raw("d", "[[" + std::to_string(v) + "," + std::to_string(units) + "]]").s("st", St(s)).out();
  }
  void Result(Ev& e, const Status& s, const Slice& r) {
    e.s("st", St(s)).raw("d", s.ok() ? vp::Units(r.data(), r.size(), kU) : "[]").out();
    madvise(scratch, kScratch, MADV_DONTNEED);
  }
  void RRead(uint64_t off, size_t n) {
    vp::SetOp("random read at %llu units, %zu units", (unsigned long long)off, n);
    H& h = hs[Last('r')];
    Slice r; Status s = h.r->Read(off * kU, n * kU, &r, scratch);
    Ev e("Op"); e.s("o", "rread").i("h", h.id).i("off", off).i("len", n); Result(e, s, r);
  }
  void SRead(size_t n) {
    vp::SetOp("sequential read of %zu units", n);
    H& h = hs[Last('s')];
    Slice r; Status s = h.s->Read(n * kU, &r, scratch);
    Ev e("Op"); e.s("o", "sread").i("h", h.id).i("len", n); Result(e, s, r);
  }
  void Skip(size_t n) {
    vp::SetOp("skip of %zu units", n);
    H& h = hs[Last('s')];
    Status s = h.s->Skip(n * kU);
    Ev("Op").s("o", "skip").i("h", h.id).i("len", n).s("st", St(s)).out();
  }
  int Last(char k) { for (size_t i = hs.size(); i-- > 0;) if (hs[i].k == k) return i; fprintf(stderr, "no handle\n"); _exit(77); }
  void CloseLast(char k) { Close(Last(k)); }
};
static void Huge(uint64_t seed, int scenarios) {
  const size_t G2 = (1ull << 31) / kU, G4 = (1ull << 32) / kU;
  for (int sc = 0; sc < scenarios; sc++) {
    if (vp::MemAvailable() < (14ull << 30)) { fprintf(stderr, "not enough memory for huge files\n"); return; }
    vp::Rng r(seed * 17 + sc);
    Big b;
    b.Open("create", "/h"); b.Open("seq", "/h"); b.Open("rand", "/h");
    b.App(1 + r.upto(3), 1);
    if (sc % 2 == 0) b.App(G4 + r.upto(4), 2);                 // one append of more than 4 GiB
    else { b.App(G2 + r.upto(3), 2); b.Size("/h"); b.App(G2 - 1 - r.upto(4), 3); }
    b.Size("/h");
    for (int i = 0; i < 6; i++) b.App(1 + r.upto(2), 4 + i);    // across the boundary
    b.Size("/h");
    for (int i = 0; i < 12; i++) {
      size_t at = r.one(4) ? G2 : r.one(3) ? 0 : G4;
      b.RRead((at ? at - 4 : 0) + r.upto(10), r.one(3) ? G4 + 1 + r.upto(3) : 1 + r.upto(6));
      if (at == 0) i++;
    }
    b.RRead(G4 + 40, 1); b.RRead(1 << 22, 2);
    b.SRead(2); b.Skip(G4 - 3 + r.upto(3)); b.SRead(1); b.SRead(2); b.SRead(G4 + 2);
    b.Open("seq", "/h"); b.Skip(G4 + 100); b.SRead(3);
    b.CloseLast('w'); b.Open("append", "/h"); b.App(2, 50); b.SRead(5); b.Size("/h");
    b.Open("seq", "/h"); b.SRead(G4 + 3); b.SRead(4); b.SRead(100);   // more than 4 GiB in one read
    b.Rename("/h", "/i"); b.Size("/i");
    b.Open("create", "/i"); b.Size("/i"); b.App(1, 60); b.RRead(0, G4 + 1); b.RRead(G4, 1);
    b.End(true);
  }
}

static void Tour(uint64_t seed) {
  std::string line;
  vp::Rng r(seed);
  static const int scales[] = {1, 1, 3, 4096, 8191, 8192, 8193};
  while (std::getline(std::cin, line)) {
    int sc = scales[r.upto(7)];
    Sess s;
    std::istringstream is(line);
    std::string tok;
    while (is >> tok) {
      std::vector<std::string> p;
      std::istringstream ts(tok);
      std::string q;
      while (std::getline(ts, q, ':')) p.push_back(q);
      auto n = [&](int i) { return "/" + p[i]; };
      auto h = [&](int i) { int x = s.Find(atoi(p[i].c_str())); if (x < 0) { fprintf(stderr, "no handle\n"); } return x; };
      if (p[0] == "create" || p[0] == "append" || p[0] == "seq" || p[0] == "rand") s.Open(p[0].c_str(), n(1));
      else if (p[0] == "remove") s.Remove(n(1));
      else if (p[0] == "rename") s.Rename(n(1), n(2));
      else {
        int x = h(1);
        if (x < 0) break;
        if (p[0] == "app") s.App(x, std::string(sc, (char)('A' + s.hs[x].id)));
        else if (p[0] == "sread") s.SRead(x, sc * atoi(p[2].c_str()));
        else if (p[0] == "skip") s.Skip(x, sc * atoi(p[2].c_str()));
        else if (p[0] == "rread") s.RRead(x, sc * atoi(p[2].c_str()), sc * atoi(p[3].c_str()));
        else if (p[0] == "close") s.Close(x);
      }
    }
    if (s.env) { s.Exists("/a"); s.Exists("/b"); s.SizeOf("/a"); s.SizeOf("/b"); s.List(""); }
    s.End(true);
  }
}

int main(int argc, char** argv) {
  vp::InitTrace();
  Env::Default();
  if (argc > 5 && !strcmp(argv[1], "rand")) Rand(atoll(argv[2]), atoi(argv[3]), atoi(argv[4]), !strcmp(argv[5], "data"));
  else if (argc > 2 && !strcmp(argv[1], "tour")) Tour(atoll(argv[2]));
  else if (argc > 3 && !strcmp(argv[1], "huge")) Huge(atoll(argv[2]), atoi(argv[3]));
  else return 77;
  return 0;
}
