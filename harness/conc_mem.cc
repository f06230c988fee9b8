// Concurrent driver for the in-memory environment (C10).
#include <algorithm>
#include "dsched.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
using namespace lsmdb;
using vp::Ev;
static const char* St(const Status& s) { return s.ok() ? "ok" : s.IsNotFound() ? "nf" : s.IsIOError() ? "io" : "other"; }
static std::string Ints(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
struct H { int id = 0; char k = 0; WritableFile* w = nullptr; SequentialFile* s = nullptr; RandomAccessFile* r = nullptr; };

struct Sc : ds::Scenario {
  struct Op { char o; int a; int b; long long n, m; };   // a: name, b: second name
  std::vector<std::vector<Op>> prog;
  std::vector<std::string> names;
  std::vector<H> han[8];
  H shared; bool share = true;
  int nexth[8] = {0};
  Env* env = nullptr;
  long base = 0;
  explicit Sc(int p, vp::Rng& r) {
    const char* sets[3][3] = {{"a", "b", "c"}, {"d/a", "d/b", "e/a"}, {"/x", "/x/y", "x"}};
    int ns = r.upto(3);
    for (int i = 0; i < 3; i++) names.push_back(sets[ns][i]);
    int nt = 2 + r.one(3), per = nt == 2 ? 3 + r.upto(2) : 2 + r.upto(2);
    // C create, A append-open, S sequential, D random, w append, s read, k skip, r random read,
    // g shared random read, c close, E exists, Z size, R remove, N rename, L list
    static const char* mixes[][4] = {
      {"wwCw", "skss", "rgZE", "wrsc"}, {"wCww", "kkss", "kksw", "gZRs"}, {"RRNC", "SsAc", "DrAc", "NELZ"},
      {"CwAw", "CwAw", "ARCw", "ELZS"}, {"Swsc", "DrRc", "wwNc", "Akgr"}, {"wwww", "wwgg", "ssrr", "ggZZ"}};
    int m = p % 6;
    auto two = [&](std::vector<Op> a, std::vector<Op> b, std::vector<Op> c) { prog.resize(3); prog[0] = a; prog[1] = b; prog[2] = c; };
    auto len = [&](int n) { return 1 + (long long)r.upto(n); };
    if (p % 6 == 1 && r.one(2)) {     // a reader in the middle of a file that is being replaced
      two({Op{'C', 0, 0, 0, 0}, Op{'w', 0, 0, 3 + len(8), 0}},
          {Op{'S', 0, 0, 0, 0}, Op{'s', 0, 0, len(4), 0}, Op{'k', 0, 0, r.one(2) ? 1ll << 40 : len(8), 0}, Op{'s', 0, 0, 3, 0}, Op{'k', 0, 0, 2, 0}},
          {Op{r.one(3) ? 'A' : 'C', 0, 0, 0, 0}, Op{'w', 0, 0, len(9), 0}, Op{r.one(3) ? 'C' : 'w', 0, 0, len(9), 0}});
      return;
    }
    if (getenv("VP_FAMILY")) {        // every operation against every sequence of another and a look or an append
      static const char ops[] = "CAwSskrgcERNZLD", then[] = "gswZ-";
      char x = ops[p % 15], y = ops[p / 15 % 15], z = then[p / 225 % 5];
      bool edge = r.one(3);
      share = x == 'g' || y == 'g' || z == 'g';
      std::vector<Op> v[3];
      v[0] = {Op{'C', 0, 0, 0, 0}, Op{'w', 0, 0, edge ? 8185 + len(7) : 2 + len(8), 0}};
      auto pre = [&](int t, char c) { char k = c == 'w' ? 'A' : c == 's' || c == 'k' ? 'S' : c == 'r' || c == 'c' ? 'D' : 0; if (k) v[t].push_back(Op{k, 0, 0, 0, 0}); if (c == 'k' || c == 's') v[t].push_back(Op{'s', 0, 0, 2, 0}); };
      auto put = [&](int t, char c) { if (c != '-') v[t].push_back(Op{c, 0, 1, edge ? 6 + (long long)r.upto(4) : len(9), edge && r.one(2) ? 8180 + (long long)r.upto(12) : (long long)r.upto(4)}); };
      pre(1, x); put(1, x); pre(2, y); if (z != 'g' && z != 'Z' && z != y && r.one(2)) pre(2, z); put(2, y); put(2, z);
      two(v[0], v[1], v[2]);
      return;
    }
    if (p % 6 == 5 || p % 6 == 2) {   // two or three operations against two or three others, on one name
      bool edge = p % 6 == 5;
      share = edge || r.one(4);
      std::vector<Op> v[3];
      if (!r.one(4) || edge) { v[0].push_back(Op{'C', 0, 0, 0, 0}); v[0].push_back(Op{'w', 0, 0, edge ? 8185 + len(7) : len(9), 0}); }
      if (r.one(3)) v[0].push_back(Op{'C', 1, 0, 0, 0});
      const char* left = edge ? "wwwwC" : "RNCAZSDE"; const char* right = edge ? "wgZrsg" : "ZSDRNCAwL";
      for (int t = 1; t <= 2; t++) {
        if (edge && t == 1) v[1].push_back(Op{'A', 0, 0, 0, 0});
        if (edge && t == 2 && r.one(2)) v[2].push_back(Op{r.one(2) ? 'D' : 'A', 0, 0, 0, 0});
        const char* m = t == 1 ? left : right;
        for (int i = 2 + r.upto(2); i > 0; i--) {
          char o = m[r.upto(strlen(m))];
          v[t].push_back(Op{o, r.one(6) ? 1 : 0, 1, edge ? 6 + (long long)r.upto(4) : len(9), edge ? 8183 + (long long)r.upto(10) : (long long)r.upto(8)});
        }
      }
      two(v[0], v[1], v[2]);
      return;
    }
    share = r.one(2);
    bool big = r.one(4);
    int nn = 1 + r.upto(3);
    prog.resize(nt + 1);
    prog[0].push_back(Op{'C', 0, 0, 0, 0});
    prog[0].push_back(Op{'w', 0, 0, big ? 8186 + (long long)r.upto(8) : (long long)r.upto(6), 0});
    if (r.one(2)) { prog[0].push_back(Op{'C', 1, 0, 0, 0}); prog[0].push_back(Op{'w', 0, 0, 1 + (long long)r.upto(4), 0}); }
    for (int t = 1; t <= nt; t++) {
      std::string mix = mixes[m][(t - 1 + (nt == 2 ? r.upto(2) * 2 : r.upto(4))) % 4];
      // some threads start with handles opened before
      for (char c : mix) {
        char want = c == 'w' ? 'A' : c == 's' || c == 'k' ? 'S' : c == 'r' ? 'D' : 0;
        if (want && mix.find(want) == std::string::npos && !r.one(4)) { prog[t].push_back(Op{want, (int)r.upto(nn), 0, 0, 1}); break; }
      }
      for (int i = 0; i < per; i++) {
        char o = mix[r.upto(4)];
        prog[t].push_back(Op{o, (int)r.upto(nn), (int)r.upto(3), 1 + (long long)r.upto(o == 'k' ? 12 : 9), (long long)(big ? 8180 + r.upto(12) : r.upto(8))});
        if (o == 'k' && r.one(3)) prog[t].back().n = 1ll << 40;
      }
    }
  }
  int Threads() override { return prog.size() - 1; }
  H* Pick(int t, char k) { for (int i = (int)han[t].size() - 1; i >= 0; i--) if (han[t][i].k == k) return &han[t][i]; return nullptr; }
  static long long Clip(unsigned long long v) { return v > 2000000000ull ? 2000000000ll : (long long)v; }
  void Do(const Op& op0) {
    int t = ds::Self();
    Op op = op0;
    H* h = nullptr; H nh; std::string nm, to;
    char bytes[32]; int fill = 0; char* data = bytes; char* scratch = nullptr;
    {
      ds::Quiet q;
      nm = names[op.a]; to = names[op.b];
      switch (op.o) {
        case 'w': h = Pick(t, 'w'); if (!h) op.o = 'A'; break;
        case 's': case 'k': h = Pick(t, 's'); if (!h) op.o = 'S'; break;
        case 'r': h = Pick(t, 'r'); if (!h) op.o = 'D'; break;
        case 'g': if (shared.r) h = &shared; else op.o = 'Z'; break;
        case 'c': if (han[t].empty()) op.o = 'E'; else h = &han[t].back(); break;
      }
      if (op.n > 31 && op.o != 'k' && op.o != 'w') op.n = 9;
      Ev e("Call"); e.i("t", t);
      if (strchr("CASD", op.o)) {
        nh.id = t * 100 + ++nexth[t];
        e.s("o", op.o == 'C' ? "create" : op.o == 'A' ? "append" : op.o == 'S' ? "seq" : "rand").raw("n", Ints(nm)).i("h", nh.id);
      } else switch (op.o) {
        case 'w': {
          static char bigbuf[16384]; static int cnt[8];
          fill = 1 + (t * 20 + cnt[t]++ % 20);
          if (op.n > 32) data = bigbuf;
          memset(data, fill, op.n);
          e.s("o", "app").i("h", h->id).rle("d", data, op.n); break; }
        case 's': e.s("o", "sread").i("h", h->id).i("len", op.n); break;
        case 'k': e.s("o", "skip").i("h", h->id).i("len", Clip(op.n)); break;
        case 'r': case 'g': e.s("o", "rread").i("h", h->id).i("off", op.m).i("len", op.n); break;
        case 'c': e.s("o", "close").i("h", h->id); break;
        case 'E': e.s("o", "exists").raw("n", Ints(nm)); break;
        case 'Z': e.s("o", "size").raw("n", Ints(nm)); break;
        case 'R': e.s("o", "remove").raw("n", Ints(nm)); break;
        case 'N': e.s("o", "rename").raw("n", Ints(nm)).raw("to", Ints(to)); break;
        case 'L': to = nm.find('/') != std::string::npos && nm[0] != '/' ? nm.substr(0, 1) : ""; e.s("o", "list").raw("n", Ints(to)); break;
      }
      e.out();
      if (op.o == 's' || op.o == 'r' || op.o == 'g') { scratch = bytes; memset(bytes, 0x5A, sizeof bytes); }
    }
    ds::Point();
    Status st; Slice res; uint64_t z = 77777777; bool yes = false; std::vector<std::string> names_out;
    switch (op.o) {
      case 'C': st = env->NewWritableFile(nm, &nh.w); nh.k = 'w'; break;
      case 'A': st = env->NewAppendableFile(nm, &nh.w); nh.k = 'w'; break;
      case 'S': st = env->NewSequentialFile(nm, &nh.s); nh.k = 's'; break;
      case 'D': st = env->NewRandomAccessFile(nm, &nh.r); nh.k = 'r'; break;
      case 'w': st = h->w->Append(Slice(data, op.n)); break;
      case 's': st = h->s->Read(op.n, &res, scratch); break;
      case 'k': st = h->s->Skip(op.n); break;
      case 'r': case 'g': st = h->r->Read(op.m, op.n, &res, scratch); break;
      case 'c': if (h->w) { h->w->Close(); delete h->w; } delete h->s; delete h->r; break;
      case 'E': yes = env->FileExists(nm); break;
      case 'Z': st = env->GetFileSize(nm, &z); break;
      case 'R': st = env->RemoveFile(nm); break;
      case 'N': st = env->RenameFile(nm, to); break;
      case 'L': st = env->GetChildren(to, &names_out); break;
    }
    ds::Point();
    ds::Quiet q;
    Ev e("Ret"); e.i("t", t).s("st", St(st));
    if (strchr("CASD", op.o)) {
      bool null = !nh.w && !nh.s && !nh.r;
      e.b("null", null);
      if (st.ok() && !null) { if (op.m == -7) shared = nh; else han[t].push_back(nh); }
    }
    if (op.o == 's' || op.o == 'r' || op.o == 'g') { if (!st.ok()) res = Slice(); e.rle("d", res.data(), res.size()); }
    if (op.o == 'E') e.b("r", yes);
    if (op.o == 'Z') e.i("r", Clip(z));
    if (op.o == 'L') { std::string a = "["; for (size_t i = 0; i < names_out.size(); i++) { if (i) a += ","; a += Ints(names_out[i]); } e.raw("r", a + "]"); }
    if (op.o == 'c') han[t].pop_back();
    e.out();
  }
  void Setup() override {
    { ds::Quiet q; Ev("Reset").out(); for (auto& v : han) v.reserve(64); }
    Env* b = Env::Default();
    base = ds::LiveBlocks();
    env = NewMemEnv(b);
    for (auto& o : prog[0]) Do(o);
    if (share) Do(Op{'D', 0, 0, 0, -7});            // a random reader for all threads
    while (!han[0].empty()) Do(Op{'c', 0, 0, 0, 0});
  }
  void Body(int t) override {
    for (auto& o : prog[t]) Do(o);
    int keep = t % 2;                   // some close their handles concurrently, some leave it to the end
    if (!keep) while (!han[t].empty()) Do(Op{'c', 0, 0, 0, 0});
  }
  void Finish() override {
    // let every file grow, so that each reader's position shows
    for (int i = 0; i < 3; i++) {
      bool here; { ds::Quiet q; here = env->FileExists(names[i]); }
      if (here) { Do(Op{'A', i, 0, 0, 0}); Do(Op{'w', 0, 0, 14, 0}); Do(Op{'c', 0, 0, 0, 0}); }
    }
    for (int t = 1; t < 8; t++) while (!han[t].empty()) {
      { ds::Quiet q; han[0].push_back(han[t].back()); han[t].pop_back(); }
      if (han[0].back().s) Do(Op{'s', 0, 0, 9, 0});
      Do(Op{'c', 0, 0, 0, 0});
    }
    Do(Op{'L', 0, 0, 0, 0});
    for (int i = 0; i < 3; i++) {
      Do(Op{'Z', i, 0, 0, 0});
      bool here; { ds::Quiet q; here = env->FileExists(names[i]); }
      if (!here) continue;
      Do(Op{'S', i, 0, 0, 0});
      for (long long n : {30, 30, -8115, 30, 30}) Do(Op{n < 0 ? 'k' : 's', 0, 0, n < 0 ? -n : n, 0});
      Do(Op{'c', 0, 0, 0, 0});
    }
    if (shared.r) { { ds::Quiet q; han[0].push_back(shared); shared = H(); } Do(Op{'c', 0, 0, 0, 0}); }
    ds::Point();
    delete env;
    ds::Quiet q;
    Ev("End").i("leaked", ds::LiveBlocks() - base).out();
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
