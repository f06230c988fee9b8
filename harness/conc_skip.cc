// Concurrent driver for the skip list (C06): one writer, unlocked readers,
// sequentially consistent and weak memory.
#include <algorithm>
#include "dsched.h"
#include "util/arena.h"
#include "util/noncopyable.h"
#include "db/skiplist.h"
using namespace lsmdb;
using vp::Ev;
typedef const char* Key;              // eight bytes, big endian, written just before the insertion
struct Cmp {
  int operator()(const Key& a, const Key& b) const {
    for (int i = 0; i < 8; i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    return 0;
  }
};
struct NumCmp { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b ? 1 : 0; } };
static void Put(char* p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (char)(v >> (56 - 8 * i)); }
static long long Get(Key p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)p[i]; return (long long)v; }

template <class K> struct Tr;
template <> struct Tr<Key> {
  typedef Cmp C;
  static Key Make(Arena* a, uint64_t v) { char* p = a->Allocate(8); Put(p, v); return p; }
  static Key Probe(char* buf, uint64_t v) { Put(buf, v); return buf; }
  static long long Val(const Key& k) { return Get(k); }
};
template <> struct Tr<uint64_t> {
  typedef NumCmp C;
  static uint64_t Make(Arena*, uint64_t v) { return v; }
  static uint64_t Probe(char*, uint64_t v) { return v; }
  static long long Val(const uint64_t& k) { return (long long)k; }
};
struct Op { char o; uint64_t k; int it; };

template <class K> struct Sc : ds::Scenario {
  typedef SkipList<K, typename Tr<K>::C> List;
  std::vector<std::vector<Op>> prog;
  std::vector<long long> pre;
  bool weak;
  Arena* arena; List* list;
  Sc(int p, vp::Rng& r) {
    weak = p % 4 != 0;
    // heights of the nodes of a fresh list, to choose interesting moments
    std::vector<int> hs; uint64_t seed = 0xdeadbeef & 0x7fffffff;
    auto nx = [&] { seed = seed * 16807 % 2147483647; return seed; };
    for (int i = 0; i < 60; i++) { int h = 1; while (h < 12 && nx() % 4 == 0) h++; hs.push_back(h); }
    int npre = r.upto(20), nins = 2 + r.upto(3);
    if (!r.one(3)) {
      std::vector<int> c;
      int want = r.one(3) ? 3 : 2;
      for (int i = 0; i + nins < 50; i++) { int m = 1; for (int j = 0; j < nins; j++) m = std::max(m, hs[i + j]); if (m >= want) c.push_back(i); }
      if (!c.empty()) npre = c[r.upto(std::min<size_t>(c.size(), 12))];
    }
    int space = npre + nins + 6;
    std::vector<uint64_t> ks; for (int i = 1; i <= space; i++) ks.push_back(i * (r.one(2) ? 1 : 3));
    ks.clear(); for (int i = 1; i <= space; i++) ks.push_back(i * 2);
    for (size_t i = ks.size() - 1; i > 0; i--) std::swap(ks[i], ks[r.upto(i + 1)]);
    for (int i = 0; i < npre; i++) pre.push_back(ks[i]);
    int nr = 1 + r.one(3) + r.one(6);
    prog.resize(nr + 2);
    std::vector<uint64_t> ins(ks.begin() + npre, ks.begin() + npre + nins);
    if (r.one(3)) std::sort(ins.begin(), ins.end()); else if (r.one(2)) std::sort(ins.rbegin(), ins.rend());
    for (auto k : ins) { prog[1].push_back(Op{'I', k, 0}); if (r.one(2)) prog[1].push_back(Op{'P', 0, 0}); }
    for (int t = 2; t <= nr + 1; t++) {
      int n = 4 + r.upto(6);
      const char* mix[] = {"CCSnp", "Fnnnn", "Lpppp", "SnpSnp", "CSFLnpOM"};
      const char* m = mix[r.upto(5)];
      for (int i = 0; i < n; i++) {
        char o = m[r.upto(strlen(m))];
        if (r.one(6)) o = 'O';
        uint64_t k = r.one(4) ? 2 * space - r.upto(2 * space) : ins[r.upto(nins)] - r.one(3);
        prog[t].push_back(Op{o, k, (int)r.one(3)});
      }
    }
  }
  bool Weak() override { return weak; }
  int Threads() override { return prog.size() - 1; }
  void Setup() override {
    arena = new Arena;
    list = new List(typename Tr<K>::C(), arena);
    for (size_t i = 0; i < pre.size(); i++) list->Insert(Tr<K>::Make(arena, pre[i]));
    ds::Quiet q;
    Ev("Reset").b("sc", !ds::WeakRun()).li("pre", pre).out();
  }
  void Writer() {
    size_t n = prog[1].size();
    for (size_t i = 0; i < n; i++) {
      Op op; { ds::Quiet q; op = prog[1][i]; }
      if (op.o == 'P') { ds::Quiet q; ds::Publish(1); Ev("Pub").out(); continue; }
      { ds::Quiet q; Ev("InsB").i("k", op.k).out(); }
      list->Insert(Tr<K>::Make(arena, op.k));
      { ds::Quiet q; Ev("InsE").out(); }
    }
  }
  void Read(int t, const Op& op, typename List::Iterator* it) {
    char buf[8];
    K probe = Tr<K>::Probe(buf, op.k);
    long long r = -1;
    char o = op.o;
    typename List::Iterator& x = it[op.it];
    if ((o == 'n' || o == 'p') && !x.Valid()) o = op.k % 3 ? 'S' : op.k % 2 ? 'F' : 'L';
    {
      ds::Quiet q;
      if (o == 'O') { ds::Observe(1); Ev("Obs").i("t", t).out(); return; }
      const char* nm = o == 'C' ? "has" : o == 'S' ? "seek" : o == 'F' ? "first" : o == 'L' ? "last" : o == 'n' ? "next" : o == 'p' ? "prev" : "mem";
      Ev e("Call"); e.i("t", t).s("o", nm).i("i", op.it);
      if (o == 'C' || o == 'S') e.i("k", op.k);
      e.out();
    }
    switch (o) {
      case 'C': r = list->Contains(probe) ? 1 : 0; break;
      case 'S': x.Seek(probe); break;
      case 'F': x.SeekToFirst(); break;
      case 'L': x.SeekToLast(); break;
      case 'n': x.Next(); break;
      case 'p': x.Prev(); break;
      case 'M': r = (long long)(arena->MemoryUsage() > 0); break;
    }
    if (o != 'C' && o != 'M' && x.Valid()) r = Tr<K>::Val(x.key());
    ds::Quiet q;
    Ev("Ret").i("t", t).i("r", r).out();
  }
  void Reader(int t) {
    typename List::Iterator it[2] = {typename List::Iterator(list), typename List::Iterator(list)};
    size_t n; { ds::Quiet q; n = prog[t].size(); }
    for (size_t i = 0; i < n; i++) { Op op; { ds::Quiet q; op = prog[t][i]; } Read(t - 1, op, it); }
  }
  void Body(int t) override { if (t == 1) Writer(); else Reader(t); }
  void Finish() override {
    { ds::Quiet q; Ev("Joined").out(); }
    typename List::Iterator it[2] = {typename List::Iterator(list), typename List::Iterator(list)};
    Read(4, Op{'F', 0, 0}, it); Read(4, Op{'L', 0, 1}, it);
    std::vector<long long> all;
    for (typename List::Iterator i = it[0]; i.Valid() && all.size() < 200; i.Next()) { long long v = Tr<K>::Val(i.key()); ds::Quiet q; all.push_back(v); }
    { ds::Quiet q; Ev("All").li("k", all).out(); }
    for (int i = 0; i < 3; i++) if (it[1].Valid()) Read(4, Op{'p', 2, 1}, it);
    delete list; delete arena;
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) -> ds::Scenario* { if (p % 2) return new Sc<Key>(p / 2, r); return new Sc<uint64_t>(p / 2, r); });
}
