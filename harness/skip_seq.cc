// Sequential driver for the skip list (C05).  Keys are handled as their ranks
// in the list's order; several key types/orders map ranks to keys.
#include <algorithm>
#include <memory>
#include <set>
#include "trace.h"
#include "db/skiplist.h"
#include "util/arena.h"

using namespace lsmdb;
using vp::Ev;
static const long long kUniverse = 1 << 30;

// order 0: natural, low and high 64-bit values; 1: descending;
// 2: scrambled keys; 3: pointers to strings
struct Nat {  // ranks spread over the low, middle and highest values
  typedef uint64_t K;
  struct Cmp { int operator()(const K& a, const K& b) const { return a < b ? -1 : a > b ? 1 : 0; } };
  static const uint64_t third = 1 << 28;
  K key(long long r) const {
    uint64_t u = r;
    if (u < third) return u;
    if (u < 2 * third) return ((uint64_t)1 << 63) - third / 2 + (u - third);
    return ~(uint64_t)0 - (kUniverse - 1 - u);
  }
  long long rank(K k) const {
    if (k < third) return k;
    uint64_t mid = ((uint64_t)1 << 63) - third / 2;
    if (k >= mid && k < mid + third) return third + (k - mid);
    uint64_t r = kUniverse - 1 - (~(uint64_t)0 - k);
    return r < (uint64_t)kUniverse && r >= 2 * third ? (long long)r : -7;
  }
};
struct Desc {
  typedef uint64_t K;
  struct Cmp { int operator()(const K& a, const K& b) const { return a > b ? -5 : a < b ? 9 : 0; } };
  K key(long long r) const { return ~(uint64_t)0 - (uint64_t)r * 3; }
  long long rank(K k) const { uint64_t d = ~(uint64_t)0 - k; return d % 3 || d / 3 >= (uint64_t)kUniverse ? -7 : (long long)(d / 3); }
};
struct Scr {
  typedef uint64_t K;
  static uint64_t un(uint64_t k) { return k * 0xEEEEEEEEEEEEEEEFull; }  // inverse of 15
  struct Cmp { int operator()(const K& a, const K& b) const { uint64_t x = un(a), y = un(b); return x < y ? -1000000 : x > y ? 1000000 : 0; } };
  K key(long long r) const { return (uint64_t)r * 15; }
  long long rank(K k) const { uint64_t r = un(k); return r < (uint64_t)kUniverse ? (long long)r : -7; }
};
struct Str {
  typedef const char* K;
  struct Cmp { int operator()(const K& a, const K& b) const { return strcmp(a, b); } };
  Arena mem;
  K key(long long r) { char* p = mem.Allocate(12); snprintf(p, 12, "%010lld", r); return p; }
  long long rank(K k) const { return k && strlen(k) == 10 ? atoll(k) : -7; }
};

template <class O> struct Sess {
  typedef typename O::K K;
  typedef SkipList<K, typename O::Cmp> List;
  typedef typename List::Iterator It;
  O o;
  Arena arena;
  List list;
  std::set<long long> in;  // only to choose inputs (keys must be distinct)
  std::vector<It> its;
  Sess() : list(typename O::Cmp(), &arena) { Ev("Reset").out(); }
  long long pos(It& it) { return it.Valid() ? o.rank(it.key()) : -1; }
  void Ins(long long r) {
    if (!in.insert(r).second) return;
    vp::SetOp("insert rank %lld", r);
    list.Insert(o.key(r));
    Ev("Ins").i("k", r).out();
  }
  void Bulk(long long a, long long d, int n, vp::Rng* shuffle) {
    std::vector<long long> v;
    for (int i = 0; i < n; i++) v.push_back(a + i * d);
    if (shuffle) for (int i = n - 1; i > 0; i--) std::swap(v[i], v[shuffle->upto(i + 1)]);
    vp::SetOp("bulk insert %lld %lld %d", a, d, n);
    for (long long r : v) { if (!in.insert(r).second) { fprintf(stderr, "dup\n"); _exit(77); } list.Insert(o.key(r)); }
    Ev("Bulk").i("a", a).i("d", d).i("n", n).out();
  }
  void Has(long long r) {
    vp::SetOp("contains %lld", r);
    bool b = list.Contains(o.key(r));
    Ev("Has").i("k", r).b("r", b).out();
  }
  int New() { its.push_back(It(&list)); int i = its.size() - 1; Ev("New").i("i", i).i("p", pos(its[i])).out(); return i; }
  void Op(int i, int op, long long t) {
    It& it = its[i];
    static const char* nm[] = {"Seek", "First", "Last", "Next", "Prev", "At"};
    if (op >= 3 && op < 5 && !it.Valid()) op = 5;
    vp::SetOp("%s %lld", nm[op], t);
    switch (op) {
      case 0: it.Seek(o.key(t)); break;
      case 1: it.SeekToFirst(); break;
      case 2: it.SeekToLast(); break;
      case 3: it.Next(); break;
      case 4: it.Prev(); break;
    }
    Ev e(nm[op]); e.i("i", i).i("p", pos(it));
    if (op == 0) e.i("t", t);
    e.out();
  }
  void Scan(bool up) {
    vp::SetOp("scan %d", up);
    It it(&list);
    if (up) it.SeekToFirst(); else it.SeekToLast();
    std::string runs;
    long long a = 0, d = 0, last = 0; long n = 0, total = 0;
    for (;; up ? it.Next() : it.Prev()) {
      bool v = it.Valid();
      long long p = v ? pos(it) : 0;
      if (v && n >= 1 && (n == 1 || p - last == d)) { d = p - last; last = p; n++; }
      else {
        if (n) { if (!runs.empty()) runs += ","; runs += "[" + std::to_string(a) + "," + std::to_string(n > 1 ? d : 0) + "," + std::to_string(n) + "]"; }
        a = last = p; n = 1; d = 0;
      }
      if (!v) break;
      if (++total > 2000000) { Ev("Crash").s("what", "endless iteration").out(); _exit(99); }
    }
    Ev("Scan").b("up", up).raw("runs", "[" + runs + "]").out();
  }
};

template <class O> static void RandRun(vp::Rng& r, int ops) {
  Sess<O> s;
  int style = r.upto(4);
  long long base = r.one(4) ? 0 : r.one(2) ? r.upto(kUniverse - 100000) : kUniverse - 3000;
  long long span = style == 0 ? 8 : style == 1 ? 40 : style == 2 ? 400 : 2900;
  if (base + span > kUniverse) base = kUniverse - span;
  auto any = [&]() -> long long { return base + r.upto(span); };
  s.New(); s.Op(0, 1, 0); s.Op(0, 2, 0); s.Op(0, 0, any()); s.Has(any()); s.Scan(true); s.Scan(false);
  int dir = r.upto(3);
  long long up = base, dn = base + span - 1;
  for (int i = 0; i < ops; i++) {
    int x = r.upto(100);
    if (s.its.size() < 3 && r.one(20)) s.New();
    int it = r.upto(s.its.size());
    if (x < 30 && (long long)s.in.size() < std::min(span, 250ll)) {
      if (dir == 0 && up < base + span) { s.Ins(up); up += 1 + r.upto(2); }
      else if (dir == 1 && dn >= base) { s.Ins(dn); dn -= 1 + r.upto(2); }
      else s.Ins(any());
    } else if (x < 45) s.Has(any());
    else if (x < 58) s.Op(it, 0, any());
    else if (x < 62) s.Op(it, 1, 0);
    else if (x < 66) s.Op(it, 2, 0);
    else if (x < 80) s.Op(it, 3, 0);
    else if (x < 94) s.Op(it, 4, 0);
    else if (x < 98) s.Op(it, 5, 0);
    else s.Scan(r.one(2));
  }
  s.Scan(true); s.Scan(false);
}
template <class O> static void Large(vp::Rng& r, int n) {
  Sess<O> s;
  int k = r.upto(3);
  s.Bulk(7, 2, n, k == 2 ? &r : nullptr);
  s.Scan(true);
  long long hi = 7 + 2ll * n;
  int i = s.New();
  for (int j = 0; j < 30; j++) {
    long long t = r.upto(hi + 5);
    s.Has(t); s.Op(i, 0, t); s.Op(i, 3, 0); s.Op(i, 4, 0); s.Op(i, 4, 0);
    if (j % 10 == 0) { s.Op(i, 1, 0); s.Op(i, 4, 0); s.Op(i, 2, 0); s.Op(i, 3, 0); }
  }
  // fill the gaps, from the end
  s.Bulk(8 + 2ll * (n / 2), -2, n / 4, nullptr);
  for (int j = 0; j < 20; j++) { long long t = r.upto(hi + 5); s.Has(t); s.Op(i, 0, t); s.Op(i, 4, 0); }
  s.Scan(true); s.Scan(false);
}

int main(int argc, char** argv) {
  vp::InitTrace();
  if (argc < 5) return 77;
  uint64_t seed = atoll(argv[1]); int n = atoi(argv[2]), ops = atoi(argv[3]), large = atoi(argv[4]);
  for (int i = 0; i < n; i++) {
    vp::Rng r(seed * 7919 + i);
    switch (i % 4) {
      case 0: RandRun<Nat>(r, ops); break;
      case 1: RandRun<Desc>(r, ops); break;
      case 2: RandRun<Scr>(r, ops); break;
      case 3: RandRun<Str>(r, ops); break;
    }
  }
  vp::Rng r(seed * 31 + 5);
  Large<Nat>(r, large); Large<Scr>(r, large / 2); Large<Str>(r, large / 2); Large<Desc>(r, large / 3);
  return 0;
}
