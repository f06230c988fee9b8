// Sequential driver for the cache (C01, C02, C03): random legal programs plus
// programs read from stdin (transition tours of the TLA+ model).
//   cache_seq rand <seed> <scenarios> <ops per scenario>
//   cache_seq tour            (programs on stdin)
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "lsmdb/cache.h"
#include "trace.h"
#include "util/hash.h"

using namespace lsmdb;
using vp::Ev;

struct Val { uint64_t magic; int id; };
static const uint64_t kMagic = 0x5ca1ab1e0ddba11ull;

// a key in the trace: its bytes, or (long keys) a name standing for exactly these bytes
static std::string KeyName(const char* d, size_t n) {
  if (n <= 1000) return vp::Hex(d, n);
  static std::map<std::string, int> names;
  auto it = names.insert({std::string(d, n), (int)names.size()}).first;
  return "L" + std::to_string(it->second);
}
static std::string KeyName(const std::string& k) { return KeyName(k.data(), k.size()); }
static std::vector<std::string> g_del;  // deleter calls of the current operation
static void Deleter(const Slice& key, void* v) {
  Val* x = static_cast<Val*>(v);
  int id = (x->magic == kMagic) ? x->id : -1;
  g_del.push_back("[" + std::to_string(id) + ",\"" + KeyName(key.data(), key.size()) + "\"]");
  x->magic = 0xdead;
  delete x;
}
static std::string TakeDel() {
  std::string r = "[";
  for (size_t i = 0; i < g_del.size(); i++) { if (i) r += ","; r += g_del[i]; }
  g_del.clear();
  return r + "]";
}
static int IdOf(void* p) {
  Val* v = static_cast<Val*>(p);
  return v && v->magic == kMagic ? v->id : -1;
}
static int ShardOf(const std::string& k) { return Hash(k.data(), k.size(), 0) >> 28; }

struct Sess {
  std::shared_ptr<Cache> c;
  int next_id = 0;
  size_t unit;  // charges and capacity are multiples of it and recorded in it
  std::vector<std::pair<Cache::Handle*, int>> handles;
  std::vector<std::pair<std::vector<Cache::Handle*>, int>> bulk;
  explicit Sess(size_t cap, size_t u = 1) : c(NewLRUCache(cap)), unit(u) {
    cap /= unit;
    Ev("Reset").i("cap", cap > 2000000000u ? 2000000000ll : (long long)cap).i("tot", Tot()).out();
  }
  long long Tot() { size_t t = c->TotalCharge(); return t % unit ? -1 : t / unit > 2000000000u ? 2000000000ll : (long long)(t / unit); }
  void fin(Ev& e) { e.raw("del", TakeDel()).i("tot", Tot()).out(); }
  void Insert(const std::string& k, size_t charge) {
    int id = ++next_id;
    vp::SetOp("Insert %s charge %zu id %d", KeyName(k).c_str(), charge, id);
    // the cache must copy the key: hand it a buffer that is destroyed afterwards
    char* kb = new char[k.size() ? k.size() : 1];
    memcpy(kb, k.data(), k.size());
    Cache::Handle* h = c->Insert(Slice(kb, k.size()), new Val{kMagic, id}, charge * unit, Deleter);
    memset(kb, 0xEE, k.size());
    delete[] kb;
    int v = h ? IdOf(c->Value(h)) : 0;
    handles.push_back({h, id});
    Ev e("Ins"); e.s("k", KeyName(k)).i("s", ShardOf(k)).i("id", id).i("c", charge).i("v", v);
    fin(e);
  }
  void Lookup(const std::string& k) {
    vp::SetOp("Lookup %s", KeyName(k).c_str());
    Cache::Handle* h = c->Lookup(k);
    int r = h ? IdOf(c->Value(h)) : 0;
    if (h) handles.push_back({h, r});
    Ev e("Look"); e.s("k", KeyName(k)).i("r", r);
    fin(e);
  }
  void Release(size_t ix) {
    auto h = handles[ix];
    handles[ix] = handles.back(); handles.pop_back();
    vp::SetOp("Release of id %d", h.second);
    int v = IdOf(c->Value(h.first));
    c->Release(h.first);
    Ev e("Rel"); e.i("id", h.second).i("v", v);
    fin(e);
  }
  void ReleaseId(int id) {
    for (size_t i = 0; i < handles.size(); i++) if (handles[i].second == id) { Release(i); return; }
    fprintf(stderr, "tour releases unknown id %d\n", id);
  }
  // n lookups of a key, all handles kept; n is recorded once
  void Many(const std::string& k, size_t n) {
    vp::SetOp("%zu lookups of %s", n, KeyName(k).c_str());
    std::vector<Cache::Handle*> hs;
    int r = 0;
    bool same = true;
    for (size_t i = 0; i < n; i++) {
      Cache::Handle* h = c->Lookup(k);
      int x = h ? IdOf(c->Value(h)) : 0;
      if (i == 0) r = x;
      if (x != r) same = false;
      if (h) hs.push_back(h);
    }
    size_t got = hs.size();
    if (got) bulk.push_back({std::move(hs), r});
    Ev e("Many"); e.s("k", KeyName(k)).i("n", n).i("got", got).i("r", r).b("same", same);
    fin(e);
  }
  void ManyRelease(size_t ix, size_t n) {
    auto& b = bulk[ix];
    if (n > b.first.size()) n = b.first.size();
    vp::SetOp("%zu releases of id %d", n, b.second);
    int id = b.second, v = IdOf(c->Value(b.first.back()));
    for (size_t i = 0; i < n; i++) { c->Release(b.first.back()); b.first.pop_back(); }
    if (b.first.empty()) bulk.erase(bulk.begin() + ix);
    Ev e("ManyRel"); e.i("id", id).i("n", n).i("v", v);
    fin(e);
  }
  void Erase(const std::string& k) {
    vp::SetOp("Erase %s", KeyName(k).c_str());
    c->Erase(k);
    Ev e("Erase"); e.s("k", KeyName(k));
    fin(e);
  }
  void Prune() { vp::SetOp("Prune"); c->Prune(); Ev e("Prune"); fin(e); }
  void Id() { uint64_t a = c->NewId(); Ev e("Id"); e.i("n", (long long)a); fin(e); }
  void Check() {  // read every outstanding handle again
    std::vector<long long> want, got;
    for (auto& h : handles) { want.push_back(h.second); got.push_back(IdOf(c->Value(h.first))); }
    for (auto& h : bulk) { want.push_back(h.second); got.push_back(IdOf(c->Value(h.first[0]))); }
    Ev e("Vals"); e.li("want", want).li("got", got); fin(e);
  }
  void Destroy() {
    while (!handles.empty()) Release(handles.size() - 1);
    while (!bulk.empty()) ManyRelease(bulk.size() - 1, bulk.back().first.size());
    vp::SetOp("destroy cache");
    c.reset();
    Ev e("Destroy"); e.raw("del", TakeDel()).i("tot", 0).out();
  }
};

static std::vector<std::string> KeysInShard(int sh, size_t n, vp::Rng& r, int len_lo, int len_hi) {
  std::vector<std::string> out;
  std::set<std::string> seen;
  while (out.size() < n) {
    int len = r.range(len_lo, len_hi);
    std::string k;
    for (int i = 0; i < len; i++) k += (char)r.upto(256);
    if (ShardOf(k) == sh && seen.insert(k).second) out.push_back(k);
  }
  return out;
}
// Keys of one partition whose hashes agree in their low bits: however the
// table of a partition is dimensioned, they share few buckets, so chains are
// long whenever the table grows.
static std::vector<std::string> KeysInBucket(int sh, size_t n, vp::Rng& r, uint32_t mask) {
  std::vector<std::string> out;
  std::set<std::string> seen;
  uint32_t low = r.upto(1 << 30);
  while (out.size() < n) {
    std::string k;
    for (int i = 0; i < 6; i++) k += (char)r.upto(256);
    uint32_t h = Hash(k.data(), k.size(), 0);
    if ((int)(h >> 28) == sh && ((h ^ low) & mask) == 0 && seen.insert(k).second) out.push_back(k);
  }
  return out;
}
// Pairs of different keys of equal length with the same 32-bit hash: random
// bytes in front of, behind or around constant ones, some with NUL bytes, so
// that a comparison of lengths, prefixes, suffixes or C strings confuses them.
static std::vector<std::string> Colliding(size_t per) {
  static const struct { const char* pre; int npre, nmid; const char* suf; int nsuf; } cls[] = {
      {"", 0, 8, "", 0}, {"\0\0", 2, 8, "", 0}, {"user", 4, 8, "", 0}, {"", 0, 8, "tail", 4}, {"longer-prefix...", 16, 8, "longer-suffix...", 16}, {"", 0, 5, "", 0}};
  std::vector<std::string> out;
  vp::Rng r(4711);
  for (auto& c : cls) {
    std::map<uint32_t, std::string> m;
    size_t n = 0;
    for (int i = 0; i < 2000000 && n < per; i++) {
      std::string k(c.pre, c.npre);
      for (int j = 0; j < c.nmid; j++) k += (char)r.upto(256);
      k.append(c.suf, c.nsuf);
      uint32_t h = Hash(k.data(), k.size(), 0);
      auto it = m.find(h);
      if (it == m.end()) m[h] = k;
      else if (it->second != k) { out.push_back(it->second); out.push_back(k); m.erase(it); n++; }
    }
  }
  return out;
}

// One entry with very many handles: the count must not wrap or saturate.
static void Wide(uint64_t seed, bool quick) {
  static const size_t counts[] = {254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70001, 131072, 200000};
  for (size_t ci = 0; ci < sizeof(counts) / sizeof(counts[0]); ci++) {
    vp::Rng r(seed * 77 + ci);
    for (int how = 0; how < (quick ? 2 : 5); how++) {
      int h = quick ? (ci * 2 + how + seed) % 5 : how;
      Sess s(r.one(3) ? 0 : 32);
      s.Insert("wide", 1);
      if (r.one(2)) s.Insert("other", 1);
      s.Many("wide", counts[ci]);
      if (s.bulk.empty()) { s.Destroy(); continue; }   // capacity 0
      if (h == 0) s.Erase("wide");
      else if (h == 1) s.Insert("wide", 1);
      else if (h == 2) s.Prune();
      else if (h == 3) { s.Erase("wide"); s.Many("wide", 300); }
      s.Check();
      s.ManyRelease(0, counts[ci] - r.upto(4));
      s.Check();
      s.Lookup("wide");
      if (h == 4) { s.Erase("wide"); s.Check(); }
      s.Destroy();
    }
  }
}

// Very many entries in one partition: counts of entries, table sizes and hash
// chains beyond 16 bits.  Entry i (1-based) has the i-th key; sets of entries
// are recorded as ascending lists of ranges.
static std::vector<int> g_mdel; static bool g_mkeys; static std::vector<std::string>* g_mk;
static void MassDeleter(const Slice& key, void* v) {
  long i = (long)v;
  g_mdel.push_back(i);
  if (key != Slice((*g_mk)[i - 1])) g_mkeys = false;
}
static std::string Ranges(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  std::string r = "[";
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
    r += (i ? ",[" : "[") + std::to_string(v[i]) + "," + std::to_string(v[j]) + "]";
    i = j + 1;
    if (r.size() > 400) { r += ",[0,0]"; break; }
  }
  return r + "]";
}
static void MassOp(Cache* c, const char* o, int lo, int hi, int charge) {
  vp::SetOp("%s of entries %d to %d", o, lo, hi);
  std::vector<int> found;
  bool vals = true;
  for (int i = lo; i <= hi; i++) {
    const std::string& k = (*g_mk)[i - 1];
    Cache::Handle* h = nullptr;
    if (*o == 'i') h = c->Insert(k, (void*)(long)i, charge, MassDeleter);
    else if (*o == 'l') h = c->Lookup(k);
    else if (*o == 'e') c->Erase(k);
    else { c->Prune(); break; }
    if (h) { found.push_back(i); if (c->Value(h) != (void*)(long)i) vals = false; c->Release(h); }
  }
  Ev("Mass").s("o", o).i("lo", lo).i("hi", hi).i("c", charge).raw("found", Ranges(found)).b("vals", vals)
      .raw("del", Ranges(g_mdel)).b("keys", g_mkeys).i("tot", c->TotalCharge()).out();
  g_mdel.clear();
}
static void Mass(uint64_t seed, bool quick) {
  static const int ns[] = {66000, 131080, 40000, 300000};
  for (int sc = 0; sc < (quick ? 2 : 8); sc++) {
    vp::Rng r(seed * 31 + sc);
    int n = quick ? 66000 + 70000 * (sc & 1) : ns[sc / 2], charge = 1 + r.upto(3);
    std::vector<std::string> keys = KeysInShard(r.upto(16), n, r, 4, 7);
    g_mk = &keys; g_mkeys = true;
    int per = (sc & 1) ? n / 2 + r.upto(1000) : n + r.upto(2);
    size_t cap = (size_t)per * charge * 16;
    std::shared_ptr<Cache> c(NewLRUCache(cap));
    Ev("Reset").i("cap", cap).i("tot", c->TotalCharge()).out();
    MassOp(c.get(), "insert", 1, n, charge);
    MassOp(c.get(), "lookup", 1, n, charge);
    int gone = per < n ? n - per : 0;
    if (r.one(2)) {
      MassOp(c.get(), "erase", gone + 1, gone + (n - gone) / 2, charge);
      MassOp(c.get(), "lookup", 1, n, charge);
      MassOp(c.get(), "insert", gone + 1, gone + 3, charge);
    } else MassOp(c.get(), "prune", 1, n, charge);
    MassOp(c.get(), "lookup", 1, n, charge);
    vp::SetOp("destroy");
    c.reset();
    Ev("MassEnd").raw("del", Ranges(g_mdel)).b("keys", g_mkeys).out();
    g_mdel.clear();
  }
}

static void Random(uint64_t seed, int scenarios, int ops) {
  std::vector<std::string> coll = Colliding(4);
  for (int sc = 0; sc < scenarios; sc++) {
    vp::Rng r(seed * 1000003 + sc);
    static const size_t caps[] = {0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 80, 100, 160, 161, 320, 1000, 3000000, 100000000, (size_t)-1, (size_t)-16, (size_t)1 << 40};
    size_t cap = (sc % 5 == 4) ? 320 : caps[(sc - sc / 5 + seed) % (sizeof(caps) / sizeof(caps[0]))];
    bool big = (sc % 5 == 4);      // many keys of one partition: the table grows
    size_t nkeys = big ? 40 + r.upto(560) : 2 + r.upto(10);
    if (big) { static const size_t bc[] = {1600, 4800, 16000, 100000000, 100000000}; cap = bc[r.upto(5)]; }
    static const uint32_t masks[] = {3, 7, 15, 31, 127, 0x1000003};
    std::vector<std::string> keys = big && r.one(2) ? KeysInBucket(r.upto(16), nkeys, r, masks[r.upto(6)])
                                                    : KeysInShard(r.upto(16), nkeys, r, big ? 3 : 1, 9);
    if (r.one(2)) keys.push_back("");
    if (r.one(3)) keys.push_back(std::string(1000, 'x'));
    if (r.one(3)) { keys.push_back(std::string("a\0b", 3)); keys.push_back(std::string("a\0c", 3)); keys.push_back("a"); }
    if (r.one(8)) {                 // keys longer than 16-bit lengths
      static const size_t ls[] = {65535, 65536, 65537, 65536 + 9, 131072, 70001, 131073};
      char fill = r.upto(256);
      for (int j = r.range(1, 4); j > 0; j--) keys.push_back(std::string(ls[r.upto(7)], r.one(3) ? fill + 1 : fill) + (r.one(3) ? keys[0] : ""));
      keys.push_back(std::string(1, fill));
    }
    for (int np = r.upto(4); np > 0 && coll.size() >= 2; np--) {
      size_t c = 2 * r.upto(coll.size() / 2);
      keys.push_back(coll[c]); keys.push_back(coll[c + 1]);
    }
    size_t unit = 1;
    if (!big && r.one(6)) { unit = (size_t)1 << (30 + r.upto(8)); cap = unit * 16 * (1 + r.upto(8)); }
    if (r.one(2)) { auto o = KeysInShard(r.upto(16), 2, r, 4, 4); keys.insert(keys.end(), o.begin(), o.end()); }
    std::set<std::string> uniq(keys.begin(), keys.end());
    keys.assign(uniq.begin(), uniq.end());
    size_t maxcharge = r.one(3) ? 1 : r.one(2) ? 3 : 1 + cap / 16 / unit;
    if (maxcharge > 100000) maxcharge = 100000;
    int zero = r.one(4) ? 2 : 12;
    int maxh = 1 + r.upto(big ? 40 : 8);
    Sess s(cap, unit);
    int n = big ? ops * 6 : ops;
    if (big && r.one(2)) {          // fill: the table grows as far as it will, then every key is looked for
      for (auto& k : keys) { s.Insert(k, 1); if (!r.one(40)) s.Release(s.handles.size() - 1); }
      for (auto& k : keys) { s.Lookup(k); if (!s.handles.empty()) s.Release(s.handles.size() - 1); }
      n = ops * 3;
    }
    int phase = 0;
    for (int i = 0; i < n; i++) {
      if (big && i % 200 == 0) phase = r.upto(3);   // growing, mixed, shrinking
      const std::string& k = keys[r.upto(keys.size())];
      int x = r.upto(100);
      if (big && phase == 0 && x < 60) x = 10;
      if (big && phase == 2 && x < 40) x = 88;
      while ((int)s.handles.size() > maxh) s.Release(r.upto(s.handles.size()));
      if (x < 30) {
        s.Insert(k, r.one(zero) ? 0 : 1 + r.upto(maxcharge));
        if (r.upto(3)) s.Release(s.handles.size() - 1);
      } else if (x < 60) { s.Lookup(k); if (!s.handles.empty() && r.one(2)) s.Release(s.handles.size() - 1); }
      else if (x < 82) { if (!s.handles.empty()) s.Release(r.upto(s.handles.size())); }
      else if (x < 93) s.Erase(k);
      else if (x < 95) s.Prune();
      else if (x < 97) s.Id();
      else s.Check();
    }
    for (auto& k : keys) { s.Lookup(k); if (r.one(2) && !s.handles.empty()) s.Release(s.handles.size() - 1); }
    s.Destroy();
  }
  Wide(seed, scenarios < 100);
  Mass(seed, scenarios < 100);
}

// programs: one per line, tokens "ins:a:2 look:b rel:1 erase:a prune destroy"
static void Tour(int percap) {
  vp::Rng r(99);
  std::vector<std::string> a = KeysInShard(3, 3, r, 4, 4), z = KeysInShard(9, 1, r, 4, 4);
  std::map<std::string, std::string> key = {{"a", a[0]}, {"b", a[1]}, {"c", a[2]}, {"z", z[0]}};
  std::string line;
  while (std::getline(std::cin, line)) {
    Sess s((size_t)percap * 16);
    std::istringstream is(line);
    std::string tok;
    bool destroyed = false;
    while (is >> tok) {
      std::vector<std::string> p;
      std::istringstream ts(tok);
      std::string q;
      while (std::getline(ts, q, ':')) p.push_back(q);
      if (p[0] == "ins") s.Insert(key[p[1]], atoi(p[2].c_str()));
      else if (p[0] == "look") s.Lookup(key[p[1]]);
      else if (p[0] == "rel") s.ReleaseId(atoi(p[1].c_str()));
      else if (p[0] == "erase") s.Erase(key[p[1]]);
      else if (p[0] == "prune") s.Prune();
      else if (p[0] == "destroy") { s.Destroy(); destroyed = true; break; }
    }
    if (!destroyed) s.Destroy();
  }
}

int main(int argc, char** argv) {
  vp::InitTrace();
  if (argc > 1 && !strcmp(argv[1], "rand")) Random(atoll(argv[2]), atoi(argv[3]), atoi(argv[4]));
  else if (argc > 2 && !strcmp(argv[1], "tour")) Tour(atoi(argv[2]));
  else return 77;
  return 0;
}
