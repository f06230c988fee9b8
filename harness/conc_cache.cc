// Concurrent driver for the cache (C04): small programs on shared keys.
#include <algorithm>
#include <memory>
#include <set>
#include "dsched.h"
#include "lsmdb/cache.h"
#include "util/hash.h"
using namespace lsmdb;
using vp::Ev;
struct Val { uint64_t magic; int id; };
static const uint64_t kMagic = 0x5ca1ab1e0ddba11ull;
static std::vector<std::string> g_del[16];
static void Deleter(const Slice& key, void* v) {
  ds::Quiet q;
  Val* x = static_cast<Val*>(v);
  int id = x->magic == kMagic ? x->id : -1;
  x->magic = 0xdead;
  g_del[ds::Self()].push_back("[" + std::to_string(id) + ",\"" + vp::Hex(key.data(), key.size()) + "\"]");
}
static std::string TakeDel(int t) {
  std::string r = "[";
  for (size_t i = 0; i < g_del[t].size(); i++) { if (i) r += ","; r += g_del[t][i]; }
  g_del[t].clear();
  return r + "]";
}
static int IdOf(void* p) { Val* v = static_cast<Val*>(p); return v && v->magic == kMagic ? v->id : -1; }
static int ShardOf(const std::string& k) { return Hash(k.data(), k.size(), 0) >> 28; }

struct Sc : ds::Scenario {
  struct Op { char o; std::string k; size_t c; int id; };
  std::vector<std::vector<Op>> prog;
  std::vector<std::string> keys;
  size_t cap;
  Cache* c;
  std::vector<std::pair<Cache::Handle*, int>> han[16];
  explicit Sc(int p, vp::Rng& r) {
    int nk = 1 + r.upto(3);
    int sh = r.upto(16);
    std::set<std::string> seen;
    while ((int)keys.size() < nk) {
      std::string k; int len = 1 + r.upto(6); while (len--) k += (char)r.upto(256);
      if ((ShardOf(k) == sh || (keys.size() == 2 && r.one(3000))) && seen.insert(k).second) keys.push_back(k);
    }
    static const size_t caps[] = {0, 16, 32, 48, 1000};
    cap = caps[r.upto(5)];
    int nt = 2 + r.one(3);
    int per = nt == 2 ? 2 + r.upto(3) : 2;
    int id = 0;
    const char* mixes[] = {"ILER", "IIRL", "ILRP", "IETL", "NNIL", "IERT"};
    std::string mix = mixes[p % 6];
    prog.resize(nt + 1);
    // a prefix executed before the threads start
    for (int i = r.upto(3); i > 0; i--) prog[0].push_back(Op{r.one(3) ? 'R' : 'I', keys[r.upto(nk)], 1 + r.upto(2), ++id});
    for (int t = 1; t <= nt; t++)
      for (int i = 0; i < per; i++) {
        char o = mix[r.upto(4)];
        prog[t].push_back(Op{o, keys[r.upto(nk)], 1 + r.upto(2), o == 'I' ? ++id : 0});
      }
  }
  int Threads() override { return prog.size() - 1; }
  void Do(const Op& op0) {
    int t = ds::Self();
    Op op = op0;
    std::pair<Cache::Handle*, int> h{nullptr, 0};
    {
      ds::Quiet q;
      if (op.o == 'R') { if (han[t].empty()) op.o = 'L'; else { h = han[t].back(); han[t].pop_back(); } }
      Ev e("Call"); e.i("t", t);
      switch (op.o) {
        case 'I': e.s("o", "ins").s("k", vp::Hex(op.k)).i("s", ShardOf(op.k)).i("c", op.c).i("id", op.id); break;
        case 'L': e.s("o", "look").s("k", vp::Hex(op.k)); break;
        case 'E': e.s("o", "erase").s("k", vp::Hex(op.k)); break;
        case 'R': e.s("o", "rel").i("id", h.second); break;
        case 'P': e.s("o", "prune"); break;
        case 'T': e.s("o", "total"); break;
        case 'N': e.s("o", "id"); break;
      }
      e.out();
    }
    ds::Point();
    long long r = 0;
    switch (op.o) {
      case 'I': {
        Val* v; { ds::Quiet q; v = new Val{kMagic, op.id}; }
        Cache::Handle* x = c->Insert(Slice(op.k), v, op.c, Deleter);
        void* pv = c->Value(x);
        ds::Quiet q; r = IdOf(pv); han[t].push_back({x, op.id}); break; }
      case 'L': {
        Cache::Handle* x = c->Lookup(Slice(op.k));
        if (x) { void* pv = c->Value(x); ds::Quiet q; r = IdOf(pv); han[t].push_back({x, (int)r}); } break; }
      case 'E': c->Erase(Slice(op.k)); break;
      case 'R': { void* pv = c->Value(h.first); { ds::Quiet q; r = IdOf(pv); } c->Release(h.first); break; }
      case 'P': c->Prune(); break;
      case 'T': r = c->TotalCharge(); break;
      case 'N': r = c->NewId(); break;
    }
    ds::Point();
    ds::Quiet q;
    Ev("Ret").i("t", t).i("r", r).raw("del", TakeDel(t)).out();
  }
  void Setup() override {
    {
      ds::Quiet q;
      std::set<int> sh; for (auto& k : keys) sh.insert(ShardOf(k));
      Ev("Reset").i("cap", cap).li("shards", std::vector<long long>(sh.begin(), sh.end())).out();
    }
    std::shared_ptr<Cache> keep = NewLRUCache(cap);
    { ds::Quiet q; holder = new std::shared_ptr<Cache>(keep); }
    c = keep.get();
    for (auto& o : prog[0]) Do(o);
  }
  std::shared_ptr<Cache>* holder;
  void Body(int t) override {
    for (auto& o : prog[t]) Do(o);
    while (!han[t].empty()) Do(Op{'R', "", 0, 0});
  }
  void Finish() override {
    Do(Op{'T', "", 0, 0});
    for (auto& k : keys) Do(Op{'L', k, 0, 0});
    while (!han[0].empty()) Do(Op{'R', "", 0, 0});
    Do(Op{'N', "", 0, 0});
    Do(Op{'T', "", 0, 0});
    ds::Point();
    holder->reset();
    ds::Quiet q;
    Ev("Destroy").raw("del", TakeDel(0)).out();
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
