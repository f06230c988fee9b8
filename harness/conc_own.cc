// Concurrent driver for values and objects that need no synchronization (C31):
// every thread works on objects of its own, on shared objects through const
// methods, and calls functions without state.  Every answer must be the one the
// thread would get alone.
#include <memory>
#include "dsched.h"
#include "util/arena.h"
#include "util/noncopyable.h"
#include "db/skiplist.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "helpers/memenv/memenv.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"
using namespace lsmdb;
using vp::Ev;
typedef uint64_t Key;
struct Cmp { int operator()(const Key& a, const Key& b) const { return a < b ? -1 : a > b ? 1 : 0; } };
typedef SkipList<Key, Cmp> List;
struct Val { int id; };
static std::vector<long long> g_del[16];
static void Deleter(const Slice&, void* v) { ds::Quiet q; Val* x = (Val*)v; g_del[ds::Self()].push_back(x->id); x->id = -9; }
static int ShardOf(const std::string& k) { return Hash(k.data(), k.size(), 0) >> 28; }
static std::string B(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
static std::string N(uint64_t v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return B(s); }

struct Op { char o; uint64_t k; std::string s, m; int a; };
struct Own {
  Arena* arena; List* list; List::Iterator* it; Random* rnd; std::shared_ptr<Cache> cache; Env* env; Status* st;
  std::vector<std::pair<Cache::Handle*, int>> han; std::vector<std::pair<char*, int>> mem; int ids, files;
};
static Status Make(int c, const Slice& a, const Slice& b) {
  switch (c) { case 1: return Status::NotFound(a, b); case 2: return Status::Corruption(a, b); case 3: return Status::NotSupported(a, b);
    case 4: return Status::InvalidArgument(a, b); case 5: return Status::IOError(a, b); }
  return Status::OK();
}
static std::vector<long long> Preds(const Status& s) {
  bool p[] = {s.ok(), s.IsNotFound(), s.IsCorruption(), s.IsNotSupportedError(), s.IsInvalidArgument(), s.IsIOError()};
  ds::Quiet q; std::vector<long long> r; for (int i = 0; i < 6; i++) if (p[i]) r.push_back(i); return r;
}
struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;
  std::vector<int> caps; std::vector<uint32_t> seeds;
  int shc; std::string sh1, sh2, shs, shs2;
  Own own[5]; Status* shared; Slice* sl1; Slice* sl2; std::string* back;
  explicit Sc(int p, vp::Rng& r) {
    // several threads doing much the same thing; the kinds go round
    static const char* kinds[] = {"ihsnwwih", "ruorru", "aaaiaA", "ILERTILE", "ffeepp", "vVvVxx", "mmkSSG", "SSGGSS", "MMMM", "ihrfaeILmv", "fpxvmeS", "iIMrma", "dDDd", "WWWW", "WMif"};
    const char* kd = kinds[p % 15];
    int nt = 2 + r.one(3);
    prog.resize(nt + 1);
    auto str = [&](int n) { std::string s; while (n--) s += (char)(r.one(3) ? r.upto(256) : 32 + r.upto(95)); return s; };
    shc = r.upto(6); sh1 = str(r.upto(9)); sh2 = r.one(2) ? "" : str(r.upto(6)); shs = str(1 + r.upto(8)); shs2 = r.one(2) ? shs.substr(0, r.upto(shs.size())) : str(r.upto(6));
    for (int t = 0; t <= nt; t++) { caps.push_back(r.one(6) ? 0 : 16 * (1 + r.upto(3))); seeds.push_back(r.one(4) ? 301 : r.next()); }
    int per = 3 + r.upto(4);
    for (int t = 1; t <= nt; t++)
      for (int i = 0; i < per; i++) {
        Op op; op.o = kd[r.upto(strlen(kd))];
        op.k = r.one(3) ? r.upto(20) : r.one(2) ? r.next() : r.next() & 0xffff;
        if (strchr("ihs", op.o)) op.k = 1 + r.upto(30);
        if (op.o == 'd') op.k = 1 + r.upto(12);
        op.a = op.o == 'a' || op.o == 'A' ? 1 + r.upto(r.one(2) ? 60 : r.one(2) ? 1500 : 6000) : 1 + r.upto(5);
        op.s = op.o == 'I' || op.o == 'L' || op.o == 'E' ? std::string(1, 'a' + (int)r.upto(2)) : op.o == 'M' || op.o == 'W' ? str(1 + r.upto(9)) : str(r.upto(op.o == 'x' ? 14 : 10));
        if (op.o == 'p') { op.s = std::to_string(op.k); if (r.one(2)) op.s += "zz"; if (r.one(5)) op.s = "18446744073709551616"; }
        op.m = r.one(2) ? "" : str(r.upto(5));
        prog[t].push_back(op);
      }
  }
  int Threads() override { return prog.size() - 1; }
  void Setup() override {
    ds::Quiet q;
    Ev e("Reset");
    std::vector<long long> cs; for (size_t t = 1; t < prog.size(); t++) cs.push_back(caps[t]);
    std::string sd = "["; for (size_t t = 1; t < prog.size(); t++) { if (t > 1) sd += ","; sd += "[" + std::to_string(seeds[t] >> 16) + "," + std::to_string(seeds[t] & 65535) + "]"; } sd += "]";
    e.i("n", Threads()).li("caps", cs).raw("seeds", sd).i("c", shc).raw("m1", B(sh1)).raw("m2", B(sh2)).raw("s1", B(shs)).raw("s2", B(shs2)).out();
    shared = new Status(Make(shc, sh1, sh2));
    back = new std::string[2]; back[0] = shs; back[1] = shs2;
    sl1 = new Slice(back[0]); sl2 = new Slice(back[1]);
  }
  void Do(int t, const Op& op) {
    Own& w = own[t];
    std::string out; long long r = 0; bool ok = true;
    std::vector<long long> li;
    auto ev = [&](const char* o) { Ev e("Op"); e.i("t", t).s("o", o); return e; };
    switch (op.o) {
      case 'i': { bool had = w.list->Contains(op.k); if (!had) w.list->Insert(op.k); ds::Quiet q; ev("ins").i("k", op.k).b("r", had).out(); break; }
      case 'h': { bool x = w.list->Contains(op.k); ds::Quiet q; ev("has").i("k", op.k).b("r", x).out(); break; }
      case 's': { w.it->Seek(op.k); bool v = w.it->Valid(); Key k = v ? w.it->key() : 0; ds::Quiet q; ev("seek").i("k", op.k).i("r", v ? (long long)k : -1).out(); break; }
      case 'n': { if (!w.it->Valid()) { w.it->SeekToFirst(); } else w.it->Next(); bool v = w.it->Valid(); Key k = v ? w.it->key() : 0; ds::Quiet q; ev("next").i("r", v ? (long long)k : -1).out(); break; }
      case 'w': { w.it->SeekToFirst(); while (w.it->Valid()) { Key k = w.it->key(); { ds::Quiet q; li.push_back(k); } w.it->Next(); } ds::Quiet q; ev("walk").li("r", li).out(); break; }
      case 'r': { uint32_t x = w.rnd->Next(); ds::Quiet q; ev("rnd").i("r", x).out(); break; }
      case 'u': { uint32_t x = w.rnd->Uniform(1 + op.k % 1000); ds::Quiet q; ev("uni").i("n", 1 + op.k % 1000).i("r", x).out(); break; }
      case 'o': { bool x = w.rnd->OneIn(1 + op.k % 4); ds::Quiet q; ev("one").i("n", 1 + op.k % 4).b("r", x).out(); break; }
      case 'a': case 'A': {
        char* p = op.o == 'a' ? w.arena->Allocate(op.a) : w.arena->AllocateAligned(op.a);
        size_t u = w.arena->MemoryUsage();
        ds::Quiet q; memset(p, 16 * t + w.mem.size() % 16, op.a); w.mem.push_back({p, op.a});
        ev("alloc").i("n", op.a).i("u", u).out(); break; }
      case 'I': {
        Val* v; { ds::Quiet q; v = new Val{++w.ids}; }
        Cache::Handle* h = w.cache->Insert(op.s, v, op.a, Deleter);
        ds::Quiet q; w.han.push_back({h, w.ids}); ev("cins").s("k", op.s).i("s", ShardOf(op.s)).i("c", op.a).i("id", w.ids).li("del", g_del[t]).out(); g_del[t].clear(); break; }
      case 'L': {
        Cache::Handle* h = w.cache->Lookup(op.s); int id = 0;
        if (h) { Val* v = (Val*)w.cache->Value(h); ds::Quiet q; id = v->id; w.han.push_back({h, id}); }
        ds::Quiet q; ev("clook").s("k", op.s).i("r", id).li("del", g_del[t]).out(); g_del[t].clear(); break; }
      case 'E': { w.cache->Erase(op.s); ds::Quiet q; ev("cerase").s("k", op.s).li("del", g_del[t]).out(); g_del[t].clear(); break; }
      case 'R': {
        std::pair<Cache::Handle*, int> h{nullptr, 0};
        { ds::Quiet q; if (w.han.empty()) return; h = w.han.back(); w.han.pop_back(); }
        w.cache->Release(h.first);
        ds::Quiet q; ev("crel").i("id", h.second).li("del", g_del[t]).out(); g_del[t].clear(); break; }
      case 'T': { size_t x = w.cache->TotalCharge(); ds::Quiet q; ev("ctotal").i("r", x).li("del", g_del[t]).out(); g_del[t].clear(); break; }
      case 'f': { out = NumberToString(op.k); ds::Quiet q; ev("fmt").raw("v", N(op.k, 8)).raw("r", B(out)).out(); break; }
      case 'e': { out = EscapeString(op.s); ds::Quiet q; ev("esc").raw("v", B(op.s)).raw("r", B(out)).out(); break; }
      case 'p': { Slice in(op.s); uint64_t v = 0; ok = ConsumeDecimalNumber(&in, &v); ds::Quiet q; ev("parse").raw("v", B(op.s)).b("ok", ok).raw("r", N(v, 8)).raw("rest", B(in.ToString())).out(); break; }
      case 'v': { PutVarint64(&out, op.k); PutFixed32(&out, (uint32_t)op.k); PutLengthPrefixedSlice(&out, op.s); ds::Quiet q; ev("enc").raw("v", N(op.k, 8)).raw("s", B(op.s)).raw("r", B(out)).out(); break; }
      case 'V': {
        std::string in; { ds::Quiet q; in.reserve(40); uint64_t v = op.k; while (v >= 128) { in += (char)(v | 128); v >>= 7; } in += (char)v; in += (char)op.s.size(); in += op.s; }
        Slice x(in), y; uint64_t v = 0; ok = GetVarint64(&x, &v) && GetLengthPrefixedSlice(&x, &y);
        ds::Quiet q; ev("dec").raw("v", N(op.k, 8)).raw("s", B(op.s)).b("ok", ok && x.empty()).raw("r", N(v, 8)).raw("rs", B(y.ToString())).out(); break; }
      case 'x': { uint32_t h = Hash(op.s.data(), op.s.size(), (uint32_t)op.k); ds::Quiet q; ev("hash").raw("v", B(op.s)).raw("seed", N((uint32_t)op.k, 4)).raw("r", N(h, 4)).out(); break; }
      case 'm': case 'k': {
        int c = op.a;
        { Status s = Make(c, op.s, op.m); *w.st = s; Status z = std::move(s); if (op.o == 'k') *w.st = z; }
        out = w.st->ToString(); li = Preds(*w.st);
        ds::Quiet q; ev("stat").i("c", c).raw("m1", B(op.s)).raw("m2", B(op.m)).raw("r", B(out)).li("p", li).out(); break; }
      case 'S': { Status c(*shared); out = shared->ToString(); std::string o2 = c.ToString(); li = Preds(*shared); ds::Quiet q; ev("shst").raw("r", B(out)).raw("r2", B(o2)).li("p", li).out(); break; }
      case 'G': {
        int c = sl1->compare(*sl2); bool eq = *sl1 == *sl2, sw = sl1->starts_with(*sl2); out = sl1->ToString(); char last = (*sl1)[sl1->size() - 1]; Slice cp(*sl2);
        ds::Quiet q; ev("shsl").i("c", c < 0 ? -1 : c > 0).b("eq", eq).b("sw", sw).raw("r", B(out)).i("last", (unsigned char)last).raw("r2", B(cp.ToString())).out(); break; }
      case 'M': {
        std::string name, got;
        { ds::Quiet q; name = "/d/" + std::string(1, 'a' + w.files % 3); w.files++; }
        Status s = WriteStringToFile(w.env, op.s, name); Status s2 = ReadFileToString(w.env, name, &got);
        std::vector<std::string> kids; Status s3 = w.env->GetChildren("/d", &kids); uint64_t sz = 0; Status s4 = w.env->GetFileSize(name, &sz);
        ds::Quiet q; std::string ks; for (auto& k : kids) if (k.size() == 1) li.push_back(k[0]); else li.push_back(-1);
        ev("mem").i("f", 'a' + (w.files - 1) % 3).raw("v", B(op.s)).raw("r", B(got)).b("ok", s.ok() && s2.ok() && s3.ok() && s4.ok()).i("size", sz).li("kids", li).out(); break; }
      case 'W': {
        std::string name, got;
        { ds::Quiet q; name = std::string(getenv("VP_DIR")) + "/own-" + std::to_string(getpid()) + "-" + std::to_string(t); }
        Env* e = Env::Default();
        Status s = WriteStringToFile(e, op.s, name); Status s2 = ReadFileToString(e, name, &got); uint64_t sz = 0; Status s4 = e->GetFileSize(name, &sz);
        WritableFile* f = nullptr; Status s3 = e->NewAppendableFile(name, &f); if (s3.ok()) { s3 = f->Append(op.m); if (s3.ok()) s3 = f->Close(); delete f; }
        RandomAccessFile* rf = nullptr; std::string tail;
        if (s3.ok()) { s3 = e->NewRandomAccessFile(name, &rf); if (s3.ok()) { char b[64]; Slice x; s3 = rf->Read(sz, op.m.size(), &x, b); { ds::Quiet q; tail.assign(x.data(), x.size()); } delete rf; } }
        if (s3.ok()) s3 = e->RemoveFile(name);
        bool good = s.ok() && s2.ok() && s3.ok() && s4.ok();
        ds::Quiet q; ev("file").raw("v", B(op.s)).raw("m", B(op.m)).raw("r", B(got)).raw("tail", B(tail)).b("ok", good).i("size", sz).out(); break; }
      // a list of random heights: as many insertions as it takes
      case 'd': { for (uint64_t i = 0; i < op.k; i++) { Key k = 100 + 3 * (i * 7 % 12) + t; if (!w.list->Contains(k)) { w.list->Insert(k); ds::Quiet q; ev("ins").i("k", k).b("r", false).out(); } } break; }
      case 'D': { w.it->SeekToLast(); while (w.it->Valid()) { Key k = w.it->key(); { ds::Quiet q; li.insert(li.begin(), k); } w.it->Prev(); } ds::Quiet q; ev("walk").li("r", li).out(); break; }
    }
  }
  void Body(int t) override {
    Own& w = own[t];
    w.arena = new Arena; w.list = new List(Cmp(), w.arena); w.it = new List::Iterator(w.list); w.rnd = new Random(seeds[t]);
    w.cache = NewLRUCache(caps[t]); w.env = NewMemEnv(Env::Default()); w.st = new Status; w.ids = 0; w.files = 0;
    size_t n; { ds::Quiet q; n = prog[t].size(); w.mem.reserve(32); w.han.reserve(32); }
    for (size_t i = 0; i < n; i++) Do(t, prog[t][i]);
    for (;;) { { ds::Quiet q; if (w.han.empty()) break; } Do(t, Op{'R', 0, "", "", 0}); }
    bool intact = true;
    { ds::Quiet q; for (size_t i = 0; i < w.mem.size(); i++) for (int j = 0; j < w.mem[i].second; j++) if ((unsigned char)w.mem[i].first[j] != 16 * t + i % 16) intact = false; Ev("Intact").i("t", t).b("r", intact).out(); }
    w.cache.reset();
    { ds::Quiet q; Ev("CGone").i("t", t).li("del", g_del[t]).out(); g_del[t].clear(); }
    delete w.st; delete w.env; delete w.rnd; delete w.it; delete w.list; delete w.arena;
  }
  void Finish() override {}
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) -> ds::Scenario* { return new Sc(p, r); });
}
