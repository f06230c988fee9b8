// Concurrent driver for an arena (C32): one thread allocates, directly or
// through a skip list; others read how much memory it uses.
#include "dsched.h"
#include "util/arena.h"
#include "util/noncopyable.h"
#include "db/skiplist.h"
using namespace lsmdb;
using vp::Ev;
struct Cmp { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b ? 1 : 0; } };
typedef SkipList<uint64_t, Cmp> List;
struct Op { char o; int n; };
struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;
  std::vector<int> pre;
  bool weak, lists;
  Arena* arena; List* list;
  uint64_t next;
  Sc(int p, vp::Rng& r) {
    weak = p % 3 != 0; lists = p % 2; list = nullptr; next = 0;
    int nr = 1 + r.one(2) + r.one(5);
    prog.resize(nr + 2);
    for (int i = r.upto(4); i > 0; i--) pre.push_back(1 + r.upto(5000));
    int n = 3 + r.upto(5);
    auto size = [&]() -> int { int k = r.upto(6); return k == 0 ? 1 + r.upto(64) : k == 1 ? 1024 : k == 2 ? 1025 : k == 3 ? 1 + r.upto(1024) : k == 4 ? 4096 : 1025 + r.upto(70000); };
    for (int i = 0; i < n; i++) { prog[1].push_back(Op{lists && r.one(2) ? 'I' : r.one(2) ? 'a' : 'A', size()}); if (r.one(2)) prog[1].push_back(Op{'P', 0}); }
    for (int t = 2; t <= nr + 1; t++)
      for (int i = 3 + r.upto(5); i > 0; i--) prog[t].push_back(Op{r.one(3) ? 'O' : 'U', 0});
  }
  bool Weak() override { return weak; }
  int Threads() override { return prog.size() - 1; }
  void Alloc(char o, int n) {
    { ds::Quiet q; Ev("AllocB").i("n", o == 'I' ? 8 : n).out(); }
    if (o == 'a') arena->Allocate(n);
    else if (o == 'A') arena->AllocateAligned(n);
    else { uint64_t k; { ds::Quiet q; k = (next += 2) * 7 % 64; } if (!list->Contains(k)) list->Insert(k); else arena->Allocate(8); }
    size_t u = arena->MemoryUsage();
    ds::Quiet q; Ev("AllocE").i("u", u).out();
  }
  void Setup() override {
    arena = new Arena;
    { ds::Quiet q; Ev("Reset").b("sc", !ds::WeakRun()).i("u", arena->MemoryUsage()).out(); }
    if (lists) list = new List(Cmp(), arena);
    { size_t u = arena->MemoryUsage(); ds::Quiet q; Ev("Start").i("u", u).out(); }
    for (int n : pre) Alloc('a', n);
    ds::Quiet q; Ev("Ready").out();      // what happened before the threads started is known to all
  }
  void Body(int t) override {
    size_t n; { ds::Quiet q; n = prog[t].size(); }
    for (size_t i = 0; i < n; i++) {
      Op op; { ds::Quiet q; op = prog[t][i]; }
      if (op.o == 'P') { ds::Quiet q; ds::Publish(1); Ev("Pub").out(); }
      else if (op.o == 'O') { ds::Quiet q; ds::Observe(1); Ev("Obs").i("t", t - 1).out(); }
      else if (op.o == 'U') Usage(t - 1);
      else Alloc(op.o, op.n);
    }
  }
  void Usage(int t) {
    { ds::Quiet q; Ev("Call").i("t", t).out(); }
    size_t u = arena->MemoryUsage();
    ds::Quiet q; Ev("Ret").i("t", t).i("u", u > 2000000000 ? -1 : (long long)u).out();
  }
  void Finish() override {
    { ds::Quiet q; Ev("Joined").out(); }
    Usage(4);
    delete list; delete arena;
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) -> ds::Scenario* { return new Sc(p, r); });
}
