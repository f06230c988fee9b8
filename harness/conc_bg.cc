// Concurrent driver for Schedule and StartThread of the POSIX environment (C14).
#include <algorithm>
#include <condition_variable>
#include <memory>
#include <mutex>
#include "dsched.h"
#include "lsmdb/env.h"
using namespace lsmdb;
using vp::Ev;

struct Sc;
static Sc* g_sc;
// what an item does when it runs: nothing, schedule children, wait until others have scheduled
struct Item { int id; int children; bool deep; int waitfor; bool thread; };
struct Arg { int id; long long payload[3]; };

struct Sc : ds::Scenario {
  std::vector<std::vector<Item>> prog;   // by thread
  bool early;
  Env* env0 = nullptr;
  int next = 1000;
  std::mutex m; std::condition_variable cv; int scheduled = 0;   // the scenario's own, for items that wait
  bool usewait = false;
  Arg* args[64]; int nargs = 0;
  Sc(int p, vp::Rng& r) {
    int nt = 1 + r.upto(3);
    if (p % 4 == 3) nt = 2;
    early = r.one(2);
    usewait = p % 4 == 3;
    prog.resize(nt + 1);
    int id = 0;
    for (int t = 1; t <= nt; t++) {
      int n = nt == 1 ? 2 + r.upto(3) : 1 + r.upto(3);
      for (int i = 0; i < n; i++) {
        Item x{++id, 0, false, 0, r.one(5)};
        if (p % 4 == 1) { x.children = r.upto(3); x.deep = r.one(3); }
        prog[t].push_back(x);
      }
    }
    if (usewait) { prog[1][0].waitfor = id; prog[1][0].thread = false; for (auto& v : prog) for (auto& x : v) x.children = 0; }
  }
  int Threads() override { return prog.size() - 1; }
  // the argument is written just before the call; the function reads it
  void Submit(const Item& it) {
    Arg* a = new Arg;
    a->id = it.id; for (int i = 0; i < 3; i++) a->payload[i] = it.id * 1000 + i;
    long long num;
    { ds::Quiet q; num = it.id; Ev(it.thread ? "Thr" : "Sched").i("id", it.id).i("arg", num).out(); }
    Item* copy = new Item(it);
    std::shared_ptr<Item> cap(copy);     // lives as long as some copy of the function
    Env* env = env0 ? env0 : Env::Default();
    if (it.thread) env->StartThread([cap](void* p) { g_sc->Run(*cap, static_cast<Arg*>(p)); }, a);
    else env->Schedule([cap](void* p) { g_sc->Run(*cap, static_cast<Arg*>(p)); }, a);
    { ds::Quiet q; if (!it.thread) Ev("SchedE").i("id", it.id).out(); }
    if (usewait && it.id < 900) { std::lock_guard<std::mutex> l(m); scheduled++; cv.notify_all(); }
  }
  void Run(const Item& it, Arg* a) {
    long long id = a->id; bool ok = true;
    for (int i = 0; i < 3; i++) ok = ok && a->payload[i] == id * 1000 + i;
    int cap = it.id;
    { ds::Quiet q; Ev(it.thread ? "ThrS" : "Start").i("id", id).i("arg", ok ? id : -1).i("cap", cap).i("t", ds::Self()).out(); }
    ds::Point();
    if (it.waitfor) { std::unique_lock<std::mutex> l(m); while (scheduled < it.waitfor) cv.wait(l); }
    for (int i = 0; i < it.children; i++) {
      Item c{0, it.deep ? 1 : 0, false, 0, false};
      { ds::Quiet q; c.id = ++next; }
      Submit(c);
    }
    delete a;
    { ds::Quiet q; if (!it.thread) Ev("End").i("id", id).out(); }
  }
  void Setup() override {
    { ds::Quiet q; Ev("Reset").i("n", (int)prog.size() - 1).out(); g_sc = this; }
    if (early) env0 = Env::Default();
  }
  void Body(int t) override { for (auto& x : prog[t]) Submit(x); }
  void Finish() override {
    ds::WaitOthers();
    { ds::Quiet q; Ev("Rest").out(); }
    // and once more, from rest
    Item x{900, 1, false, 0, false}; Submit(x);
    Item y{901, 0, false, 0, true}; Submit(y);
    ds::WaitOthers();
    ds::Quiet q; Ev("Rest").out();
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
