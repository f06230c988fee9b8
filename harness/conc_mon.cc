// Concurrent driver for port::Mutex, MutexLock and port::CondVar (C27).
#include <algorithm>
#include "dsched.h"
#include "port/port.h"
#include "util/mutexlock.h"
using namespace lsmdb;
using vp::Ev;

// one step of a thread's program
enum K { kLock, kUnlock, kScope, kScopeEnd, kWait, kSig, kAll, kTouch, kProduce, kConsume, kAwait, kOpen, kUp, kDown };
struct Op { K k; int a; int b; };
const int NM = 2, NC = 3;

struct Sc : ds::Scenario {
  std::vector<std::vector<Op>> prog;
  int of[NC];
  bool loops = false;
  port::Mutex* mu[NM]; port::CondVar* cv[NC];
  long data[NM];            // plain data, each under its mutex
  int buf[4], cap = 1, have = 0; bool open = false; int count = 0;
  int left = 0;
  Sc(int p, vp::Rng& r) {
    int kind = p % 5, nt = 2 + r.upto(3);
    for (int c = 0; c < NC; c++) of[c] = c < 2 ? 0 : 1;
    prog.resize(nt + 1);
    if (kind == 0) {           // bounded buffer: one condition and signal-all, or two and signal
      loops = true; bool all = r.one(2); cap = 1 + r.upto(2);
      nt = 2 + 2 * r.upto(2); prog.assign(nt + 1, {});
      int each = 1 + r.upto(3);
      for (int t = 1; t <= nt; t++) for (int i = 0; i < each; i++)
        prog[t].push_back(Op{t % 2 ? kProduce : kConsume, all ? 1 : 0, (int)r.upto(2)});
    } else if (kind == 1) {    // a gate: everybody waits for one
      loops = true;
      for (int t = 2; t <= nt; t++) prog[t].push_back(Op{kAwait, (int)r.upto(3), 0});
      prog[1].push_back(Op{kOpen, (int)r.upto(3), 0});
    } else if (kind == 2) {    // a semaphore with signal for each unit
      loops = true;
      nt = 2 + 2 * r.upto(2); prog.assign(nt + 1, {});
      int each = 1 + r.upto(3);
      for (int t = 1; t <= nt; t++) for (int i = 0; i < each; i++) prog[t].push_back(Op{t % 2 ? kUp : kDown, (int)r.upto(2), 0});
    } else {                   // anything
      for (int t = 1; t <= nt; t++) {
        int held = 0; std::vector<int> scope;
        int n = 3 + r.upto(5);
        for (int i = 0; i < n; i++) {
          int m = r.upto(kind == 3 ? 1 : NM), c = r.upto(kind == 3 ? 2 : NC);
          switch (r.upto(7)) {
            case 0: case 1: case 2: {
              bool sc = r.one(2);
              if (held & (1 << m)) break;
              if (m == 0 && (held & 2)) break;         // always in one order
              held |= 1 << m;
              prog[t].push_back(Op{sc ? kScope : kLock, m, 0});
              int k = r.upto(3);
              for (int j = 0; j < k; j++) {
                int cc = r.upto(kind == 3 ? 2 : NC);
                int what = r.upto(4);
                if (what == 0 && (held & (1 << of[cc]))) prog[t].push_back(Op{kWait, cc, 0});
                else if (what == 1) prog[t].push_back(Op{kSig, cc, 0});
                else if (what == 2) prog[t].push_back(Op{kAll, cc, 0});
                else prog[t].push_back(Op{kTouch, m, 0});
              }
              if (kind == 4 && m == 0 && r.one(4)) { // nested scope of the other
                prog[t].push_back(Op{kScope, 1, 0}); prog[t].push_back(Op{kTouch, 1, 0});
                if (r.one(2)) prog[t].push_back(Op{kWait, 2, 0});
                prog[t].push_back(Op{kScopeEnd, 1, 0});
              }
              prog[t].push_back(Op{sc ? kScopeEnd : kUnlock, m, 0});
              held &= ~(1 << m);
              break;
            }
            case 3: prog[t].push_back(Op{kSig, c, 0}); break;
            case 4: prog[t].push_back(Op{kAll, c, 0}); break;
            default: break;
          }
        }
      }
    }
  }
  int Threads() override { return prog.size(); }
  int t() { return ds::Self(); }
  void E1(const char* e, const char* k, int v) { ds::Quiet q; Ev(e).i("t", t()).i(k, v + 1).out(); }
  void Lock(int m) { E1("Req", "m", m); mu[m]->Lock(); E1("Got", "m", m); mu[m]->AssertHeld(); }
  void Unlock(int m) { E1("Rel", "m", m); mu[m]->Unlock(); }
  void Wait(int c) { E1("W", "c", c); cv[c]->Wait(); E1("WE", "c", c); }
  void Sig(int c, bool all) {
    { ds::Quiet q; Ev("S").i("t", t()).i("c", c + 1).i("all", all).out(); }
    if (all) cv[c]->SignalAll(); else cv[c]->Signal();
    { ds::Quiet q; Ev("SE").i("t", t()).out(); }
  }
  struct Scope {     // logs around a real MutexLock
    Sc* s; int m; MutexLock* l;
    Scope(Sc* s, int m) : s(s), m(m) { s->E1("Req", "m", m); l = new MutexLock(s->mu[m]); s->E1("Got", "m", m); }
    ~Scope() { s->E1("Rel", "m", m); delete l; }
  };
  void Run(const std::vector<Op>& v, size_t& i, int until) {
    for (; i < v.size(); i++) {
      Op o = v[i];
      switch (o.k) {
        case kLock: Lock(o.a); data[o.a]++; break;
        case kUnlock: data[o.a]++; Unlock(o.a); break;
        case kScope: { Scope s(this, o.a); data[o.a]++; i++; Run(v, i, o.a); data[o.a]++; break; }
        case kScopeEnd: if (o.a == until) return; break;
        case kWait: Wait(o.a); data[of[o.a]]++; break;
        case kSig: Sig(o.a, false); break;
        case kAll: Sig(o.a, true); break;
        case kTouch: data[o.a]++; ds::Point(); data[o.a]++; break;
        case kProduce: case kConsume: {
          bool prod = o.k == kProduce;
          int mine = o.a ? 0 : prod ? 0 : 1, theirs = o.a ? 0 : prod ? 1 : 0;
          auto body = [&] {
            while (prod ? have >= cap : have == 0) Wait(mine);
            if (prod) buf[have++] = t(); else have--;
            Sig(theirs, o.a);
          };
          if (o.b) { Scope s(this, 0); body(); } else { Lock(0); body(); Unlock(0); }
          break;
        }
        case kAwait: {
          if (o.a == 2) { Scope s(this, 0); while (!open) Wait(0); data[0]++; }
          else { Lock(0); while (!open) Wait(o.a); data[0]++; Unlock(0); }
          break;
        }
        case kOpen: {
          Lock(0); open = true; data[0]++;
          if (o.a == 0) { Sig(0, true); Sig(1, true); Unlock(0); }
          else { Unlock(0); Sig(0, true); Sig(1, true); }      // outside the mutex
          break;
        }
        case kUp: {
          Lock(0); count++; if (o.a) Sig(0, false); Unlock(0); if (!o.a) Sig(0, false);
          break;
        }
        case kDown: {
          Scope s(this, 0); while (count == 0) Wait(0); count--; break;
        }
      }
    }
  }
  void Setup() override {
    { ds::Quiet q; std::vector<long long> o; for (int c = 0; c < NC; c++) o.push_back(of[c] + 1);
      Ev("Reset").i("n", (int)prog.size()).i("m", NM).li("of", o).out();
      left = prog.size() - 1; }
    for (int i = 0; i < NM; i++) { mu[i] = new port::Mutex; data[i] = 0; }
    for (int c = 0; c < NC; c++) cv[c] = new port::CondVar(mu[of[c]]);
  }
  // the last thread looks at the others at rest, then wakes them
  void Closer() {
    ds::WaitOthers();
    { ds::Quiet q; Ev("Rest").out(); Ev("Ended").i("loops", loops).i("left", left).out(); }
    // wake the rest, round by round
    for (int k = 0; k < 12 && left > 0; k++) {
      for (int c = 0; c < NC; c++) Sig(c, true);
      ds::WaitOthers();
      ds::Quiet q; Ev("Rest").out();
    }
    { ds::Quiet q; Ev("Ended").i("loops", 1).i("left", left).out(); }
  }
  void Finish() override {
    // everything is free again
    for (int m = 0; m < NM; m++) { Lock(m); data[m]++; Unlock(m); { Scope s(this, m); data[m]++; } }
    for (int c = 0; c < NC; c++) delete cv[c];
    for (int m = 0; m < NM; m++) delete mu[m];
  }
  void Body(int t) override {
    if (t == (int)prog.size()) return Closer();
    size_t i = 0; Run(prog[t], i, -1);
    ds::Quiet q; left--;
  }
};
int main(int argc, char** argv) {
  return ds::Main(argc, argv, [](int p, vp::Rng& r) { return (ds::Scenario*)new Sc(p, r); });
}
