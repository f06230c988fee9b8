// Runtime for controlled execution.  Provides the callbacks that
// -fsanitize=thread inserts (instead of the TSan runtime), the pthread
// functions, operator new/delete and __cxa_guard_*, all on top of a
// cooperative scheduler: real threads, of which exactly one runs at a time.
//
// The run's log of memory accesses and synchronization is judged by the
// specification HB.tla; the vector clocks kept here only serve to (a) say which
// old values a load may return and (b) pick the logs worth handing to TLC.
#include "dsched.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace ds {
const int MAXT = 24;
typedef uint32_t u32;
typedef uint64_t u64;

// ------------------------------------------------------------ child memory
static char* g_arena; static const size_t kArena = 1ull << 31;
static size_t g_used;
static bool g_on;                       // in a child, scheduler running
static bool g_child;
static thread_local int t_id = 0;
static thread_local int t_depth = 0;    // instrumented functions on the stack
static thread_local int t_rt = 0;       // inside the runtime or quiet harness code
struct Rt { Rt() { t_rt++; } ~Rt() { t_rt--; } };

struct Block { size_t n; bool freed; int t; u32 c; };
static std::map<u64, Block>* g_blocks;  // blocks allocated by the code under test or the scenario
static void* Bump(size_t n, size_t al) {
  size_t a = (g_used + al - 1) & ~(al - 1);
  if (a + n + 64 > kArena) { vp::Ev("Crash").s("what", "out of memory").out(); _exit(98); }
  g_used = a + n + 16;                  // gap: neighbouring blocks never touch
  return g_arena + a;
}
static bool InArena(const void* p) { return (char*)p >= g_arena && (char*)p < g_arena + kArena; }

// ------------------------------------------------------------ vector clocks
struct VC { u32 c[MAXT]; VC() { memset(c, 0, sizeof c); }
  void Join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { u32 r[MAXT], ar[MAXT], aw[MAXT]; u32 wc; int wt; };   // wt: last plain writer, -1 none
struct Page { Cell* cell[64]; };
static std::unordered_map<u64, Page>* g_shadow;

enum St { kRun, kBlocked, kDone };
struct Thr {
  int id; St st; volatile int go; VC vc, acq, rel; bool hasRel; u64 scfence;
  const void* on; int why; long stamp; bool timed; bool signalled; bool reacq;
  void* (*fn)(void*); void* arg; void* ret; pthread_t real; long prio; bool daemon; int steps;
};
enum Why { kMutex = 1, kCond, kJoin, kGuard, kIdle, kRw };
static Thr* T[MAXT]; static int g_nt;
static int g_cur;
static long g_points, g_stamp;
struct MutexS { int owner; int count; VC vc; int readers; };
static std::map<const void*, MutexS>* g_mu;
static std::map<int, VC>* g_chan;
struct Store { u64 v[2]; int t; u32 c; VC rel; bool hasRel; u64 gseq; };
struct Loc { std::vector<Store> h; std::vector<std::pair<u32, int>> rd[MAXT]; int size; int base; };
static std::map<u64, Loc>* g_loc;
static u64 g_gseq; static int g_locbase = 1;

// ------------------------------------------------------------------ the log
enum Op { oR, oW, oAL, oAS, oAU, oFence, oLk, oUl, oSpawn, oJoin, oFree, oPub, oObs, oRdLk, oRdUl };
struct Rec { Op op; int t; u64 a; u32 n; int order; int idx; u64 pc; };
static std::vector<Rec>* g_log;
static bool g_suspect; static size_t g_suspect_at;
static const size_t kMaxLog = 400000;
static void LogRec(Op op, u64 a, u32 n, int order, int idx, u64 pc) {
  if (g_log->size() < kMaxLog && !g_suspect) g_log->push_back(Rec{op, t_id, a, n, order, idx, pc});
}
static void Suspect() { if (!g_suspect && g_log->size() < kMaxLog) { g_suspect = true; g_suspect_at = g_log->size(); } }

// --------------------------------------------------------------- strategies
struct Strat { int kind; double p; double stale; int spurious; bool plain; std::vector<std::pair<long, int>> sw; std::vector<int> order; u64 seed; int depth; long len; };
static Strat* S; static vp::Rng* g_rng; static vp::Rng* g_userrng;
static std::vector<long>* g_pct;
static int g_spur_left;
static long g_same;          // consecutive points of the same thread

static void FutexWait(volatile int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void FutexWake(volatile int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] static void EndRun(int code);
static void Handoff(int to) {
  if (to == t_id) return;
  int me = t_id;
  g_cur = to; g_same = 0;
  FutexWake(&T[to]->go);
  FutexWait(&T[me]->go);
}
static std::vector<int> Runnable() { std::vector<int> r; for (int i = 0; i < g_nt; i++) if (T[i]->st == kRun) r.push_back(i); return r; }
static int Best(const std::vector<int>& r) { int b = r[0]; for (int x : r) if (T[x]->prio > T[b]->prio) b = x; return b; }
static void MaybeSpurious() {
  if (g_spur_left <= 0) return;
  for (int i = 0; i < g_nt; i++)
    if (T[i]->st == kBlocked && T[i]->why == kCond && g_rng->upto(8) == 0 && g_spur_left > 0) { g_spur_left--; T[i]->st = kRun; return; }
}
// the current thread cannot go on: choose another one
static void Yield_Blocked() {
  for (;;) {
    std::vector<int> r = Runnable();
    if (r.empty()) {
      for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked && T[i]->timed) { T[i]->st = kRun; T[i]->timed = false; r.push_back(i); break; }
    }
    if (r.empty())      // a thread waiting for everybody else to come to rest
      for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked && T[i]->why == kIdle) { T[i]->st = kRun; r.push_back(i); break; }
    if (r.empty()) {
      std::vector<long long> w; for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked) w.push_back(i);
      vp::Ev("Deadlock").li("blocked", w).out();
      EndRun(0);
    }
    int to;
    if (S->kind == 1) to = r[g_rng->upto(r.size())]; else to = Best(r);
    if (to == t_id) return;
    Handoff(to);
    if (T[t_id]->st == kRun) return;
  }
}
static void PointImpl() {
  long n = g_points++;
  if (n > 60000) { vp::Ev("Crash").s("what", "no progress: too many steps").out(); EndRun(0); }
  MaybeSpurious();
  std::vector<int> r = Runnable();
  if (r.size() < 2) return;
  int to = t_id;
  if (S->kind == 0) {
    for (auto& s : S->sw) if (s.first == n) {
      std::vector<int> o; for (int x : r) if (x != t_id) o.push_back(x);
      to = o[s.second % o.size()];
      // the preempted thread becomes the least urgent one
      T[t_id]->prio = -n - 1;
    }
  } else if (S->kind == 1) {
    if (g_rng->upto(1000) < S->p * 1000) to = r[g_rng->upto(r.size())];
  } else {
    for (size_t i = 0; i < g_pct->size(); i++) if ((*g_pct)[i] == n) T[t_id]->prio = -(long)i - 1;
    to = Best(r);
  }
  if (to == t_id && ++g_same > 1500) { std::vector<int> o; for (int x : r) if (x != t_id) o.push_back(x); T[t_id]->prio = -100000 - n; to = o[g_rng->upto(o.size())]; }
  Handoff(to);
}
static inline bool Ctl() { return g_on && t_rt == 0; }
static void Tick() { T[t_id]->vc.c[t_id]++; }

// ----------------------------------------------------------- plain accesses
static Cell& CellAt(u64 a) {
  Page& p = (*g_shadow)[a >> 6];
  Cell*& c = p.cell[a & 63];
  if (!c) { c = (Cell*)Bump(sizeof(Cell), 8); memset(c, 0, sizeof *c); c->wt = -1; }
  return *c;
}
static void CheckFreed(u64 a, u32 n, u64 pc) {
  if (!InArena((void*)a)) return;
  auto it = g_blocks->upper_bound(a);
  if (it == g_blocks->begin()) return;
  --it;
  if (a < it->first + it->second.n && it->second.freed) {
    vp::Ev("Crash").s("what", "access to freed memory").i("t", t_id).i("pc", pc).i("size", n).out();
    EndRun(0);
  }
}
static bool Before(const u32* a) { const VC& v = T[t_id]->vc; for (int i = 0; i < MAXT; i++) if (a[i] > v.c[i]) return false; return true; }
static void Access(u64 a, u32 n, bool write, u64 pc) {
  Rt rt;
  CheckFreed(a, n, pc);
  LogRec(write ? oW : oR, a, n, 0, 0, pc);
  const VC& v = T[t_id]->vc;
  u32 now = v.c[t_id];
  bool race = false;
  for (u32 i = 0; i < n; i++) {
    Cell& c = CellAt(a + i);
    if (c.wt >= 0 && c.wc > v.c[c.wt]) race = true;
    if (!Before(c.aw)) race = true;
    if (write) {
      if (!Before(c.r) || !Before(c.ar)) race = true;
      c.wt = t_id; c.wc = now;
    } else c.r[t_id] = now;
  }
  if (write) { auto it = g_loc->find(a); if (it != g_loc->end()) g_loc->erase(it); }
  if (race) Suspect();
}
static inline bool Rec_() { return g_on && t_rt == 0; }
static void PlainAccess(const void* a, u32 n, bool write, void* pc) {
  if (!Rec_()) return;
  if (S->plain && InArena(a)) { Rt rt; PointImpl(); }
  Access((u64)a, n, write, (u64)pc);
}

// ------------------------------------------------------------------ atomics
static bool IsAcq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool IsRel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static Loc& LocAt(u64 a, int size) {
  Loc& l = (*g_loc)[a];
  if (l.h.empty()) { Store s; memset(&s.v, 0, sizeof s.v); memcpy(s.v, (void*)a, size); s.t = -1; s.c = 0; s.hasRel = false; s.gseq = 0; l.h.push_back(s); l.size = size; l.base = g_locbase; g_locbase += 10000; }
  return l;
}
static void AtomicCells(u64 a, int n, bool write) {
  const VC& v = T[t_id]->vc;
  bool race = false;
  for (int i = 0; i < n; i++) {
    Cell& c = CellAt(a + i);
    if (c.wt >= 0 && c.wc > v.c[c.wt]) race = true;
    if (write && !Before(c.r)) race = true;
    if (write) c.aw[t_id] = v.c[t_id]; else c.ar[t_id] = v.c[t_id];
  }
  if (race) Suspect();
}
static void AcquireFrom(const Store& s, int order) {
  if (!s.hasRel) return;
  if (IsAcq(order)) T[t_id]->vc.Join(s.rel); else T[t_id]->acq.Join(s.rel);
}
static void ALoad(const void* p, int size, int order, void* out, void* pc) {
  if (!Rec_()) { memcpy(out, p, size); return; }
  Rt rt; PointImpl();
  u64 a = (u64)p;
  CheckFreed(a, size, (u64)pc);
  Loc& l = LocAt(a, size);
  Thr* t = T[t_id];
  int last = l.h.size() - 1, lo = 0;
  if (order == __ATOMIC_SEQ_CST || S->stale == 0) lo = last;
  else {
    for (int i = last; i > 0; i--) if (l.h[i].t < 0 || l.h[i].c <= t->vc.c[l.h[i].t] || l.h[i].gseq <= t->scfence) { lo = i; break; }
    for (int u = 0; u < g_nt; u++) for (auto it = l.rd[u].rbegin(); it != l.rd[u].rend(); ++it) if (it->first <= t->vc.c[u]) { lo = std::max(lo, it->second); break; }
  }
  int pick = last;
  if (lo < last && g_rng->upto(1000) < S->stale * 1000) pick = lo + g_rng->upto(last - lo + 1);
  AtomicCells(a, size, false);
  memcpy(out, l.h[pick].v, size);
  AcquireFrom(l.h[pick], order);
  l.rd[t_id].push_back({t->vc.c[t_id], pick});
  LogRec(oAL, a, size, order, l.base + pick, (u64)pc);
  Tick();
}
static void PushStore(u64 a, int size, const void* val, int order, bool rmw, Loc& l) {
  Thr* t = T[t_id];
  Store s; memset(&s.v, 0, sizeof s.v); memcpy(s.v, val, size);
  s.t = t_id; s.c = t->vc.c[t_id]; s.gseq = ++g_gseq; s.hasRel = false;
  if (rmw && l.h.back().hasRel) { s.rel = l.h.back().rel; s.hasRel = true; }
  if (IsRel(order)) { s.rel.Join(t->vc); s.hasRel = true; }
  else if (t->hasRel) { s.rel.Join(t->rel); s.hasRel = true; }
  l.h.push_back(s);
  memcpy((void*)a, val, size);
}
static void AStore(void* p, int size, int order, const void* val, void* pc) {
  if (!Rec_()) { memcpy(p, val, size); return; }
  Rt rt; PointImpl();
  u64 a = (u64)p;
  CheckFreed(a, size, (u64)pc);
  Loc& l = LocAt(a, size);
  AtomicCells(a, size, true);
  PushStore(a, size, val, order, false, l);
  LogRec(oAS, a, size, order, l.base + l.h.size() - 1, (u64)pc);
  Tick();
}
// read-modify-write: f(old, new) returns whether to store
template <class F> static void ARmw(void* p, int size, int order, int failorder, F f, void* pc) {
  u64 oldv[2] = {0, 0}, newv[2] = {0, 0};
  if (!Rec_()) { memcpy(oldv, p, size); if (f(oldv, newv)) memcpy(p, newv, size); return; }
  Rt rt; PointImpl();
  u64 a = (u64)p;
  CheckFreed(a, size, (u64)pc);
  Loc& l = LocAt(a, size);
  memcpy(oldv, l.h.back().v, size);
  bool st = f(oldv, newv);
  AtomicCells(a, size, st);
  int o = st ? order : failorder;
  AcquireFrom(l.h.back(), o);
  if (st) PushStore(a, size, newv, order, true, l);
  else l.rd[t_id].push_back({T[t_id]->vc.c[t_id], (int)l.h.size() - 1});
  LogRec(st ? oAU : oAL, a, size, o, l.base + l.h.size() - 1, (u64)pc);
  Tick();
}
static void Fence(int order, void* pc) {
  if (!Rec_()) return;
  Rt rt; PointImpl();
  Thr* t = T[t_id];
  if (IsAcq(order)) t->vc.Join(t->acq);
  if (IsRel(order)) { t->rel = t->vc; t->hasRel = true; }
  if (order == __ATOMIC_SEQ_CST) t->scfence = g_gseq;
  LogRec(oFence, 0, 0, order, 0, (u64)pc);
  Tick();
}

// ------------------------------------------------------------------ threads
static void BlockOn(const void* x, int why) { Thr* t = T[t_id]; t->st = kBlocked; t->on = x; t->why = why; t->stamp = ++g_stamp; Yield_Blocked(); }
static void WakeAll(const void* x, int why) { for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked && T[i]->on == x && T[i]->why == why) T[i]->st = kRun; }
static bool LockImpl(const void* m, bool recursive, bool tryonly) {
  for (;;) {
    MutexS& s = (*g_mu)[m];
    if (s.owner == 0 && s.readers == 0) break;
    if (s.owner == t_id + 1 && recursive) { s.count++; return true; }
    if (tryonly) return false;
    BlockOn(m, kMutex);
  }
  MutexS& s = (*g_mu)[m];
  s.owner = t_id + 1; s.count = 1;
  T[t_id]->vc.Join(s.vc);
  LogRec(oLk, (u64)m, 0, 0, 0, 0);
  return true;
}
static void UnlockImpl(const void* m) {
  MutexS& s = (*g_mu)[m];
  if (s.owner != t_id + 1) { vp::Ev("Crash").s("what", "unlock of a mutex that the thread does not hold").i("t", t_id).out(); EndRun(0); }
  if (--s.count > 0) return;
  s.vc = T[t_id]->vc; s.owner = 0;
  LogRec(oUl, (u64)m, 0, 0, 0, 0);
  Tick();
  WakeAll(m, kMutex);
}
static void* Tramp(void* a) {
  Thr* t = (Thr*)a;
  t_id = t->id;
  FutexWait(&t->go);
  t->ret = t->fn(t->arg);
  { Rt rt; }
  t_rt++;
  t->st = kDone; Tick();
  WakeAll(t, kJoin);
  Yield_Blocked();
  for (;;) pause();
}
static int (*RealCreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int Create(void* (*fn)(void*), void* arg) {
  if (g_nt >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(77); }
  Thr* t = new Thr();
  t->id = g_nt; t->st = kRun; t->go = 0; t->fn = fn; t->arg = arg; t->hasRel = false; t->scfence = 0; t->timed = false;
  t->prio = t->id < (int)S->order.size() ? S->order[t->id] : (long)g_rng->upto(100) + 1;
  T[g_nt] = t;
  t->vc = T[t_id]->vc; t->vc.c[t->id] = 1;
  g_nt++;
  LogRec(oSpawn, t->id, 0, 0, 0, 0);
  Tick();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  if (RealCreate(&t->real, &at, Tramp, t) != 0) { perror("pthread_create"); _exit(77); }
  return t->id;
}
static void JoinT(int id) {
  while (T[id]->st != kDone) BlockOn(T[id], kJoin);
  T[t_id]->vc.Join(T[id]->vc);
  LogRec(oJoin, id, 0, 0, 0, 0);
}

// ------------------------------------------------------------ public things
int Self() { return t_id; }
void Point() { if (Ctl()) { Rt rt; PointImpl(); } }
void WaitOthers() { Rt rt; BlockOn(nullptr, kIdle); }
void Touch(const void* a, long n, bool write, void* pc) { if (n > 0 && Rec_()) Access((u64)a, n, write, (u64)pc); }
void Publish(int ch) { if (!g_on) return; Rt rt; (*g_chan)[ch].Join(T[t_id]->vc); LogRec(oPub, ch, 0, 0, 0, 0); Tick(); }
void Observe(int ch) { if (!g_on) return; Rt rt; T[t_id]->vc.Join((*g_chan)[ch]); LogRec(oObs, ch, 0, 0, 0, 0); Tick(); }
bool WeakRun() { return S->stale > 0; }
vp::Rng& Choice() { return *g_userrng; }
Quiet::Quiet() { t_rt++; }
Quiet::~Quiet() { t_rt--; }
long LiveBlocks() { Rt rt; long n = 0; for (auto& b : *g_blocks) if (!b.second.freed) n++; return n; }

// ----------------------------------------------------- one run, in a child
struct Slot { char* mem; size_t cap; };
struct Head { long points, lo, hi; u32 nhist, nhb; int suspect, started; };
static Head* g_head; static char* g_hist; static size_t g_histcap; static char* g_hb; static size_t g_hbcap;
static bool g_want_hb;
static void Sink(const char* p, size_t n) {
  if (g_head->nhist + n > g_histcap) _exit(97);
  memcpy(g_hist + g_head->nhist, p, n); g_head->nhist += n;
}
static void HbLine(const std::string& s) {
  if (g_head->nhb + s.size() + 1 > g_hbcap) return;
  memcpy(g_hb + g_head->nhb, s.data(), s.size()); g_head->nhb += s.size(); g_hb[g_head->nhb++] = '\n';
}
extern "C" char __executable_start;
// writes the log in the vocabulary of HB.tla: bytes become cells (maximal
// ranges always accessed together), addresses become numbers
static void DumpHb() {
  // threads that touch each byte range: keep only accesses to memory touched by two threads or freed
  std::set<u64> cuts;
  for (auto& r : *g_log) if (r.op <= oAU || r.op == oFree) { cuts.insert(r.a); cuts.insert(r.a + r.n); }
  std::vector<u64> cv(cuts.begin(), cuts.end());
  auto first = [&](u64 a) { return (size_t)(std::lower_bound(cv.begin(), cv.end(), a) - cv.begin()); };
  std::vector<u32> who(cv.size() + 1, 0);
  for (auto& r : *g_log) if (r.op <= oAU || r.op == oFree) for (size_t i = first(r.a); i < cv.size() && cv[i] < r.a + r.n; i++) who[i] |= 1u << r.t;
  std::map<size_t, int> num;
  std::map<u64, int> lnum, mnum;
  HbLine(vp::Ev("Reset").i("n", g_nt).text());
  for (auto& r : *g_log) {
    std::string cells = "[";
    bool any = false;
    if (r.op <= oAU || r.op == oFree) {
      for (size_t i = first(r.a); i < cv.size() && cv[i] < r.a + r.n; i++) {
        if (!(who[i] & (who[i] - 1))) continue;     // touched by one thread only
        int& k = num[i]; if (!k) k = num.size();
        if (any) cells += ","; any = true; cells += std::to_string(k);
      }
      if (r.op != oAL && r.op != oAS && r.op != oAU && !any) continue;
    }
    cells += "]";
    long long pc = r.pc ? (long long)(r.pc - (u64)&__executable_start) : 0;
    static const char* const on[] = {"rlx", "con", "acq", "rel", "ar", "sc"};
    std::string ord = on[r.order < 0 || r.order > 5 ? 5 : r.order];
    auto loc = [&](u64 a) { int& k = lnum[a]; if (!k) k = lnum.size(); return k; };
    auto mut = [&](u64 a) { int& k = mnum[a]; if (!k) k = mnum.size(); return k; };
    switch (r.op) {
      case oR: HbLine(vp::Ev("R").i("t", r.t).raw("c", cells).i("pc", pc).text()); break;
      case oW: HbLine(vp::Ev("W").i("t", r.t).raw("c", cells).i("pc", pc).text()); break;
      case oFree: HbLine(vp::Ev("W").i("t", r.t).raw("c", cells).i("pc", pc).text()); break;
      case oAL: HbLine(vp::Ev("AL").i("t", r.t).i("x", loc(r.a)).i("s", r.idx).s("o", ord).raw("c", cells).i("pc", pc).text()); break;
      case oAS: HbLine(vp::Ev("AS").i("t", r.t).i("x", loc(r.a)).i("s", r.idx).s("o", ord).raw("c", cells).i("pc", pc).text()); break;
      case oAU: HbLine(vp::Ev("AU").i("t", r.t).i("x", loc(r.a)).i("s", r.idx).s("o", ord).raw("c", cells).i("pc", pc).text()); break;
      case oFence: HbLine(vp::Ev("F").i("t", r.t).s("o", ord).text()); break;
      case oLk: HbLine(vp::Ev("Lk").i("t", r.t).i("m", mut(r.a)).text()); break;
      case oUl: HbLine(vp::Ev("Ul").i("t", r.t).i("m", mut(r.a)).text()); break;
      case oRdLk: HbLine(vp::Ev("RdLk").i("t", r.t).i("m", mut(r.a)).text()); break;
      case oRdUl: HbLine(vp::Ev("RdUl").i("t", r.t).i("m", mut(r.a)).text()); break;
      case oSpawn: HbLine(vp::Ev("Sp").i("t", r.t).i("u", r.a).text()); break;
      case oJoin: HbLine(vp::Ev("Jn").i("t", r.t).i("u", r.a).text()); break;
      case oPub: HbLine(vp::Ev("Pub").i("t", r.t).i("m", r.a).text()); break;
      case oObs: HbLine(vp::Ev("Obs").i("t", r.t).i("m", r.a).text()); break;
    }
  }
}
[[noreturn]] static void EndRun(int code) {
  t_rt++;
  g_on = false;
  g_head->points = g_points;
  g_head->suspect = g_suspect;
  if (g_suspect || g_want_hb) DumpHb();
  _exit(code);
}
static Scenario* g_sc;
static void* BodyMain(void* a) { Point(); g_sc->Body((int)(long)a); Point(); return nullptr; }
static void ChildInit(const Strat& st) {
  g_arena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_arena == MAP_FAILED) _exit(77);
  g_child = true; t_rt = 1;
  S = new Strat(st);
  g_rng = new vp::Rng(st.seed); g_userrng = new vp::Rng(st.seed * 77 + 5);
  g_blocks = new std::map<u64, Block>; g_shadow = new std::unordered_map<u64, Page>; g_mu = new std::map<const void*, MutexS>;
  g_chan = new std::map<int, VC>; g_loc = new std::map<u64, Loc>; g_log = new std::vector<Rec>; g_log->reserve(4096);
  g_pct = new std::vector<long>;
  for (int i = 0; i + 1 < st.depth; i++) g_pct->push_back(g_rng->upto(st.len ? st.len : 1));
  g_spur_left = st.spurious;
  Thr* m = new Thr(); m->id = 0; m->st = kRun; m->vc.c[0] = 1; m->hasRel = false; m->scfence = 0; m->timed = false; m->prio = 1 << 20; T[0] = m; g_nt = 1;
  RealCreate = (decltype(RealCreate))dlsym(RTLD_NEXT, "pthread_create");
}
[[noreturn]] static void RunChild(Scenario* sc, const Strat& st) {
  g_sc = sc;
  g_on = true; t_rt = 0;
  sc->Setup();
  int n = sc->Threads();
  std::vector<int>* ids;
  g_head->lo = g_points;
  { Rt rt; ids = new std::vector<int>; for (int i = 1; i <= n; i++) ids->push_back(Create(BodyMain, (void*)(long)i)); T[0]->prio = -1000000; for (int i : *ids) JoinT(i); }
  g_head->hi = g_points;
  sc->Finish();
  t_rt++;
  EndRun(0);
}

// ------------------------------------------------------------------ parent
struct Job { int prog; Strat st; bool hb; };
static u64 HashText(const char* p, size_t n) { u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h ^ n; }
int Main(int argc, char** argv, Maker make) {
  if (argc < 5) { fprintf(stderr, "usage: seed programs schedules seconds [program [schedule]]\n"); return 77; }
  vp::InitTrace();
  u64 seed = strtoull(argv[1], 0, 10);
  int nprog = atoi(argv[2]), nsched = atoi(argv[3]); double secs = atof(argv[4]);
  int onlyp = argc > 5 ? atoi(argv[5]) : -1, onlys = argc > 6 ? atoi(argv[6]) : -1;
  std::string hbp = std::string(getenv("VP_DIR")) + "/hb.ndjson";
  FILE* hbf = fopen(hbp.c_str(), "w");
  if (!hbf) return 77;
  const int W = 8;
  const bool single = getenv("VP_SINGLE") != nullptr;   // mostly single preemptions
  const size_t HC = 4 << 20, BC = 24 << 20;
  char* mem[W];
  for (int i = 0; i < W; i++) { mem[i] = (char*)mmap(nullptr, sizeof(Head) + HC + BC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (mem[i] == MAP_FAILED) return 77; }
  pid_t pid[W] = {0}; Job job[W];
  std::unordered_set<u64> seen;
  std::map<int, std::pair<long, long>> plen;   // where the threads of a program run, in points
  long crashes = 0, runs = 0, distinct = 0, suspects = 0, samples = 0, maxpts = 0;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; };
  auto collect = [&](int w, int status) {
    Head* h = (Head*)mem[w];
    std::string text(mem[w] + sizeof(Head), h->nhist);
    if (!(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 99))) {
      if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { fprintf(stderr, "child failed to set up\n"); exit(77); }
      if (text.find("\"e\":\"Crash\"") == std::string::npos)
        crashes++, text += "{\"e\":\"Crash\",\"what\":\"" + std::string(WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) + "\"}\n";
    }
    runs++;
    if (h->points) {
      auto& p = plen[job[w].prog];
      p.first = h->lo; p.second = std::max(p.second, h->hi > h->lo ? h->hi : h->points);
      if (h->points > maxpts) maxpts = h->points;
    }
    u64 k = HashText(text.data(), text.size());
    bool fresh = seen.insert(k).second;
    if (fresh) { distinct++; vp::RawWrite(text.data(), text.size()); }
    if (h->suspect && suspects < 3) { suspects++; fprintf(hbf, "%.*s", (int)h->nhb, mem[w] + sizeof(Head) + HC); }
    else if (job[w].hb && !h->suspect && h->nhb) { samples++; fprintf(hbf, "%.*s", (int)h->nhb, mem[w] + sizeof(Head) + HC); }
  };
  auto reap = [&](bool all) {
    for (;;) {
      int busy = 0; for (int i = 0; i < W; i++) busy += pid[i] != 0;
      if (busy == 0 || (!all && busy < W)) return;
      int status; pid_t p = waitpid(-1, &status, 0);
      for (int i = 0; i < W; i++) if (pid[i] == p) { pid[i] = 0; collect(i, status); }
    }
  };
  // schedules outermost, so that a time limit cuts depth, not breadth
  std::vector<std::string> dummy;
  bool more = true;
  for (int s = 0; s < nsched && more; s++) {
    if (onlys >= 0 && s != onlys) continue;
    if (s >= 3 && elapsed() > secs) break;
    for (int p = 0; p < nprog; p++) {
      if (onlyp >= 0 && p != onlyp) continue;
      if ((s >= 3 && elapsed() > secs) || crashes >= 5) { more = false; break; }
      reap(false);
      int w = 0; while (pid[w]) w++;
      vp::Rng pr(seed * 7919 + p);                    // the program
      vp::Rng sr(seed * 104729 + p * 131071ull + s);  // the schedule
      Strat st; st.seed = sr.next(); st.spurious = sr.one(2) ? 2 : 0; st.plain = false; st.stale = 0; st.p = 0; st.depth = 0; st.len = plen[p].second;
      static const double stale[] = {0, 0.3, 0.8};
      st.stale = stale[s % 3];
      int order[MAXT]; for (int i = 0; i < MAXT; i++) order[i] = i + 1;
      for (int i = MAXT - 1; i > 0; i--) std::swap(order[i], order[sr.upto(i + 1)]);
      st.order.assign(order, order + MAXT);
      long lo = plen[p].first, len = plen[p].second ? plen[p].second - lo : 60;
      if (len < 1) len = 1;
      auto where = [&] { return sr.one(10) ? (long)sr.upto(lo + len) : lo + (long)sr.upto(len); };
      int q = s < 4 ? 0 : single && s % 6 != 5 ? 1 : s % 8;
      if (s < 2) { st.kind = 0; if (s == 1) std::reverse(st.order.begin(), st.order.end()); else for (int i = 0; i < MAXT; i++) st.order[i] = MAXT - i; }
      else if (q <= 2) {      // one preemption, going through all places
        long k = single ? s : s / 8 * 3 + q, a = len * 0.618; if (a < 1) a = 1;
        while (a > 1 && [&] { long x = a, y = len; while (y) { long z = x % y; x = y; y = z; } return x; }() != 1) a--;
        st.kind = 0; st.sw.push_back({lo + (k * a) % len, (int)sr.upto(8)});
      }
      else if (q <= 4) { st.kind = 0; int k = 2 + sr.upto(2); for (int i = 0; i < k; i++) st.sw.push_back({where(), (int)sr.upto(8)}); }
      else if (q == 5) { st.kind = 1; static const double ps[] = {0.05, 0.2, 0.5, 1}; st.p = ps[sr.upto(4)]; }
      else if (q == 6) { st.kind = 2; st.depth = 2 + sr.upto(4); }
      else { st.kind = 1; st.p = 0.1; st.plain = true; }
      job[w].prog = p; job[w].st = st; job[w].hb = samples < 12 && (s % 5 == 2 || s < 2) && (p % 7 == (int)(seed + s) % 7 || nprog < 7);
      Head* h = (Head*)mem[w]; memset(h, 0, sizeof *h);
      pid_t c = fork();
      if (c < 0) { perror("fork"); return 77; }
      if (c == 0) {
        alarm(60);
        g_head = h; g_hist = mem[w] + sizeof(Head); g_histcap = HC; g_hb = g_hist + HC; g_hbcap = BC; g_want_hb = job[w].hb;
        ChildInit(st);
        vp::RawSink() = Sink;
        Scenario* sc = make(p, pr);
        if (!sc->Weak()) S->stale = 0;
        RunChild(sc, st);
      }
      pid[w] = c;
    }
  }
  reap(true);
  fclose(hbf);
  printf("RUNS %ld DISTINCT %ld SUSPECT %ld SAMPLES %ld MAXPOINTS %ld SECONDS %.1f\n", runs, distinct, suspects, samples, maxpts, elapsed());
  return 0;
}
}  // namespace ds

// ======================================================================
using namespace ds;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { t_depth++; }
void __tsan_func_exit() { t_depth--; }
#define RW(n) \
  void __tsan_read##n(void* a) { PlainAccess(a, n, false, PC); } \
  void __tsan_write##n(void* a) { PlainAccess(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { PlainAccess(a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { PlainAccess(a, n, true, PC); } \
  void __tsan_read##n##_pc(void* a, void* pc) { PlainAccess(a, n, false, pc); } \
  void __tsan_write##n##_pc(void* a, void* pc) { PlainAccess(a, n, true, pc); } \
  void __tsan_volatile_read##n(void* a) { PlainAccess(a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { PlainAccess(a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { PlainAccess(a, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { PlainAccess(a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { PlainAccess(a, n, false, PC); PlainAccess(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { PlainAccess(a, n, false, PC); }
void __tsan_write_range(void* a, long n) { PlainAccess(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) PlainAccess(a, 8, true, PC); else PlainAccess(a, 8, false, PC); }
void __tsan_vptr_read(void** a) { PlainAccess(a, 8, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long long a64; typedef unsigned __int128 a128;
#define ATOMIC(b, TY) \
  TY __tsan_atomic##b##_load(const volatile TY* a, int o) { TY v; ALoad((const void*)a, sizeof(TY), o, &v, PC); return v; } \
  void __tsan_atomic##b##_store(volatile TY* a, TY v, int o) { AStore((void*)a, sizeof(TY), o, &v, PC); } \
  TY __tsan_atomic##b##_exchange(volatile TY* a, TY v, int o) { TY r; ARmw((void*)a, sizeof(TY), o, o, [&](u64* x, u64* y) { memcpy(&r, x, sizeof r); memcpy(y, &v, sizeof v); return true; }, PC); return r; } \
  RMWF(b, TY, add, r + v) RMWF(b, TY, sub, r - v) RMWF(b, TY, and, r & v) RMWF(b, TY, or, r | v) RMWF(b, TY, xor, r ^ v) RMWF(b, TY, nand, ~(r & v)) \
  int __tsan_atomic##b##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int o, int fo) { bool ok = false; ARmw((void*)a, sizeof(TY), o, fo, [&](u64* x, u64* y) { TY r; memcpy(&r, x, sizeof r); ok = r == *c; if (!ok) *c = r; else memcpy(y, &v, sizeof v); return ok; }, PC); return ok; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int o, int fo) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, o, fo); } \
  TY __tsan_atomic##b##_compare_exchange_val(volatile TY* a, TY c, TY v, int o, int fo) { __tsan_atomic##b##_compare_exchange_strong(a, &c, v, o, fo); return c; }
#define RMWF(b, TY, name, expr) \
  TY __tsan_atomic##b##_fetch_##name(volatile TY* a, TY v, int o) { TY r; ARmw((void*)a, sizeof(TY), o, o, [&](u64* x, u64* y) { memcpy(&r, x, sizeof r); TY n = expr; memcpy(y, &n, sizeof n); return true; }, PC); return r; }
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64) ATOMIC(128, a128)
void __tsan_atomic_thread_fence(int o) { Fence(o, PC); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------- library functions
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
static inline bool FromCut() { return g_on && t_rt == 0 && t_depth > 0; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (FromCut() && n) { PlainAccess(s, n, false, PC); PlainAccess(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (FromCut() && n) { PlainAccess(s, n, false, PC); PlainAccess(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (FromCut() && n) PlainAccess(d, n, true, PC); return __real_memset(d, c, n); }
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
  int r = __real_vsnprintf(d, n, f, ap);
  if (FromCut() && n && r >= 0) PlainAccess(d, std::min<size_t>(n, (size_t)r + 1), true, PC);
  return r;
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...) {
  va_list ap; va_start(ap, f); int r = __real_vsnprintf(d, n, f, ap); va_end(ap);
  if (FromCut() && n && r >= 0) PlainAccess(d, std::min<size_t>(n, (size_t)r + 1), true, PC);
  return r;
}
int __wrap_sprintf(char* d, const char* f, ...) {
  va_list ap; va_start(ap, f); int r = __real_vsnprintf(d, (size_t)1 << 30, f, ap); va_end(ap);
  if (FromCut() && r >= 0) PlainAccess(d, (size_t)r + 1, true, PC);
  return r;
}
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (FromCut() && n) { PlainAccess(a, n, false, PC); PlainAccess(b, n, false, PC); } return __real_memcmp(a, b, n); }
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
}
static void* Alloc(size_t n, size_t al) {
  if (!g_child) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1); return p; }
  void* p = Bump(n, al);
  if (g_on && t_rt == 0) { Rt rt; memset(p, 0xA5, n); (*g_blocks)[(u64)p] = Block{n, false, 0, 0}; }
  return p;
}
static void Dealloc(void* p, void* pc) {
  if (!p) return;
  if (!g_child) { __real_free(p); return; }
  if (!InArena(p)) return;      // from the parent
  if (!g_on || t_rt != 0) {
    if (g_blocks && g_on) { Rt rt; auto it = g_blocks->find((u64)p); if (it != g_blocks->end()) it->second.freed = true; }
    return;
  }
  Rt rt;
  auto it = g_blocks->find((u64)p);
  if (it == g_blocks->end()) {
    // allocated before the run started or by quiet code, or not a block at all
    auto up = g_blocks->upper_bound((u64)p);
    if (up != g_blocks->begin()) { --up; if ((u64)p < up->first + up->second.n) { vp::Ev("Crash").s("what", "free of a pointer into a block").out(); EndRun(0); } }
    return;
  }
  if (it->second.freed) { vp::Ev("Crash").s("what", "double free").i("t", t_id).out(); EndRun(0); }
  // freeing is a write to every byte of the block that was ever accessed
  u64 a = (u64)p, e = a + it->second.n;
  const VC& v = T[t_id]->vc;
  bool race = false;
  LogRec(oFree, a, it->second.n, 0, 0, (u64)pc);
  for (u64 x = a; x < e;) {
    auto pg = g_shadow->find(x >> 6);
    u64 pe = ((x >> 6) + 1) << 6;
    if (pg == g_shadow->end()) { x = pe; continue; }
    for (; x < e && x < pe; x++) {
      Cell* c = pg->second.cell[x & 63];
      if (!c) continue;
      if (c->wt >= 0 && c->wc > v.c[c->wt]) race = true;
      if (!Before(c->r) || !Before(c->ar) || !Before(c->aw)) race = true;
    }
  }
  for (auto l = g_loc->lower_bound(a); l != g_loc->end() && l->first < e;) l = g_loc->erase(l);
  if (race) Suspect();
  it->second.freed = true; it->second.t = t_id; it->second.c = v.c[t_id];
  memset(p, 0xDD, it->second.n);
}
extern "C" {
void* __wrap_malloc(size_t n) { return Alloc(n, 16); }
void __wrap_free(void* p) { Dealloc(p, PC); }
void* __wrap_calloc(size_t a, size_t b) { void* p = Alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  if (!g_child) return __real_realloc(p, n);
  void* q = Alloc(n, 16);
  if (p && InArena(p)) { size_t o = n; { Rt rt; auto it = g_blocks->find((u64)p); if (it != g_blocks->end() && it->second.n < o) o = it->second.n; } memcpy(q, p, o); Dealloc(p, PC); }
  return q;
}
}
void* operator new(size_t n) { return Alloc(n, 16); }
void* operator new[](size_t n) { return Alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void operator delete(void* p) noexcept { Dealloc(p, PC); }
void operator delete[](void* p) noexcept { Dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p, PC); }

// ---------------------------------------------------------------- pthreads
extern "C" {
static bool Recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { memset(m, 0, sizeof *m); if (a) { int k; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (Ctl()) { Rt rt; g_mu->erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  CheckFreed((u64)m, 1, (u64)PC);
  LockImpl(m, Recursive(m), false);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  CheckFreed((u64)m, 1, (u64)PC);
  return LockImpl(m, Recursive(m), true) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!Ctl()) return 0;
  Rt rt;
  CheckFreed((u64)m, 1, (u64)PC);
  UnlockImpl(m);
  PointImpl();
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { return 0; }
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  CheckFreed((u64)c, 1, (u64)PC); CheckFreed((u64)m, 1, (u64)PC);
  Thr* t = T[t_id];
  t->signalled = false;
  t->timed = timed;
  UnlockImpl(m);                       // atomically: nothing runs between these
  t->st = kBlocked; t->on = c; t->why = kCond; t->stamp = ++g_stamp;
  Yield_Blocked();
  t->timed = false;
  bool sig = t->signalled;
  LockImpl(m, false, false);
  return timed && !sig ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return CondWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return CondWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return CondWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  CheckFreed((u64)c, 1, (u64)PC);
  std::vector<int> w;
  for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked && T[i]->why == kCond && T[i]->on == c) w.push_back(i);
  if (!w.empty()) { Thr* t = T[w[g_rng->upto(w.size())]]; t->signalled = true; t->st = kRun; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  CheckFreed((u64)c, 1, (u64)PC);
  for (int i = 0; i < g_nt; i++) if (T[i]->st == kBlocked && T[i]->why == kCond && T[i]->on == c) { T[i]->signalled = true; T[i]->st = kRun; }
  return 0;
}
int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  if (!g_child) { auto rc = (decltype(RealCreate))dlsym(RTLD_NEXT, "pthread_create"); return rc(th, a, fn, arg); }
  int id;
  { Rt rt; PointImpl(); id = Create(fn, arg); *th = T[id]->real; }
  Point();
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!g_child) { auto rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return rj(th, ret); }
  Rt rt; PointImpl();
  for (int i = 0; i < g_nt; i++) if (i && T[i]->real == th) { JoinT(i); if (ret) *ret = T[i]->ret; return 0; }
  return ESRCH;
}
int pthread_detach(pthread_t th) noexcept { if (!g_child) { auto rd = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return rd(th); } return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!Ctl()) { if (*o == 0) { *o = 2; f(); } return 0; }
  bool run = false;
  { Rt rt; PointImpl(); while (*o == 1) BlockOn(o, kGuard);
    if (*o == 2) { T[t_id]->vc.Join((*g_mu)[o].vc); LogRec(oLk, (u64)o, 0, 0, 0, 0); LogRec(oUl, (u64)o, 0, 0, 0, 0); Tick(); }
    else { *o = 1; run = true; LogRec(oLk, (u64)o, 0, 0, 0, 0); } }
  if (run) { f(); Rt rt; *o = 2; (*g_mu)[o].vc = T[t_id]->vc; LogRec(oUl, (u64)o, 0, 0, 0, 0); Tick(); WakeAll(o, kGuard); PointImpl(); }
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!Ctl()) return 0; Rt rt; PointImpl(); LockImpl(l, false, false); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!Ctl()) return 0; Rt rt; PointImpl(); return LockImpl(l, false, true) ? 0 : EBUSY; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
  if (!Ctl()) return 0;
  Rt rt; PointImpl();
  while ((*g_mu)[l].owner) BlockOn(l, kMutex);
  MutexS& s = (*g_mu)[l]; s.readers++; T[t_id]->vc.Join(s.vc); LogRec(oRdLk, (u64)l, 0, 0, 0, 0);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!Ctl()) return 0; { Rt rt; if ((*g_mu)[l].owner) return EBUSY; } return pthread_rwlock_rdlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  if (!Ctl()) return 0;
  Rt rt;
  MutexS& s = (*g_mu)[l];
  if (s.readers) { s.readers--; s.vc.Join(T[t_id]->vc); LogRec(oRdUl, (u64)l, 0, 0, 0, 0); Tick(); WakeAll(l, kMutex); }
  else UnlockImpl(l);
  PointImpl();
  return 0;
}
static void SleepPoint() {
  if (!Ctl()) return;
  Rt rt;
  // let somebody else run if possible
  std::vector<int> o; for (int x : Runnable()) if (x != t_id) o.push_back(x);
  g_points++;
  if (g_points > 60000) { vp::Ev("Crash").s("what", "no progress: too many steps").out(); EndRun(0); }
  if (!o.empty()) { T[t_id]->prio = -50000 - g_points; Handoff(o[g_rng->upto(o.size())]); }
}
int sched_yield() noexcept { if (!g_child) return 0; SleepPoint(); return 0; }
int usleep(useconds_t) { SleepPoint(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { SleepPoint(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { SleepPoint(); return 0; }
unsigned sleep(unsigned) { SleepPoint(); return 0; }

// ---------------------------------------- initialization of local statics
int __cxa_guard_acquire(int64_t* g) {
  char* b = (char*)g;
  if (!g_on) { return b[0] == 0; }
  Rt rt; PointImpl();
  while (b[0] == 0 && b[1] == 1) BlockOn(g, kGuard);
  if (b[0]) { T[t_id]->vc.Join((*g_mu)[g].vc); LogRec(oLk, (u64)g, 0, 0, 0, 0); LogRec(oUl, (u64)g, 0, 0, 0, 0); Tick(); return 0; }
  b[1] = 1; LogRec(oLk, (u64)g, 0, 0, 0, 0);
  return 1;
}
void __cxa_guard_release(int64_t* g) {
  char* b = (char*)g;
  if (!g_on) { b[0] = 1; return; }
  Rt rt;
  b[0] = 1; b[1] = 0; (*g_mu)[g].vc = T[t_id]->vc; LogRec(oUl, (u64)g, 0, 0, 0, 0); Tick();
  // the compiler's fast path is an acquire load of the first byte: give it a released store
  Loc& l = LocAt((u64)g, 1);
  Store s; memset(&s, 0, sizeof s.v); s.v[0] = 1; s.t = t_id; s.c = T[t_id]->vc.c[t_id]; s.rel = T[t_id]->vc; s.hasRel = true; s.gseq = ++g_gseq;
  l.h.push_back(s); LogRec(oAS, (u64)g, 1, __ATOMIC_RELEASE, l.base + l.h.size() - 1, 0); Tick();
  WakeAll(g, kGuard);
  PointImpl();
}
void __cxa_guard_abort(int64_t* g) { ((char*)g)[1] = 0; if (g_on) { Rt rt; WakeAll(g, kGuard); } }
}
