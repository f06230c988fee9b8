// Driver for the arena (C07): records where every region lies in the memory
// the arena obtained from the system (operator new/new[] and malloc).
#include <map>
#include <new>
#include "trace.h"
#include "util/arena.h"
using vp::Ev;

extern "C" void* __real_malloc(size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);
// table of live tracked allocations (no allocation in here)
struct Blk { char* p; size_t n; int id; };
static Blk g_blk[65536];
static int g_nblk, g_track, g_next;
static long g_outside;   // red zones overwritten
static const size_t kRed = 64;
static const size_t kHuge = 1 << 30, kEdge = 1 << 16;  // of huge blocks only the edges are touched
static void* Get(size_t n) {
  char* p = (char*)__real_malloc(n + 2 * kRed + 16);
  if (!p && g_track && n >> 40) {   // not for want of memory: nobody asked for that much
    static const char m[] = "{\"e\":\"Crash\",\"what\":\"the arena asks for an absurd amount of memory\"}\n";
    vp::RawWrite(m, sizeof m - 1);
    _exit(99);
  }
  if (!p) _exit(77);
  if (!g_track || g_nblk == 65536) { *(uint64_t*)p = 0; *(uint64_t*)(p + 8) = 0; return p + kRed; }
  *(uint64_t*)p = 0x7ac4ed; *(uint64_t*)(p + 8) = n;
  memset(p + 16, 0xFD, kRed - 16);
  if (n < kHuge) memset(p + kRed, 0xA7, n);
  memset(p + kRed + n, 0xFD, kRed);
  g_blk[g_nblk++] = Blk{p + kRed, n, ++g_next};
  return p + kRed;
}
static bool RedOK(const Blk& b) {
  for (size_t i = 16; i < kRed; i++) if ((unsigned char)b.p[-(long)kRed + i] != 0xFD) return false;
  for (size_t i = 0; i < kRed; i++) if ((unsigned char)b.p[b.n + i] != 0xFD) return false;
  return true;
}
static void Put(void* v) {
  if (!v) return;
  char* p = (char*)v;
  if (*(uint64_t*)(p - kRed) == 0x7ac4ed)
    for (int i = 0; i < g_nblk; i++)
      if (g_blk[i].p == p) {
        if (!RedOK(g_blk[i])) g_outside++;
        if (g_blk[i].n < kHuge) memset(p, 0xDD, g_blk[i].n);
        g_blk[i] = g_blk[--g_nblk];
        break;
      }
  *(uint64_t*)(p - kRed) = 1;
  __real_free(p - kRed);
}
void* operator new(size_t n) { return Get(n); }
void* operator new[](size_t n) { return Get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Get(n); }
void operator delete(void* p) noexcept { Put(p); }
void operator delete[](void* p) noexcept { Put(p); }
void operator delete(void* p, size_t) noexcept { Put(p); }
void operator delete[](void* p, size_t) noexcept { Put(p); }
extern "C" void* __wrap_malloc(size_t n) { return Get(n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = Get(a * b); memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* o, size_t n) { fprintf(stderr, "realloc unexpected\n"); _exit(77); }
extern "C" void __wrap_free(void* p) { Put(p); }

using lsmdb::Arena;
struct Reg { char* p; size_t n; unsigned char v; };
static unsigned char Pat(const Reg& r, size_t i) { return (unsigned char)(r.v * 31 + i * 7 + 1); }

static size_t Inner(size_t i, size_t n) { return n >= kHuge && i == kEdge ? n - kEdge : i; }  // skips the middle

struct Sess {
  Arena* a;
  long unit;      // sizes are multiples of it and recorded in it
  long U(long v) { return v % unit ? -1 : v / unit; }
  std::vector<Reg> regs;
  char* cur = nullptr; size_t curend = 0;  // guess of the free space, only to choose sizes
  long total = 0;
  explicit Sess(long u = 1) : unit(u) {
    g_nblk = 0; g_next = 0; g_outside = 0;
    a = new Arena();
    Ev("Reset").i("usage", U(a->MemoryUsage())).out();
  }
  void Alloc(size_t n, bool al) {
    vp::SetOp("Allocate%s(%zu)", al ? "Aligned" : "", n);
    g_track = 1;
    char* p = al ? a->AllocateAligned(n) : a->Allocate(n);
    g_track = 0;
    int b = 0; size_t size = 0; long off = 0; int base = 0;
    for (int i = 0; i < g_nblk; i++)
      if (p >= g_blk[i].p && p < g_blk[i].p + g_blk[i].n) {
        b = g_blk[i].id; size = g_blk[i].n; off = p - g_blk[i].p; base = (uintptr_t)g_blk[i].p % 8;
      }
    size_t usage = a->MemoryUsage();
    if (unit == 1) Ev("Alloc").i("n", n).b("al", al).i("b", b).i("size", size).i("off", off).i("base", base).i("usage", usage).out();
    else Ev("Alloc").i("n", U(n)).b("al", false).i("b", al && (uintptr_t)p % 8 ? 0 : b).i("size", U(size)).i("off", U(off)).i("base", 0).i("usage", U(usage)).out();
    if (!b || off + n > size) { Ev("Crash").s("what", "region outside the arena's memory").out(); _exit(99); }
    if (size > n) { cur = p + n; curend = size - off - n; }
    Reg r{p, n, (unsigned char)regs.size()};
    for (size_t i = 0; i < n; i++) { i = Inner(i, n); p[i] = Pat(r, i); }
    regs.push_back(r);
    total += n;
  }
  void Check() {
    std::vector<long long> bad;
    for (size_t k = 0; k < regs.size(); k++)
      for (size_t i = 0; i < regs[k].n; i++) {
        i = Inner(i, regs[k].n);
        if ((unsigned char)regs[k].p[i] != Pat(regs[k], i)) { bad.push_back(k); break; }
      }
    for (int i = 0; i < g_nblk; i++) if (!RedOK(g_blk[i])) g_outside++;
    Ev("Check").li("changed", bad).i("outside", g_outside).i("usage", U(a->MemoryUsage())).out();
  }
  void End() {
    Check();
    vp::SetOp("destroy");
    delete a;
    Ev("Destroy").i("left", g_nblk + g_outside).out();
  }
};

int main(int argc, char** argv) {
  vp::InitTrace();
  if (argc < 4) return 77;
  uint64_t seed = atoll(argv[1]); int n = atoi(argv[2]), ops = atoi(argv[3]);
  if (argc > 4) {      // sizes beyond 31 and 32 bits, in units of 8 bytes
    static const size_t big[] = {((size_t)1 << 31) - 8, (size_t)1 << 31, ((size_t)1 << 31) + 8, ((size_t)1 << 32) - 8, (size_t)1 << 32, ((size_t)1 << 32) + 24, ((size_t)1 << 32) + 1024};
    for (int sc = 0; sc < n; sc++) {
      vp::Rng r(seed * 10009 + sc);
      Sess s(8);
      int bigs = 0;
      for (int i = 0; i < ops; i++) {
        if (r.one(ops / 5) && bigs < 3) { s.Alloc(big[(sc + bigs * 3 + seed) % 7], r.one(2)); bigs++; }
        else s.Alloc(8 * (1 + r.upto(r.one(4) ? 600 : 20)), r.one(2));
        if (r.one(20)) s.Check();
      }
      if (!bigs) s.Alloc(big[r.upto(7)], true);
      s.Alloc(16, false);
      s.End();
    }
    return 0;
  }
  for (int sc = 0; sc < n; sc++) {
    vp::Rng r(seed * 10007 + sc);
    Sess s;
    int style = r.upto(4);
    int alpct = r.one(3) ? 100 : r.one(2) ? 50 : 0;
    for (int i = 0; i < ops && s.total < 40000000; i++) {
      bool al = (int)r.upto(100) < alpct;
      size_t sz;
      int x = r.upto(100);
      if (x < 30 && s.curend > 0) {          // around what should be left in the block
        long d = (long)s.curend + r.range(-9, 3);
        sz = d < 1 ? 1 : d;
      } else if (x < 40) sz = 1024 + r.range(-3, 3);
      else if (x < 45) sz = 4096 + r.range(-9, 9);
      else if (x < 47) sz = 1 + r.upto(100000);
      else if (x < 60) sz = 1 + r.upto(1024);
      else if (style == 0) sz = 1 + r.upto(16);
      else if (style == 1) sz = 1 + r.upto(100);
      else if (style == 2) sz = 8 * (1 + r.upto(20));
      else sz = 1 + r.upto(3000);
      s.Alloc(sz, al);
      if (r.one(60)) s.Check();
    }
    if (sc == 0) s.Alloc(50000000, true);
    s.End();
  }
  return 0;
}
