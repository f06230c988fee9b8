// Very large byte strings for the drivers: memory that repeats a few physical
// pages, and run-length recording in units (every length a multiple of the
// unit, every unit one repeated byte; anything else is recorded as value 300).
#ifndef VP_HUGE_H_
#define VP_HUGE_H_
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include "trace.h"
namespace vp {

// n bytes of value v (n a multiple of 4096), costing at most 2 MiB of memory
inline char* Repeat(size_t n, unsigned char v) {
  const size_t kChunk = 2 << 20;
  int fd = memfd_create("vp", MFD_CLOEXEC);
  if (fd < 0 || ftruncate(fd, kChunk) != 0) { perror("memfd"); _exit(77); }
  char* p = (char*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char*)MAP_FAILED) { perror("mmap"); _exit(77); }
  for (size_t o = 0; o < n; o += kChunk)
    if (mmap(p + o, std::min(kChunk, n - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(77); }
  memset(p, v, std::min(kChunk, n));
  close(fd);
  return p;
}
// address space of n bytes, backed by memory only where it is written
inline char* Reserve(size_t n) {
  char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char*)MAP_FAILED) { perror("mmap"); _exit(77); }
  madvise(p, n, MADV_HUGEPAGE);
  return p;
}
inline void Unmap(char* p, size_t n) { munmap(p, n); }

struct UnitRle {   // accumulates runs of units
  size_t unit;
  std::vector<std::pair<int, long long>> runs;
  bool whole = true;
  explicit UnitRle(size_t u) : unit(u) {}
  void run(int v, long long n) {
    if (n == 0) return;
    if (!runs.empty() && runs.back().first == v) runs.back().second += n;
    else if (runs.size() < 2000) runs.push_back({v, n});
  }
  void add(const char* d, size_t n) {
    if (n % unit) whole = false;
    for (size_t o = 0; o + unit <= n; o += unit)
      run(memcmp(d + o, d + o + 1, unit - 1) == 0 ? (unsigned char)d[o] : 300, 1);
  }
  std::string text() const {
    if (!whole) return "[[300,1]]";
    std::string r = "[";
    for (size_t j = 0; j < runs.size(); j++) { if (j) r += ","; r += "[" + std::to_string(runs[j].first) + "," + std::to_string(runs[j].second) + "]"; }
    return r + "]";
  }
};
inline std::string Units(const char* d, size_t n, size_t unit) { UnitRle u(unit); u.add(d, n); return u.text(); }

inline size_t MemAvailable() {
  FILE* f = fopen("/proc/meminfo", "r");
  if (!f) return 0;
  char line[200]; unsigned long long kb = 0;
  while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
  fclose(f);
  return kb << 10;
}
}  // namespace vp
#endif
