// Drivers for the pure parts: coding (C20), logging text forms (C21), Slice
// (C22), Status (C23), Hash (C24), Random (C25).   pure <what> <seed> <n>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <time.h>
#include "trace.h"
#include "huge.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"
// not declared in coding.h; need not exist
namespace lsmdb { const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result) __attribute__((weak)); }
using namespace lsmdb;
static const char* (*const GetLengthPrefixedSlicePtr)(const char*, const char*, Slice*) = &lsmdb::GetLengthPrefixedSlice;
using vp::Ev;
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();

static std::string B(const char* p, size_t n) {
  std::string r = "[";
  for (size_t i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((unsigned char)p[i]); }
  return r + "]";
}
static std::string B(const std::string& s) { return B(s.data(), s.size()); }
static std::string N(uint64_t v, int bytes) {
  std::string r = "[";
  for (int i = 0; i < bytes; i++) { if (i) r += ","; r += std::to_string((v >> (8 * i)) & 255); }
  return r + "]";
}
static uint64_t RandNum(vp::Rng& r, int bits) {
  int k = r.upto(bits + 1);
  uint64_t m = k == 0 ? 0 : (k == 64 ? ~0ull : (1ull << k) - 1);
  int x = r.upto(6);
  uint64_t top = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if (x == 0) return m;
  if (x == 1) return (m + 1) & top;
  if (x == 2) return (m - 1) & top;
  if (x == 3) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (r.one(2) ? 0x80 : r.one(2) ? 0xff : r.one(2) ? 0x7f : 0); return v & top; }
  return r.next() & m;
}
static std::string RandBytes(vp::Rng& r, size_t n) {
  std::string s;
  int style = r.upto(4);
  for (size_t i = 0; i < n; i++) s += (char)(style == 0 ? r.upto(256) : style == 1 ? 0x80 | r.upto(128) : style == 2 ? (r.one(3) ? 0 : r.one(2) ? 0xff : r.upto(256)) : r.upto(128));
  return s;
}
// exact heap copy: a read outside the given bounds is a crash
struct Exact {
  char* p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { delete[] p; }
};

static void Enc(uint64_t v, int w, vp::Rng& r) {
  std::string pre = RandBytes(r, r.upto(3)), d = pre;
  vp::SetOp("encode %llu/%d", (unsigned long long)v, w);
  auto put = [&](const char* f) { Ev("Enc").s("f", f).raw("v", N(v, w / 8)).raw("pre", B(pre)).raw("out", B(d)).b("tail", true).out(); d = pre; };
  if (w == 32) { PutFixed32(&d, v); put("fixed"); PutVarint32(&d, v); put("var"); }
  PutFixed64(&d, v); if (w == 64) put("fixed"); d = pre;
  if (w == 64) { PutVarint64(&d, v); put("var"); }
  // into raw buffers: nothing beyond the returned end is touched
  auto raw = [&](const char* f, size_t max, char* (*fn)(char*, uint64_t)) {
    char buf[24]; memset(buf, 0x5B, sizeof buf);
    char* base = buf + 3 + r.upto(4);
    char* end = fn(base, v);
    bool tail = true;
    for (char* q = buf; q < buf + sizeof buf; q++) if ((q < base || q >= end) && *q != 0x5B) tail = false;
    size_t n = end - base;
    if (n > max) { n = max; tail = false; }
    Ev("Enc").s("f", f).raw("v", N(v, w / 8)).raw("pre", "[]").raw("out", B(base, n)).b("tail", tail).out();
  };
  if (w == 32) {
    raw("fixed", 4, [](char* p, uint64_t x) { EncodeFixed32(p, x); return p + 4; });
    raw("var", 5, [](char* p, uint64_t x) { return EncodeVarint32(p, x); });
  } else {
    raw("fixed", 8, [](char* p, uint64_t x) { EncodeFixed64(p, x); return p + 8; });
    raw("var", 10, [](char* p, uint64_t x) { return EncodeVarint64(p, x); });
  }
  Ev("Len").raw("v", N(v, w / 8)).i("n", VarintLength(v)).out();
  std::string enc; if (w == 32) PutVarint32(&enc, v); else PutVarint64(&enc, v);
  (void)enc;
}
static void Dec(const std::string& in, int w, bool whole) {
  Exact x(in);
  vp::SetOp("decode %s as %d", vp::Hex(in).c_str(), w);
  {  // from a slice
    Slice s(x.p, x.n);
    uint32_t v32 = 0; uint64_t v64 = 0;
    bool ok = w == 32 ? GetVarint32(&s, &v32) : GetVarint64(&s, &v64);
    size_t used = ok ? (size_t)(s.data() - x.p) : 0;
    if (used > x.n || s.size() > x.n) { used = 99; s = Slice("??"); }
    Ev("Dec").raw("in", B(in)).i("w", w).b("ok", ok).i("used", used).raw("v", ok ? N(w == 32 ? v32 : v64, w / 8) : "[0]").b("slice", true).raw("rest", B(s.data(), s.size())).out();
  }
  if (whole) {  // pointer form
    uint32_t v32 = 0; uint64_t v64 = 0;
    const char* q = w == 32 ? GetVarint32Ptr(x.p, x.p + x.n, &v32) : GetVarint64Ptr(x.p, x.p + x.n, &v64);
    Ev("Dec").raw("in", B(in)).i("w", w).b("ok", q != nullptr).i("used", q ? q - x.p : 0).raw("v", q ? N(w == 32 ? v32 : v64, w / 8) : "[0]").b("slice", false).raw("rest", "[]").out();
  }
}
static void SliceDec(const std::string& in) {
  Exact y(in);
  {
    Slice sl(y.p, y.n), res("unset");
    bool ok = GetLengthPrefixedSlice(&sl, &res);
    if (!ok) res = Slice();
    Ev("SliceDec").raw("in", B(in)).b("ok", ok).raw("s", B(res.data(), res.size())).raw("rest", B(sl.data(), sl.size())).out();
  }
  if (!GetLengthPrefixedSlicePtr) return;
  Slice res("unset");
  const char* q = GetLengthPrefixedSlicePtr(y.p, y.p + y.n, &res);
  if (!q) res = Slice();
  bool in_range = q && q >= y.p && q <= y.p + y.n && res.data() >= y.p && res.data() + res.size() <= y.p + y.n;
  Ev("SliceDec").raw("in", B(in)).b("ok", q != nullptr).raw("s", in_range ? B(res.data(), res.size()) : "[]").raw("rest", !q ? B(in) : in_range ? B(q, y.p + y.n - q) : "[999]").out();
}
static void Coding(uint64_t seed, int n) {
  vp::Rng r(seed);
  Ev("Reset").out();
  for (int i = 0; i <= 64; i++)
    for (int d = -2; d <= 2; d++) {
      uint64_t v = (i == 64 ? 0 : 1ull << i) + d;
      if (v < (1ull << 32)) Enc(v, 32, r);
      Enc(v, 64, r);
    }
  for (int i = 0; i < 300; i++) Enc(i, 32, r), Enc(16384 - 150 + i, 64, r);
  for (int i = 0; i < n; i++) {
    if (i % 200 == 0) Ev("Reset").out();
    int w = r.one(2) ? 32 : 64;
    uint64_t v = RandNum(r, w);
    Enc(v, w, r);
    // round trip with following bytes, and every truncation
    std::string e; if (w == 32) PutVarint32(&e, v); else PutVarint64(&e, v);
    Dec(e + RandBytes(r, r.upto(4)), w, true);
    for (size_t k = 0; k < e.size(); k++) Dec(e.substr(0, k), w, k == r.upto(e.size()));
    Dec(RandBytes(r, r.upto(14)), w, true);
    if (r.one(3)) Dec(std::string(r.upto(12), '\x80') + (char)r.upto(256), w, true);
    if (r.one(3)) Dec(std::string(r.upto(12), '\xff'), w, true);
    // fixed width at every alignment
    std::string f; if (w == 32) PutFixed32(&f, v); else PutFixed64(&f, v);
    int al = r.upto(9);
    Exact x(std::string(al, 'q') + f);
    uint64_t got = w == 32 ? DecodeFixed32(x.p + al) : DecodeFixed64(x.p + al);
    Ev("FixDec").raw("in", B(f)).i("w", w).raw("v", N(got, w / 8)).out();
    // length prefixed
    std::string pre = RandBytes(r, r.upto(3)), d = pre, s = RandBytes(r, r.one(6) ? 120 + r.upto(20) : r.one(40) ? 16380 + r.upto(8) : r.upto(12));
    vp::SetOp("length prefixed %zu", s.size());
    PutLengthPrefixedSlice(&d, s);
    Ev("PutSlice").raw("pre", B(pre)).raw("s", B(s)).raw("len", N(s.size(), 4)).raw("out", B(d)).out();
    std::string in = d.substr(pre.size()) + RandBytes(r, r.upto(4));
    int cut = r.upto(4);
    if (cut == 0) in = in.substr(0, r.upto(in.size() + 1));
    if (cut == 1) in = RandBytes(r, r.upto(12));
    if (cut == 2 && r.one(2)) in = std::string("\xff\xff\xff\xff", 4) + (char)r.upto(16) + in;
    SliceDec(in);
  }
  // every missing byte around the boundaries of the length's own length
  Ev("Reset").out();
  static const int lens[] = {0, 1, 2, 126, 127, 128, 129, 255, 256, 300, 1000, 16383, 16384, 16385};
  for (int len : lens) {
    std::string d;
    PutLengthPrefixedSlice(&d, RandBytes(r, len));
    for (int cut : {0, 1, 2, len / 2, len})
      if (cut <= len) SliceDec(d.substr(0, d.size() - cut));
    SliceDec(d + "x");
  }
}

// Length-prefixed slices around every length of the prefix, up to 4 GiB, and
// numbers and slices taken from the front of an input of more than 4 GiB.
static void HugeCoding(uint64_t seed, bool quick) {
  vp::Rng r(seed);
  static const uint32_t lens[] = {65535, 65536, 70001, (1u << 21) - 1, 1u << 21, (1u << 28) - 1, 1u << 28, (1u << 31) - 1, 1u << 31, ~0u};
  const size_t kMap = (1ull << 32) + (2 << 20);
  char* big = vp::Repeat(kMap, 77);
  for (uint32_t len : lens) {
    if (vp::MemAvailable() < (14ull << 30) && len > (1u << 28)) break;
    Ev("Reset").out();
    std::string d = "pre";
    vp::SetOp("length prefixed %u", len);
    PutLengthPrefixedSlice(&d, Slice(big, len));
    bool pre = d.compare(0, 3, "pre") == 0;
    size_t pfx = d.size() - 3 - len;          // what precedes the contents
    bool body = pfx < 11 && d[3 + pfx] == 77 && memcmp(&d[3 + pfx], big, len) == 0;
    Ev("PutLong").raw("len", N(len, 4)).raw("head", pfx < 11 ? B(d.substr(3, pfx)) : "[999]").b("body", pre && body).out();
    for (int cut : {0, 1, 2, 0}) {
      size_t n = d.size() - 3 - cut;
      Slice in(d.data() + 3, n), res;
      vp::SetOp("decode length prefixed %u, %d missing", len, cut);
      bool ok = GetLengthPrefixedSlice(&in, &res);
      Ev("GetLong").raw("len", N(len, 4)).i("cut", cut).b("ok", ok).i("at", ok ? res.data() - (d.data() + 3) : 0).raw("sz", N(ok ? res.size() : 0, 8))
          .i("after", ok ? in.data() - (res.data() + res.size()) : 0).i("rest", ok ? (long long)in.size() : 0).out();
    }
  }
  // from the front of an input of more than 4 GiB
  char* front = (char*)mmap(big, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (front != big) _exit(77);
  for (int k = 0; k < 60; k++) {
    if (k % 10 == 0) Ev("Reset").out();
    uint64_t v = k < 10 ? lens[k] : k < 20 ? k - 10 : RandNum(r, 64);
    if (k % 2 == 0) v = (uint32_t)v;
    std::string e;
    if (v >> 32) PutVarint64(&e, v); else PutVarint32(&e, v);
    memset(big, 77, 4096);
    memcpy(big, e.data(), e.size());
    size_t n = (k % 3 == 0 ? 1ull << 32 : (1ull << 32) + r.upto(20)) + ((uint32_t)v > ~0u - 64 ? 32 : 0);
    auto left = [&](const Slice& s) { return (long long)(big + n - (s.data() + s.size())); };
    {
      Slice in(big, n); uint64_t x = 0; uint32_t y = 0;
      vp::SetOp("number from a very long slice");
      bool w64 = v >> 32 || r.one(2);
      bool ok = w64 ? GetVarint64(&in, &x) : GetVarint32(&in, &y);
      Ev("Dec").raw("in", B(big, 16)).i("w", w64 ? 64 : 32).b("ok", ok).i("used", ok ? in.data() - big : 0).raw("v", N(w64 ? x : y, w64 ? 8 : 4)).b("slice", true)
          .raw("rest", ok && in.data() - big <= 16 && left(in) == 0 ? B(in.data(), 16 - (in.data() - big)) : "[999]").out();
    }
    if (v >> 32 == 0) {
      Slice in(big, n), res;
      vp::SetOp("slice from a very long slice");
      bool ok = GetLengthPrefixedSlice(&in, &res);
      Ev("GetLong").raw("len", N(v, 4)).i("cut", 0).b("ok", ok).i("at", ok ? res.data() - big : 0).raw("sz", N(ok ? res.size() : 0, 8))
          .i("after", ok ? in.data() - (res.data() + res.size()) : 0).i("rest", ok ? left(in) : 0).out();
    }
  }
}

static void Text(uint64_t seed, int n) {
  vp::Rng r(seed);
  Ev("Reset").out();
  auto fmt = [&](uint64_t v) {
    std::string pre = RandBytes(r, r.upto(3)), d = pre;
    vp::SetOp("format %llu", (unsigned long long)v);
    AppendNumberTo(&d, v);
    Ev("Fmt").raw("v", N(v, 8)).raw("pre", B(pre)).raw("out", B(d)).out();
    Ev("Fmt").raw("v", N(v, 8)).raw("pre", "[]").raw("out", B(NumberToString(v))).out();
  };
  auto parse = [&](const std::string& in) {
    Exact x(in);
    Slice s(x.p, x.n);
    uint64_t v = 77;
    vp::SetOp("parse %s", vp::Hex(in).c_str());
    bool ok = ConsumeDecimalNumber(&s, &v);
    Ev("Parse").raw("in", B(in)).b("ok", ok).raw("v", N(v, 8)).raw("rest", B(s.data(), s.size())).out();
  };
  auto esc = [&](const std::string& in) {
    std::string pre = RandBytes(r, r.upto(3)), d = pre;
    Exact x(in);
    vp::SetOp("escape %s", vp::Hex(in).c_str());
    AppendEscapedStringTo(&d, Slice(x.p, x.n));
    Ev("Esc").raw("in", B(in)).raw("pre", B(pre)).raw("out", B(d)).out();
    Ev("Esc").raw("in", B(in)).raw("pre", "[]").raw("out", B(EscapeString(Slice(x.p, x.n)))).out();
  };
  for (int c = 0; c < 256; c++) { esc(std::string(1, (char)c)); parse(std::string(1, (char)c)); parse(std::string("12") + (char)c + "3"); parse(std::string(1, (char)c) + "7"); }
  uint64_t p = 1;
  for (int i = 0; i < 20; i++) { for (int d = -1; d <= 1; d++) { fmt(p + d); parse(std::to_string(p + d)); } p *= 10; }
  for (int i = 0; i < 64; i++) fmt(1ull << i), parse(std::to_string((1ull << i) - 1));
  for (int d = -12; d <= 0; d++) { fmt((uint64_t)d); parse(std::to_string((uint64_t)d)); }
  // around the largest value: 18446744073709551615
  for (int d = 0; d < 30; d++) parse("184467440737095516" + std::to_string(d));
  for (int d = 0; d < 10; d++) for (int k = 0; k < 20; k++) {
    std::string s = "18446744073709551615"; s[k] = '0' + d; parse(s); parse(s + "x"); parse("0" + s); if (d < 3) parse(s + "0"); }
  parse(""); parse("-1"); parse(" 1"); parse("+1"); parse("0"); parse(std::string(40, '0')); parse(std::string(40, '0') + "18446744073709551615"); parse(std::string(30, '0') + "18446744073709551616"); parse(std::string(25, '9'));
  for (int i = 0; i < n; i++) {
    fmt(RandNum(r, 64));
    std::string s; int k = r.upto(24);
    for (int j = 0; j < k; j++) s += '0' + r.upto(10);
    parse(s + RandBytes(r, r.upto(3)));
    parse(std::to_string(RandNum(r, 64)) + std::string(r.upto(2), ' '));
    esc(RandBytes(r, r.upto(20)));
    if (i % 100 == 0) Ev("Reset").out();
  }
}

// long inputs: runs of one byte, and numbers behind many zeros
static void LongText(uint64_t seed, bool quick) {
  vp::Rng r(seed);
  auto esc = [&](const std::vector<std::pair<int, size_t>>& runs) {
    std::string in, rl = "[";
    for (auto& x : runs) { in.append(x.second, (char)x.first); rl += (rl.size() > 1 ? ",[" : "[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    vp::SetOp("escape %zu bytes", in.size());
    std::string out = EscapeString(in);
    std::string o = "[", last;
    size_t cnt = 0, toks = 0;
    auto flush = [&] { if (cnt && toks++ < 50) o += (o.size() > 1 ? ",[" : "[") + B(last) + "," + std::to_string(cnt) + "]"; };
    for (size_t i = 0; i < out.size();) {        // the runs hold no backslash: tokens are unambiguous
      size_t w = out[i] == '\\' && i + 4 <= out.size() ? 4 : 1;
      if (cnt && last.size() == w && memcmp(last.data(), &out[i], w) == 0) cnt++;
      else { flush(); last.assign(out, i, w); cnt = 1; }
      i += w;
    }
    flush();
    Ev("EscLong").raw("runs", rl + "]").raw("out", o + "]").out();
  };
  auto parse = [&](size_t z, const std::string& tail) {
    size_t n = (z + tail.size() + 4095) / 4096 * 4096;
    char* p = vp::Repeat(n, '0');
    char* e = p + n;
    size_t t = std::min<size_t>(n, 4096);
    if (mmap(e - t, t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != e - t) _exit(77);
    memset(e - t, '0', t);
    memcpy(e - tail.size(), tail.data(), tail.size());
    Slice s(e - tail.size() - z, z + tail.size());
    uint64_t v = 77;
    vp::SetOp("parse of a number behind %zu zeros", z);
    bool ok = ConsumeDecimalNumber(&s, &v);
    bool sane = s.size() <= tail.size() && s.data() + s.size() == e;
    Ev("ParseLong").b("z", z > 0).raw("in", B(tail)).b("ok", ok).raw("v", N(v, 8)).raw("rest", !ok ? "[]" : sane ? B(s.data(), s.size()) : "[999]").out();
    vp::Unmap(p, n);
  };
  static const char* const tails[] = {"", "7", "18446744073709551615", "18446744073709551616", "x", "42 1", "99999999999999999999", "184467440737095516150"};
  static const size_t ns[] = {255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70001, 131072};
  for (size_t k : ns) {
    Ev("Reset").out();
    esc({{'a', k}}); esc({{0, k}}); esc({{'a' + (int)r.upto(20), r.upto(9) + 1}, {200 + (int)r.upto(50), k}, {'~', 1 + r.upto(300)}, {127, 2}});
    for (auto t : tails) parse(k, t);
  }
  if (!quick && vp::MemAvailable() > (14ull << 30)) {
    esc({{'q', (1ull << 31) + 3}, {'r', 2}});
    for (size_t k : {(size_t)1 << 31, ((size_t)1 << 32) + 1}) for (int t = 0; t < 8; t += 3) parse(k, tails[t]);
  }
}

struct SliceSess {
  std::vector<std::unique_ptr<Exact>> mem;
  std::vector<Slice> s;
  void Show(Ev& e, int i) {
    std::string at; for (size_t k = 0; k < s[i].size(); k++) at += s[i][k];
    e.i("i", i).i("size", s[i].size()).b("empty", s[i].empty()).raw("str", B(s[i].ToString())).raw("at", B(at)).out();
  }
};
static void Slices(uint64_t seed, int n) {
  vp::Rng r(seed);
  for (int k = 0; k < n; k++) {
    SliceSess x;
    Ev("Reset").out();
    std::string base = RandBytes(r, r.one(5) ? r.upto(300) : r.upto(10));
    for (int i = 0; i < 5; i++) {
      std::string d = base;
      int m = r.upto(7);
      if (m == 0) d = RandBytes(r, r.upto(6));
      else if (m == 1) d = d.substr(0, r.upto(d.size() + 1));
      else if (m == 2) d += RandBytes(r, 1 + r.upto(3));
      else if (m == 3 && !d.empty()) d[r.upto(d.size())] ^= 0x80;
      else if (m == 4 && !d.empty()) d[r.upto(d.size())] = 0;
      else if (m == 5 && !d.empty()) d[d.size() - 1] += 1;
      bool nul = d.find('\0') != std::string::npos;
      int how = r.upto(4);
      vp::SetOp("slice of %s", vp::Hex(d).c_str());
      if (how == 0 && !nul) { d.push_back('\0'); x.mem.emplace_back(new Exact(d)); d.pop_back(); x.s.push_back(Slice(x.mem.back()->p)); Ev e("New"); e.raw("d", B(d)); x.Show(e, i); }
      else if (how == 1 && d.empty()) { x.s.push_back(Slice()); Ev e("New"); e.raw("d", "[]"); x.Show(e, i); }
      else if (how == 2) { static std::string keep[5]; keep[i] = d; x.s.push_back(Slice(keep[i])); Ev e("New"); e.raw("d", B(d)); x.Show(e, i); }
      else { x.mem.emplace_back(new Exact(d)); x.s.push_back(Slice(x.mem.back()->p, d.size())); Ev e("New"); e.raw("d", B(d)); x.Show(e, i); }
    }
    for (int q = 0; q < 14; q++) {
      int i = r.upto(5), j = r.upto(5), o = r.upto(12);
      vp::SetOp("slice op %d on %s %s", o, vp::Hex(x.s[i].data(), x.s[i].size() > 40 ? 40 : x.s[i].size()).c_str(), "");
      if (o == 0) { x.s[i] = x.s[j]; Ev e("Copy"); e.i("j", j); x.Show(e, i); }
      else if (o == 1 && r.one(3)) { x.s[i].clear(); Ev e("Clear"); x.Show(e, i); }
      else if (o == 2) { size_t m = r.one(4) ? x.s[i].size() : r.upto(x.s[i].size() + 1); x.s[i].remove_prefix(m); Ev e("Drop"); e.i("n", m); x.Show(e, i); }
      else {
        int c = x.s[i].compare(x.s[j]);
        Ev("Cmp").i("i", i).i("j", j).i("c", c < 0 ? -1 : c > 0 ? 1 : 0).b("eq", x.s[i] == x.s[j]).b("ne", x.s[i] != x.s[j]).b("pre", x.s[i].starts_with(x.s[j])).out();
      }
    }
  }
}

// slices beyond 31 and 32 bits, in units of 4 KiB
static void HugeSlices(uint64_t seed, int n) {
  const size_t kU = 4096, G2 = (1ull << 31) / kU, G4 = (1ull << 32) / kU;
  // two regions: G4 + 8 units of one byte, then three units that differ in the second
  const size_t total = G4 + 11;
  static const unsigned char tails[2][3] = {{7, 200, 9}, {7, 100, 9}};
  char* reg[2];
  for (int k = 0; k < 2; k++) {
    reg[k] = vp::Repeat(total * kU, 50);
    char* t = (char*)mmap(reg[k] + (G4 + 8) * kU, 3 * kU, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (t == (char*)MAP_FAILED) _exit(77);
    for (int j = 0; j < 3; j++) memset(t + j * kU, tails[k][j], kU);
  }
  struct V { int k; size_t off, len; };
  vp::Rng r(seed);
  const size_t lens[] = {0, 1, 2, G2 - 1, G2, G2 + 1, G2 + 2, G4 - 1, G4, G4 + 1, G4 + 2};
  auto text = [&](const V& v) {
    std::string out = "["; 
    size_t end = v.off + v.len;
    auto add = [&](int b, size_t c) { if (c) { if (out.size() > 1) out += ","; out += "[" + std::to_string(b) + "," + std::to_string(c) + "]"; } };
    if (v.off < G4 + 8) add(50, std::min(end, G4 + 8) - v.off);
    for (size_t j = 0; j < 3; j++) if (v.off <= G4 + 8 + j && end > G4 + 8 + j) add(tails[v.k][j], 1);
    return out + "]";
  };
  time_t start = time(nullptr);      // byte by byte, a comparison can take seconds
  for (int sc = 0; sc < n && time(nullptr) - start < 60; sc++) {
    Ev("Reset").out();
    const int kN = 14;
    Slice s[kN]; V vs[kN];
    auto show = [&](Ev& e, int i) {
      size_t len = s[i].size();
      std::string at = "[";
      for (size_t u : {(size_t)0, vs[i].len / 2, vs[i].len - 1})
        if (u < vs[i].len && len == vs[i].len * kU) { if (at.size() > 1) at += ","; at += "[" + std::to_string(u) + "," + std::to_string((unsigned char)s[i][u * kU + r.upto(kU)]) + "]"; }
      e.i("i", i).i("size", len % kU ? -1 : len / kU).b("empty", s[i].empty()).raw("at", at + "]").out();
    };
    for (int i = 0; i < kN; i++) {
      V& v = vs[i];
      v.k = i < 2 ? i : r.upto(2);
      v.len = i < 2 ? total : i < 12 ? lens[i - 2 + (i > 4)] : G2 + 2;
      v.off = 0;
      if (i >= 12) { v.k = i - 12; v.off = total - v.len; }   // the last 2 GiB and a bit
      else
      if (i >= 2 && sc > 0 && r.one(3)) { v.len = lens[r.upto(11)] + r.upto(3); v.off = r.one(2) ? total - v.len : r.upto(8); }
      vp::SetOp("slice of %zu units", v.len);
      s[i] = Slice(reg[v.k] + v.off * kU, v.len * kU);
      Ev e("HNew"); e.raw("d", text(v)); show(e, i);
    }
    auto late = [&] { return time(nullptr) - start > 60; };
    auto cmp = [&](int i, int j) {
      vp::SetOp("comparison of %zu and %zu units", vs[i].len, vs[j].len);
      int c = s[i].compare(s[j]);
      Ev("HCmp").i("i", i).i("j", j).i("c", c < 0 ? -1 : c > 0 ? 1 : 0).b("eq", s[i] == s[j]).b("ne", s[i] != s[j]).b("pre", s[i].starts_with(s[j])).out();
    };
    // one of the two short: cheap; congruent lengths and distances of 2^31 are among them
    for (int i = 0; i < kN; i++) for (int j = 0; j < kN; j++) if (std::min(vs[i].len, vs[j].len) < 10) cmp(i, j);
    cmp(0, 1); cmp(1, 0); cmp(12, 13); cmp(13, 12);
    for (int q = 0; q < 6 && !late(); q++) cmp(r.upto(kN), r.upto(kN));
    for (int q = 0; q < 4; q++) {
      int k = q ? r.upto(kN) : 0;
      size_t m = q == 0 ? G4 + r.upto(3) : r.one(2) ? vs[k].len : vs[k].len > G4 ? G4 - r.upto(2) : r.upto(vs[k].len + 1);
      vp::SetOp("remove_prefix of %zu units", m);
      s[k].remove_prefix(m * kU); vs[k].off += m; vs[k].len -= m;
      Ev e("HDrop"); e.i("n", m); show(e, k);
    }
    for (int i = 0; i < kN; i++) for (int j = 0; j < kN; j++) if (std::min(vs[i].len, vs[j].len) < 10) cmp(i, j);
  }
}

struct StatSess {
  std::unique_ptr<Status> s[4];
  std::string Show() {
    std::string a = "[";
    bool first = true;
    for (int i = 0; i < 4; i++) {
      if (!s[i]) continue;
      std::string p;
      auto add = [&](bool b, const char* n) { if (b) { if (!p.empty()) p += ","; p += std::string("\"") + n + "\""; } };
      add(s[i]->ok(), "ok"); add(s[i]->IsNotFound(), "nf"); add(s[i]->IsCorruption(), "corr");
      add(s[i]->IsNotSupportedError(), "ns"); add(s[i]->IsInvalidArgument(), "inv"); add(s[i]->IsIOError(), "io");
      if (!first) a += ","; first = false;
      a += "{\"i\":" + std::to_string(i) + ",\"p\":[" + p + "],\"s\":" + B(s[i]->ToString()) + "}";
    }
    return a + "]";
  }
  static Status Build(const char* c, const std::string& m1, const std::string& m2, bool two) {
    Exact a(m1), b(m2);   // the messages must be copied
    Slice x(a.p, a.n), y(b.p, b.n);
    if (!strcmp(c, "nf")) return two ? Status::NotFound(x, y) : Status::NotFound(x);
    if (!strcmp(c, "corr")) return two ? Status::Corruption(x, y) : Status::Corruption(x);
    if (!strcmp(c, "ns")) return two ? Status::NotSupported(x, y) : Status::NotSupported(x);
    if (!strcmp(c, "inv")) return two ? Status::InvalidArgument(x, y) : Status::InvalidArgument(x);
    if (!strcmp(c, "io")) return two ? Status::IOError(x, y) : Status::IOError(x);
    return Status::OK();
  }
  void Make(int i, const char* c, const std::string& m1, const std::string& m2, bool two) {
    vp::SetOp("make %s", c);
    s[i].reset(new Status(Build(c, m1, m2, two)));
    Ev("make").i("s", i).s("c", c).raw("m1", B(m1)).raw("m2", B(two ? m2 : "")).raw("sh", Show()).out();
  }
  void Do(const std::string& o, int i, int j) {
    vp::SetOp("%s %d %d", o.c_str(), i, j);
    if (o == "cctor") s[i].reset(new Status(*s[j]));
    else if (o == "mctor") s[i].reset(new Status(std::move(*s[j])));
    else if (o == "cass") *s[i] = *s[j];
    else if (o == "mass") *s[i] = std::move(*s[j]);
    else s[i].reset();
    Ev e(o.c_str()); e.i("s", i); if (o != "kill") e.i("t", j);
    e.raw("sh", Show()).out();
  }
};
static const char* kCodes[] = {"nf", "corr", "ns", "inv", "io", "ok"};
static void Stat(uint64_t seed, int n) {
  vp::Rng r(seed);
  std::string line;
  auto finish = [&](StatSess& x, size_t before) {
    for (auto& p : x.s) p.reset();
    long long left = (long long)__sanitizer_get_current_allocated_bytes() - (long long)before;
    Ev("End").i("leaked", left).out();
  };
  { StatSess w; w.Make(0, "io", "warm", "up", true); }   // one-time allocations
  int k = 0;
  while (std::getline(std::cin, line)) {   // tours
    std::istringstream is(line);
    std::string tok;
    StatSess x;
    Ev("Reset").out();
    while (is >> tok) {
      std::vector<std::string> p; std::istringstream ts(tok); std::string q;
      while (std::getline(ts, q, ':')) p.push_back(q);
      int i = atoi(p[1].c_str());
      if (p[0] == "make") {
        if (p[2] == "ok") x.Make(i, "ok", "", "", false);
        else x.Make(i, kCodes[k++ % 5], p[2] == "a" ? "alpha" : "", p[2] == "b" ? "beta gamma" : "", p[2] == "b");
      } else x.Do(p[0], i, p.size() > 2 ? atoi(p[2].c_str()) : 0);
    }
  }
  for (int t = 0; t < n; t++) {
    StatSess x;
    Ev("Reset").out();
    size_t before = __sanitizer_get_current_allocated_bytes();
    for (int q = 0; q < 25; q++) {
      int i = r.upto(4), j = r.upto(4), o = r.upto(10);
      if (!x.s[i] && (!x.s[j] || o < 5)) {
        size_t l1 = r.one(4) ? 0 : r.one(10) ? 60000 + r.upto(10000) : r.one(4) ? 250 + r.upto(12) : r.upto(30);
        if (l1 > 1000 && t % 8) l1 = 300;
        x.Make(i, kCodes[r.upto(6)], RandBytes(r, l1), RandBytes(r, r.one(3) ? 0 : t % 16 == 3 && r.one(4) ? 65530 + r.upto(8000) : r.upto(300)), r.one(2));
      }
      else if (!x.s[i]) x.Do(o < 8 ? "cctor" : "mctor", i, j);
      else if (x.s[j] && o < 6) x.Do(o < 4 ? "cass" : "mass", i, j);
      else if (o == 9) x.Do("kill", i, 0);
    }
    finish(x, before);
  }
}

static void Hashes(uint64_t seed, int n) {
  vp::Rng r(seed);
  auto one = [&](const std::string& d, uint32_t sd) {
    vp::SetOp("hash of %zu bytes", d.size());
    static int cnt = 0;
    if (++cnt % 50 == 0) Ev("Reset").out();
    std::set<uint32_t> got;
    for (int al = 0; al < 8; al++) {
      std::string t = std::string(al, (char)r.upto(256)) + d;
      if (al & 1) { Exact x(t); got.insert(Hash(x.p + al, d.size(), sd)); }
      else { Exact x(t + RandBytes(r, 8)); got.insert(Hash(x.p + al, d.size(), sd)); }
    }
    std::string hs = "[";
    for (uint32_t h : got) { if (hs.size() > 1) hs += ","; hs += N(h, 4); }
    Ev("Hash").raw("d", B(d)).raw("seed", N(sd, 4)).raw("hs", hs + "]").out();
  };
  Ev("Reset").out();
  for (int len = 0; len < 70; len++) { one(RandBytes(r, len), r.next()); one(std::string(len, '\xff'), 0); one(std::string(len, '\0'), 0xbc9f1d34); }
  for (int c = 0; c < 256; c++) { one(std::string(1, (char)c), 0); one(std::string("ab") + (char)c, 1); one(std::string("abcd") + (char)c + "e", 2); }
  for (int i = 0; i < n; i++) { if (i % 100 == 0) Ev("Reset").out(); one(RandBytes(r, r.one(20) ? r.upto(600) : r.upto(24)), r.one(3) ? 0 : r.next()); }
  one(RandBytes(r, 5000), 7); one(RandBytes(r, 4099), 0xffffffff);
}

// long inputs, byte i being (a * i + b) mod 256
static void LongHashes(uint64_t seed, int n) {
  vp::Rng r(seed);
  static const size_t lens[] = {65536, 65537, 32767, 65535, 131072, 70003, 131075, 100000, 262147};
  for (int i = 0; i < n; i++) {
    size_t len = i < 9 ? lens[i] : 30000 + r.upto(300000);
    int a = r.upto(256), b = r.upto(256);
    std::string d;
    for (size_t k = 1; k <= len; k++) d += (char)(a * (k % 256) + b);
    uint32_t sd = r.next();
    vp::SetOp("hash of %zu bytes", len);
    Exact x(d);
    Ev("Reset").out();
    Ev("HashLong").i("len", len).i("a", a).i("b", b).raw("seed", N(sd, 4)).raw("h", N(Hash(x.p, len, sd), 4)).out();
  }
}

static void Rands(uint64_t seed, int n) {
  vp::Rng r(seed);
  static const uint32_t fixed[] = {0, 1, 2, 2147483647u, 2147483646u, 2147483648u, 0xffffffffu, 0xdeadbeefu, 0x80000001u, 301, 16807, 1407677000u};
  for (int k = 0; k < n; k++) {
    uint32_t s = k < 12 ? fixed[k] : (uint32_t)r.next();
    vp::SetOp("random seed %u", s);
    Random g(s);
    Ev("Reset").i("hi", s >> 16).i("lo", s & 65535).out();
    for (int i = 0; i < 60; i++) {
      int o = r.upto(10);
      if (o < 5) Ev("Next").i("r", g.Next()).out();
      else if (o < 7) { int m = r.one(3) ? 1 + r.upto(10) : 1 + r.upto(2147483646); Ev("Uniform").i("n", m).i("r", g.Uniform(m)).out(); }
      else if (o < 9) { int m = r.one(5) ? 1 + r.upto(1000000) : 1 + r.upto(5); Ev("OneIn").i("n", m).b("r", g.OneIn(m)).out(); }
      else { int m = r.upto(31); uint32_t v = g.Skewed(m); Ev("Skewed").i("n", m).i("r", v).i("nx", g.Next()).out(); }
    }
  }
}

int main(int argc, char** argv) {
  vp::InitTrace();
  if (argc < 4) return 77;
  std::string w = argv[1];
  uint64_t seed = atoll(argv[2]); int n = atoi(argv[3]);
  if (w == "coding") Coding(seed, n);
  else if (w == "text") Text(seed, n);
  else if (w == "slice") Slices(seed, n);
  else if (w == "codinghuge") HugeCoding(seed, n == 0);
  else if (w == "textlong") LongText(seed, n == 0);
  else if (w == "slicehuge") HugeSlices(seed, n);
  else if (w == "status") Stat(seed, n);
  else if (w == "hash") Hashes(seed, n);
  else if (w == "hashlong") LongHashes(seed, n);
  else if (w == "random") Rands(seed, n);
  else return 77;
  return 0;
}
