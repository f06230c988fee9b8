// Driver for the whole-file helpers (C18) on an environment with scripted outcomes.
//   whole tour <seed> | whole rand <seed> <n>
#include <deque>
#include <iostream>
#include <sstream>
#include "trace.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"

namespace lsmdb { Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname); }
using namespace lsmdb;
using vp::Ev;

static std::deque<std::string> g_plan;      // outcomes, in the order of the calls
static vp::Rng* g_rng;
static int g_pct;
static int g_nerr;
// the next outcome for a call of kind c: "" or an error; chunk: size to read
static Status Outcome(char c, long long* chunk = nullptr) {
  bool fail = false;
  if (!g_plan.empty()) {
    std::string t = g_plan.front();
    if (t[0] == c) { g_plan.pop_front(); fail = t[1] == '-'; if (chunk && !fail) *chunk = atoll(t.c_str() + 1); }
  } else if (g_pct) {
    fail = (int)g_rng->upto(100) < g_pct;
    if (chunk) *chunk = -1;
  }
  if (!fail) return Status::OK();
  std::string m = "injected " + std::to_string(++g_nerr);
  switch (g_nerr % 4) {
    case 0: return Status::IOError(m, "x");
    case 1: return Status::NotFound(m);
    case 2: return Status::Corruption(m, "y");
    default: return Status::NotSupported(m);
  }
}
static std::string T(const Status& s) { return s.ok() ? std::string() : s.ToString(); }
static Ev Env_(const char* o, const Status& s) { Ev e("Env"); e.s("o", o).s("st", T(s)); return e; }

class W : public WritableFile {
 public:
  explicit W(WritableFile* w) : w_(w) {}
  ~W() override { Env_("delete", Status::OK()).out(); delete w_; }
  Status Append(const Slice& d) override {
    Status s = Outcome('a');
    Env_("append", s).rle("d", d.data(), d.size()).out();
    if (s.ok()) return w_->Append(d);
    w_->Append(Slice(d.data(), d.size() / 2));
    return s;
  }
  Status Close() override { Status s = Outcome('c'); Env_("close", s).out(); return s; }
  Status Flush() override { Status s = Outcome('f'); Env_("flush", s).out(); return s; }
  Status Sync() override { Status s = Outcome('s'); Env_("sync", s).out(); return s; }
 private:
  WritableFile* w_;
};
static bool g_alias;
class S : public SequentialFile {
 public:
  explicit S(const std::string& c) : c_(c), pos_(0) {}
  ~S() override { c_.assign(c_.size(), '\xEE'); Env_("delete", Status::OK()).out(); }
  Status Read(size_t n, Slice* r, char* scratch) override {
    long long chunk = n;
    Status s = Outcome('k', &chunk);
    if (chunk < 0) chunk = g_rng->one(3) ? 1 + g_rng->upto(n) : n;
    size_t left = c_.size() - pos_;
    size_t k = std::min<size_t>(std::min<size_t>(n, chunk ? chunk : 1), left);
    if (!s.ok()) { memset(scratch, 0xAA, n); *r = Slice(scratch, g_rng->upto(2) ? n : 0); k = 0; }
    else if (g_alias) *r = Slice(c_.data() + pos_, k);
    else { memset(scratch, 0xBB, n); memcpy(scratch, c_.data() + pos_, k); *r = Slice(scratch, k); }
    Ev e = Env_("read", s);
    e.i("n", n).rle("d", c_.data() + pos_, k).out();
    pos_ += k;
    return s;
  }
  Status Skip(uint64_t) override { Env_("skip", Status::OK()).out(); return Status::OK(); }
 private:
  std::string c_;
  size_t pos_;
};
class E : public EnvWapper {
 public:
  explicit E(Env* b) : EnvWapper(b) {}
  std::string name, content;
  Status NewWritableFile(const std::string& f, WritableFile** r) override {
    Status s = Outcome('n');
    *r = nullptr;
    if (f != name) s = Status::InvalidArgument("wrong name");
    if (s.ok()) { WritableFile* w; target()->NewWritableFile(f, &w); *r = new W(w); }
    Env_("new", s).out();
    return s;
  }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { *r = nullptr; Status s = Status::IOError("append-open"); Env_("newappend", s).out(); return s; }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override {
    Status s = Outcome('n');
    *r = nullptr;
    if (f != name) s = Status::InvalidArgument("wrong name");
    if (s.ok()) *r = new S(content);
    Env_("new", s).out();
    return s;
  }
  Status RemoveFile(const std::string& f) override {
    Status s = Outcome('r');
    Ev e = Env_("remove", s);
    e.b("same", f == name).out();
    if (s.ok()) target()->RemoveFile(f);
    return s;
  }
};
static std::string Data(vp::Rng& r, size_t n) {
  std::string b;
  int v = r.upto(250), runs = 1 + r.upto(5);
  while (b.size() < n) { size_t k = runs-- > 1 ? 1 + r.upto(n - b.size()) : n - b.size(); b.append(k, (char)v++); }
  return b;
}
static void One(E& env, vp::Rng& r, const std::string& kind, const std::string& data) {
  Ev("Reset").out();
  vp::SetOp("%s %zu", kind.c_str(), data.size());
  env.name = "dir/file-" + std::to_string(r.upto(1000));
  bool sync = kind == "writesync";
  Ev("Call").s("o", kind == "read" ? "read" : "write").b("sync", sync).rle("d", data.data(), data.size()).out();
  g_alias = r.one(2);
  if (kind == "read") {
    env.content = data;
    std::string got = r.one(2) ? std::string("previous contents") : std::string();
    Status s = ReadFileToString(&env, env.name, &got);
    Ev("Ret").s("st", T(s)).rle("d", got.data(), got.size()).out();
  } else {
    Status s = sync ? WriteStringToFileSync(&env, Slice(data), env.name) : WriteStringToFile(&env, Slice(data), env.name);
    Ev("Ret").s("st", T(s)).rle("d", "", 0).out();
  }
  g_plan.clear();
}
static void Real(vp::Rng& r, Env* env, const std::string& base, size_t n) {
  std::string f = base + "/real" + std::to_string(r.upto(5)), d = Data(r, n), disk, back = "old";
  vp::SetOp("real %zu", n);
  Status s = r.one(2) ? WriteStringToFile(env, Slice(d), f) : WriteStringToFileSync(env, Slice(d), f);
  if (base[0] == '/') {
    FILE* p = fopen(f.c_str(), "rb");
    char b[4096]; size_t k;
    if (p) { while ((k = fread(b, 1, sizeof b, p)) > 0) disk.append(b, k); fclose(p); }
  } else disk = d;
  Status s2 = ReadFileToString(env, f, &back);
  Ev("Real").b("ok", s.ok() && s2.ok()).rle("d", d.data(), d.size()).rle("disk", disk.data(), disk.size()).rle("back", back.data(), back.size()).out();
  Status s3 = ReadFileToString(env, base + "/missing", &back);
  Ev("RealFail").b("ok", s3.ok()).out();
  if (base[0] == '/') { Status s4 = WriteStringToFile(env, Slice(d), base + "/nodir/x"); Ev("RealFail").b("ok", s4.ok()).out(); }
}
int main(int argc, char** argv) {
  vp::InitTrace();
  vp::Rng r(strtoull(argv[2], 0, 10));
  g_rng = &r;
  Env* mem = NewMemEnv(Env::Default());
  E env(mem);
  if (std::string(argv[1]) == "tour") {
    std::string line;
    while (std::getline(std::cin, line)) {
      std::istringstream is(line);
      std::string h, t;
      is >> h;
      size_t c = h.find(':');
      int u = atoi(h.c_str() + c + 1);
      bool rd = h[0] == 'r';
      // a unit is a small string or half a read buffer; reads of k units
      size_t unit = r.one(3) ? 1 : 4096;
      while (is >> t) { if (t[0] == 'k' && t[1] != '-') t = "k" + std::to_string(atoll(t.c_str() + 1) * (long long)unit); g_plan.push_back(t); }
      One(env, r, h.substr(0, c), Data(r, u * unit + (u && !rd ? r.upto(2) : 0)));
    }
  } else {
    int n = atoi(argv[3]);
    static const size_t sizes[] = {0, 1, 8191, 8192, 8193, 16384, 65536, 100000, 30, 24576};
    for (int i = 0; i < n; i++) {
      static const char* const kinds[] = {"read", "write", "writesync"};
      static const int pcts[] = {0, 5, 25};
      g_pct = pcts[r.upto(3)];
      One(env, r, kinds[r.upto(3)], Data(r, r.one(2) ? sizes[r.upto(10)] : r.upto(40000)));
    }
    g_pct = 0;
    Ev("Reset").out();
    const char* d = getenv("VP_DIR");
    for (int i = 0; i < 40; i++) { Real(r, Env::Default(), d, i < 10 ? sizes[i] : r.upto(200000)); Real(r, mem, "m", i < 10 ? sizes[i] : r.upto(50000)); }
  }
  delete mem;
  return 0;
}
