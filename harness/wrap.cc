// Driver for wrapping environments (C26): stacks of wrappers over recording
// environments.   wrap <seed> <histories>
#include "trace.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
using namespace lsmdb;
using vp::Ev;
typedef std::vector<std::string> Strs;
static vp::Rng* R;
static char g_pool[16];                      // objects are only identified by address
static std::string Tok(const void* p) {
  if (!p) return "null";
  const char* c = (const char*)p;
  if (c >= g_pool && c < g_pool + 16) return "p" + std::to_string(c - g_pool);
  return "other";
}
template <class T> T* RandPtr() { return R->one(5) ? nullptr : (T*)(g_pool + R->upto(16)); }
static std::string g_ran;                    // what a function passed along did when called
static std::string RandName() {
  static const char* const n[] = {"", "a", "dir/file", "/abs/x", "with space", "\xff\x01", "a/../b", "x\0y"};
  if (R->one(3)) return n[R->upto(7)];
  std::string s; int k = R->upto(40); while (k--) s += (char)R->upto(256); return s;
}
static Status RandStatus() {
  switch (R->upto(9)) {
    case 0: return Status::NotFound("m" + std::to_string(R->upto(100)), "x");
    case 1: return Status::IOError("io" + std::to_string(R->upto(100)));
    case 2: return Status::Corruption("c", "d" + std::to_string(R->upto(100)));
    case 3: return Status::NotSupported("n");
    case 4: return Status::InvalidArgument("i" + std::to_string(R->upto(100)));
    default: return Status::OK();
  }
}
static void Got(int lvl, const char* op, const Strs& a, const std::string& res, const Strs& outs) {
  Ev("Got").i("lvl", lvl).s("op", op).ls("args", a).s("res", res).ls("outs", outs).out();
}
template <class T> static Status Open(int lvl, const char* op, const std::string& f, T** r) {
  Status s = RandStatus();
  *r = RandPtr<T>();
  Got(lvl, op, {vp::Hex(f)}, s.ToString(), {Tok(*r)});
  return s;
}
static Status One(int lvl, const char* op, const std::string& f) {
  Status s = RandStatus();
  Got(lvl, op, {vp::Hex(f)}, s.ToString(), {});
  return s;
}
static std::string Num(long long v) { return std::to_string(v); }
static std::string UNum(unsigned long long v) { return std::to_string(v); }
static uint64_t RandU64() { return R->one(4) ? ~0ull : R->one(3) ? R->upto(100) : R->next(); }
static void Run(int lvl, const char* op, std::function<void(void*)>& f, void* a) {
  g_ran = "not called";
  f(a);
  std::string ran = g_ran;
  Got(lvl, op, {ran, Tok(a)}, "", {});
}
// the operations, each with the body a recording layer gives it
#define M_A(L) Status NewSequentialFile(const std::string& f, SequentialFile** r) override { return Open(L, "NewSequentialFile", f, r); }
#define M_B(L) Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { return Open(L, "NewRandomAccessFile", f, r); }
#define M_C(L) Status NewWritableFile(const std::string& f, WritableFile** r) override { return Open(L, "NewWritableFile", f, r); }
#define M_D(L) Status NewAppendableFile(const std::string& f, WritableFile** r) override { return Open(L, "NewAppendableFile", f, r); }
#define M_E(L) bool FileExists(const std::string& f) override { bool b = R->one(2); Got(L, "FileExists", {vp::Hex(f)}, b ? "yes" : "no", {}); return b; }
#define M_F(L) Status GetChildren(const std::string& f, std::vector<std::string>* r) override { \
    Status s = RandStatus(); r->clear(); int k = R->upto(4); while (k--) r->push_back(RandName()); \
    Strs h; for (auto& x : *r) h.push_back(vp::Hex(x)); Got(L, "GetChildren", {vp::Hex(f)}, s.ToString(), h); return s; }
#define M_G(L) Status RemoveFile(const std::string& f) override { return One(L, "RemoveFile", f); }
#define M_H(L) Status CreateDir(const std::string& f) override { return One(L, "CreateDir", f); }
#define M_I(L) Status RemoveDir(const std::string& f) override { return One(L, "RemoveDir", f); }
#define M_J(L) Status GetFileSize(const std::string& f, uint64_t* z) override { Status s = RandStatus(); *z = RandU64(); Got(L, "GetFileSize", {vp::Hex(f)}, s.ToString(), {UNum(*z)}); return s; }
#define M_K(L) Status RenameFile(const std::string& f, const std::string& g) override { Status s = RandStatus(); Got(L, "RenameFile", {vp::Hex(f), vp::Hex(g)}, s.ToString(), {}); return s; }
#define M_L(L) Status LockFile(const std::string& f, FileLock** r) override { return Open(L, "LockFile", f, r); }
#define M_M(L) Status UnlockFile(FileLock* l) override { Status s = RandStatus(); Got(L, "UnlockFile", {Tok(l)}, s.ToString(), {}); return s; }
#define M_N(L) void Schedule(std::function<void(void*)> f, void* a) override { Run(L, "Schedule", f, a); }
#define M_O(L) void StartThread(std::function<void(void*)> f, void* a) override { Run(L, "StartThread", f, a); }
#define M_P(L) Status GetTestDirectory(std::string* p) override { Status s = RandStatus(); *p = RandName(); Got(L, "GetTestDirectory", {}, s.ToString(), {vp::Hex(*p)}); return s; }
#define M_Q(L) Status NewLogger(const std::string& f, Logger** r) override { return Open(L, "NewLogger", f, r); }
#define M_R(L) uint64_t NowMicros() override { uint64_t v = RandU64(); Got(L, "NowMicros", {}, UNum(v), {}); return v; }
#define M_S(L) void SleepForMicroseconds(int m) override { Got(L, "SleepForMicroseconds", {Num(m)}, "", {}); }
static const char* const kOps[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "FileExists",
  "GetChildren", "RemoveFile", "CreateDir", "RemoveDir", "GetFileSize", "RenameFile", "LockFile", "UnlockFile", "Schedule",
  "StartThread", "GetTestDirectory", "NewLogger", "NowMicros", "SleepForMicroseconds"};
struct Base : Env { int lv_; explicit Base(int l) : lv_(l) {}
  M_A(lv_) M_B(lv_) M_C(lv_) M_D(lv_) M_E(lv_) M_F(lv_) M_G(lv_) M_H(lv_) M_I(lv_) M_J(lv_) M_K(lv_) M_L(lv_) M_M(lv_) M_N(lv_) M_O(lv_) M_P(lv_) M_Q(lv_) M_R(lv_) M_S(lv_) };
struct BaseNoAppend : Env { int lv_; explicit BaseNoAppend(int l) : lv_(l) {}
  M_A(lv_) M_B(lv_) M_C(lv_) M_E(lv_) M_F(lv_) M_G(lv_) M_H(lv_) M_I(lv_) M_J(lv_) M_K(lv_) M_L(lv_) M_M(lv_) M_N(lv_) M_O(lv_) M_P(lv_) M_Q(lv_) M_R(lv_) M_S(lv_) };
struct OverA : EnvWapper { int lv_; OverA(Env* t, int l) : EnvWapper(t), lv_(l) {} M_A(lv_) M_D(lv_) M_E(lv_) M_H(lv_) M_J(lv_) M_L(lv_) M_N(lv_) M_R(lv_) };
struct OverB : EnvWapper { int lv_; OverB(Env* t, int l) : EnvWapper(t), lv_(l) {} M_B(lv_) M_C(lv_) M_F(lv_) M_G(lv_) M_I(lv_) M_K(lv_) M_M(lv_) M_O(lv_) M_P(lv_) M_Q(lv_) M_S(lv_) };
static bool In(const char* const* a, int n, const std::string& op) { for (int i = 0; i < n; i++) if (op == a[i]) return true; return false; }
static bool Owns(const std::string& kind, int op) {
  static const char a[] = "ADEHJLNR", b[] = "BCFGIKMOPQS";
  char c = 'A' + op;
  if (kind == "base") return true;
  if (kind == "noappend") return c != 'D';
  if (kind == "overA") return strchr(a, c);
  if (kind == "overB") return strchr(b, c);
  if (kind == "mem") return !strchr("NORS", c);   // scheduling, threads, time, sleeping go to the base
  return false;
}

static void CallOp(Env* e, int op, bool mem) {
  std::string f = RandName(), g = RandName();
  auto call = [&](const Strs& a) { vp::SetOp("%s", kOps[op]); Ev("Call").s("op", kOps[op]).ls("args", a).out(); };
  auto ret = [&](const std::string& r, const Strs& o, bool ns = false) { Ev("Ret").s("res", r).ls("outs", o).b("notsupported", ns).out(); };
#define OPEN(T, fn) { T* r = (T*)(g_pool + 9); call({vp::Hex(f)}); Status s = e->fn(f, &r); \
    if (mem) { ret(s.ToString(), {}); if (s.ok()) delete r; } else ret(s.ToString(), {Tok(r)}, s.IsNotSupportedError()); break; }
  switch (op) {
    case 0: OPEN(SequentialFile, NewSequentialFile)
    case 1: OPEN(RandomAccessFile, NewRandomAccessFile)
    case 2: OPEN(WritableFile, NewWritableFile)
    case 3: OPEN(WritableFile, NewAppendableFile)
    case 11: OPEN(FileLock, LockFile)
    case 16: OPEN(Logger, NewLogger)
    case 4: { call({vp::Hex(f)}); bool b = e->FileExists(f); ret(b ? "yes" : "no", {}); break; }
    case 5: { std::vector<std::string> v(3, "old"); call({vp::Hex(f)}); Status s = e->GetChildren(f, &v);
              Strs h; for (auto& x : v) h.push_back(vp::Hex(x)); ret(s.ToString(), h); break; }
    case 6: { call({vp::Hex(f)}); Status s = e->RemoveFile(f); ret(s.ToString(), {}); break; }
    case 7: { call({vp::Hex(f)}); Status s = e->CreateDir(f); ret(s.ToString(), {}); break; }
    case 8: { call({vp::Hex(f)}); Status s = e->RemoveDir(f); ret(s.ToString(), {}); break; }
    case 9: { uint64_t z = 77; call({vp::Hex(f)}); Status s = e->GetFileSize(f, &z); ret(s.ToString(), {UNum(z)}); break; }
    case 10: { call({vp::Hex(f), vp::Hex(g)}); Status s = e->RenameFile(f, g); ret(s.ToString(), {}); break; }
    case 12: { FileLock* l = mem ? new FileLock : RandPtr<FileLock>(); call({Tok(l)}); Status s = e->UnlockFile(l); ret(s.ToString(), {}); break; }
    case 13: case 14: {
      void* a = RandPtr<void>();
      std::string id = "f" + std::to_string(R->upto(1000));
      std::string want = id + ":" + Tok(a);
      int runs = 0;
      std::function<void(void*)> fn = [id, &runs](void* x) { runs++; g_ran = runs == 1 ? id + ":" + Tok(x) : "called twice"; };
      call({want, Tok(a)});
      if (op == 13) e->Schedule(fn, a); else e->StartThread(fn, a);
      ret(runs == 1 ? "" : "ran " + std::to_string(runs) + " times", {});
      break; }
    case 15: { std::string p = "old"; call({}); Status s = e->GetTestDirectory(&p); ret(s.ToString(), {vp::Hex(p)}); break; }
    case 17: { call({}); uint64_t v = e->NowMicros(); ret(UNum(v), {}); break; }
    case 18: { int m = R->one(3) ? (int)R->next() : (int)R->upto(10); call({Num(m)}); e->SleepForMicroseconds(m); ret("", {}); break; }
  }
}
int main(int argc, char** argv) {
  vp::InitTrace();
  vp::Rng r(strtoull(argv[1], 0, 10));
  R = &r;
  int n = atoi(argv[2]);
  for (int h = 0; h < n; h++) {
    int depth = 1 + r.upto(4);                 // wrappers above the base
    Strs kinds;
    static const char* const ks[] = {"plain", "plain", "overA", "overB", "mem"};
    for (int i = 0; i < depth; i++) kinds.push_back(h < 5 ? (i ? "plain" : ks[h]) : ks[r.upto(5)]);
    kinds.push_back(r.one(4) ? "noappend" : "base");
    std::string own = "[";
    for (size_t i = 0; i < kinds.size(); i++) {
      own += i ? ",[" : "[";
      bool first = true;
      for (int o = 0; o < 19; o++) if (Owns(kinds[i], o)) { own += first ? "\"" : ",\""; own += kOps[o]; own += "\""; first = false; }
      own += "]";
    }
    own += "]";
    Ev("Reset").raw("own", own).ls("kind", kinds).out();
    vp::SetOp("construct");
    std::vector<Env*> st;
    Env* e = kinds.back() == "base" ? (Env*)new Base(kinds.size()) : (Env*)new BaseNoAppend(kinds.size());
    st.push_back(e);
    for (int i = depth - 1; i >= 0; i--) {
      int lvl = i + 1;
      Env* t = e;
      if (kinds[i] == "mem") { e = NewMemEnv(t); }
      else {
        EnvWapper* w = kinds[i] == "plain" ? new EnvWapper(t) : kinds[i] == "overA" ? (EnvWapper*)new OverA(t, lvl) : new OverB(t, lvl);
        Ev("Target").b("ok", w->target() == t).out();
        e = w;
      }
      st.push_back(e);
    }
    for (int k = 0; k < 38; k++) {
      int op = k < 19 ? k : r.upto(19);
      int srv = -1;
      for (size_t i = 0; i < kinds.size() && srv < 0; i++) if (Owns(kinds[i], op)) srv = i;
      CallOp(e, op, srv >= 0 && kinds[srv] == "mem");
    }
    vp::SetOp("destroy");
    while (!st.empty()) { delete st.back(); st.pop_back(); }
  }
  return 0;
}
