// Sequential driver for the POSIX logger (C19): every message length around
// the internal buffers, several forms of messages, several loggers of a file.
#include "log_common.h"
#include "lsmdb/env.h"
using namespace lsmdb;
using vp::Ev;
static Env* env; static vp::Rng* R; static int g_id;
static lg::View* V;
// logs `msg` through one of several formats
static void Say(Logger* l, const std::string& msg, int how) {
  const char* m = msg.c_str();
  size_t n = msg.size();
  if (how == 1 && n >= 2) Log(l, "%c%.*s%c", m[0], (int)(n - 2), m + 1, m[n - 1]);
  else if (how == 2 && n >= 3) Log(l, "%.*s%s%c", 1, m, msg.substr(1, n - 2).c_str(), m[n - 1]);
  else if (how == 3 && n <= 900) { std::string f; for (char c : msg) { if (c == '%') f += "%%"; else f += c; } Log(l, f.c_str()); }
  else Log(l, "%s", m);
}
static void Call(Logger* l, const std::string& msg, int how) {
  if (R->one(3)) lg::PickTime(*R);
  lg::EvLog(1, ++g_id, lg::Tid(), msg);
  vp::SetOp("Log length %zu how %d", msg.size(), how);
  Say(l, msg, how);
  lg::EvLogE(1, *V);
}
static std::string Msg(size_t n, bool nl, int style) {
  std::string s(n, (char)('a' + n % 26));
  if (style == 1) for (size_t i = 0; i < n; i += 37) s[i] = '\n';
  if (style == 2) for (size_t i = 0; i < n; i += 53) s[i] = '%';
  if (n && s[n - 1] == '\n') s[n - 1] = 'z';
  if (nl && n) s[n - 1] = '\n';
  return s;
}
static void Begin(const std::string& old, bool exists) {
  Ev("Reset").rle("old", old.data(), old.size()).out();
  if (exists) lg::PutFile(V->path, old); else unlink(V->path.c_str());
  V->off = old.size(); g_id = 0;
}
static Logger* New() {
  Logger* l = nullptr; Status s = env->NewLogger(V->path, &l);
  Ev("New").i("ok", s.ok() && l != nullptr).out();
  return l;
}
static void End(const std::string& old) {
  std::string n = V->Look();
  if (!n.empty()) Ev("LogE").i("t", 1).rle("new", n.data(), n.size()).out();   // more than the calls' records
  std::string o = V->Old(old.size());
  Ev("End").rle("old", o.data(), o.size()).out();
}
int main(int argc, char** argv) {
  vp::InitTrace(); tzset();
  if (argc < 4) return 77;
  vp::Rng r(strtoull(argv[1], 0, 10)); R = &r;
  int part = atoi(argv[2]); bool thorough = atoi(argv[3]);
  env = Env::Default();
  lg::View v; v.path = std::string(getenv("VP_DIR")) + "/log.txt"; V = &v;
  lg::PickTime(r);
  // every length, in a few files; part selects the style
  size_t lens = thorough ? 5000 : 1200;
  for (size_t n = 0; n < lens;) {
    std::string old = r.one(2) ? "" : "old contents" + std::string(r.one(2) ? "\n" : "");
    Begin(old, !old.empty() || r.one(2));
    Logger* l = New();
    for (int k = 0; k < 150 && n < lens; k++, n++) {
      for (int nl = 0; nl < 2; nl++) Call(l, Msg(n, nl, part % 3), (n + part) % 4);
    }
    delete l; End(old);
  }
  static const size_t big[] = {4000, 4050, 4051, 4052, 4053, 4054, 4055, 4056, 4096, 8140, 8192, 65536, 100000};
  { Begin("x\n", true); Logger* l = New(); for (size_t b : big) for (int d = 0; d < 3; d++) Call(l, Msg(b + d, r.one(2), 0), r.upto(3)); delete l; End("x\n"); }
  // NUL and other bytes inside the message
  { Begin("", false); Logger* l = New();
    for (int k = 0; k < 320; k++) {
      int c = k < 256 ? k : k % 4 == 3 ? '\n' : 0;
      std::string pre(r.upto(3) ? r.upto(5) : 440 + r.upto(60), 'p'), suf(r.upto(3), 's');
      if (r.one(3)) pre += '\n';
      if (r.one(3)) suf += '\n';
      std::string m = pre + (char)c + suf;
      lg::PickTime(r); lg::EvLog(1, ++g_id, lg::Tid(), m);
      Log(l, "%s%c%s", pre.c_str(), c, suf.c_str());
      lg::EvLogE(1, v);
    }
    // numbers: a second pass over the arguments must see the same values
    for (int i = 0; i < 200; i++) {
      int a = (int)r.next(); long long b = (long long)r.next(); double d = (double)(long long)(r.next() >> 20) / 1024; std::string s(r.upto(700), 'q');
      char* t = nullptr; int n = asprintf(&t, "%d|%s|%lld|%.3f|%x|%5d|%-4d|%s", a, s.c_str(), b, d, (unsigned)a, i, i, s.c_str());
      std::string m(t, n); free(t);
      lg::EvLog(1, ++g_id, lg::Tid(), m);
      Log(l, "%d|%s|%lld|%.3f|%x|%5d|%-4d|%s", a, s.c_str(), b, d, (unsigned)a, i, i, s.c_str());
      lg::EvLogE(1, v);
    }
    delete l; End(""); }
  // dates: every day of some years, and many others
  for (int k = 0; k < (thorough ? 60 : 6); k++) {
    Begin("", false); Logger* l = New();
    long long base = r.one(2) ? 946684800LL : 90000000 + (long long)r.upto(1900000000);
    for (int i = 0; i < 400; i++) {
      lg::Sec() = base + i * 86400LL + (long long)r.upto(86400); lg::Usec() = r.one(2) ? r.upto(1000000) : r.upto(100);
      lg::EvLog(1, ++g_id, lg::Tid(), "d"); Log(l, "d"); lg::EvLogE(1, v);
    }
    delete l; End("");
  }
  // several loggers of one file, reopening, threads with their own ids, no logger
  for (int k = 0; k < (thorough ? 400 : 40); k++) {
    std::string old(r.upto(3) ? r.upto(100) : r.upto(9000), 'o');
    Begin(old, true);
    Logger* ls[3] = {nullptr, nullptr, nullptr};
    for (int i = 0; i < 25; i++) {
      int j = r.upto(3);
      if (!ls[j]) { ls[j] = New(); continue; }
      switch (r.upto(6)) {
        case 0: delete ls[j]; ls[j] = nullptr; break;
        case 1: { Ev("Null").out(); Log(nullptr, "%s %d", "nothing", i); break; }
        case 2: { std::thread th([&] { Call(ls[j], Msg(r.upto(700), r.one(2), 0), 0); }); th.join(); break; }
        default: Call(ls[j], Msg(r.upto(4) ? r.upto(60) : r.upto(5000), r.one(2), r.upto(3)), r.upto(4));
      }
    }
    for (auto l : ls) delete l;
    End(old);
  }
  unlink(v.path.c_str());
  return 0;
}
