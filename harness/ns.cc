// Driver for the namespace operations of the POSIX environment (C17).
//   ns rand <seed> <scenarios> <ops>
//   ns tour <seed>                     (programs on stdin)
#include <algorithm>
#include <deque>
#include <iostream>
#include <sstream>
#include "faults.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"

using namespace lsmdb;
using vp::Ev;
using vp::Outcome;

static std::string g_dir, g_base;
static std::string g_fault;      // name of the call to fail next
static int g_errno;
static std::string g_inj;        // "nf"/"io" once it has fired
static Outcome Choose(const char* c, const std::string&, long long) {
  Outcome o;
  if (!g_fault.empty() && g_fault == c) {
    o.k = Outcome::kErr; o.arg = g_errno; g_inj = g_errno == ENOENT ? "nf" : "io"; g_fault.clear();
  }
  return o;
}
static const char* St(const Status& s) { return s.ok() ? "ok" : s.IsNotFound() ? "nf" : s.IsIOError() ? "io" : "other"; }
static std::string Esc(const std::string& v) {
  std::string r;
  for (unsigned char c : v) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
    else r += (char)c;
  }
  return r;
}
static std::string Comps(const std::string& p) {
  std::string r = "[";
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    if (j > i) { if (r.size() > 1) r += ","; r += "\"" + (j - i > 255 ? std::string("LONG") : Esc(p.substr(i, j - i))) + "\""; }
    i = j + 1;
  }
  return r + "]";
}
static std::string Ints(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
static std::string Slurp(const std::string& p) {
  std::string b;
  int fd = __real_open(p.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return "?";
  char t[4096];
  ssize_t k;
  while ((k = __real_read(fd, t, sizeof t)) > 0) b.append(t, k);
  __real_close(fd);
  return b;
}
static void Walk(const std::string& rel, std::string& out) {
  std::string full = g_base + (rel.empty() ? "" : "/" + rel);
  struct stat s;
  if (__real_lstat(full.c_str(), &s) != 0) return;
  if (out.size() > 1) out += ",";
  if (S_ISLNK(s.st_mode)) {
    char b[5000];
    ssize_t n = readlink(full.c_str(), b, sizeof b);
    std::string t(b, n > 0 ? n : 0);
    t = t.compare(0, g_base.size() + 1, g_base + "/") == 0 ? t.substr(g_base.size() + 1) : "?" + t;
    out += "{\"p\":" + Comps(rel) + ",\"k\":\"l\",\"c\":[],\"t\":" + Comps(t) + "}";
    return;
  }
  if (!S_ISDIR(s.st_mode)) {
    bool un = !(s.st_mode & 0400);
    if (un) chmod(full.c_str(), 0600);
    out += "{\"p\":" + Comps(rel) + ",\"k\":\"" + (S_ISREG(s.st_mode) ? "f" : "?") + "\",\"c\":" + Ints(Slurp(full)) + ",\"t\":[]}";
    if (un) chmod(full.c_str(), s.st_mode & 07777);
    return;
  }
  out += "{\"p\":" + Comps(rel) + ",\"k\":\"d\",\"c\":[],\"t\":[]}";
  DIR* d = __real_opendir(full.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  __real_closedir(d);
  std::sort(names.begin(), names.end());
  for (auto& n : names) Walk(rel.empty() ? n : rel + "/" + n, out);
}
static int Fds() {
  int n = 0;
  DIR* d = __real_opendir("/proc/self/fd");
  if (!d) _exit(77);
  while (readdir(d)) n++;
  __real_closedir(d);
  return n;
}
static void Clean(const std::string& full) {       // only below g_base
  struct stat s;
  if (full.compare(0, g_base.size(), g_base) != 0 || __real_lstat(full.c_str(), &s) != 0) return;
  if (S_ISDIR(s.st_mode)) {
    chmod(full.c_str(), 0755);
    std::vector<std::string> names;
    DIR* d = __real_opendir(full.c_str());
    if (d) { while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); __real_closedir(d); }
    for (auto& n : names) Clean(full + "/" + n);
    if (full != g_base) __real_rmdir(full.c_str());
  } else __real_unlink(full.c_str());
}

struct Sess {
  int val = 0;
  std::vector<std::string> ros;
  Sess() { Clean(g_base); Ev("Reset").i("fds", Fds()).out(); }
  std::string Full(const std::string& p) { return p.empty() ? p : g_base + "/" + p; }
  void Op(const std::string& o, const std::string& p, const std::string& to = "", const std::string& data = "") {
    vp::SetOp("%s %s %s", o.c_str(), p.c_str(), to.c_str());
    Env* env = Env::Default();
    std::string f = Full(p), t = Full(to), d = data;
    Status s;
    bool null = true, r = false, isr = false;
    std::vector<std::string> kids;
    long long size = -1;
    g_inj.clear();
    if (o == "create" || o == "append") {
      WritableFile* w = (WritableFile*)8;
      { vp::Arm a; s = o == "create" ? env->NewWritableFile(f, &w) : env->NewAppendableFile(f, &w); }
      null = !w;
      if (s.ok() && w) {
        Status x = w->Append(d);
        if (x.ok()) x = w->Close();
        if (!x.ok()) s = Status::Corruption("write failed");
        delete w;
      }
    } else if (o == "seq" || o == "rand") {
      SequentialFile* q = (SequentialFile*)8;
      RandomAccessFile* z = (RandomAccessFile*)8;
      { vp::Arm a; s = o == "seq" ? env->NewSequentialFile(f, &q) : env->NewRandomAccessFile(f, &z); }
      null = o == "seq" ? !q : !z;
      if (s.ok() && !null) {
        struct stat ss;
        char buf[4096];
        Slice x;
        bool dir = __real_stat(f.c_str(), &ss) == 0 && S_ISDIR(ss.st_mode);
        if (!dir) {
          size_t n = std::min<size_t>(ss.st_size, sizeof buf);
          Status y = o == "seq" ? q->Read(n, &x, buf) : z->Read(0, n, &x, buf);
          d = y.ok() ? x.ToString() : "error";
        }
        if (o == "seq") delete q; else delete z;
      }
    } else if (o == "logger") {
      Logger* g = (Logger*)8;
      { vp::Arm a; s = env->NewLogger(f, &g); }
      null = !g;
      if (s.ok() && g) delete g;
    } else if (o == "lock") {
      FileLock* k = (FileLock*)8;
      { vp::Arm a; s = env->LockFile(f, &k); }
      null = !k;
      if (s.ok() && k) { vp::Arm a; Status x = env->UnlockFile(k); if (!x.ok()) s = Status::Corruption("unlock failed"); }
    } else if (o == "exists") { vp::Arm a; r = env->FileExists(f); isr = true; }
    else if (o == "size") { uint64_t z = 12345; { vp::Arm a; s = env->GetFileSize(f, &z); } size = z > 2000000000ull ? 2000000000 : z; }
    else if (o == "list") { kids.push_back("junk"); vp::Arm a; s = env->GetChildren(f, &kids); }
    else if (o == "remove") { vp::Arm a; s = env->RemoveFile(f); }
    else if (o == "mkdir") { vp::Arm a; s = env->CreateDir(f); }
    else if (o == "rmdir") { vp::Arm a; s = env->RemoveDir(f); }
    else if (o == "rename") { vp::Arm a; s = env->RenameFile(f, t); }
    std::string msg = s.ToString();
    bool named = msg.find(f) != std::string::npos || (o == "rename" && msg.find(t) != std::string::npos);
    Ev e("Op");
    e.s("o", o).raw("p", Comps(p)).raw("to", Comps(to)).s("st", St(s)).b("null", null).b("named", named).s("inj", g_inj).raw("d", Ints(d));
    if (isr) e.b("r", r);
    else if (o == "list") e.ls("r", kids);
    else e.i("r", size);
    Fin(e);
    g_fault.clear();
  }
  void Chmod(const std::string& p, bool w) {
    if (chmod(Full(p).c_str(), w ? 0755 : 0555) != 0) return;
    if (w) ros.erase(std::remove(ros.begin(), ros.end(), p), ros.end()); else ros.push_back(p);
    Ev e("Op");
    e.s("o", "chmod").raw("p", Comps(p)).raw("to", "[]").b("w", w).s("inj", "");
    Fin(e);
  }
  void ChRead(const std::string& p, bool w) {
    if (chmod(Full(p).c_str(), w ? 0644 : 0200) != 0) return;
    Ev e("Op");
    e.s("o", "chread").raw("p", Comps(p)).raw("to", "[]").b("w", w).s("inj", "");
    Fin(e);
  }
  void Symlink(const std::string& p, const std::string& to) {
    int k = symlink(Full(to).c_str(), Full(p).c_str());
    Ev e("Op");
    e.s("o", "symlink").raw("p", Comps(p)).raw("to", Comps(to)).s("st", k == 0 ? "ok" : errno == ENOENT ? "nf" : "io").b("null", true).b("named", true).s("inj", "");
    Fin(e);
  }
  void Fin(Ev& e) {
    std::string t = "[";
    Walk("", t);
    e.i("fds", Fds()).raw("tree", t + "]").out();
  }
};

static const char* const odd[] = {"..x", "...", "..", ".", "~", "-r", "#1#", "a~", "*", "x y", " ", "\n", "\xff", "\xc3\xa9", "CURRENT", "LOCK", "LOG", "000005.log", "MANIFEST-000002", "%s", "\\", ".tmp", "..."};
// every odd name: made, listed, read, moved to and from, removed
static void Odd(uint64_t seed, int n) {
  vp::Rng r(seed + 5);
  for (int i = 0; i < n; i++) {
    Sess s;
    auto name = [&](int k) -> std::string {
      std::string o;
      if (k < (int)(sizeof odd / sizeof *odd)) {
        o = odd[k];
        if (o == "." || o == "..") o += (char)(33 + r.upto(13));        // never the directory itself or its parent
      } else for (int j = 1 + r.upto(4); j > 0; j--) { char c = (char)(1 + r.upto(255)); o += c == '/' || c == '.' ? '+' : c; }
      return o;
    };
    std::string a = "d/" + name(i), b = "d/" + name(r.upto(60)), c = name(r.upto(40));
    s.Op("mkdir", "d");
    s.Op("create", a, "", "A"); s.Op("list", "d"); s.Op("exists", a); s.Op("size", a); s.Op("append", a, "", "b"); s.Op("seq", a); s.Op("rand", a);
    s.Op("lock", b); s.Op("list", "d"); s.Op("logger", b); s.Op("rmdir", "d");
    s.Op("rename", a, b); s.Op("list", "d"); s.Op("exists", a);
    s.Op("mkdir", c); s.Op("rename", b, c + "/x"); s.Op("list", c); s.Op("list", ""); s.Op("rename", c, a); s.Op("list", "d"); s.Op("list", a);
    s.Op("remove", a + "/x"); s.Op("rmdir", a); s.Op("list", "d"); s.Op("rmdir", "d"); s.Op("list", "");
  }
}

static void Rand(uint64_t seed, int n, int ops) {
  Odd(seed, n / 2);
  vp::Rng r(seed);
  static const char* const paths[] = {"a", "b", "c", "d", "d/x", "d/y", "d/e", "d/e/z", "d/e/w", "f", "f/x", "f/e", "a/x", "b/x/y", "d/x/q",
                                      "missing/x", "d/missing/y", "", "d//x", "d/e//z", ".hidden", "d/.h", "a.b", "A", "d e", "LONG", "d/LONG", "LONG/x", "LONGOK", "d/LONGOK", "OK/LONGOK", "OK", "ODD", "d/ODD", "d/ODD"};
  static const int errs[] = {ENOENT, EIO, EACCES, EPERM, ENOSPC, EROFS, EBUSY, ENOTDIR, EEXIST, EMFILE, ELOOP, ENXIO, ENOMEM, ESTALE};
  int oddbase = 0;               // each session with some few of them
  auto path = [&]() -> std::string {
    std::string p = paths[r.one(3) ? r.upto(35) : r.upto(12)];
    if (p.find("ODD") != std::string::npos) {
      std::string o = odd[(oddbase + r.upto(3)) % (sizeof odd / sizeof *odd)];
      if (o == "." || o == "..") o += (char)(33 + r.upto(13));          // never the directory itself or its parent
      if (r.one(3)) { o.clear(); for (int k = 1 + r.upto(3); k > 0; k--) { char c = (char)(1 + r.upto(255)); o += c == '/' || c == '.' ? '+' : c; } }
      p.replace(p.find("ODD"), 3, o);
    }
    size_t i = p.find("LONG");
    if (p == "LONGOK") return std::string(255, 'k');
    if (p == "d/LONGOK") return "d/" + std::string(64 + r.upto(192), 'k');
    if (p == "OK") return std::string(240, 'm');
    if (p == "OK/LONGOK") return std::string(240, 'm') + "/" + std::string(250, 'k');
    if (i != std::string::npos) p.replace(i, 4, std::string(256 + r.upto(40), 'q'));
    return p;
  };
  for (int i = 0; i < n; i++) {
    Sess s;
    oddbase = i * 3;
    for (int k = 0; k < ops; k++) {
      if (k % 20 == 19) { s.Op("list", ""); s.Op("list", "d"); }
      std::string p = path(), q = path();
      int o = r.upto(34);
      auto fault = [&](const char* c) { if (r.one(8)) { g_fault = c; g_errno = errs[r.upto(14)]; } };
      if (o < 4) { fault("open"); s.Op("create", p, "", std::string(r.upto(4), 'A' + s.val++ % 26)); }
      else if (o < 7) { fault("open"); s.Op("append", p, "", std::string(1 + r.upto(2), 'a' + s.val++ % 26)); }
      else if (o < 10) { fault("mkdir"); s.Op("mkdir", p); }
      else if (o < 12) { fault("rmdir"); s.Op("rmdir", p); }
      else if (o < 14) { fault("unlink"); s.Op("remove", p); }
      else if (o < 19) { fault("rename"); s.Op("rename", p, r.one(8) ? p : q); }
      else if (o < 20) { fault("access"); s.Op("exists", p); }
      else if (o < 21) { fault("stat"); s.Op("size", p); }
      else if (o < 23) { fault("opendir"); s.Op("list", p); }
      else if (o < 24) { fault("open"); s.Op("seq", p); }
      else if (o < 26) { fault("open"); s.Op("rand", p); }
      else if (o < 27) { fault("open"); s.Op("logger", p); }
      else if (o < 28) { fault("open"); s.Op("lock", p); }
      else if (o < 30) {
        if (p.size() && q.size() && p.size() < 200 && q.size() < 200) s.Symlink(p, q);
      } else if (o < 32) {
        struct stat ss;
        if (!p.empty() && __real_lstat(s.Full(p).c_str(), &ss) == 0 && S_ISREG(ss.st_mode)) s.ChRead(p, r.one(2));
      }
      else if (r.one(2) || s.ros.empty()) {
        static const char* const ds[] = {"d", "d/e", "f", "f/e"};
        std::string d = ds[r.upto(4)];
        struct stat ss;
        if (__real_lstat(s.Full(d).c_str(), &ss) == 0 && S_ISDIR(ss.st_mode)) s.Chmod(d, r.one(2));
      } else {
        // a read-only directory may have been renamed or removed meanwhile
        for (auto& d : std::vector<std::string>(s.ros)) s.Chmod(d, true);
        s.ros.clear();
      }
    }
  }
}
static void Tour(uint64_t seed) {
  vp::Rng r(seed);
  std::string line;
  while (std::getline(std::cin, line)) {
    Sess s;
    std::istringstream is(line);
    std::string t;
    static const char* const probes[] = {"exists", "size", "list", "seq", "rand"};
    static const char* const paths[] = {"a", "b", "d", "d/x", "d/e", "d/e/z"};
    while (is >> t) {
      size_t i = t.find(':'), j = t.find(':', i + 1);
      std::string o = t.substr(0, i);
      if (o == "symlink") s.Symlink(t.substr(i + 1, j - i - 1), t.substr(j + 1));
      else s.Op(o, t.substr(i + 1, j - i - 1), t.substr(j + 1), o == "create" || o == "append" ? std::string(1, 'A' + s.val++ % 26) : "");
    }
    s.Op(probes[r.upto(5)], paths[r.upto(6)]);
  }
}
int main(int argc, char** argv) {
  vp::InitTrace();
  const char* d = getenv("VP_DIR");
  if (!d || argc < 3) return 77;
  g_dir = d; g_base = g_dir + "/ns";
  if (__real_mkdir(g_base.c_str(), 0755) != 0) return 77;
  vp::Decide() = Choose;
  vp::Classify() = [](int, const char*) { return std::string(); };
  Env::Default();
  uint64_t seed = strtoull(argv[2], 0, 10);
  Ev("Reset").i("fds", Fds()).out();
  for (int i = 0; i < 2; i++) {
    std::string x, want = getenv("TEST_TMPDIR") ? getenv("TEST_TMPDIR") : "";
    Status s = Env::Default()->GetTestDirectory(&x);
    struct stat ss;
    bool made = __real_stat(x.c_str(), &ss) == 0 && S_ISDIR(ss.st_mode);
    Ev("TestDir").b("ok", s.ok()).b("same", x == want).b("made", made).out();
  }
  // sizes that do not fit 32 bits, in digits of 2^20 (sparse files)
  static const uint64_t sizes[] = {0, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, (5ull << 32) + 77, (1ull << 41) + 3};
  for (uint64_t z : sizes) {
    std::string f = g_base + "/big";
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return 77;
    bool made = ftruncate(fd, z) == 0;
    close(fd);
    if (!made && z <= (1ull << 32) + 5) return 77;
    vp::SetOp("size of a file of %llu bytes", (unsigned long long)z);
    uint64_t got = 99, got2 = 99;
    Status s = Env::Default()->GetFileSize(f, &got);
    WritableFile* w;   // and after appending to it
    Status s2 = Env::Default()->NewAppendableFile(f, &w);
    if (s2.ok()) { s2 = w->Append("xyz"); if (s2.ok()) s2 = w->Close(); delete w; }
    if (s2.ok()) s2 = Env::Default()->GetFileSize(f, &got2);
    if (made) Ev("BigSize").li("z", {(long long)(z >> 20), (long long)(z & 0xfffff)}).li("got", {(long long)(got >> 20), (long long)(got & 0xfffff)}).s("st", St(s))
        .i("more", 3).li("got2", {(long long)(got2 >> 20), (long long)(got2 & 0xfffff)}).s("st2", St(s2)).out();
    unlink(f.c_str());
  }
  if (std::string(argv[1]) == "rand") Rand(seed, atoi(argv[3]), atoi(argv[4]));
  else Tour(seed);
  Clean(g_base);
  return 0;
}
