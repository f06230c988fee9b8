"""Framework shared by all checks: build, drive, model check, validate traces.

Outcome of a check: exit 0 (held on everything explored), exit 1 with a
VIOLATION line (a run of the real code that the specification rejects), any
other exit = error of the check itself (no build, TLC failure, ...).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import ctypes
LIBC = ctypes.CDLL(None)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NOBODY = 65534
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Violation(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


# ----------------------------------------------------------------- building
def repo_sources():
    """All library sources of the working tree (tests and tools excluded)."""
    out = []
    for d in ("db", "util", "helpers/memenv", "port", "helpers", "table"):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if not f.endswith((".cc", ".cpp", ".c")):
                continue
            if re.search(r"_test\.|test_util|testutil|lsmdb_util|windows|_bench", f):
                continue
            out.append(os.path.join(p, f))
    return out


def repo_digest():
    h = hashlib.sha256()
    for d in ("db", "util", "helpers", "port", "include", "table"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


PORT_DEFS = {"HAVE_FDATASYNC": 1, "HAVE_O_CLOEXEC": 1}

BASE_FLAGS = ["-std=c++11", "-fno-exceptions", "-fno-rtti", "-g",
              "-DLSMDB_PLATFORM_POSIX=1", "-w"]
VARIANTS = {
    # sequential drivers: memory errors become crashes, i.e. events no spec allows
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1"],
    # concurrency drivers: every memory access and atomic of the code under test
    # calls into harness/dsched.cc (our scheduler), not into the TSan runtime
    "ctl": ["-O1", "-fsanitize=thread", "-fno-builtin", "-U_FORTIFY_SOURCE"],
}


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        os.chmod(self.work, 0o755)
        self.outdir = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "trace_events": 0, "model_configs": [], "trace_specs": [], "samples": []}
        self.assumptions = []
        self.quick = self.tier != "thorough"
        self._digest = None
        self._objs = {}

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- building
    def port_config(self, bdir):
        inc = os.path.join(bdir, "include", "port")
        os.makedirs(inc, exist_ok=True)
        src = open(os.path.join(REPO, "port", "port_config.h.in")).read()
        def sub(m):
            n = m.group(1)
            return "#define %s %d" % (n, PORT_DEFS.get(n, 0))
        src = re.sub(r"#\s*cmakedefine01\s+(\w+)", sub, src)
        open(os.path.join(inc, "port_config.h"), "w").write(src)

    def build(self, name, sources, variant="asan", instrument=(), extra=(), wraps=(),
              libs=("-lpthread", "-ldl"), repo=True, cxxstd=None, plain_repo=()):
        """Compile harness `sources` (in /verif/harness) plus the repository's
        library sources.  In variant "ctl" the repository's sources and those
        listed in `instrument` are compiled with access callbacks."""
        bdir = os.path.join(self.work, "build-" + variant)
        os.makedirs(bdir, exist_ok=True)
        self.port_config(bdir)
        inc = ["-I" + os.path.join(bdir, "include"), "-I" + REPO,
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "util"),
               "-I" + HARN]
        jobs = []
        objs = []
        vf = VARIANTS[variant]
        def obj(src, flags, tag):
            o = os.path.join(bdir, tag + "-" + os.path.basename(src) + "-" +
                             hashlib.sha1(src.encode()).hexdigest()[:6] + ".o")
            objs.append(o)
            if o in self._objs:
                return
            self._objs[o] = True
            jobs.append((o, ["g++"] + BASE_FLAGS + flags + list(extra) + inc + ["-c", src, "-o", o]))
        for s in sources:
            p = os.path.join(HARN, s)
            if variant == "ctl" and s not in instrument:
                obj(p, ["-O1", "-U_FORTIFY_SOURCE"], "h-" + name)
            elif variant == "ctl":
                obj(p, vf, "hi-" + name)
            else:
                obj(p, vf, "h-" + name)
        # instrumented objects first, so that their copies of inline functions win
        if variant == "ctl":
            objs.sort(key=lambda o: 0 if os.path.basename(o).startswith("hi-") else 1)
        robjs = objs
        if repo:
            n0 = len(objs)
            for s in repo_sources():
                obj(s, vf, "r")
            robjs = objs[n0:] + objs[:n0] if variant == "ctl" else objs
            if variant == "ctl":
                hi = [o for o in objs[:n0] if os.path.basename(o).startswith("hi-")]
                rest = [o for o in objs[:n0] if o not in hi]
                robjs = hi + objs[n0:] + rest
        exe = os.path.join(bdir, name)
        with ThreadPoolExecutor(8) as ex:
            for (o, cmd), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
                if r.returncode != 0:
                    raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        link = ["g++", "-g"] + (["-fsanitize=address"] if variant == "asan" else []) + \
            robjs + ["-o", exe] + ["-Wl,--wrap=" + w for w in wraps] + list(libs)
        r = sh(link)
        if r.returncode != 0:
            raise CheckError("link failed: %s\n%s" % (" ".join(link), r.stdout.decode(errors="replace")[-4000:]))
        os.chmod(bdir, 0o755)
        return exe

    # -------------------------------------------------------------- driving
    def drive(self, exe, args, trace="trace.ndjson", timeout=300, env=None, crash_ok=False, stdin=None, mem=6):
        """Run a driver as an unprivileged user in its own scratch directory.
        Returns the trace path.  A crash or hang of the code under test is
        recorded as a final event {"e":"Crash"}, which no specification allows."""
        sdir = tempfile.mkdtemp(prefix="drv-", dir=self.work)
        os.chown(sdir, NOBODY, NOBODY)
        os.chmod(sdir, 0o755)
        tpath = os.path.join(sdir, trace)
        e = {"PATH": "/usr/bin:/bin", "LANG": "C", "TZ": "UTC", "HOME": sdir, "TMPDIR": sdir,
             "VP_DIR": sdir, "VP_TRACE": tpath, "TEST_TMPDIR": os.path.join(sdir, "tt"),
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:allocator_may_return_null=1:max_malloc_fill_size=4096:detect_stack_use_after_return=0"}
        e.update(env or {})
        def pre():
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os.setsid()
            LIBC.prctl(1, signal.SIGKILL)       # ends with the check
        logp = os.path.join(self.work, os.path.basename(sdir) + ".log")
        with open(logp, "wb") as lf:
            p = subprocess.Popen([exe] + [str(a) for a in args], cwd=sdir, env=e, preexec_fn=pre,
                                 stdout=lf, stderr=subprocess.STDOUT,
                                 stdin=open(stdin, "rb") if stdin else subprocess.DEVNULL)
            hang = runaway = False
            end = time.time() + timeout
            while True:      # the driver is watched: a runaway must not take the sandbox's memory
                try:
                    rc = p.wait(0.1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    f = open("/proc/%d/statm" % p.pid).read().split()
                    rss = (int(f[1]) - int(f[2])) * 4096
                except (OSError, IndexError, ValueError):
                    rss = 0
                runaway = rss > mem << 30
                hang = runaway or time.time() > end
                if hang:
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if hang:
                p.wait()
                rc = -9
        out = open(logp, "rb").read().decode(errors="replace")
        if not os.path.exists(tpath):
            open(tpath, "w").close()
        if runaway:
            self.append_event(tpath, {"e": "Crash", "what": "runaway memory use (more than %d GiB)" % mem})
        elif hang:
            self.append_event(tpath, {"e": "Crash", "what": "hang (no progress within %ds)" % timeout})
        elif rc == 77:
            raise CheckError("driver %s could not set up its environment: %s" % (exe, out[-2000:]))
        elif rc != 0:
            last = self.last_line(tpath)
            if not (last and '"e":"Crash"' in last):
                self.append_event(tpath, {"e": "Crash", "what": "exit status %s" % rc})
            self.log("driver ended with", rc, out[-1500:])
        self.driver_log = out
        return tpath

    @staticmethod
    def last_line(path):
        try:
            with open(path, "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 65536))
                ls = f.read().decode(errors="replace").splitlines()
                return ls[-1] if ls else None
        except OSError:
            return None

    @staticmethod
    def append_event(path, ev):
        with open(path, "rb+") as f:
            f.seek(0, 2)
            n = f.tell()
            if n:  # drop a partially written last line
                f.seek(0)
                data = f.read()
                if not data.endswith(b"\n"):
                    data = data[: data.rfind(b"\n") + 1]
                    f.seek(0)
                    f.truncate()
                    f.write(data)
            f.seek(0, 2)
            f.write((json.dumps(ev) + "\n").encode())

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, workers, env=None, extra=(), timeout=800, xmx="6g", specs=None):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = os.path.join(d, module + "_run.cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        os.makedirs(os.path.join(d, "tmp"))
        cmd = ["java", "-Djava.io.tmpdir=" + os.path.join(d, "tmp"), "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg] + list(extra) + \
              [module + ".tla"]
        try:
            r = sh(cmd, cwd=d, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = r.stdout.decode(errors="replace")
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.last_tlc_dir = d
        return r.returncode, out, gen, dist

    def mc(self, module, cfg=None, cfg_text=None, workers=8, timeout=800, must_cover=(), subst=None, extra=()):
        """Exhaustive design check.  The specification must hold: anything else
        is an error of the check (the specification does not read the code)."""
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, cfg or (module + ".cfg"))).read()
        for k, v in (subst or {}).items():
            cfg_text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), cfg_text)
            if not n:
                raise CheckError("no constant %s in config" % k)
        rc, out, gen, dist = self.tlc(module, cfg_text, workers, timeout=timeout,
                                      extra=["-coverage", "1"] + list(extra))
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s does not check (rc %d):\n%s" % (module, rc, out[-3000:]))
        # vacuity guard: every action listed must have been taken
        taken = {}
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out):
            taken[m.group(1)] = max(taken.get(m.group(1), 0), int(m.group(4)))
        for a in must_cover:
            if taken.get(a, 0) == 0:
                raise CheckError("vacuous model: action %s of %s never taken (%s)" % (a, module, taken))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["model_configs"].append({"module": module, "distinct_states": dist, "states_generated": gen,
                                          "actions": taken})
        self.log("model %s: %d distinct states, %d generated" % (module, dist, gen))
        return out

    def mc_must_fail(self, module, expect, cfg=None, workers=4, timeout=400, subst=None, cfg_text=None, override=None, only=None):
        """A deliberately wrong variant of a design must violate one of the
        invariants named by the regular expression `expect`: shows that they
        are able to fail.  Anything else is an error of the check."""
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, cfg or (module + ".cfg"))).read()
        for k, v in (subst or {}).items():
            cfg_text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), cfg_text)
            if not n:
                raise CheckError("no constant %s in config" % k)
        if only:                                  # check just this invariant
            cfg_text, n = re.subn(r"(?m)^INVARIANTS?\b.*$", "INVARIANTS " + " ".join(only.split("|")), cfg_text)
            if n != 1:
                raise CheckError("no INVARIANTS line in config")
        for k, v in (override or {}).items():     # replace definitions
            cfg_text += "\nCONSTANT %s <- %s\n" % (k, v)
        subst = dict(subst or {}, **(override or {}))
        rc, out, gen, dist = self.tlc(module, cfg_text, workers, timeout=timeout)
        m = re.search(r"(?:Invariant|Action property|Temporal properties?|property) (\w+)? ?(?:is|was|were) violated|(Deadlock) reached", out)
        what = (m.group(1) or m.group(2)) if m else None
        if not what or not re.search(expect, what):
            raise CheckError("wrong variant %s of %s was not rejected (%s):\n%s" % (subst, module, what, out[-1500:]))
        self.cov.setdefault("rejected_variants", []).append({"module": module, "variant": {k: str(v) for k, v in (subst or {}).items()}, "violates": what})
        self.log("model %s with %s violates %s, as it must" % (module, subst, what))

    def validate(self, module, trace, consts="", what="", count_key="Reset", invariants=(), dfs=False,
                 timeout=800, env=None, traces=None, xmx="6g", chunk=30000, sample=True):
        """Check a recorded trace (possibly many histories separated by events
        of type `count_key`) against the trace specification `module`.
        Raises Violation when TLC rejects it, twice."""
        lines = open(trace, "rb").read().decode(errors="replace").splitlines()
        if not lines:
            raise CheckError("empty trace for " + module)
        # split into files at history boundaries
        bounds = [i for i, l in enumerate(lines) if ('"e":"%s"' % count_key) in l]
        if not bounds or bounds[0] != 0:
            bounds = [0] + bounds
        chunks = []
        start = 0
        for i, b in enumerate(bounds):
            end = bounds[i + 1] if i + 1 < len(bounds) else len(lines)
            if end - start > chunk and b > start:
                chunks.append((start, b))
                start = b
        chunks.append((start, len(lines)))
        par = 6 if len(chunks) > 1 else 1
        def one(ch):
            return self._validate_chunk(module, lines[ch[0]:ch[1]], consts, invariants, dfs, timeout, env, xmx)
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, chunks))
        gen = sum(r[2] for r in res)
        for (a, b), (ok, k, g, out, path) in zip(chunks, res):
            if ok:
                continue
            ok2, k2, g2, out2, path = self._validate_chunk(module, lines[a:b], consts, invariants, dfs, timeout, env, xmx)
            if ok2 or k2 != k:
                raise CheckError("unstable rejection by %s:\n%s" % (module, out[-2000:]))
            self.reject(module, lines[a:b], k, out, what, count_key)
        self.cov["transitions"] += gen
        nh = traces if traces is not None else max(1, len([b for b in bounds]))
        self.cov["traces_validated_against_impl"] += nh
        self.cov["trace_events"] += len(lines)
        self.cov["trace_specs"].append({"module": module, "events": len(lines), "histories": nh,
                                        "states_generated": gen, "what": what})
        if sample and len(self.cov["samples"]) < 4:
            self.cov["samples"].append({"trace_of": what or module, "first_events": [json.loads(x) for x in lines[:6]]})
        self.log("validated %d events in %d histories with %s (%s)" % (len(lines), nh, module, what))

    def _validate_chunk(self, module, lines, consts, invariants, dfs, timeout, env, xmx):
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCONSTRAINT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        if consts:
            cfg += "CONSTANTS\n" + consts + "\n"
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        e = {"VP_TRACE": path}
        e.update(env or {})
        if dfs:
            e["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
        rc, out, gen, dist = self.tlc(module, cfg, 1, env=e, timeout=timeout, xmx=xmx)
        m = re.search(r'<<"VPTRACE", (\d+), (\d+)>>', out)
        if m and rc == 0 and int(m.group(1)) == int(m.group(2)) + 1:
            return True, None, gen, out, path
        if m and int(m.group(2)) == len(lines) and int(m.group(1)) <= len(lines) and \
                ("POSTCONDITION" in out or "postcondition" in out.lower() or "Accepted" in out):
            return False, int(m.group(1)), gen, out, path
        m2 = re.search(r"Invariant (\w+) is violated", out)
        if m2:
            ls = re.findall(r"(?m)^/\\ l = (\d+)", out)
            return False, (int(ls[-1]) - 1 if ls else 0), gen, "Invariant %s\n" % m2.group(1) + out, path
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-3000:]))

    # ---------------------------------------------------------------- tours
    def state_graph(self, module, cfg_text, workers=1, timeout=600, subst=None, var="last", root=False, final=False):
        """Explore a model and return (paths): for a spanning tree of its state
        graph, the sequences of `last` labels (operations, as JSON) that
        together pass through every reachable state.  With final, `var` is a
        sequence of strings: return its value in every leaf of the tree."""
        for k, v in (subst or {}).items():
            cfg_text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), cfg_text)
            if not n:
                raise CheckError("no constant %s in config" % k)
        dot = os.path.join(self.work, "graph.dot")
        rc, out, gen, dist = self.tlc(module, cfg_text, workers, timeout=timeout, extra=["-dump", "dot", dot])
        if rc != 0:
            raise CheckError("state graph of %s failed:\n%s" % (module, out[-2000:]))
        label, succ, indeg = {}, {}, {}
        rx = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\]')
        lx = re.compile((r'/\\\\ %s = (<<.*?>>)(?:\\n/|$)' if final else r'/\\\\ %s = (\\".*?\\")(?:\\n/|$)') % var)
        roots = []
        for line in open(dot):
            m = rx.match(line)
            if m:
                q = lx.search(m.group(2))
                if not q:
                    raise CheckError("no label in graph: " + line[:300])
                label[m.group(1)] = q.group(1)
                if m.group(3):
                    roots.append(m.group(1))
                continue
            m = re.match(r'^(-?\d+) -> (-?\d+)', line)
            if m and m.group(1) != m.group(2):
                succ.setdefault(m.group(1), []).append(m.group(2))
        os.unlink(dot)
        parent = {r: None for r in roots}
        order = list(roots)
        for u in order:
            for v in succ.get(u, ()):
                if v not in parent:
                    parent[v] = u
                    order.append(v)
        inner = set(parent.values())
        paths = []
        for u in order:
            if u in inner:
                continue
            if final:
                paths.append(re.findall(r'\\"(.*?)\\"', label[u].replace("\\n", " ")))
                continue
            p = []
            while u is not None:
                p.append(label[u])
                u = parent[u]
            p.reverse()
            ops = []
            for x in (p if root else p[1:]):
                t = x[2:-2].replace('\\\\\\"', '"').replace('\\\\', '\\')
                ops.append(t)
            paths.append(ops)
        self.cov["tour_states"] = self.cov.get("tour_states", 0) + len(order)
        return paths

    # -------------------------------------------------------------- outcome
    def reject(self, module, lines, k, out, what, count_key="Reset"):
        """k = 1-based index of the first event the specification cannot explain."""
        k = max(1, min(k, len(lines)))
        start = k - 1
        while start > 0 and ('"e":"%s"' % count_key) not in lines[start]:
            start -= 1
        rp = os.path.join(self.outdir, "violation.json")
        ctxl = lines[max(start, k - 400):k]
        where = self._symbols(ctxl)
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "spec": module, "what": what, "seed": self.seed, "tier": self.tier,
                       "rejected_event": self._j(lines[k - 1]),
                       "history_up_to_rejection": [self._j(x) for x in ctxl], "code_locations": where,
                       "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (self.seed, self.tier, self.prop),
                       "tlc": out[-1500:]}, f, indent=1)
        msg = "%s rejects event %d: %s" % (module, k, lines[k - 1][:600])
        raise Violation(msg, rp)

    def _symbols(self, lines):
        """names for the code addresses in a happens-before log"""
        exe = getattr(self, "exe", None)
        pcs = sorted({int(m.group(1)) for l in lines for m in [re.search(r'"pc":(\d+)', l)] if m and m.group(1) != "0"})
        if not exe or not pcs:
            return {}
        r = sh(["addr2line", "-Cfspe", exe] + [hex(x - 1) for x in pcs])
        return dict(zip(map(str, pcs), r.stdout.decode(errors="replace").splitlines()))

    @staticmethod
    def _j(x):
        try:
            return json.loads(x)
        except ValueError:
            return x

    def evidence(self, level, violations=0):
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def run_check(prop, fn, level="model_checking"):
    ctx = Ctx(prop)
    rc = 2
    try:
        try:
            fn(ctx)
            ctx.evidence(level)
            ctx.log("held on everything explored")
            rc = 0
        except Violation as v:
            ctx.cov["samples"].append({"violation": v.args[0]})
            ctx.evidence(level, 1)
            ctx.log(v.args[0])
            print("VIOLATION property=%s replay=%s" % (prop, v.args[1]), flush=True)
            rc = 1
        except CheckError as ce:
            print("ERROR in check %s: %s" % (prop, ce), flush=True)
            rc = 2
    finally:
        if os.environ.get("VP_KEEP"):
            print("kept", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)
    return rc


def setup():
    """Nothing is prebuilt (every check builds from /repo's working tree);
    make sure that the tools answer and that every specification parses."""
    for c in (["g++", "--version"], ["java", "-version"]):
        if sh(c).returncode != 0:
            print("missing tool", c[0])
            return 1
    bad = 0
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            r = sh(["java", "-cp", CP, "tla2sany.SANY", f], cwd=SPEC)
            if r.returncode != 0:
                print(r.stdout.decode()[-1500:])
                bad = 1
    return bad


# system calls interposed by harness/faults.h
FAULT_WRAPS = ("open open64 openat creat read pread pread64 write pwrite writev close fsync fdatasync "
               "lseek lseek64 mmap munmap stat lstat fstat access unlink remove mkdir rmdir rename opendir "
               "closedir readdir fdopen fcntl").split()
FAULT_WRAPS.remove("readdir")
