import os, re
import vp

WRAPS = ["memcpy", "memmove", "memset", "memcmp", "malloc", "free", "calloc", "realloc", "snprintf", "vsnprintf", "sprintf"]

def controlled(ctx, name, src, spec, progs, scheds, secs, consts="", extra_wraps=(), what="", chunk=8000, instrument=True, traces_spec_kw=None, env=None):
    """Run a driver under the controlled scheduler; decide its histories with
    `spec` and the happens-before logs with HB."""
    exe = ctx.build(name, [src, "dsched.cc"], "ctl", instrument=[src] if instrument else [], wraps=WRAPS + list(extra_wraps))
    t = ctx.drive(exe, [ctx.seed, progs, scheds, secs], timeout=secs * 3 + 120, env=env)
    m = re.search(r"RUNS (\d+) DISTINCT (\d+) SUSPECT (\d+) SAMPLES (\d+) MAXPOINTS (\d+) SECONDS ([\d.]+)", ctx.driver_log)
    if not m:
        raise vp.CheckError("driver did not report: " + ctx.driver_log[-500:])
    runs, dist, susp, samp, pts = (int(m.group(i)) for i in range(1, 6))
    ctx.log("%d controlled runs, %d distinct histories, %d suspicious logs, at most %d scheduling points, %ss" % (runs, dist, susp, pts, m.group(6)))
    ctx.cov.setdefault("controlled_runs", []).append({"driver": src, "runs": runs, "distinct_histories": dist, "max_scheduling_points": pts})
    hb = os.path.join(os.path.dirname(t), "hb.ndjson")
    if os.path.getsize(hb):
        ctx.exe = exe
        ctx.validate("HB", hb, what=what + ": happens-before", chunk=4000, sample=False)
        if susp:
            raise vp.CheckError("log picked as suspicious is accepted by HB")
    elif susp or samp:
        raise vp.CheckError("no happens-before log written")
    ctx.validate(spec, t, consts, what=what, chunk=chunk, **(traces_spec_kw or {}))
    return t

def cache(ctx):
    q = ctx.quick
    ctx.mc("CacheConcMC", subst={} if q else {"MaxIns": 3}, must_cover=["Call", "Acquire", "ReadState", "WriteState", "WriteId", "Return"])
    for w in ("none", "split"):
        ctx.mc_must_fail("CacheConcMC", "Consistent|NeverTwice|Counted|Distinct", subst={"Locking": '"%s"' % w})
    controlled(ctx, "conc_cache", "conc_cache.cc", "CacheLin", 60 if q else 400, 250 if q else 5000, 12 if q else 200, what="concurrent cache programs")

def mem(ctx):
    q = ctx.quick
    ctx.mc("MemConcMC", subst={} if q else {"MaxOps": 6}, must_cover=["Env", "Find", "New", "Unname", "RefBegin", "RefEnd", "Trunc", "Write", "Size1", "Move"])
    for k, v, inv in (("EnvLock", "FALSE", "Safe|Counted"), ("RefLock", "FALSE", "Safe|Counted"),
                      ("DataLock", "FALSE", "Contiguous|Safe"), ("SizeReads", "2", "Safe")):
        ctx.mc_must_fail("MemConcMC", inv, subst={k: v})
    controlled(ctx, "conc_mem", "conc_mem.cc", "MemLin", 1125, 26 if q else 300, 15 if q else 300,
               env={"VP_FAMILY": "pairs", "VP_SINGLE": "1"}, what="each operation against each pair of operations, single preemptions")
    controlled(ctx, "conc_mem", "conc_mem.cc", "MemLin", 72 if q else 600, 100 if q else 5000, 8 if q else 200,
               what="concurrent programs on the in-memory environment")

def skip(ctx):
    q = ctx.quick
    must = ["WStart", "WMaxh", "WNode", "WNext", "WLink", "WRet", "RSync", "RStart", "RNext", "RFind", "RDone"]
    ctx.mc("SkipListMC", subst={} if q else {"MaxOps": 3}, must_cover=must, timeout=800 if q else 7000)
    for sub in ({"LinkOrder": '"relaxed"'}, {"LoadOrder": '"relaxed"'}, {"Bottom": "FALSE", "WeakMem": "FALSE"}):
        ctx.mc_must_fail("SkipListMC", "Exact|ListOK", subst=dict(sub, N=2))
    controlled(ctx, "conc_skip", "conc_skip.cc", "SkipLin", 80 if q else 600, 250 if q else 5000, 12 if q else 300,
               what="one writer beside unlocked readers")

def background(ctx):
    q = ctx.quick
    must = ["CBegin", "CLock", "CWake", "CPush", "BLock", "BLook", "BSpur", "BTake", "BRun", "BNest", "BEnd"]
    ctx.mc("BackgroundMC", must_cover=must, subst={} if q else {"PerClient": 3, "Spurious": 1}, timeout=3000)
    ctx.mc("BackgroundMC", cfg="BackgroundLive.cfg", subst={} if q else {"Clients": "{1}", "PerClient": 3}, timeout=3000)
    for sub, inv in (({"Recheck": "FALSE"}, "Sane"), ({"Wake": '"later"'}, "NoneStuck"), ({"Wake": '"never"'}, "NoneStuck"),
                     ({"RunLocked": "TRUE"}, "NoneStuck"), ({"StartLocked": "FALSE"}, "InOrder"), ({"Pop": '"last"'}, "InOrder")):
        ctx.mc_must_fail("BackgroundMC", inv, subst=sub)
    controlled(ctx, "conc_bg", "conc_bg.cc", "BackgroundTrace", 80 if q else 600, 160 if q else 5000, 12 if q else 300,
               what="scheduling threads beside the background thread")

def monitor(ctx):
    q = ctx.quick
    must = ["Lock", "Look", "Sleep", "WakeUp", "ByItself", "Do", "Sig", "Unlock"]
    ctx.mc("MonitorMC", must_cover=must, subst={} if q else {"Each": 4, "Cap": 2})
    ctx.mc("MonitorMC", must_cover=must, subst={"Conds": 1, "UseAll": "TRUE", "Each": 2 if q else 4})
    ctx.mc("MonitorMC", cfg="MonitorLive.cfg", subst={} if q else {"Each": 2})
    for sub, inv in (({"Atomic": "FALSE"}, "NoneStuck"), ({"Wake": '"none"'}, "NoneStuck"), ({"Wake": '"stale"'}, "NoneStuck"),
                     ({"Excl": "FALSE"}, "Exclusion"), ({"Hold": "FALSE"}, "Exclusion|OwnerRight"), ({"Recheck": "FALSE"}, "Capacity|Fifo"),
                     ({"Conds": 1, "UseAll": "TRUE", "All": "FALSE"}, "NoneStuck")):
        ctx.mc_must_fail("MonitorMC", inv, subst=sub)
    controlled(ctx, "conc_mon", "conc_mon.cc", "MonitorTrace", 100 if q else 1000, 160 if q else 5000, 12 if q else 300,
               what="programs over mutexes, scoped locks and conditions")

def filelock(ctx):
    q = ctx.quick
    must = ["Start", "Insert", "Open", "SetLk", "Unlk", "Close", "RemoveOnly", "Exit"]
    ctx.mc("FileLockMC", must_cover=must, subst={} if q else {"Faults": 2, "Procs": "{1, 2, 3}"}, timeout=3000)
    ctx.mc("FileLockMC", must_cover=must, subst={"PerProc": 3, "Ops": 1} if q else {"PerProc": 3}, timeout=3000)
    for sub, inv in (({"Begin": '"open"'}, "InForce|AtMostOne"), ({"Fail": '"remove"'}, "InForce|AtMostOne"), ({"End": '"remove"'}, "InForce|AtMostOne"),
                     ({"Table": "FALSE"}, "AtMostOne"), ({"Undo": "FALSE"}, "Clean|Available")):
        ctx.mc_must_fail("FileLockMC", inv, subst=sub)
    controlled(ctx, "conc_lock", "conc_lock.cc", "FileLockTrace", 100 if q else 1000, 100 if q else 5000, 15 if q else 300, instrument=False,
               extra_wraps=("open", "open64", "openat", "fcntl", "fcntl64", "close", "flock", "lockf"),
               what="locks by threads of several processes")

CHECKS = {"C13": filelock, "C27": monitor, "C14": background, "C04": cache, "C06": skip, "C10": mem}

PX_WRAPS = ("open", "open64", "openat", "close", "read", "write", "pread", "pread64", "pwrite", "readv", "writev", "lseek", "lseek64", "stat", "stat64",
            "lstat", "fstat", "fstat64", "access", "rename", "link", "unlink", "remove", "mkdir", "rmdir", "ftruncate", "opendir", "closedir", "mmap", "munmap")

def posix(ctx):
    q = ctx.quick
    ctx.mc("PosixConcMC", must_cover=["Look", "Rename", "Open", "SizeOf", "Read", "SharedRead"], subst={} if q else {"Threads": "{1, 2, 3}", "Reads": 1})
    for sub, inv in (({"StatBy": '"name"', "Renames": 1}, "OwnFile|NoFailure"), ({"Pos": '"seek"'}, "SharedRight"), ({"First": '"checked"'}, "OneEnv"), ({"Reopen": "TRUE"}, "OwnFile")):
        ctx.mc_must_fail("PosixConcMC", inv, subst=sub)
    controlled(ctx, "conc_posix", "conc_posix.cc", "PosixLin", 192 if q else 1500, 100 if q else 3000, 20 if q else 400, instrument=False,
               extra_wraps=PX_WRAPS, what="threads using the POSIX environment")

CHECKS["C28"] = posix

def own(ctx):
    q = ctx.quick
    ctx.mc("OwnMC", must_cover=["Call", "Work", "Store", "Answer"], subst={} if q else {"Threads": "{1, 2, 3}", "MaxOps": 2})
    for k, v, inv in (("Scratch", '"static"', "AsAlone"), ("Scratch", '"static"', "NoSharing"), ("State", '"static"', "AsAlone|Holds"),
                      ("Const", '"memo"', "AsAlone"), ("Const", '"memo"', "NoSharing")):
        ctx.mc_must_fail("OwnMC", inv, subst={k: v}, only=inv)
    controlled(ctx, "conc_own", "conc_own.cc", "OwnTrace", 180 if q else 1500, 70 if q else 2000, 15 if q else 300,
               what="threads with objects of their own, shared immutable values")

CHECKS["C31"] = own

def usage(ctx):
    q = ctx.quick
    must = ["Obtain", "Write", "HandOut", "Publish", "Observe", "Read"]
    ctx.mc("UsageMC", must_cover=must, subst={} if q else {"MaxBlocks": 4, "MaxReads": 3})
    ctx.mc("UsageMC", must_cover=must, subst={"Update": '"load-store"'})
    for sub, inv in (({"Update": '"recount"'}, "Grows"), ({"Update": '"estimate"'}, "NeverMore"), ({"Update": '"estimate"'}, "Grows"),
                     ({"When": '"later"'}, "Exact"), ({"When": '"later"'}, "Covered"), ({"Atomic": "FALSE"}, "Grows|NeverMore")):
        ctx.mc_must_fail("UsageMC", inv, subst=sub, only=inv)
    controlled(ctx, "conc_arena", "conc_arena.cc", "UsageTrace", 120 if q else 1000, 100 if q else 3000, 10 if q else 200,
               what="one thread allocating beside threads that ask for the usage")

CHECKS["C32"] = usage
