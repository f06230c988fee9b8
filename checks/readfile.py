import json, os, random
import conc
import vp

def model(ctx):
    sub = {} if ctx.quick else {"MaxFiles": 3, "M": 2}
    ctx.mc("LimitsMC", subst=sub, must_cover=["AcqM", "TestM", "Map", "AcqF", "TestF", "CloseM", "RelM", "CloseF", "RelF", "CloseN"])
    ctx.mc_must_fail("LimitsMC", "MapLimit|Returned", subst={"Atomic": "FALSE"})
    ctx.mc_must_fail("LimitsMC", "Returned", subst={"BackOff": "FALSE"})

def tour(ctx, m, f):
    cfg = open(os.path.join(vp.SPEC, "LimitsTour.cfg")).read()
    paths = ctx.state_graph("LimitsTour", cfg, subst={"M": m, "F": f, "MaxSteps": 4 if ctx.quick else 6})
    out = [" ".join(json.loads(t) for t in p) for p in paths]
    random.Random(ctx.seed).shuffle(out)
    return out[:700 if ctx.quick else 8000]

def consts(focus, m, f):
    return 'Focus = {"%s"}\nM = %d\nF = %d' % (focus, m, f)

def limits(ctx):
    model(ctx)
    exe = ctx.build("rfile", ["rfile.cc"], "asan", wraps=vp.FAULT_WRAPS)
    for m, f in ((1, 1), (0, 2), (2, 0)):
        tf = os.path.join(ctx.work, "tour.txt")
        open(tf, "w").write("\n".join(tour(ctx, m, f)) + "\n")
        t = ctx.drive(exe, ["tour", ctx.seed, m, f], stdin=tf)
        ctx.validate("ReadTrace", t, consts("limits", m, f), "programs covering the state graph of LimitsTour, limits %d/%d" % (m, f))
    k = 12 if ctx.quick else 200
    for m, f in ((0, 0), (3, 2), (5, 9), (1000, 20)):
        t = ctx.drive(exe, ["limits", ctx.seed, k, 120 if ctx.quick else 400, m, f])
        ctx.validate("ReadTrace", t, consts("limits", m, f), what="random opens, failing opens, reads, closes; limits %d/%d" % (m, f))
    # the default descriptor limit is a fifth of the process's
    t = ctx.drive(exe, ["limits", ctx.seed, k, 150, 2, -73], env={})
    ctx.validate("ReadTrace", t, consts("limits", 2, 14), what="default descriptor limit under RLIMIT_NOFILE = 73")
    conc.controlled(ctx, "conc_limit", "conc_limit.cc", "LimitTrace", 128 if ctx.quick else 1600, 80 if ctx.quick else 3000, 12 if ctx.quick else 300,
                    instrument=False, what="threads opening, reading and closing files at the limits",
                    extra_wraps=("open", "open64", "openat", "close", "mmap", "mmap64", "munmap", "stat", "stat64", "fstat", "fstat64"))

def reads(ctx):
    ctx.mc("PosixReadMC", must_cover=["DoRead", "DoSkip", "Grow", "Interrupt", "DoPRead"])
    ctx.mc_must_fail("PosixReadMC", "Exact", subst={"ClampSkip": "FALSE"})
    ctx.mc_must_fail("PosixReadMC", "Exact", subst={"CheckWide": "FALSE"})
    exe = ctx.build("rfile", ["rfile.cc"], "asan", wraps=vp.FAULT_WRAPS)
    n, ops = (40, 160) if ctx.quick else (500, 400)
    for m, f in ((100, 100), (0, 100), (0, 0), (2, 1)):
        t = ctx.drive(exe, ["read", ctx.seed, n, ops, m, f])
        ctx.validate("ReadTrace", t, consts("bytes", m, f), what="random reads and skips; limits %d/%d" % (m, f))
    exe = ctx.build("rfile_plain", ["rfile.cc"], "plain", wraps=vp.FAULT_WRAPS)
    for m, f in ((100, 100), (0, 100), (0, 0)):
        t = ctx.drive(exe, ["huge", ctx.seed, 2 if ctx.quick else 4, 200 if ctx.quick else 1500, m, f])
        ctx.validate("ReadTrace", t, consts("bytes", m, f), what="files of more than 4 GiB; limits %d/%d" % (m, f))

CHECKS = {"C15": limits, "C16": reads}
