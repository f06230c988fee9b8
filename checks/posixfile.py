import json, os, random
import vp

def model(ctx):
    sub = {} if ctx.quick else {"MaxApp": 10, "MaxFaults": 3, "MaxOps": 5}
    ctx.mc("BufFileMC", subst=sub, must_cover=["Append_", "Flush_", "Sync_", "Close_", "Write", "Interrupted",
                                               "WriteFails", "DirSync", "FSync", "SysClose", "WriteBack"])
    # wrong designs must be rejected, or the invariants would say nothing
    ctx.mc_must_fail("BufFileMC", "IsPrefixOfStream|NothingLost|Complete", subst={"Resend": "TRUE"})
    ctx.mc_must_fail("BufFileMC", "DirBeforeData|ManifestAfterDir", subst={"DirFirst": "FALSE"})

def tour(ctx):
    cfg = open(os.path.join(vp.SPEC, "BufFileMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS", "PROPERTIES", "VIEW")))
    cfg = cfg.replace("SPECIFICATION Spec", "SPECIFICATION SpecTour")
    paths = ctx.state_graph("BufFileMC", cfg, root=True, subst={"MaxOps": 3, "MaxFaults": 2, "MaxApp": 7} if ctx.quick else {"MaxOps": 4})
    out = []
    for p in paths:
        p = [json.loads(t) for t in p]
        out.append(" ".join(t for t in p if t))
    return sorted(set(out))

def run(focus):
    def f(ctx):
        model(ctx)
        exe = ctx.build("wfile", ["wfile.cc"], "asan", wraps=vp.FAULT_WRAPS)
        lines = tour(ctx)
        random.Random(ctx.seed).shuffle(lines)
        ctx.log("%d tour programs" % len(lines))
        lines = lines[:3000 if ctx.quick else 20000]
        tf = os.path.join(ctx.work, "tour.txt")
        open(tf, "w").write("\n".join(lines) + "\n")
        t = ctx.drive(exe, ["tour", ctx.seed], stdin=tf)
        c = "Focus = {\"%s\"}" % focus
        ctx.validate("BufFileTrace", t, c, what="programs covering the state graph of BufFileMC with its system call outcomes")
        t = ctx.drive(exe, ["rand", ctx.seed, 250 if ctx.quick else 3000, 14 if ctx.quick else 25])
        ctx.validate("BufFileTrace", t, c, what="random programs, names and system call outcomes")
        exe = ctx.build("wfile_huge", ["wfile.cc"], "plain", wraps=vp.FAULT_WRAPS)
        t = ctx.drive(exe, ["huge", ctx.seed, 13 if ctx.quick else 60], mem=22, timeout=600)
        ctx.validate("BufFileTrace", t, c, what="appends of more than 2 and 4 GiB, in units of 4 KiB")
    return f

CHECKS = {"C11": run("data"), "C12": run("sync")}
