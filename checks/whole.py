import json, os, random
import vp

def run(ctx):
    ctx.mc("WholeFileMC", must_cover=["New", "AppendAll", "Sync", "Close", "Delete", "Remove", "Read", "Return"])
    ctx.mc_must_fail("WholeFileMC", "WriteRight", subst={"Removes": "FALSE"})
    cfg = open(os.path.join(vp.SPEC, "WholeFileMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS",)))
    paths = ctx.state_graph("WholeFileMC", cfg, var="prog", final=True, root=True)
    exe = ctx.build("whole", ["whole.cc"], "asan")
    tf = os.path.join(ctx.work, "tour.txt")
    open(tf, "w").write("\n".join(" ".join(p) for p in paths) + "\n")
    ctx.log("%d behaviours" % len(paths))
    t = ctx.drive(exe, ["tour", ctx.seed], stdin=tf)
    ctx.validate("WholeFileTrace", t, what="every outcome of every call, as enumerated by WholeFileMC")
    t = ctx.drive(exe, ["rand", ctx.seed, 1500 if ctx.quick else 30000])
    ctx.validate("WholeFileTrace", t, what="random sizes, splits and failures; real environments")

CHECKS = {"C18": run}
