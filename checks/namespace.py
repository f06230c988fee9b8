import json, os, random
import vp
from variants import rejected

def tour(ctx):
    cfg = open(os.path.join(vp.SPEC, "PosixFsMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS", "PROPERTIES", "VIEW")))
    paths = ctx.state_graph("PosixFsMC", cfg, subst={"MaxSteps": 3 if ctx.quick else 4})
    out = []
    for p in paths:
        ops = [json.loads(t) for t in p]
        out.append(" ".join("%s:%s:%s" % (o["o"], "/".join(o["p"]), "/".join(o["to"])) for o in ops))
    random.Random(ctx.seed).shuffle(out)
    return out[:2500 if ctx.quick else 30000]

def run(ctx):
    ctx.mc("PosixFsMC", subst={"MaxSteps": 5 if ctx.quick else 7}, must_cover=["Do"])
    rejected(ctx, "PosixFsMC")
    exe = ctx.build("ns", ["ns.cc"], "asan", wraps=vp.FAULT_WRAPS)
    tf = os.path.join(ctx.work, "tour.txt")
    open(tf, "w").write("\n".join(tour(ctx)) + "\n")
    t = ctx.drive(exe, ["tour", ctx.seed], stdin=tf)
    ctx.validate("PosixFsTrace", t, what="programs covering the state graph of PosixFsMC")
    t = ctx.drive(exe, ["rand", ctx.seed, 90 if ctx.quick else 900, 170 if ctx.quick else 300])
    ctx.validate("PosixFsTrace", t, what="random operations, odd names, permissions, injected failures of each call")

CHECKS = {"C17": run}
