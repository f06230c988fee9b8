import json, os, random
import vp
from variants import rejected

def model(ctx):
    ctx.mc("MemEnvMC", subst={"MaxSteps": 8 if ctx.quick else 10, "MaxH": 3 if ctx.quick else 4})
    rejected(ctx, "MemEnvMC")

def tour(ctx):
    cfg = open(os.path.join(vp.SPEC, "MemEnvMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS", "PROPERTIES", "VIEW")))
    paths = ctx.state_graph("MemEnvMC", cfg, subst={"MaxSteps": 5 if ctx.quick else 6})
    out = []
    for p in paths:
        toks = []
        for t in p:
            o = json.loads(t)
            k = o["o"]
            nm = lambda x: "".join(chr(c) for c in x)
            if k in ("create", "append", "seq", "rand", "remove"):
                toks.append(k + ":" + nm(o["n"]))
            elif k == "rename":
                toks.append("rename:%s:%s" % (nm(o["n"]), nm(o["to"])))
            elif k in ("app", "close"):
                toks.append("%s:%d" % (k, o["h"]))
            elif k in ("sread", "skip"):
                toks.append("%s:%d:%d" % (k, o["h"], o["len"]))
            else:
                toks.append("rread:%d:%d:%d" % (o["h"], o["off"], o["len"]))
        out.append(" ".join(toks))
    return out

def seq(profile):
    def run(ctx):
        model(ctx)
        exe = ctx.build("mem_seq", ["mem_seq.cc"], "asan")
        lines = tour(ctx)
        random.Random(ctx.seed).shuffle(lines)
        lines = lines[:3000 if ctx.quick else 30000]
        tf = os.path.join(ctx.work, "tour.txt")
        open(tf, "w").write("\n".join(lines) + "\n")
        t = ctx.drive(exe, ["tour", ctx.seed], stdin=tf)
        ctx.validate("MemEnvTrace", t, what="programs covering the state graph of MemEnvMC, lengths scaled around the block size")
        n, ops = (150 if profile == "names" else 80, 400) if ctx.quick else (1200, 600)
        t = ctx.drive(exe, ["rand", ctx.seed, n, ops, profile])
        ctx.validate("MemEnvTrace", t, what="random programs, profile " + profile)
        if profile == "data":
            exe = ctx.build("mem_huge", ["mem_seq.cc"], "plain")
            t = ctx.drive(exe, ["huge", ctx.seed, 2 if ctx.quick else 8], mem=22, timeout=600)
            if os.path.getsize(t):
                ctx.validate("MemEnvTrace", t, what="files, reads and skips beyond 4 GiB, in units of 4 KiB")
    return run

CHECKS = {"C08": seq("names"), "C09": seq("data")}
