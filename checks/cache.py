import json, os, random
from vp import CheckError
from variants import rejected

FOCUS = {"C01": '{"map"}', "C02": '{"life"}', "C03": '{"lru"}'}

def model(ctx):
    subst = {"MaxIns": 3} if ctx.quick else {"MaxIns": 4}
    ctx.mc("LRUCacheMC", subst=subst, must_cover=["Insert", "Lookup", "Release", "Erase", "Prune", "DestroyCache"])
    ctx.mc("LRUCacheMC", subst={"MaxIns": 2, "Cap": 0}, must_cover=["Insert", "Lookup", "Release"])
    # three keys in one partition: several idle entries to choose from
    ctx.mc("LRUCacheMC", subst={"Keys": '{"a", "b", "c"}', "MaxIns": 3, "MaxHandles": 1} if ctx.quick else
           {"Keys": '{"a", "b", "c"}', "MaxIns": 5, "MaxHandles": 1, "Cap": 3})
    rejected(ctx, "LRUCacheMC")

def tour_lines(ctx):
    cfg = open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "spec", "LRUCacheMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS", "PROPERTIES", "VIEW")))
    paths = ctx.state_graph("LRUCacheMC", cfg, subst={"Keys": '{"a", "b"}', "MaxIns": 3, "MaxHandles": 1 if ctx.quick else 2})
    out = []
    for p in paths:
        toks = []
        for t in p:
            o = json.loads(t)
            toks.append({"ins": lambda: "ins:%s:%d" % (o["k"], o["c"]), "look": lambda: "look:" + o["k"],
                         "rel": lambda: "rel:%d" % o["i"], "erase": lambda: "erase:" + o["k"],
                         "prune": lambda: "prune", "destroy": lambda: "destroy"}[o["o"]]())
        out.append(" ".join(toks))
    return out

def seq(prop):
    def run(ctx):
        model(ctx)
        exe = ctx.build("cache_seq", ["cache_seq.cc"], "asan")
        focus = "Focus = " + FOCUS[prop]
        lines = tour_lines(ctx)
        ctx.log("%d tour programs" % len(lines))
        if ctx.quick and len(lines) > 10000:
            random.Random(ctx.seed).shuffle(lines)
            lines = lines[:10000]
        tf = os.path.join(ctx.work, "tour.txt")
        open(tf, "w").write("\n".join(lines) + "\n")
        t = ctx.drive(exe, ["tour", 2], stdin=tf)
        ctx.validate("CacheTrace", t, focus, "programs covering the state graph of LRUCacheMC, run on the real cache")
        n = 60 if ctx.quick else 600
        t = ctx.drive(exe, ["rand", ctx.seed, n, 300 if ctx.quick else 600])
        ctx.validate("CacheTrace", t, focus, "random programs (collisions, growth, zero/odd/huge capacities)")
    return run

CHECKS = {p: seq(p) for p in FOCUS}
