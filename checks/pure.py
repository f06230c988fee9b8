import json, os, random
import vp
from variants import rejected

SPEC = {  # property: (driver mode, trace module, design models, constants, quick n, thorough n)
    "C20": ("coding", "CodingTrace", ["CodingMC"], "", 1200, 20000),
    "C21": ("text", "TextTrace", ["TextMC"], "", 1500, 30000),
    "C22": ("slice", "SliceTrace", ["ByteOrderMC"], "", 1200, 20000),
    "C23": ("status", "StatusTrace", ["StatusMC"], "", 250, 4000),
    "C24": ("hash", "HashTrace", ["HashMC"], "LB = 8\nNL = 4\nBase = 256\nXorShift = 16\nLastShift = 24\nMul <- MulReal", 1500, 30000),
    "C25": ("random", "RandomTrace", ["LehmerMC"], "M = 2147483647\nA = 16807", 600, 10000),
}

def status_tours(ctx):
    cfg = open(os.path.join(vp.SPEC, "StatusMC.cfg")).read()
    cfg = "\n".join(l for l in cfg.splitlines() if not l.startswith(("INVARIANTS", "VIEW")))
    paths = ctx.state_graph("StatusMC", cfg, subst={"Slots": "{1, 2}" if ctx.quick else "{1, 2, 3}", "MaxSteps": 5})
    out = []
    for p in paths:
        toks = []
        for t in p:
            o = json.loads(t)
            toks.append(":".join([o["o"], str(o["s"])] + ([o["v"]] if "v" in o else []) + ([str(o["t"])] if "t" in o else [])))
        out.append(" ".join(toks))
    random.Random(ctx.seed).shuffle(out)
    return out[:4000 if ctx.quick else 40000]

def run(prop):
    mode, mod, mcs, consts, qn, tn = SPEC[prop]
    def f(ctx):
        for m in mcs:
            ctx.mc(m)
        rejected(ctx, *mcs)
        if prop == "C25":
            ctx.mc("LehmerMC", subst={"M": 8191, "A": 17, "K": 13})
        if prop == "C22" and not ctx.quick:
            ctx.mc("ByteOrderMC", subst={"Bytes": "{0, 1}", "MaxLen": 5})
        exe = ctx.build("pure", ["pure.cc"], "asan")
        stdin = None
        if prop == "C23":
            stdin = os.path.join(ctx.work, "tour.txt")
            lines = status_tours(ctx)
            open(stdin, "w").write("\n".join(lines) + "\n")
        t = ctx.drive(exe, [mode, ctx.seed, qn if ctx.quick else tn], stdin=stdin)
        ctx.validate(mod, t, consts, chunk=400 if prop == "C24" else 30000, what="recorded calls: boundary values and seeded random inputs")
        if prop in ("C20", "C21"):
            exe = ctx.build("pure_huge", ["pure.cc"], "plain")
            m = "codinghuge" if prop == "C20" else "textlong"
            t = ctx.drive(exe, [m, ctx.seed, 0 if ctx.quick else 1], mem=6 if ctx.quick and prop == "C21" else 22, timeout=400 if ctx.quick else 700)
            ctx.validate(mod, t, consts, what="slices of up to 4 GiB, inputs beyond 4 GiB" if prop == "C20" else "inputs of more than 64 KiB (thorough: 4 GiB)")
        if prop == "C22":
            exe = ctx.build("pure_huge", ["pure.cc"], "plain")
            t = ctx.drive(exe, ["slicehuge", ctx.seed, 2 if ctx.quick else 30], mem=22, timeout=700)
            ctx.validate(mod, t, consts, what="slices beyond 31 and 32 bits, in units of 4 KiB")
        if prop == "C24":
            t = ctx.drive(exe, ["hashlong", ctx.seed, 5 if ctx.quick else 40])
            ctx.validate(mod, t, consts, chunk=1, what="recorded calls with long inputs")
    return f

CHECKS = {p: run(p) for p in SPEC}
