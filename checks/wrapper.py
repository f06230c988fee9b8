import os
import vp

def run(ctx):
    ctx.mc("WrapperMC", must_cover=["Call", "Serve", "Forward", "Back"], subst=None if ctx.quick else {"MaxDepth": 5})
    for w in ("twice", "skip", "op", "arg", "result"):
        ctx.mc_must_fail("WrapperMC", "Forwarded", subst={"Wrong": '"%s"' % w})
    exe = ctx.build("wrap", ["wrap.cc"], "asan")
    t = ctx.drive(exe, [ctx.seed, 250 if ctx.quick else 5000])
    ctx.validate("WrapperTrace", t, what="stacks of wrappers over recording environments")

CHECKS = {"C26": run}
