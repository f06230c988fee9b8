def model(ctx):
    # sequential consistency with more keys; and the release/acquire model of C06
    must = ["WStart", "WMaxh", "WNode", "WNext", "WLink", "WRet", "RStart", "RNext", "RFind", "RDone"]
    ctx.mc("SkipListMC", subst={"WeakMem": "FALSE", "N": 3 if ctx.quick else 4, "H": 2, "MaxOps": 2}, must_cover=must)

def seq(ctx):
    model(ctx)
    exe = ctx.build("skip_seq", ["skip_seq.cc"], "asan")
    n, ops, large = (60, 350, 20000) if ctx.quick else (600, 600, 60000)
    t = ctx.drive(exe, [ctx.seed, n, ops, large])
    ctx.validate("SkipTrace", t, what="random and bulk programs over four key types and orders, several iterators")

CHECKS = {"C05": seq}
