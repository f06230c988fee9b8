from variants import rejected

def run(ctx):
    ctx.mc("ArenaMC", subst={"MaxAlloc": 5 if ctx.quick else 6}, must_cover=["Init"])
    rejected(ctx, "ArenaMC")
    exe = ctx.build("arena_seq", ["arena_seq.cc"], "plain", wraps=["malloc", "calloc", "realloc", "free"])
    t = ctx.drive(exe, [ctx.seed, 60 if ctx.quick else 600, 400 if ctx.quick else 1000])
    ctx.validate("ArenaTrace", t, "PtrSize = 8", what="random allocation programs with sizes around every boundary")
    t = ctx.drive(exe, [ctx.seed, 14 if ctx.quick else 70, 40, "huge"], mem=22, timeout=600)
    ctx.validate("ArenaTrace", t, "PtrSize = 1", what="allocations beyond 31 and 32 bits, in units of 8 bytes")

CHECKS = {"C07": run}
