import vp

def run(ctx):
    q = ctx.quick
    ctx.mc("InheritMC", must_cover=["Open", "Close", "Start"], subst={} if q else {"Threads": "{1, 2, 3, 4}", "Marking": "{1, 2, 3, 4}", "Fds": "{3, 4, 5, 6}"})
    for sub in ({"Mark": '"later"'}, {"Mark": '"never"'}, {"Marking": "{1, 2}"}):
        ctx.mc_must_fail("InheritMC", "NoneInherited", subst=sub)
    exe = ctx.build("inherit", ["inherit.cc"], "plain", wraps=vp.FAULT_WRAPS)
    for fd, mm in ((1, 1), (0, 0), (5, 100)):
        t = ctx.drive(exe, [ctx.seed * 10 + fd, 12 if q else 200, 60 if q else 150, fd, mm])
        ctx.validate("InheritTrace", t, what="descriptor tables and started programs; limits %d/%d" % (fd, mm))

CHECKS = {"C29": run}
