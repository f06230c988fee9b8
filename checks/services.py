import vp

def run(ctx):
    q = ctx.quick
    ctx.mc("ServicesMC", must_cover=["Tick", "Ask", "Sleep", "Signal", "Wake", "Return"], subst={} if q else {"MaxTime": 24, "Signals": 4, "Users": "{0, 1, 2, 3}"})
    for sub, inv in (({"Wide": "FALSE"}, "TimeRight"), ({"Again": '"none"'}, "SleptEnough"), ({"Again": '"full"'}, "NotTooLong"), ({"Key": '"mod"'}, "OwnDir")):
        ctx.mc_must_fail("ServicesMC", inv, subst=sub)
    exe = ctx.build("services", ["services.cc"], "asan", wraps=list(vp.FAULT_WRAPS) + ["gettimeofday", "clock_gettime", "time", "geteuid", "getuid"])
    t = ctx.drive(exe, [ctx.seed, 80 if q else 2000])
    ctx.validate("ServicesTrace", t, what="scripted and real clocks, sleeps under signals, test directories of many users")

CHECKS = {"C30": run}
