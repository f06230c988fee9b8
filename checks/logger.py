import conc

STDIO = ("fwrite", "fwrite_unlocked", "fflush", "fputs", "fputc", "putc", "vfprintf", "fprintf", "__vfprintf_chk", "__fprintf_chk",
         "write", "writev", "flockfile", "funlockfile", "ftrylockfile")

def run(ctx):
    q = ctx.quick
    ctx.mc("LoggerMC", must_cover=["Begin", "Format", "Fits", "Write", "Flushing"], subst={"MaxLen": 3, "Small": 4} if q else {}, timeout=3000)
    if not q:
        ctx.mc("LoggerMC", subst={"Threads": "{1, 2, 3}", "Calls": 1}, timeout=3000)
    for sub, inv in (({"Again": '"over"'}, "NotMixed"), ({"Again": '"never"'}, "NotMixed"), ({"Extra": 0}, "NotMixed"),
                     ({"Pieces": 2}, "NotMixed"), ({"Flush": "FALSE"}, "OnFile"), ({"Append_": "FALSE"}, "NotMixed")):
        ctx.mc_must_fail("LoggerMC", inv, subst=sub)
    exe = ctx.build("log_seq", ["log_seq.cc"], "asan")
    for part, tz in enumerate(("UTC", "XXX-05:45", "YYY+07:30") if q else ("UTC", "XXX-05:45", "YYY+07:30", "ZZZ-14:00", "AAA+11:59", "BBB-00:01")):
        t = ctx.drive(exe, [ctx.seed + part, part, 0 if q else 1], env={"TZ": tz})
        ctx.validate("LogTrace", t, what="all message lengths, forms, dates; several loggers (time zone %s)" % tz, chunk=2500)
    conc.controlled(ctx, "conc_log", "conc_log.cc", "LogTrace", 60 if q else 600, 60 if q else 2000, 8 if q else 200, extra_wraps=STDIO,
                    instrument=False, what="concurrent log calls", env={"TZ": "XXX-05:45"})

CHECKS = {"C19": run}
