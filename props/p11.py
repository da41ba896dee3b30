import os
LEVEL = "exhaustive"

def check(ctx):
    ctx.run_engine(ctx.engine("mcx"), "p11", [])
    progs = []
    for i in range(8):
        p = os.path.join(ctx.work, "run%d." % i)
        if os.path.exists(p + "llrl"):
            progs.append((str(i), open(p + "llrl").read(), open(p + "expect").read().split("\n")[:-1]))
    n = ctx.run_lines("run", progs)
    ctx.part("method calls of running programs", traces_validated_against_impl=n)
