from mc import llrlmc

LEVEL = "exhaustive"


def check(ctx):
    llrlmc.explore(ctx, "p03", [1, 2, 3] if ctx.thorough else [1])
    ctx.assumptions.append("sequentially consistent memory; the loader's file accesses are not interleaved")
