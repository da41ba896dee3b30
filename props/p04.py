from mc import llrlmc

LEVEL = "exhaustive"


def check(ctx):
    llrlmc.explore(ctx, "p04", [1, 2] if ctx.thorough else [1])
    ctx.assumptions.append("sequentially consistent memory")
