LEVEL = "exhaustive"

def check(ctx):
    ctx.run_engine(ctx.engine("mcx"), "p07", [])
