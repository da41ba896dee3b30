LEVEL = "exhaustive"

def check(ctx):
    ctx.run_engine(ctx.engine("mca"), "p15", [])
