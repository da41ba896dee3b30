def check(ctx):
    eng = ctx.engine("mcs")
    exe = ctx.harness("p18", cfiles=("mcio.c", "seed.c"), extra=["-c-Wl,--wrap=llrt_xxh_seed"])
    if exe:
        ctx.run_engine(eng, "p18", [exe])
    ctx.assumptions += ["the table state is identified by its iteration order and the iteration orders after inserting each key into a copy"]
