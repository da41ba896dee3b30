def check(ctx):
    eng = ctx.engine("mcs")
    exe = ctx.harness("p28", cfiles=("mcio.c", "seed.c"), extra=["-c-Wl,--wrap=llrt_xxh_seed"])
    if exe:
        ctx.run_engine(eng, "p28", [exe])
