def check(ctx):
    eng = ctx.engine("mcs")
    for backend in ("chibi", "llvm"):
        exe = ctx.harness("p20", backend=backend)
        if exe:
            ctx.run_engine(eng, "p20", [exe], variant=backend)
