import os
import common


def check(ctx):
    eng = ctx.engine("mcs")
    exe = ctx.harness("p17")
    if exe:
        ctx.run_engine(eng, "p17", [exe])
    ctx.assumptions += [
        "map states are identified by the comparisons their lookups make (tree shape); deleted slots and allocation addresses are not observable",
        "the reference is Rust's BTreeMap/BTreeSet"]
