"""A copy of /repo/llrl0 whose std, rayon and crossbeam-channel are the ones of rust/mcp, and the engine that links it."""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from mc.common import BUILD, REPO, VERIF, cargo, run

DST = os.path.join(BUILD, "llrl-mc")
SHIM = os.path.join(VERIF, "rust", "mcp")


def put(path, text):
    """Writes a file only when it differs, so that cargo rebuilds what has changed"""
    if os.path.exists(path) and open(path, "rb").read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(text)


def generate():
    src = os.path.join(REPO, "llrl0", "src")
    seen = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.relpath(p, src)
            if q.split(os.sep)[0] == "tests" or q in ("tests.rs", "main.rs"):
                continue
            t = open(p, "rb").read()
            if q == "lib.rs":
                # after inner attributes and comments, which have to come first
                lines = t.decode().split("\n")
                k = 0
                while k < len(lines) and (lines[k].startswith("#![") or lines[k].startswith("//!") or not lines[k].strip()):
                    k += 1
                t = "\n".join(lines[:k] + ["extern crate mcstd as std;"] + lines[k:]).encode()
            put(os.path.join(DST, "src", q), t)
            seen.add(q)
    for d, _, fs in os.walk(os.path.join(DST, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, os.path.join(DST, "src")) not in seen:
                os.remove(p)
    t = open(os.path.join(REPO, "llrl0", "Cargo.toml")).read()
    t = re.sub(r'path\s*=\s*"\.\./', 'path = "%s/' % REPO, t)
    for name in ("rayon", "crossbeam-channel"):
        t = re.sub(r'(?m)^%s\s*=.*$' % name, '%s = {path = "%s/%s"}' % (name, SHIM, name), t)
    t = re.sub(r'(?m)^\[dependencies\]$', '[dependencies]\nmcstd = {path = "%s/mcstd"}' % SHIM, t)
    t = re.sub(r'(?m)^default\s*=.*$', 'default = ["chibi-backend"]', t)
    t = re.sub(r'(?m)^(llvm-backend\s*=).*$', r'\1 []', t)
    t = re.sub(r'(?m)^llvm0\s*=.*$', '', t)
    put(os.path.join(DST, "Cargo.toml"), t.encode())


def engine():
    generate()
    target = os.path.join(BUILD, "engine-mcp")
    cargo(os.path.join(SHIM, "Cargo.toml"), ["--release", "--locked", "-p", "mcp"], target)
    return os.path.join(target, "release", "mcp")


def explore(ctx, prop, seeds):
    """Runs the engine on 8 processes; seeds choose the iteration orders of hash maps."""
    exe = engine()
    so = ctx.shared(["mcrand.c"])
    tier = "thorough" if ctx.thorough else "quick"
    total = [0] * 5

    def one(job):
        seed, k = job
        d = os.path.join(ctx.work, "w%d-%d" % job)
        os.makedirs(d)
        rep = os.path.join(d, "report")
        r = run([exe, prop, tier, rep, str(k), "8", d], cwd=d, env={"LD_PRELOAD": so, "MC_HASH": str(seed)}, timeout=850 if not ctx.thorough else 7000, mem_gb=0)
        return job, rep, r

    with ThreadPoolExecutor(8) as ex:
        for job, rep, r in ex.map(one, [(s, k) for s in seeds for k in range(8)]):
            ctx.absorb(rep)
            f = r.out.split()
            if not r.ok or len(f) != 5:
                ctx.violation("engine/%d/%d" % job, "the exploration of part %d does not end properly: %s" % (job[1], r.describe()), {"seed": job[0], "part": job[1]})
                continue
            total = [a + int(b) for a, b in zip(total, f)]
    configs, executions, steps, diverged, cut = total
    ctx.log("%d configurations, %d executions, %d steps, %d diverged, %d cut" % tuple(total))
    ctx.part("schedules of the real code", configurations=configs, states=executions, transitions=steps, executions_not_repeated_exactly=diverged, configurations_cut_at_the_limit=cut, traces_validated_against_impl=executions)
