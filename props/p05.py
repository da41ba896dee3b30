import os
from concurrent.futures import ThreadPoolExecutor
from mc import llrlmc
from mc.common import run

LEVEL = "exhaustive"


def dags(n):
    slots = [(i, j) for i in range(n) for j in range(i)]
    for m in range(1 << len(slots)):
        g = [[] for _ in range(n)]
        for k, (i, j) in enumerate(slots):
            if m >> k & 1:
                g[i].append(j)
        yield g


def reach(g, e):
    r, todo = set(), list(e)
    while todo:
        i = todo.pop()
        if i not in r:
            r.add(i)
            todo += g[i]
    return r


def module(i, deps, order):
    s = "(no-implicit-std)\n(import \"builtin\" _)\n"
    for d in (deps if order else reversed(deps)):
        s += "(import \"~/m%d\" f%d)\n" % (d, d)
    s += "(export f%d)\n(c-function put {(-> I32 I32)} \"putchar\")\n" % i
    e = "x"
    for d in deps:
        e = "(f%d %s)" % (d, e)
    s += "(put %d)\n(function (f%d x) {(-> I32 I32)} %s)\n(put (f%d %d))\n" % (65 + 2 * i, i, e, i, 66 + 2 * i)
    return s


def real(ctx):
    exe = ctx.llrl0()
    jobs = []
    for n in (1, 2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5):
        for g in dags(n):
            if len(reach(g, [n - 1])) < n:
                continue
            for order in (0, 1):
                for b in ("chibi",) if n == 5 else ("chibi", "llvm"):
                    jobs.append((g, order, b, ["-O"] if order else []))

    def one(k):
        g, order, b, o = jobs[k]
        n = len(g)
        d = os.path.join(ctx.work, "g%d" % k)
        os.makedirs(d)
        for i in range(n):
            open(os.path.join(d, "m%d.llrl" % i), "w").write(module(i, g[i], order))
        r = run([exe, "-b" + b] + o + ["-o", "out", "m%d" % (n - 1)], cwd=d, timeout=60)
        if not r.ok:
            return "does not compile: " + r.describe()
        r = run([os.path.join(d, "out")], cwd=d, timeout=20)
        os.remove(os.path.join(d, "out"))
        if not r.ok:
            return "does not run: " + r.describe()
        t = r.out.decode() if isinstance(r.out, bytes) else r.out
        if sorted(t) != [chr(65 + k) for k in range(2 * n)]:
            return "executes the top level expressions %r" % t
        for i in range(n):
            if t.index(chr(65 + 2 * i)) > t.index(chr(66 + 2 * i)):
                return "executes the expressions of m%d out of order: %s" % (i, t)
            for x in g[i]:
                if t.index(chr(66 + 2 * x)) > t.index(chr(65 + 2 * i)):
                    return "executes m%d before m%d, which it imports: %s" % (i, x, t)

    with ThreadPoolExecutor(8) as ex:
        for (g, order, b, o), e in zip(jobs, ex.map(one, range(len(jobs)))):
            if e:
                ctx.violation("run/%s/%d/%s" % (g, order, b), "a program with imports %s (%s %s) %s" % (g, b, " ".join(o), e), {"imports": g, "modules": [module(i, g[i], order) for i in range(len(g))], "backend": b})
    ctx.part("programs executed", states=len(jobs), transitions=2 * sum(len(j[0]) for j in jobs), traces_validated_against_impl=len(jobs))


def check(ctx):
    llrlmc.explore(ctx, "p05", [1, 2] if ctx.thorough else [1])
    real(ctx)
    ctx.assumptions.append("sequentially consistent memory; the backend of the explored schedules is a recorder")
