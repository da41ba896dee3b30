import os
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from mc.common import run, VERIF
from mc import p12gen as G

LEVEL = "exhaustive"
DEPTH = 4
# name: (type, the value made from the number n, [numbers the parts of the value v stand for], pattern for v)
TYPES = {
    "i64": ("I64", "n", ["v"], "(let v)"),
    "i8": ("I8", "(conv n)", ["(conv v)"], "(let v)"),
    "f64": ("F64", "(conv n)", ["(conv v)"], "(let v)"),
    "f32": ("F32", "(conv n)", ["(conv v)"], "(let v)"),
    "s24": ("(: I64 I64 I64)", "(: n (add n 1) (add n 2))", ["v", "(sub w 1)", "(sub z 2)"], "(: (let v) (let w) (let z))"),
    "s16": ("(: I64 F64)", "(: n (conv n))", ["v", "(conv w)"], "(: (let v) (let w))"),
    "s4": ("(: I8 I16)", "(: (conv n) (conv (add n 1000)))", ["(conv v)", "(sub (conv w) 1000)"], "(: (let v) (let w))"),
    "s40": ("(: I8 I64 I16 (: F32 F32 F32))", "(: (conv n) n (conv (mul n 100)) (: (conv n) (conv (mul n 7)) (conv n)))",
            ["(conv v)", "w", "(div (conv z) 100)", "(conv x)", "(div (conv y) 7)", "(conv u)"], "(: (let v) (let w) (let z) (: (let x) (let y) (let u)))"),
    "ref": ("(: (Ref I64) I64)", "(: (ref n) n)", ["(ptr/load (ref/ptr v))", "w"], "(: (let v) (let w))"),
    "data": ("D", "(if (lt? n 50) (d1 (conv n) n) (d2 n))", None, None),
    "vdata": ("E", "(if (lt? n 50) (e1 (conv n) n) (e2 n n n))", None, None),
    "fun": ("(-> I64 I64)", "(lambda (m) (add m n))", ["(sub (v 5) 5)", "(v 0)"], "(let v)"),
}
READ = {
    "data": "(match a [(d1 (let x) (let y)) (c/same (conv x) y)] [(d2 (let x)) (c/same x x)])",
    "vdata": "(match a [(e1 (let x) (let y)) (c/same (conv x) y)] [(e2 (let x) (let y) (let z)) (c/same (c/same x y) z)])",
}


def pre(v):
    ty, mk, parts, pat = TYPES[v]
    if parts:
        rd = parts[0]
        for p in parts[1:] or parts:
            rd = "(c/same %s %s)" % (rd, p)
        rd = "(match a [%s %s])" % (pat, rd)
    else:
        rd = READ[v]
    return """(import "std/memory" _)
(import "std/ref" _)
(import "std/conv" conv)
(import "std/arithmetic" add sub mul div)
(import "std/ord" lt?)
(import "std/bool" not)
(import "std/control" lambda)
(data D (d1 I16 I64) (d2 I64))
(value-data E (e1 I16 I64) (e2 I64 I64 I64))
(c-function p12/next {(-> U64 Bool)} "p12_next")
(c-function p12/done {(-> unit)} "p12_done")
(c-function b {(-> U64 Bool)} "p12_b")
(c-function c/t {(-> U64 I64)} "p12_t")
(c-function c/h {(-> I64 I64 I64)} "p12_h")
(c-function c/arg {(-> I64)} "p12_arg")
(c-function c/result {(-> I64 unit)} "p12_result")
(c-function c/same {(-> I64 I64 I64)} "p12_same")
(function (mk n) {(-> I64 V)} MK)
(function (rd a) {(-> V I64)} RD)
(function (t k) {(-> U64 V)} (mk (c/t k)))
(function (h x y) {(-> V V V)} (mk (c/h (rd x) (rd y))))
(function (p x y) {(-> V V V)} (h y x))
(function (ap g x) {(-> (-> V V) V V)} (g x))
(function (pick k) {(-> U64 (-> V V V))} (c/t k) p)
""".replace("MK", mk).replace("RD", rd).replace(" V", " " + ty).replace("(V", "(" + ty)


def src(cases, v):
    """A module whose top level runs every case; cases is [(id, labelled expression)]"""
    ty = TYPES[v][0]
    s = [pre(v)]
    for i, e in cases:
        s.append("(function (f%d a) {(-> %s %s)} %s)" % (i, ty, ty, G.text(e, ["a"], [], [], ty)))
        s.append("(function (r%d) {(-> unit)} (while (p12/next %d) (c/result (rd (f%d (mk (c/arg)))))))" % (i, i, i))
    for j in range(0, len(cases), 50):
        s.append("(function (all%d) {(-> unit)} %s)" % (j, " ".join("(r%d)" % i for i, _ in cases[j:j + 50])))
    return "\n".join(s) + "\n", " ".join("(all%d)" % j for j in range(0, len(cases), 50)) + " (p12/done)\n"


def expected(es):
    out = []
    for e in es:
        l = G.label(e, 1)[0]
        r = G.runs(l, DEPTH)
        out.append((l, r and (G.digest(r), len(r))))
    return out


def check(ctx):
    deep = 1 if ctx.thorough else 0
    byn = {n: G.vexprs(n, 1, 0, 0) for n in range(1, 7 + deep)}
    upto = lambda n: [e for k in byn if k <= n for e in byn[k]]
    sk0 = [e for s in G.SKELETONS for e in G.fill_one(s, None)]
    # every program, the ones for which the representation of values is varied on chibi, and the same for llvm
    allv = list(dict.fromkeys(upto(6 + deep) + G.skeletons(100000 if deep else 400)))
    mid = set(upto(5) + (G.skeletons(400) if deep else sk0))
    small = set(upto(5 if deep else 4) + sk0)
    wide = set(allv if deep else upto(5) + G.skeletons(400))
    ctx.llrl0()
    so = ctx.shared(["p12.c"])
    with ProcessPoolExecutor(8) as ex:
        step = max(1, len(allv) // 64)
        exp = [x for l in ex.map(expected, [allv[i:i + step] for i in range(0, len(allv), step)]) for x in l]
    left_out = sum(1 for _, d in exp if d is None)
    exp = [(i, l, d) for i, (l, d) in enumerate(exp) if d]
    mid = [x for x in exp if allv[x[0]] in mid]
    few = [x for x in exp if allv[x[0]] in small]
    wide = [x for x in exp if allv[x[0]] in wide]
    plan = []
    for backend, opt in [("chibi", False), ("llvm", False), ("llvm", True)]:
        for v in TYPES:
            plan.append((v, backend, opt, "exe", exp if v == "i64" and backend == "chibi" else wide if v == "i64" and opt else mid if backend == "chibi" else few))
    plan.append(("i64", "chibi", False, "run", few))
    plan.append(("i64", "llvm", True, "run", few))
    plan.append(("s24", "chibi", False, "macro", few))
    plan.append(("s24", "llvm", False, "macro", few))
    jobs = []
    for v, backend, opt, mode, cases in plan:
        k = max(1, len(cases) // 1400)
        for part in range(k):
            jobs.append((v, backend, opt, mode, cases[part::k], part))
    jobs.sort(key=lambda j: (j[1] == "chibi", -len(j[4])))

    def one(job):
        v, backend, opt, mode, cases, part = job
        name = "%s-%s%s-%s" % (v, backend, "-O" if opt else "", mode)
        d = os.path.join(ctx.work, "%s-%d" % (name, part))
        os.makedirs(d)
        defs, top = src([(i, l) for i, l, _ in cases], v)
        if mode == "macro":
            open(os.path.join(d, "mac.llrl"), "w").write("(export m)\n" + defs + "(macro (m s) %s (ok `unit))\n" % top)
            open(os.path.join(d, "main.llrl"), "w").write('(import "~/mac" m)\n(m)\n')
        else:
            open(os.path.join(d, "main.llrl"), "w").write(defs + top)
        out, exe = os.path.join(d, "out"), os.path.join(d, "main.exe")
        env = {"LD_PRELOAD": so, "P12_OUT": out, "P12_DEPTH": str(DEPTH)}
        cmd = [ctx.llrl0(), "-b" + backend] + (["-O"] if opt else []) + ["-c" + os.path.join(VERIF, "llrl", "p12.c")]
        r = run(cmd + (["-r", "main"] if mode == "run" else ["-o", exe, "main"]), cwd=d, timeout=800, mem_gb=0, env=env)
        if r.ok and mode == "exe":
            r = run([exe], cwd=d, timeout=60, mem_gb=0, env={"P12_OUT": out, "P12_DEPTH": str(DEPTH)})
        lines = open(out).read().split("\n") if os.path.exists(out) else []
        bad = []
        for n, (i, l, (dg, nr)) in enumerate(cases):
            want = "%d %x %d" % (i, dg, nr)
            got = lines[n] if n < len(lines) else ""
            if got != want:
                bad.append((i, l, want, got or "nothing: " + r.describe()))
                if len(bad) >= 20 or not got:
                    break
        if not bad and (not r.ok or lines[len(cases):] != ["done", ""]):
            bad.append((None, None, "a clean end", r.describe()))
        if os.path.exists(exe):
            os.remove(exe)
        return name, len(cases), sum(x[2][1] for x in cases), bad, defs

    done = {}
    with ThreadPoolExecutor(8) as ex:
        for name, n, k, bad, defs in ex.map(one, jobs):
            a = done.setdefault(name, [0, 0])
            a[0] += n
            a[1] += k
            for i, l, want, got in bad[:6]:
                if l is None:
                    ctx.violation("run/" + name, "a program of %s does not compile or end: %s" % (name, got), {"where": name})
                    continue
                t = G.text(l, ["a"], [], [], TYPES[name.split("-")[0]][0])
                ctx.violation("%d/%s" % (i, name), "%s: %s behaves differently from its meaning (%s instead of %s)" % (name, t, got, want),
                              {"program": pre(name.split("-")[0]) + "(function (f a) %s)" % t, "runs": [[tp, ev] for tp, ev in G.runs(l, DEPTH)][:4], "where": name})
    for name, (n, k) in done.items():
        ctx.part(name, states=n, transitions=k, traces_validated_against_impl=k)
    ctx.count(programs_that_do_not_end_left_out=left_out)
    ctx.sample({"program": G.text(exp[-1][1], ["a"], [], [], "I64"), "runs": [[tp, ev] for tp, ev in G.runs(exp[-1][1], DEPTH)][:3]})
