import itertools, os
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from mc.common import run, VERIF

LEVEL = "exhaustive"
M64 = (1 << 64) - 1

# Types: name -> (llrl type, ("lit", [(text, event)], encoder) or ("con", [(constructor, [field types])]))
T = {
    "Bool": ("Bool", "lit", [("#f", 0), ("#t", 1)], "(e (if v 1 0))"),
    "I8": ("I8", "lit", [("0", 0), ("-128", 128), ("127", 127), ("-1", 255)], "(e (conv (reinterpret v){U8}))"),
    "I32": ("I32", "lit", [("0", 0), ("-1", M64), ("2147483647", 2147483647), ("-2147483648", M64 + 1 - (1 << 31))], "(e (conv v))"),
    "U64": ("U64", "lit", [("0", 0), ("18446744073709551615", M64), ("9223372036854775808", 1 << 63), ("4294967296", 1 << 32)], "(e v)"),
    "I64": ("I64", "lit", [("0", 0), ("-1", M64), ("4294967295", (1 << 32) - 1), ("-4294967296", M64 + 1 - (1 << 32))], "(e (conv v))"),
    "U16": ("U16", "lit", [("0", 0), ("65535", 65535), ("256", 256)], "(e (conv v))"),
    "F64": ("F64", "lit", [("1.5", 0x3ff8000000000000), ("-1.5", 0xbff8000000000000), ("0.0", 0, "0"), ("3.0", 0x4008000000000000, "3"), ("-2", 0xc000000000000000, "-2.0")], "(e (reinterpret v))"),
    "F32": ("F32", "lit", [("1.5", 0x3fc00000), ("-7", 0xc0e00000), ("0.0", 0, "0")], "(e (conv (reinterpret v){U32}))"),
    "Char": ("Char", "lit", [("#\\a", 97), ("#\\b", 98), ("#\\話", 0x8a71)], "(e (conv (reinterpret v){U32}))"),
    "String": ("String", "lit", [('""', ()), ('"a"', (97,)), ('"ab"', (97, 98)), ('"b"', (98,))], "(p10/s v)"),
    "unit": ("unit", "lit", [("unit", 0)], "(e 0)"),
    "D3": ("D3", "con", [("a3", []), ("b3", []), ("c3", [])]),
    "V3": ("V3", "con", [("va3", []), ("vb3", []), ("vc3", [])]),
    "V1": ("V1", "con", [("only1", ["I8"])]),
    "O": ("O", "con", [("osome", ["Bool"]), ("onone", [])]),
    "VO": ("VO", "con", [("vsome", ["Bool"]), ("vnone", [])]),
    "GO": ("(G I32)", "con", [("gsome", ["I32"]), ("gnone", [])]),
    "GV": ("(H (: I8 F64))", "con", [("hnone", []), ("hsome", ["T8F"])]),
    "X": ("X", "con", [("x1", ["I8", "I64"]), ("x2", ["F32"]), ("x3", [])]),
    "VX": ("VX", "con", [("vx1", ["I8", "I64"]), ("vx2", ["F32"]), ("vx3", [])]),
    "L": ("L", "con", [("lnil", []), ("lcons", ["Bool", "L"])]),
    "W": ("W", "con", [("w1", ["VO", "V3"]), ("w2", ["TBVO"]), ("w3", [])]),
    "T8F": ("(: I8 F64)", "con", [(":", ["I8", "F64"])]),
    "TBVO": ("(: Bool VO)", "con", [(":", ["Bool", "VO"])]),
    "TBD": ("(: Bool D3)", "con", [(":", ["Bool", "D3"])]),
    "TBV": ("(: Bool V3)", "con", [(":", ["Bool", "V3"])]),
    "TBBB": ("(: Bool Bool Bool)", "con", [(":", ["Bool", "Bool", "Bool"])]),
    "TOO": ("(: O O)", "con", [(":", ["O", "O"])]),
    "TVOVO": ("(: VO VO)", "con", [(":", ["VO", "VO"])]),
    "TFB": ("(: F64 Bool)", "con", [(":", ["F64", "Bool"])]),
    "TIS": ("(: I32 String)", "con", [(":", ["I32", "String"])]),
    "TFC": ("(: F64 Char)", "con", [(":", ["F64", "Char"])]),
    "RB": ("(Ref Bool)", "con", [("ref", ["Bool"])]),
    "RT": ("(Ref (: I8 F64))", "con", [("ref", ["T8F"])]),
    "RR": ("(Ref (Ref Bool))", "con", [("ref", ["RB"])]),
    "PB": ("(Ptr Bool)", "con", [("ptr:null", []), ("ptr:non-null", ["Bool"])]),
}
DECLS = """(data D3 a3 b3 c3)
(value-data V3 va3 vb3 vc3)
(value-data V1 (only1 I8))
(data O (osome Bool) onone)
(value-data VO (vsome Bool) vnone)
(data (G A) (gsome A) gnone)
(value-data (H A) hnone (hsome A))
(data X (x1 I8 I64) (x2 F32) x3)
(value-data VX (vx1 I8 I64) (vx2 F32) vx3)
(data L lnil (lcons Bool L))
(value-data W (w1 VO V3) (w2 (: Bool VO)) w3)
"""
PRE = """(import "std/memory" _)
(import "std/ref" _)
(import "std/conv" conv)

(import "std/eq" eq?)
(c-function p10/next {(-> U64 U64 Bool)} "p10_next")
(c-function p10/cur {(-> U64)} "p10_cur")
(c-function p10/done {(-> unit)} "p10_done")
(c-function p10/s {(-> String unit)} "p10_s")
(c-function e {(-> U64 unit)} "p10_e")
"""


def values(t, depth=2):
    k = T[t]
    if k[1] == "lit":
        return [("lit", i) for i in range(len(k[2]))]
    out = []
    for ci, (c, fs) in enumerate(k[2]):
        if t in fs and depth == 0:
            continue
        for args in itertools.product(*[values(f, depth - 1 if f == t else depth) for f in fs]):
            out.append(("con", ci) + args)
    return out


def vtext(t, v):
    k = T[t]
    if v[0] == "lit":
        return "(annotate %s %s)" % (k[2][v[1]][0], k[0])
    c, fs = k[2][v[1]]
    if c == "ptr:non-null":
        return "(ref/ptr (ref %s))" % vtext(fs[0], v[2])
    return "(annotate (%s %s) %s)" % (c, " ".join(vtext(f, a) for f, a in zip(fs, v[2:])), k[0]) if fs else "(annotate %s %s)" % (c, k[0])


def vevents(t, v):
    k = T[t]
    if v[0] == "lit":
        x = k[2][v[1]][1]
        return [len(x)] + list(x) if isinstance(x, tuple) else [x]
    c, fs = k[2][v[1]]
    out = [50 + v[1]]
    for f, a in zip(fs, v[2:]):
        out += vevents(f, a)
    return out


def matches(p, v, binds):
    """Whether v matches p; the parts bound go to binds in textual order of the variables."""
    if p[0] == "_":
        return True
    if p[0] == "let":
        binds.append((p[1], v))
        return p[2] is None or matches(p[2], v, binds)
    if p[0] == "lit":
        return v[1] == p[1]
    if v[1] != p[1]:
        return False
    for q, a in zip(p[2:], v[2:]):
        if not matches(q, a, binds):
            return False
    return True


def ptext(t, p, names):
    k = T[t]
    if p[0] == "_":
        return "_"
    if p[0] == "let":
        n = "x%d" % len(names)
        names.append((n, t))
        return "(let %s)" % n if p[2] is None else "(let %s %s)" % (n, ptext(t, p[2], names))
    if p[0] == "lit":
        return k[2][p[1]][2 if len(p) > 2 else 0]
    c, fs = k[2][p[1]]
    return "(%s %s)" % (c, " ".join(ptext(f, q, names) for f, q in zip(fs, p[2:]))) if fs else c


ANY, LET = ("_",), ("let", None, None)


def P(t, *alts):
    """Patterns from a compact form: "_", "x" (variable), literal index, constructor name with argument alternatives"""
    out = []
    for a in alts:
        if a == "_":
            out.append(ANY)
        elif a == "x":
            out.append(("let", t, None))
        elif isinstance(a, int):
            out.append(("lit", a))
        elif isinstance(a, tuple) and a[0] == "other":
            out.append(("lit", a[1], "spelling"))
        elif a[0] == "as":
            out += [("let", t, q) for q in P(t, *a[1:])]
        else:
            ci = [c for c, _ in T[t][2]].index(a[0])
            fs = T[t][2][ci][1]
            for args in itertools.product(*[P(f, *x) for f, x in zip(fs, a[1:])]):
                out.append(("con", ci) + args)
    return out


def universes(deep):
    """[(type, patterns, most clauses before the final wildcard)]"""
    u = []
    for t in ("Bool", "I8", "I32", "U64", "I64", "U16", "F64", "F32", "Char", "String"):
        n = len(T[t][2])
        u.append((t, P(t, "_", "x", *range(n), *[("other", i) for i in range(n) if len(T[t][2][i]) > 2], ("as", 0)), 3))
    u.append(("unit", P("unit", "_", "x", 0, ("as", 0)), 2))
    u.append(("D3", P("D3", "_", "x", ("a3",), ("b3",), ("c3",), ("as", ("b3",))), 3))
    u.append(("V3", P("V3", "_", "x", ("va3",), ("vb3",), ("vc3",), ("as", ("vb3",))), 4 if deep else 3))
    u.append(("V1", P("V1", "_", "x", ("only1", ["_", "x", 0, 1]), ("as", ("only1", ["x", 2]))), 3))
    for t, s, n in (("O", "osome", "onone"), ("VO", "vsome", "vnone")):
        u.append((t, P(t, "_", "x", (s, ["_", "x", 0, 1]), (n,), ("as", (s, ["x"])), (s, [("as", 1)])), 4 if deep else 3))
    u.append(("GO", P("GO", "_", "x", ("gsome", ["_", "x", 0, 1]), ("gnone",), ("as", ("gsome", ["x"]))), 3))
    u.append(("GV", P("GV", "x", ("hsome", ["_", "x", (":", [0, "x"], ["x", 1]), (":", ["_"], [0])]), ("hnone",), ("as", ("hsome", ["x"]))), 3))
    u.append(("X", P("X", "x", ("x1", ["_", "x", 1], ["_", "x", 1]), ("x2", ["x", 0]), ("x3",)), 3 if deep else 2))
    u.append(("VX", P("VX", "x", ("vx1", ["_", "x", 1], ["_", "x", 1]), ("vx2", ["x", 0]), ("vx3",)), 3))
    u.append(("L", P("L", "x", ("lnil",), ("lcons", ["_", 1], ["_"]), ("lcons", ["x"], ["x"]), ("lcons", ["_"], [("lnil",)]), ("lcons", [0], [("lcons", ["x"], ["_"])]),
                    ("lcons", ["x"], [("lcons", ["x"], [("lnil",)]), ("as", ("lcons", ["x"], ["x"]))])), 4 if deep else 3))
    u.append(("W", P("W", ("w1", ["_", "x", ("vsome", ["x", 1])], ["_", "x", ("vb3",)]), ("w2", ["_", "x", (":", [1], [("vsome", ["x"])]), (":", ["x"], [("vnone",)])]), ("w3",)), 3 if deep else 2))
    u.append(("TBD", P("TBD", "x", (":", ["_", 0, 1], ["_", "x", ("a3",), ("b3",)])), 3))
    u.append(("TBV", P("TBV", "x", (":", ["_", 0, 1], ["_", "x", ("va3",), ("vb3",)])), 3 if deep else 2))
    u.append(("TBBB", P("TBBB", (":", ["_", 0, 1], ["_", 0, 1], ["x", 0, 1])), 3 if deep else 2))
    u.append(("TOO", P("TOO", (":", ["_", "x", ("osome", [1, "x"]), ("onone",)], ["_", "x", ("osome", [1, "x"]), ("onone",)])), 3 if deep else 2))
    u.append(("TVOVO", P("TVOVO", (":", ["_", "x", ("vsome", [1, "x"]), ("vnone",)], ["_", ("vsome", [1, "x"]), ("as", ("vnone",))])), 3 if deep else 2))
    u.append(("TFB", P("TFB", (":", ["_", "x", 2, ("other", 2), 4, ("other", 4)], ["x", 0, 1])), 3 if deep else 2))
    u.append(("TIS", P("TIS", (":", ["_", "x", 0, 1], ["_", "x", 1, 2])), 3 if deep else 2))
    u.append(("TFC", P("TFC", (":", ["_", "x", 0, 1], ["x", 1, 2])), 3 if deep else 2))
    u.append(("RB", P("RB", "_", "x", ("ref", ["_", "x", 0, 1]), ("as", ("ref", ["x"]))), 3))
    u.append(("RT", P("RT", "x", ("ref", ["_", "x", (":", [0, "x"], ["x", 1]), ("as", (":", ["x"], ["_"]))])), 3))
    u.append(("RR", P("RR", "_", ("ref", ["x", ("ref", ["_", "x", 1, 0])]), ("as", ("ref", [("as", ("ref", ["x"]))]))), 3))
    u.append(("PB", P("PB", "_", "x", ("ptr:null",), ("ptr:non-null", ["_", "x", 0, 1]), ("as", ("ptr:non-null", ["x"]))), 3))
    return u


def cases_of(u):
    """Every clause list of the universe whose clauses are all reachable, ended by a wildcard where it is not exhaustive:
    [(type, clauses, digest)]"""
    t, pats, rows = u
    vals = values(t)
    masks = [sum(1 << i for i, v in enumerate(vals) if matches(p, v, [])) for p in pats]
    full = (1 << len(vals)) - 1
    out = []

    def go(seq, left, closed):
        if seq:
            ps = [pats[i] for i in seq]
            if closed:
                out.append((t, ps))
                return
            out.append((t, ps + [ANY]))
        if len(seq) < rows:
            for i, m in enumerate(masks):
                if m & left:
                    new = left & ~m
                    go(seq + [i], new, new == 0 and exhaustive(t, [pats[j] for j in seq + [i]]))
    go([], full, False)
    res = []
    for t, ps in out:
        # a final wildcard that nothing reaches would be rejected
        if ps[-1] is ANY and len(ps) > 1 and exhaustive(t, ps[:-1]):
            continue
        res.append((t, ps, digest(t, ps, vals)))
    return res


def exhaustive(t, ps):
    """Every value matches a clause, literal types being inhabited by one more value than the listed ones."""
    return not useful([t], [[p] for p in ps])


def useful(ts, rows):
    """Whether some vector of values is matched by no row"""
    if not ts:
        return not rows
    rows = [[strip(r[0])] + r[1:] for r in rows]
    t = ts[0]
    k = T[t]
    if k[1] == "lit":
        seen = sorted({r[0][1] for r in rows if r[0][0] == "lit"})
        cands = [("lit", i) for i in seen]
        if not (t in ("Bool", "unit") and len(seen) == len(k[2])):
            cands.append(None)
        return any(useful(ts[1:], [r[1:] for r in rows if r[0][0] == "_" or r[0][:2] == c]) for c in cands)
    heads = {r[0][1] for r in rows if r[0][0] == "con"}
    if not heads:
        return useful(ts[1:], [r[1:] for r in rows])
    for ci, (c, fs) in enumerate(k[2]):
        sub = []
        for r in rows:
            if r[0][0] == "_":
                sub.append([ANY] * len(fs) + r[1:])
            elif r[0][1] == ci:
                sub.append(list(r[0][2:]) + r[1:])
        if useful(list(fs) + ts[1:], sub):
            return True
    return False


def strip(p):
    while p[0] == "let":
        p = ANY if p[2] is None else p[2]
    return p


def fnv(h, v):
    for i in range(8):
        h = ((h ^ (v >> (8 * i) & 255)) * 0x100000001b3) & M64
    return h


def trace(t, ps, v):
    for i, p in enumerate(ps):
        b = []
        if matches(p, v, b):
            ev = [1, 100 + i]
            for j, (ty, x) in enumerate(b):
                ev += [200 + j] + vevents(ty, x)
            return ev
    raise AssertionError((t, ps, v))


def digest(t, ps, vals):
    h = 0xcbf29ce484222325
    for i, v in enumerate(vals):
        h = fnv(h, 7000 + i)
        for e in trace(t, ps, v):
            h = fnv(h, e)
    return h


def prelude():
    s = [PRE + DECLS]
    for n, k in T.items():
        if k[1] == "lit":
            s.append("(function (enc-%s v) {(-> %s unit)} %s)" % (n, k[0], k[3]))
        else:
            cl = []
            for ci, (c, fs) in enumerate(k[2]):
                xs = ["y%d" % i for i in range(len(fs))]
                pat = "(%s %s)" % (c, " ".join("(let %s)" % x for x in xs)) if fs else c
                cl.append("[%s (e %d) %s unit]" % (pat, 50 + ci, " ".join("(enc-%s %s)" % (f, x) for f, x in zip(fs, xs))))
            s.append("(function (enc-%s v) {(-> %s unit)} (match v %s))" % (n, k[0], " ".join(cl)))
        vs = values(n)
        body = vtext(n, vs[-1])
        for i in range(len(vs) - 2, -1, -1):
            body = "(if (eq? i %d) %s %s)" % (i, vtext(n, vs[i]), body)
        s.append("(function (val-%s i) {(-> U64 %s)} %s)" % (n, k[0], body))
    return "\n".join(s) + "\n"


def clause_text(t, ps, how):
    cl = []
    for i, p in enumerate(ps):
        names = []
        pt = ptext(t, p, names)
        body = "(e %d) %s" % (100 + i, " ".join("(e %d) (enc-%s %s)" % (200 + j, ty, n) for j, (n, ty) in enumerate(names)))
        cl.append("[%s %s %s]" % (pt, body, "unit" if how == 0 or i % 2 == 0 else "(return unit)"))
    return " ".join(cl)


def ctext(i, t, ps):
    """the match on its own (even cases) or amid other values on the stack and with some bodies returning (odd ones)"""
    m = "(match (begin (e 1) v) %s)" % clause_text(t, ps, i % 2)
    if i % 2:
        m = "(keep (: i64/seven v) %s)" % m
    return "(function (f%d v) {(-> %s unit)} %s)" % (i, T[t][0], m)


def src(cases):
    s = [prelude(), "(function (keep a b) {(forall A) (-> (: I64 A) unit unit)} b)", "(function i64/seven {I64} 7)"]
    for i, t, ps, _ in cases:
        s.append(ctext(i, t, ps))
        s.append("(function (r%d) {(-> unit)} (while (p10/next %d %d) (f%d (val-%s (p10/cur)))))" % (i, i, len(values(t)), i, t))
    for j in range(0, len(cases), 50):
        s.append("(function (all%d) {(-> unit)} %s)" % (j, " ".join("(r%d)" % i for i, *_ in cases[j:j + 50])))
    return "\n".join(s) + "\n", " ".join("(all%d)" % j for j in range(0, len(cases), 50)) + " (p10/done)\n"


def check(ctx):
    ctx.llrl0()
    so = ctx.shared(["p10.c"])
    us = universes(ctx.thorough)
    with ProcessPoolExecutor(8) as ex:
        cases = [c for l in ex.map(cases_of, us) for c in l]
    cases = [(i,) + c for i, c in enumerate(cases)]
    few = cases[::1] if ctx.thorough else [c for c in cases if len(c[2]) <= 3]
    jobs = []
    for backend, opt, mode, cs in [("llvm", True, "exe", few), ("llvm", False, "exe", [c for c in few if len(c[2]) <= 2] if not ctx.thorough else few), ("chibi", False, "exe", cases),
                                   ("chibi", False, "macro", [c for c in few if len(c[2]) <= 2]), ("llvm", True, "run", [c for c in few if len(c[2]) <= 2])]:
        k = max(1, len(cs) // 1200)
        for part in range(k):
            jobs.append((backend, opt, mode, cs[part::k], part))

    def one(job):
        backend, opt, mode, cs, part = job
        name = "%s%s-%s" % (backend, "-O" if opt else "", mode)
        d = os.path.join(ctx.work, "%s-%d" % (name, part))
        os.makedirs(d)
        defs, top = src(cs)
        if mode == "macro":
            open(os.path.join(d, "mac.llrl"), "w").write("(export m)\n" + defs + "(macro (m s) %s (ok `unit))\n" % top)
            open(os.path.join(d, "main.llrl"), "w").write('(import "~/mac" m)\n(m)\n')
        else:
            open(os.path.join(d, "main.llrl"), "w").write(defs + top)
        out, exe = os.path.join(d, "out"), os.path.join(d, "main.exe")
        cmd = [ctx.llrl0(), "-b" + backend] + (["-O"] if opt else []) + ["-c" + os.path.join(VERIF, "llrl", "p10.c")]
        r = run(cmd + (["-r", "main"] if mode == "run" else ["-o", exe, "main"]), cwd=d, timeout=800, mem_gb=0, env={"LD_PRELOAD": so, "P10_OUT": out})
        if r.ok and mode == "exe":
            r = run([exe], cwd=d, timeout=60, mem_gb=0, env={"P10_OUT": out})
        lines = open(out).read().split("\n") if os.path.exists(out) else []
        bad = []
        for n, (i, t, ps, dg) in enumerate(cs):
            want = "%d %x" % (i, dg)
            got = lines[n] if n < len(lines) else ""
            if got != want:
                bad.append((i, t, ps, got or "nothing: " + r.describe()))
                if len(bad) >= 20 or not got:
                    break
        if not bad and (not r.ok or lines[len(cs):] != ["done", ""]):
            bad.append((None, None, None, r.describe()))
        if os.path.exists(exe):
            os.remove(exe)
        return name, len(cs), sum(len(values(c[1])) for c in cs), bad

    done = {}
    with ThreadPoolExecutor(8) as ex:
        for name, n, k, bad in ex.map(one, jobs):
            a = done.setdefault(name, [0, 0])
            a[0] += n
            a[1] += k
            for i, t, ps, got in bad[:6]:
                if t is None:
                    ctx.violation("run/" + name, "a program of %s does not compile or end: %s" % (name, got), {"where": name})
                    continue
                ctx.violation("%s/%d/%s" % (t, i, name), "%s: a match does not run its first matching clause with its bindings (%s): %s" % (name, got[:300], ctext(i, t, ps)),
                              {"match": ctext(i, t, ps), "type": T[t][0], "expected": [[vtext(t, v), trace(t, ps, v)] for v in values(t)][:20], "where": name})
    for name, (n, k) in done.items():
        ctx.part(name, states=n, transitions=k, traces_validated_against_impl=k)
    ctx.count(universes=len(us))
    i, t, ps, dg = cases[len(cases) // 2]
    ctx.sample({"match": ctext(i, t, ps), "values": [[vtext(t, v), trace(t, ps, v)] for v in values(t)][:4]})
