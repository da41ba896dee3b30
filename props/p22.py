import os, re, struct
from concurrent.futures import ThreadPoolExecutor
from mc.common import VERIF, run
from props import p13

LEVEL = "exhaustive"
INTS = ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"]
FLOATS = ["F32", "F64"]
PRE = '''(import "std/integer" _)
(import "std/float" _)
(import "std/memory" _)
(c-function p22/text {(-> String U64)} "p22_text")
(c-function p22/str {(-> String)} "p22_str")
(c-function p22/radix {(-> U8)} "p22_radix")
(c-function p22/buf {(-> (Ptr U8))} "p22_buf")
(c-function p22/parsed {(-> U64 U64)} "p22_parsed")
(c-function p22/value {(-> String U64)} "p22_value")
(c-function p22/printed {(-> String U64)} "p22_printed")
(c-function p22/keep {(-> U64)} "p22_keep")
(c-function p22/again {(-> U64 U64)} "p22_again")
(c-function p22/lit {(-> String String U64 U64)} "p22_lit")
(c-function p22/done {(-> U64)} "p22_done")
'''


def program(parts):
    s = [PRE]
    for ty in INTS + FLOATS:
        i = ty in INTS
        cell = "(annotate (ptr/cast (p22/buf)) (Ptr %s))" % ty
        parse = "(integer/from-string? (p22/radix) %s)" if i else "(float/from-string? %s)"
        show = "(integer/to-string (p22/radix) (ptr/load %s))" % cell if i else "(float/to-string (ptr/load %s))" % cell
        s.append("(function (parse-%s s) {(-> String U64)} (match (annotate %s (Option %s)) [(some (let v)) (ptr/store! v %s) 1] [none 0]))" % (ty, parse % "s", ty, cell))
        s.append('(function (all-%s) {(-> unit)}' % ty)
        if "parse" in parts:
            s.append('  (while (eq? (p22/text "%s") 1) (ignore (p22/parsed (parse-%s (p22/str)))))' % (ty, ty))
        if "print" in parts:
            s.append('  (while (eq? (p22/value "%s") 1) (let ([s %s]) (p22/printed s) (p22/keep) (ignore (p22/again (parse-%s s)))))' % (ty, show, ty))
        if "display" in parts:
            # the text shown to users is the decimal one
            s.append('  (while (eq? (p22/value "%s") 1) (when (eq? (p22/radix) 10) (ignore (p22/printed (string (ptr/load %s))))))' % (ty, cell))
        s.append("  unit)")
        s.append("(all-%s)" % ty)
    s.append("(p22/done)")
    return "\n".join(s) + "\n"


def f32(x):
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return None


def f64(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def literals():
    """[(type, text, bits)]"""
    for ty in INTS:
        n = int(ty[1:])
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty[0] == "I" else (0, (1 << n) - 1)
        vs = {lo + d for d in range(3)} | {hi - d for d in range(3)} | set(range(-3 if lo else 0, 12)) | {hi // 2, hi // 2 + 1, hi // 3}
        for k in range(n):
            for d in (-1, 0, 1):
                for sg in (1, -1):
                    vs.add(sg * ((1 << k) + d))
        for v in sorted(vs):
            if lo <= v <= hi:
                yield ty, str(v), v & (1 << n) - 1
                if abs(v) < 200:
                    yield ty, ("-" if v < 0 else "") + "00" + str(abs(v)), v & (1 << n) - 1
                    if v >= 0:
                        yield ty, "+" + str(v), v
        if lo:
            yield ty, "-0", 0
    texts = ["0.0", "-0.0", "1.0", "-1.0", "0.1", "0.2", "0.3", "2.5", "-2.5", "100.25", "1e10", "1E10", "1e+10", "1e-10", "-1e-10", "16777217.0", "16777216.0", "33554433.0", "123456789.0", "9007199254740993.0", "9007199254740991.0", "4.9406564584124654e-324", "5e-324", "2.2250738585072011e-308",
             "2.2250738585072014e-308", "1.7976931348623157e308", "1e-40", "1e-45", "1.4e-45", "3.4028234e38", "3.4028235e38", "1.17549435e-38", "0.30000000000000004", "1.0000000000000002", "123456789012345678901234567890.0", "3.14159265358979323846", "00.5", "1.50", "0.1e1", "10e-1", "1e22", "1e23", "8.5e15"]
    texts += ["%d.%d" % (a, b) for a in range(-2, 12) for b in (0, 5, 25, 125, 1, 33)] + ["%de%d" % (m, e) for m in (1, 9, 123) for e in range(-30, 31, 3)]
    texts += [str(v) for k in range(0, 64, 3) for v in ((1 << k) - 1, 1 << k, -(1 << k), (1 << k) + 1) if v < 1 << 63]
    for t in texts:
        x = float(t) if "." in t or "e" in t or "E" in t else float(int(t))
        yield "F64", t, f64(x)
        if len(t) < 9 and f32(x) is not None:
            yield "F32", t, f32(x)


def literal_program(lits):
    s, fns = [PRE], 0
    for j in range(0, len(lits), 100):
        s.append("(function (f%d) {(-> unit)}" % fns)
        for ty, t, b in lits[j:j + 100]:
            s.append('  (ptr/store! (annotate %s %s) (ptr/cast (p22/buf))) (p22/lit "%s" "%s" %d)' % (t, ty, ty, t, b))
        s.append("  unit)\n(f%d)" % fns)
        fns += 1
    s.append("(p22/done)")
    return "\n".join(s) + "\n"


def check(ctx):
    llrl0, so = ctx.llrl0(), ctx.shared(["p22.c"])
    c = os.path.join(VERIF, "llrl", "p22.c")
    lits = list(literals())
    deep = {"P22_DEEP": "1"} if ctx.thorough else {}
    jobs = []
    for b, o in (("chibi", 0), ("llvm", 0), ("llvm", 1)):
        for part in ("parse", "print", "display"):
            if part == "display" and o:
                continue
            jobs.append(("%s on %s%s" % (part, b, " -O" if o else ""), program([part]), b, o))
        if not (b == "llvm" and o == 0) or ctx.thorough:
            for k in range(4):
                jobs.append(("literals %d on %s%s" % (k, b, " -O" if o else ""), literal_program(lits[k::4]), b, o))

    def one(job):
        name, text, b, o = job
        d = os.path.join(ctx.work, "p22-" + name.replace(" ", "-"))
        os.makedirs(d)
        open(os.path.join(d, "main.llrl"), "w").write(text)
        out = os.path.join(d, "out")
        exe = os.path.join(d, "main.exe")
        r = run([llrl0, "-b" + b] + ["-O"] * o + ["-c" + c, "-c-lm", "-o", exe, "main"], cwd=d, timeout=700, mem_gb=0, env={"LD_PRELOAD": so})
        if r.ok:
            r = run([exe], cwd=d, timeout=800 if not ctx.thorough else 6000, mem_gb=0, env=dict({"P22_OUT": out}, **deep))
        return name, r, out

    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, jobs))
    for name, r, out in results:
        txt = open(out, errors="replace").read() if os.path.exists(out) else ""
        m = re.search(r"^total (\d+) bad (\d+)$", txt, re.M)
        for l in txt.split("\n"):
            if "/" in l and not l.startswith("total"):
                ctx.violation(l.split(" value ")[0] + "/" + name, "%s: %s" % (name, l), {"case": l, "where": name})
        if not r.ok or not m:
            ctx.violation("run/" + name, "the program does not compile or run (%s): %s" % (name, r.describe()), {"where": name})
            continue
        ctx.part(name, states=int(m[1]), transitions=int(m[1]), traces_validated_against_impl=int(m[1]))
    ctx.log("texts, values and literals done")
    p13.operations(ctx, [i for i, row in enumerate(p13.TAB) if row[0] == "conv"], 2)
    ctx.assumptions.append("the C library's strtod and strtof; texts of floating point numbers with leading zeros, a leading plus, hexadecimal digits, no digit before or after the point may be accepted or refused, but not with another value")
