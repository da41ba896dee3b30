import os, re, struct
from concurrent.futures import ThreadPoolExecutor
from mc.common import run, VERIF

LEVEL = "exhaustive"
INTS = ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"]
FLOATS = ["F32", "F64"]
CONV = []


def table():
    """[(op, type, result type, arity, expression)]"""
    t = []
    for ty in INTS:
        for op in ["add", "sub", "mul", "div", "rem", "bw<<", "bw>>", "bw&", "bw|", "bw^"]:
            t.append((op, ty, ty, 2, "(%s a b)" % op))
        for op in ["bw!", "popcount", "succ", "pred", "abs"] + (["negate"] if ty[0] == "I" else []):
            t.append((op, ty, ty, 1, "(%s a)" % op))
    for ty in FLOATS:
        for op in ["add", "sub", "mul", "div", "rem", "pow"]:
            t.append((op, ty, ty, 2, "(%s a b)" % op))
        for op in ["ceil", "floor", "trunc", "round", "sqrt", "sin", "cos", "exp", "log"]:
            t.append((op, ty, ty, 1, "(%s a)" % op))
    for ty in INTS + FLOATS:
        for op in ["eq?", "lt?", "le?", "gt?", "ge?"]:
            t.append((op, ty, "Bool", 2, "(%s a b)" % op))
        for to in INTS + FLOATS:
            t.append(("conv", ty, to, 1, "(conv a)"))
    for a, b in [("F64", "U64"), ("U64", "F64"), ("F64", "I64"), ("I64", "F64"), ("F32", "U32"), ("U32", "F32"), ("F32", "I32"), ("I32", "F32"), ("I8", "U8"), ("U16", "I16")]:
        t.append(("reinterpret", a, b, 1, "(reinterpret a)"))
    for op in ["eq?", "lt?", "le?", "gt?", "ge?"]:
        t.append((op, "Bool", "Bool", 2, "(%s a b)" % op))
        t.append((op, "Char", "Bool", 2, "(%s a b)" % op))
        t.append((op, "Ptr", "Bool", 2, "(%s a b)" % op))
    t.append(("not", "Bool", "Bool", 1, "(not a)"))
    t.append(("&&", "Bool", "Bool", 2, "(&& a b)"))
    t.append(("||", "Bool", "Bool", 2, "(|| a b)"))
    for ty, n in [("I8", 1), ("I16", 2), ("F32", 4), ("I64", 8), ("(: I8 I16 I8)", 6), ("(: I64 I8)", 16), ("(: I8 I64 F64 I16)", 32)]:
        t.append(("offset", "I64", "n%d" % n, 2, "(ptr/address (ptr/offset a (ptr/from-address b){(Ptr %s)}))" % ty))
    return t


TAB = table()


def ct(ty):
    return {"Bool": "b", "Char": "c", "Ptr": "p"}.get(ty, ty.lower() if ty[0] in "IUF" else ty)


def ll(ty):
    return "(Ptr U16)" if ty == "Ptr" else ty


def header():
    rows = ['  {"%s", "%s", "%s", %d, %d},' % (op, ct(t), ct(r), n == 1, r in INTS and n == 2 or op in ("popcount", "bw!")) for op, t, r, n, _ in TAB]
    return "static const struct { const char *op, *t, *r; int unary, widen; } TABLE[] = {\n" + "\n".join(rows) + "\n};\n"


IMPORTS = """(import "std/memory" _)
(import "std/arithmetic" add sub mul div rem succ pred abs negate)
(import "std/real" _)
(import "std/math" _)
(import "std/bits" _)
(import "std/conv" conv)\n(import "std/bool" not && ||)
(import "std/eq" eq?)
(import "std/ord" lt? le? gt? ge?)
"""
PRE = IMPORTS + """(c-function p13/buf {(forall A) (-> U64 (Ptr A))} "p13_buf")
(c-function p13/next {(-> U64 U64)} "p13_next")
(c-function p13/lit {(-> U64 U64 U64 U64)} "p13_lit")
(c-function p13/done {(-> U64)} "p13_done")
"""
PRE = PRE.replace("(forall A) (-> U64 (Ptr A))", "(-> U64 (Ptr U8))")


def rt(ids):
    """The functions that run operations on operands from memory."""
    s = ["(export p13/run-all p13/lit p13/buf p13/done)", PRE]
    for i in ids:
        op, t, r, n, e = TAB[i]
        res = "U64" if op == "offset" else ll(r)
        binds = "[a (ptr/load (ptr/cast (p13/buf 0)){(Ptr %s)})]" % ll(t)
        if n == 2:
            binds += " [b (ptr/load (ptr/cast (p13/buf 1)){(Ptr %s)})]" % ("U64" if op == "offset" else ll(t))
        store = "(ptr/store! r (ptr/cast (p13/buf 2)){(Ptr %s)})" % res
        if r in INTS and (n == 2 or op in ("popcount", "bw!")):
            w = r[0] + "64"
            store += " (ptr/store! (conv r){%s} (ptr/cast (p13/buf 3)){(Ptr %s)})" % (w, w)
        s.append("(function (op%d) {(-> unit)} (while (eq? (p13/next %d) 1) (let (%s) (let ([r {%s} %s]) %s))))" % (i, i, binds, res, e, store))
    s.append("(function (p13/run-all) {(-> unit)} %s)" % " ".join("(op%d)" % i for i in ids))
    return "\n".join(s) + "\n"


def literals(ty):
    """(text, bits) of boundary literals"""
    if ty in INTS:
        n = int(ty[1:])
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty[0] == "I" else (0, (1 << n) - 1)
        v = {lo, lo + 1, hi - 1, hi, 0, 1, 2, 3, 7, hi // 3} | ({-1, -2, -7} if ty[0] == "I" else {1 << (n - 1), (1 << (n - 1)) - 1})
        return [(str(x), x & ((1 << n) - 1)) for x in sorted(v)]
    out = []
    for x in ["0.0", "-0.0", "1.0", "-1.0", "0.5", "1.5", "2.5", "-2.5", "0.1", "3.75", "100.25", "1e10", "16777217.0", "123456789.0", "-1e-10", "1e-40", "3.4028234e38"]:
        f = float(x)
        out.append((x, struct.unpack("<I", struct.pack("<f", f))[0] if ty == "F32" else struct.unpack("<Q", struct.pack("<d", f))[0]))
    return out


def lit_program(ids):
    s = ['(import "~/p13rt" _)\n' + IMPORTS]
    n = fn = 0
    fns = []
    for i in ids:
        op, t, r, k, e = TAB[i]
        L = literals(t)
        body = []
        for at, av in L:
            for bt, bv in (L if k == 2 else [("", 0)]):
                if op in ("div", "rem") and t in INTS and (int(bt) == 0 or (t[0] == "I" and bt == "-1")):
                    continue
                if op in ("bw<<", "bw>>") and not 0 <= int(bt) < int(t[1:]):
                    continue
                ex = "(%s (annotate %s %s)%s)" % (op, at, t, " (annotate %s %s)" % (bt, t) if k == 2 else "")
                if op == "conv" and r in INTS and t in FLOATS:
                    w = int(r[1:])
                    x = int(float(at)) if t == "F64" else int(struct.unpack("<f", struct.pack("<f", float(at)))[0])
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if r[0] == "I" else (0, (1 << w) - 1)
                    if not lo <= x <= hi:
                        continue
                body.append("(ptr/store! %s (annotate (ptr/cast (p13/buf 2)) (Ptr %s))) (p13/lit %d %d %d)" % (ex, r, i, av, bv))
        for j in range(0, len(body), 100):
            fns.append("(function (f%d) {(-> unit)} %s unit)" % (fn, "\n ".join(body[j:j + 100])))
            fn += 1
        n += len(body)
    s += fns
    s.append(" ".join("(f%d)" % j for j in range(fn)))
    s.append("(p13/done)")
    return "\n".join(s) + "\n", n


def check(ctx):
    operations(ctx, list(range(len(TAB))), 16)


def operations(ctx, ids, step):
    inc = os.path.join(ctx.work, "inc")
    os.makedirs(inc, exist_ok=True)
    open(os.path.join(inc, "p13_table.h"), "w").write(header())
    c = os.path.join(inc, "p13.c")
    open(c, "w").write(open(os.path.join(VERIF, "llrl", "p13.c")).read())
    deep = {"P13_DEEP": "1"} if ctx.thorough else {}
    llrl0, so = ctx.llrl0(), ctx.shared([c])
    src = rt(ids)
    lit_ids = [i for i in ids if TAB[i][0] not in ("offset", "reinterpret", "pow", "sin", "cos", "exp", "log") and TAB[i][1] in INTS + FLOATS and TAB[i][2] in INTS + FLOATS + ["Bool"]]
    main = '(import "~/p13rt" _)\n(p13/run-all)\n(p13/done)\n'
    # the whole enumeration carried out inside the compiler, by a macro
    macro = '(import "~/p13rt" _)\n(export m)\n(macro (m s) (p13/run-all) (p13/done) (ok `unit))\n'
    jobs = []
    for name, backend, opt, mode in [("chibi", "chibi", False, "exe"), ("llvm", "llvm", False, "exe"), ("llvm-O", "llvm", True, "exe"), ("chibi-run", "chibi", False, "run"), ("llvm-run", "llvm", True, "run"),
                                     ("chibi-macro", "chibi", False, "macro"), ("llvm-macro", "llvm", False, "macro")]:
        jobs.append((name, main if mode != "macro" else macro, backend, opt, mode))
    nlit = 0
    for part in range(step):
        p, k = lit_program(lit_ids[part::step])
        nlit += k
        jobs.append(("lit%d-chibi" % part, p, "chibi", False, "exe"))
        jobs.append(("lit%d-llvm-O" % part, p, "llvm", True, "exe"))

    def one(job):
        name, text, backend, opt, mode = job
        d = os.path.join(ctx.work, "p13-" + name)
        os.makedirs(d)
        # literals are checked in programs of their own; they only need the table functions
        open(os.path.join(d, "p13rt.llrl"), "w").write(src if not name.startswith("lit") else "(export p13/lit p13/buf p13/done)\n" + PRE)
        open(os.path.join(d, "main.llrl"), "w").write(text)
        if mode == "macro":
            open(os.path.join(d, "mac.llrl"), "w").write(text)
            open(os.path.join(d, "main.llrl"), "w").write('(import "~/mac" m)\n(m)\n')
        out = os.path.join(d, "out")
        env = dict({"LD_PRELOAD": so, "P13_OUT": out}, **deep)
        exe = os.path.join(d, "main.exe")
        cmd = [llrl0, "-b" + backend] + (["-O"] if opt else []) + ["-c" + c, "-c-lm"]
        cmd += ["-r", "main"] if mode == "run" else ["-o", exe, "main"]
        r = run(cmd, cwd=d, timeout=700, mem_gb=0, env=env)
        if r.ok and mode == "exe":
            r = run([exe], cwd=d, timeout=700, mem_gb=0, env=dict({"P13_OUT": out}, **deep))
        return name, r, out

    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, jobs))
    keys = set()
    for name, r, out in results:
        txt = open(out).read() if os.path.exists(out) else ""
        m = re.search(r"^total (\d+) bad (\d+)$", txt, re.M)
        where = re.sub(r"^lit\d+-", "literals on ", name)
        for l in txt.split("\n"):
            if "gives" in l:
                key = l.split(" ")[0] + "/" + where
                if key not in keys:
                    keys.add(key)
                    ctx.violation(key, "%s: %s (bit patterns in hexadecimal)" % (where, l), {"operation": l, "where": where})
        if not r.ok or not m:
            ctx.violation("run/" + name, "the program that applies the operations does not compile or run (%s): %s" % (where, r.describe()), {"where": where})
            continue
        n = int(m[1])
        ctx.part(where, states=n, transitions=n, traces_validated_against_impl=n)
    ctx.sample({"operations": len(TAB), "literal operand pairs": nlit, "example": src.split("\n")[8][:400]})
