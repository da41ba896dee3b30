"""Every shape of value up to a bound, taken through every way of storing and passing it."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
from mc.common import run, VERIF

LEVEL = "exhaustive"
PRIMS = {"I8": "int8_t", "I16": "int16_t", "I32": "int32_t", "I64": "int64_t", "F32": "float", "F64": "double"}
BITS = {"I8": "U8", "I16": "U16", "I32": "U32", "I64": "U64", "F32": "U32", "F64": "U64"}
SIZE = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "F32": 4, "F64": 8}

# A shape: ("p", prim) | ("t", shapes) tuple | ("v", constructors) value-data | ("d", constructors) data |
# ("u",) unit | ("s",) String | ("r", shape) Ref | ("c", shape) closure that returns the shape | ("g", shape) (GO shape)


def ptr(s):
    """whether values of the shape hold pointers or tags, which C does not look into"""
    return s[0] in "vdsrcgu" or s[0] == "t" and any(ptr(x) for x in s[1])


class Names:
    """Declarations of the data types of a module"""

    def __init__(self):
        self.decls, self.types = [], {}

    def ty(self, s):
        k = s[0]
        if k == "p":
            return s[1]
        if k == "u":
            return "unit"
        if k == "s":
            return "String"
        if k == "r":
            return "(Ref %s)" % self.ty(s[1])
        if k == "c":
            return "(-> %s)" % self.ty(s[1])
        if k == "g":
            return "(GO %s)" % self.ty(s[1])
        if k == "t":
            return "(: %s)" % " ".join(self.ty(x) for x in s[1])
        if s not in self.types:
            n = len(self.types)
            self.types[s] = "T%d" % n
            cons = []
            for i, fs in enumerate(s[1]):
                cons.append("(k%d-%d %s)" % (n, i, " ".join(self.ty(f) for f in fs)) if fs else "k%d-%d" % (n, i))
            self.decls.append("(%s T%d %s)" % ("value-data" if k == "v" else "data", n, " ".join(cons)))
        return self.types[s]


def mk(N, s, j):
    """Expression for the value of shape s made from the number n, its parts salted from j; returns (text, next j)"""
    k = s[0]
    if k == "p":
        return "(mk-%s (sum n %d))" % (s[1], j), j + 1
    if k == "u":
        return "unit", j
    if k == "s":
        return "(mk-str (sum n %d))" % j, j + 1
    if k in "rcg":
        t, j = mk(N, s[1], j)
        return {"r": "(ref %s)", "c": "(let ([w %s]) (let ([(clo) w]) clo))", "g": "(gsome %s)"}[k] % t, j
    if k == "t":
        return seq(N, "(: ", s[1], j)
    ty = N.ty(s)[1:]
    out = None
    # constructor i for n = i modulo the number of constructors
    for i in range(len(s[1]) - 1, -1, -1):
        e = seq(N, "(k%s-%d " % (ty, i), s[1][i], j)[0] if s[1][i] else "k%s-%d" % (ty, i)
        out = e if out is None else "(if (eq? (rem n %d) %d) %s %s)" % (len(s[1]), i, e, out)
    return out, j + max([leaves(fs) for fs in s[1]] + [0])


def seq(N, head, fs, j):
    out = []
    for f in fs:
        t, j = mk(N, f, j)
        out.append(t)
    return head + " ".join(out) + ")", j


def leaves(fs):
    return sum(nleaf(f) for f in fs)


def nleaf(s):
    k = s[0]
    if k in "ps":
        return 1
    if k == "u":
        return 0
    if k in "rcg":
        return nleaf(s[1])
    if k == "t":
        return leaves(s[1])
    return max([leaves(fs) for fs in s[1]] + [0])


def ck(N, s, v, j, d=0):
    """Expression that checks that v is the value of shape s made from the number n"""
    k = s[0]
    if k == "p":
        return "(ck-%s %s (sum n %d))" % (s[1], v, j), j + 1
    if k == "u":
        return "(ck-unit %s)" % v, j
    if k == "s":
        return "(ck-str %s (sum n %d))" % (v, j), j + 1
    if k == "r":
        return ck(N, s[1], "(ptr/load (ref/ptr %s))" % v, j, d)
    if k == "c":
        return ck(N, s[1], "(%s)" % v, j, d)
    if k == "g":
        t, j = ck(N, s[1], "z%d" % d, j, d + 1)
        return "(match %s [(gsome (let z%d)) %s] [gnone (c/bad 1)])" % (v, d, t), j
    if k == "t":
        xs = ["y%d-%d" % (d, i) for i in range(len(s[1]))]
        body = []
        for f, x in zip(s[1], xs):
            t, j = ck(N, f, x, j, d + 1)
            body.append(t)
        return "(match %s [(: %s) %s unit])" % (v, " ".join("(let %s)" % x for x in xs), " ".join(body)), j
    ty = N.ty(s)[1:]
    cl = []
    for i, fs in enumerate(s[1]):
        xs = ["y%d-%d" % (d, q) for q in range(len(fs))]
        body, jj = ["(c/tag (rem n %d) %d)" % (len(s[1]), i)], j
        for f, x in zip(fs, xs):
            t, jj = ck(N, f, x, jj, d + 1)
            body.append(t)
        cl.append("[(k%s-%d %s) %s unit]" % (ty, i, " ".join("(let %s)" % x for x in xs), " ".join(body)) if fs else "[k%s-%d %s unit]" % (ty, i, " ".join(body)))
    return "(match %s %s)" % (v, " ".join(cl)), j + max([leaves(fs) for fs in s[1]] + [0])


PRE = """(import "std/memory" _)
(import "std/ref" _)
(import "std/conv" conv)
(import "std/arithmetic" add mul rem sub)
(import "std/eq" eq?)
(import "std/ord" lt?)
(import "std/array" array/new)
(value-data (GO A) (gsome A) gnone)
(value-data (B2 A) (b2a I8 A I16) (b2b A A) b2c)
(value-data (B1 A) (b1 A I8))
(value-data (BW A) (bw A))
(data (D2 A) (d2a I8 A I16) (d2b A A) d2c)
(data (DL A) dnil (dcons A (DL A)))
(class (Pass A) (function (pass a b c) {(-> I8 A A A)}))
(builtin-op a/load {(forall A) (-> U64 (Array A) A)} "array.load")
(builtin-op a/store! {(forall A) (-> U64 A (Array A) unit)} "array.store")
(import "std/array" Array)
(c-function c/bad {(-> U64 unit)} "p14_bad")
(c-function c/tag {(-> U64 U64 unit)} "p14_tag")
(c-function c/u {(-> U64 unit)} "p14_unit")
(c-function c/route {(-> U64 unit)} "p14_route")
(c-function c/bit {(-> U64 Bool)} "p14_bit")
(c-function c/mem {(-> (Ptr U8))} "p14_mem")
(c-function c/mem-check {(-> U64 U64 unit)} "p14_mem_check")
(c-function c/str-ptr {(-> (Ptr U8))} "p14_str")
(c-function c/str-check {(-> String U64 unit)} "p14_str_check")
(c-function c/done {(-> unit)} "p14_done")
(c-function sum {(-> U64 U64 U64)} "p14_sum")
(builtin-op str/make {(-> (Ptr U8) U64 String)} "string.construct")
(function (ck-unit u) {(-> unit unit)} (c/u 1))
(function (mk-str n) {(-> U64 String)} (str/make (c/str-ptr) n))
(function (ck-str v n) {(-> String U64 unit)} (c/str-check v n))
(function (fill n) {(-> U64 U64)} (mul n 72340172838076673))
""" + "".join("(c-function c/ck-%s {(-> %s U64 unit)} \"p14_ck_%s\")\n(function (mk-%s n) {(-> U64 %s)} (reinterpret (conv (fill n)){%s}))\n(function (ck-%s v n) {(-> %s U64 unit)} (c/ck-%s v n))\n"
              % (p, p, p, p, p, BITS[p], p, p, p) for p in PRIMS) + """
(function (ap g x) {(forall A B) (-> (-> A B) A B)} (g x))
(function (idg x) {(forall A) (-> A A)} x)
(function (swap p) {(forall A B) (-> (: A B) (: B A))} (match p [(: (let a) (let b)) (: b a)]))
(function (two a x b) {(forall A) (-> I8 A I64 A)} x)
(function (pick2 x y z) {(forall A) (-> A A A A)} (if (c/bit 1) y (if (c/bit 0) x z)))
(function (re-set! r x) {(forall A) (-> (Ref A) A unit)} (ptr/store! x (ref/ptr r)))
(function (later r) {(forall A) (-> (Ref A) A)} (ptr/load (ref/ptr r)))
(function (sum-list l f) {(forall A) (-> (DL A) (-> A U64 unit) U64 unit)} unit)
""".replace("(function (sum-list l f) {(forall A) (-> (DL A) (-> A U64 unit) U64 unit)} unit)\n", "")

# Routes: (name, definitions, body). S the type, MK(n) and CK(v, n) the value made from n and its check.
ROUTES = [
    ("variables", "", "(let ([x MK(1)] [y MK(2)]) (let ([z MK(3)]) CK(y, 2) CK(x, 1) CK(z, 3) (let ([x y]) CK(x, 2) CK(z, 3))))"),
    ("arguments", "(function (a5-# a x b y c) {(-> I8 S F32 S I64 S)} CK(x, 1) CK(y, 2) (ck-I8 a 9) (ck-F32 b 10) (ck-I64 c 11) (if (c/bit 1) x y))",
     "CK((a5-# (mk-I8 9) MK(1) (mk-F32 10) MK(2) (mk-I64 11)), 1)"),
    ("nested calls", "(function (n3-# a x b) {(-> I64 S I8 S)} (ck-I64 a 9) (ck-I8 b 8) x)",
     "CK((n3-# (mk-I64 9) (n3-# (mk-I64 9) MK(1) (mk-I8 8)) (mk-I8 8)), 1) (let ([t (: (mk-I8 3) (n3-# (mk-I64 9) MK(2) (mk-I8 8)) MK(3) (mk-I16 4))]) (match t [(: (let a) (let x) (let y) (let b)) (ck-I8 a 3) CK(x, 2) CK(y, 3) (ck-I16 b 4) unit]))"),
    ("tuple fields", "", "(let ([t (: (mk-I8 9) MK(1) (mk-I16 10) MK(2) (mk-I8 11))]) (match t [(: (let a) (let x) (let b) (let y) (let c)) CK(y, 2) CK(x, 1) (ck-I8 a 9) (ck-I16 b 10) (ck-I8 c 11) unit]))"
     " (let ([p (swap (: MK(3) (mk-I8 7)))]) (match p [(: (let a) (let x)) (ck-I8 a 7) CK(x, 3) (match (swap p) [(: (let x) (let a)) CK(x, 3) (ck-I8 a 7) unit])]))"),
    ("value constructors", "(function (vk-# k) {(-> U64 (B2 S))} (if (eq? k 0) (b2a (mk-I8 9) MK(1) (mk-I16 10)) (if (eq? k 1) (b2b MK(1) MK(2)) b2c)))"
     "(function (vc-# v k) {(-> (B2 S) U64 unit)} (match v [(b2a (let a) (let x) (let b)) (c/tag k 0) (ck-I8 a 9) CK(x, 1) (ck-I16 b 10)] [(b2b (let x) (let y)) (c/tag k 1) CK(x, 1) CK(y, 2)] [b2c (c/tag k 2)]))",
     "(vc-# (vk-# 0) 0) (vc-# (vk-# 1) 1) (vc-# (vk-# 2) 2) (match (b1 MK(3) (mk-I8 4)) [(b1 (let x) (let a)) CK(x, 3) (ck-I8 a 4)]) (match (bw MK(4)) [(bw (let x)) CK(x, 4)])"
     " (match (bw (b1 MK(3) (mk-I8 4))) [(bw (b1 (let x) (let a))) CK(x, 3) (ck-I8 a 4)]) (match (gsome (vk-# 1)) [(gsome (let v)) (vc-# v 1)] [gnone (c/bad 2)])"),
    ("data constructors", "(function (dk-# k) {(-> U64 (D2 S))} (if (eq? k 0) (d2a (mk-I8 9) MK(1) (mk-I16 10)) (if (eq? k 1) (d2b MK(1) MK(2)) d2c)))"
     "(function (dc-# v k) {(-> (D2 S) U64 unit)} (match v [(d2a (let a) (let x) (let b)) (c/tag k 0) (ck-I8 a 9) CK(x, 1) (ck-I16 b 10)] [(d2b (let x) (let y)) (c/tag k 1) CK(x, 1) CK(y, 2)] [d2c (c/tag k 2)]))",
     "(let ([a (dk-# 0)] [b (dk-# 1)]) (dc-# (dk-# 2) 2) (dc-# b 1) (dc-# a 0)) (match (dcons MK(1) (dcons MK(2) dnil)) [(dcons (let x) (dcons (let y) dnil)) CK(x, 1) CK(y, 2)] [_ (c/bad 3)])"),
    ("memory", "", "(let ([p (ptr/cast (c/mem)){(Ptr S)}]) (ptr/store! MK(1) (ptr/offset 1 p)) (ptr/store! MK(2) p) (ptr/store! MK(3) (ptr/offset 2 p)) CK((ptr/load (ptr/offset 1 p)), 1) CK((ptr/load p), 2) CK((ptr/load (ptr/offset 2 p)), 3)"
     " (ptr/store! MK(4) (ptr/offset 1 p)) CK((ptr/load (ptr/offset 2 p)), 3) CK((ptr/load p), 2) CK((ptr/load (ptr/offset 1 p)), 4) (ptr/copy! p 2 (ptr/offset 3 p)) CK((ptr/load (ptr/offset 4 p)), 4) CK((ptr/load (ptr/offset 3 p)), 2)"
     " (ptr/move! p 4 (ptr/offset 1 p)) CK((ptr/load (ptr/offset 3 p)), 3) CK((ptr/load (ptr/offset 4 p)), 2) CK((ptr/load (ptr/offset 2 p)), 4) (c/mem-check (mul 5 (size-of S)) (align-of S)))"),
    ("arrays", "", "(let ([a (array/new MK(1) 3)]) (a/store! 1 MK(2) a) CK((a/load 0 a), 1) CK((a/load 1 a), 2) CK((a/load 2 a), 1) (a/store! 0 MK(3) a) (a/store! 2 (a/load 1 a) a) CK((a/load 0 a), 3) CK((a/load 1 a), 2) CK((a/load 2 a), 2))"),
    ("captures", "", "(let ([x MK(1)] [y (mk-I8 9)] [z MK(2)]) (let ([(g w) {(-> S S)} (ck-I8 y 9) CK(z, 2) CK(w, 3) (if (c/bit 1) x w)] [(h w) {(-> I64 S)} (ck-I64 w 5) z]) CK((ap g MK(3)), 1) CK((ap h (mk-I64 5)), 2) CK((g MK(3)), 1)))"
     " (let ([x MK(1)]) (let ([(k) (let ([(l) x]) l)]) CK(((k)), 1)))"),
    ("references", "", "(let ([r (ref MK(1))] [q (ref MK(2))]) CK((ptr/load (ref/ptr r)), 1) (ptr/store! MK(3) (ref/ptr r)) CK((ptr/load (ref/ptr q)), 2) CK((ptr/load (ref/ptr r)), 3))"
     " (let ([r (ref MK(1))]) (re-set! r MK(4)) CK((later r), 4) (let ([q r]) (re-set! q MK(5)) CK((later r), 5)))"),
    ("branches", "", "CK((if (c/bit 1) MK(1) MK(2)), 1) CK((two (mk-I8 9) (if (c/bit 0) MK(1) MK(2)) (mk-I64 3)), 2) CK((pick2 MK(1) MK(2) MK(3)), 2)"
     " CK((match (mk-I8 1) [0 MK(1)] [_ MK(3)]), 3) (match (: MK(4) (if (c/bit 0) MK(5) MK(6))) [(: (let x) (let y)) CK(x, 4) CK(y, 6)])"),
    ("loops", "", "(let ([r (ref MK(1))] [i (ref 0{U64})]) (while (lt? (later i) 3) (let ([x (later r)]) CK(x, (add (later i) 1)) (re-set! i (add (later i) 1)) (ptr/store! MK((add (later i) 1)) (ref/ptr r)))) CK((later r), 4))"),
    ("generic functions", "(instance Pass-# (Pass S) (function (pass a b c) (ck-I8 a 9) CK(b, 1) CK(c, 2) c))", "CK((idg (idg MK(1))), 1) CK((pass (mk-I8 9) MK(1) MK(2)), 2) CK((two (mk-I8 1) MK(3) (mk-I64 4)), 3)"),
    ("early returns", "(function (er-# k) {(-> U64 S)} (two (mk-I8 9) (begin (if (eq? k 0) (return MK(1)) unit) (two (mk-I8 8) (if (eq? k 1) (return MK(2)) MK(3)) (mk-I64 7))) (mk-I64 3)))",
     "CK((er-# 0), 1) CK((er-# 1), 2) CK((er-# 2), 3)"),
    ("recursion", "(function (re-# k x) {(-> U64 S S)} (if (eq? k 0) x (let ([y (re-# (sub k 1) x)] [z MK(2)]) CK(z, 2) y)))(function top-# {S} MK(6))(transparent-function (tr-# x y) {(-> S S (: S S))} (: y x))",
     "CK((re-# 3 MK(1)), 1) CK(top-#, 6) (match (tr-# MK(1) MK(2)) [(: (let x) (let y)) CK(x, 2) CK(y, 1)])"),
]

PREFIXES = [(0, 0), (4, 0), (5, 0), (6, 0), (0, 7), (0, 8), (3, 7), (4, 8)]


def subst(text, N, i, s):
    out, p = [], 0
    while True:
        a = min([x for x in (text.find("MK(", p), text.find("CK(", p)) if x >= 0], default=-1)
        if a < 0:
            out.append(text[p:])
            break
        out.append(text[p:a])
        depth, b = 1, a + 3
        while depth:
            depth += {"(": 1, ")": -1}.get(text[b], 0)
            b += 1
        inner = text[a + 3:b - 1]
        if text[a] == "M":
            out.append("(mk%d %s)" % (i, inner))
        else:
            v, n = inner.rsplit(", ", 1)
            out.append("(ck%d %s %s)" % (i, subst(v, N, i, s), n))
        p = b
    r = "".join(out).replace("#", str(i))
    ty = N.ty(s)
    import re
    return re.sub(r"(?<![\w-])S(?![\w-])", lambda m: ty, r)


def module(shapes, cabi):
    """(definitions, top-level, C source, [(key)...]); shapes is [(i, shape)]; cabi(shape) -> list of prefixes"""
    N = Names()
    defs, tops, c, keys = [], [], [], []
    for i, s in shapes:
        ty = N.ty(s)
        defs.append("(function (mk%d n) {(-> U64 %s)} %s)" % (i, ty, mk(N, s, 0)[0]))
        defs.append("(function (ck%d v n) {(-> %s U64 unit)} (c/u 0) %s)" % (i, ty, ck(N, s, "v", 0)[0]))
        for k, (name, d, body) in enumerate(ROUTES):
            if d:
                defs.append(subst(d, N, i, s))
            rid = i * 64 + k
            defs.append("(function (r%d) {(-> unit)} (c/route %d) %s)" % (rid, rid, subst(body, N, i, s)))
            tops.append("(r%d)" % rid)
            keys.append((rid, i, name))
        if not ptr(s):
            t = cty(s, i)
            c.append(t[0])
            rid = i * 64 + 30
            c.append("typedef %s S%d;\nstatic S%d mk%d(u64 n) { S%d v; memset(&v, 0, sizeof v); %s return v; }\nstatic void ck%d(S%d v, u64 n) { %s }" % (
                t[1], i, i, i, i, " ".join(cset(s, "v", 0)[0]), i, i, " ".join(cck(s, "v", 0)[0])))
            # the layout in memory is C's
            c.append("void p14_look%d(S%d *p) { for (u64 i = 0; i < 3; i++) ck%d(p[i], i + 1); for (u64 i = 0; i < 3; i++) p[i] = mk%d(i + 4); }" % (i, i, i, i))
            c.append("u64 p14_size%d(void) { return sizeof(S%d) * 64 + _Alignof(S%d); }" % (i, i, i))
            defs.append("(c-function c/look%d {(-> (Ptr %s) unit)} \"p14_look%d\")(c-function c/size%d {(-> U64)} \"p14_size%d\")" % (i, ty, i, i, i))
            body = "(let ([p (ptr/cast (c/mem)){(Ptr S)}]) (ptr/store! MK(1) p) (ptr/store! MK(2) (ptr/offset 1 p)) (ptr/store! MK(3) (ptr/offset 2 p)) (c/look# p) CK((ptr/load p), 4) CK((ptr/load (ptr/offset 2 p)), 6) (c/tag (add (mul (size-of S) 64) (align-of S)) (c/size#)))"
            defs.append("(function (r%d) {(-> unit)} (c/route %d) %s)" % (rid, rid, subst(body, N, i, s)))
            tops.append("(r%d)" % rid)
            keys.append((rid, i, "layout as in C"))
            for k, (gp, fp, ret, arg) in enumerate(cabi(s)):
                rid = i * 64 + 32 + k
                # 0-99 integer and floating point arguments before the structure, one of each after it, then the structure again
                pr = "".join("int64_t a%d, " % q for q in range(gp)) + "".join("double d%d, " % q for q in range(fp))
                body = "ALIGNED(); " + "".join("p14_ck_I64(a%d, %d); " % (q, q + 1) for q in range(gp)) + "".join("p14_ck_F64(d%d, %d); " % (q, q + 11) for q in range(fp))
                if arg:
                    pr += "S%d x, int32_t t, S%d y, float u" % (i, i)
                    body += "ck%d(x, 3); p14_ck_I32(t, 30); ck%d(y, 4); p14_ck_F32(u, 31); " % (i, i)
                elif pr:
                    pr = pr[:-2]
                else:
                    pr = "void"
                c.append("%s p14_f%d(%s) { %s%s}" % ("S%d" % i if ret else "void", rid, pr, body, "return mk%d(5); " % i if ret else ""))
                args = ["I64"] * gp + ["F64"] * fp + ([ty, "I32", ty, "F32"] if arg else [])
                vals = ["(mk-I64 %d)" % (q + 1) for q in range(gp)] + ["(mk-F64 %d)" % (q + 11) for q in range(fp)] + (["MK(3)", "(mk-I32 30)", "MK(4)", "(mk-F32 31)"] if arg else [])
                defs.append("(c-function c/f%d {(-> %s %s)} \"p14_f%d\")" % (rid, " ".join(args), ty if ret else "unit", rid))
                call = "(c/f%d %s)" % (rid, " ".join(vals))
                call = "CK(%s, 5)" % call if ret else call
                defs.append("(function (r%d) {(-> unit)} (c/route %d) %s)" % (rid, rid, subst(call, N, i, s)))
                tops.append("(r%d)" % rid)
                keys.append((rid, i, "C call after %d integers and %d floats%s%s" % (gp, fp, ", passed" if arg else "", ", returned" if ret else "")))
    alls = []
    for j in range(0, len(tops), 50):
        defs.append("(function (all%d) {(-> unit)} %s)" % (j, " ".join(tops[j:j + 50])))
        alls.append("(all%d)" % j)
    return PRE + "\n".join(N.decls + defs) + "\n", " ".join(alls) + " (c/done)\n", "\n".join(c) + "\n", keys


def cty(s, i):
    """C declarations and type of a shape"""
    if s[0] == "p":
        return "", PRIMS[s[1]]
    fs = []
    pre = ""
    for k, f in enumerate(s[1]):
        p, t = cty(f, "%s_%d" % (i, k))
        pre += p
        fs.append("%s f%d;" % (t, k))
    n = "struct T%s" % i
    return pre + "%s { %s };\n" % (n, " ".join(fs)), n


def cset(s, v, j):
    if s[0] == "p":
        return ["mk_%s(&%s, n + %d);" % (s[1], v, j)], j + 1
    out = []
    for k, f in enumerate(s[1]):
        o, j = cset(f, "%s.f%d" % (v, k), j)
        out += o
    return out, j


def cck(s, v, j):
    if s[0] == "p":
        return ["p14_ck_%s(%s, n + %d);" % (s[1], v, j)], j + 1
    out = []
    for k, f in enumerate(s[1]):
        o, j = cck(f, "%s.f%d" % (v, k), j)
        out += o
    return out, j


def shapes(deep):
    P = [("p", p) for p in PRIMS]
    out = list(P)
    for n in (2, 3):
        out += [("t", x) for x in itertools.product(P, repeat=n)]
    # four and five fields over a smaller alphabet, nesting, long ones
    few = [("p", p) for p in ("I8", "I64", "F32", "F64")]
    small = [("p", p) for p in ("I8", "F32", "F64")]
    out += [("t", x) for x in itertools.product(few if deep else small, repeat=4)]
    pairs = [("t", x) for x in itertools.product(few, repeat=2)]
    out += [("t", (a, p)) for a in few for p in pairs] + [("t", (p, a)) for a in few for p in pairs]
    out += [("t", (("p", "I8"), ("t", (p, ("p", "I8"))), ("p", "I16"))) for p in pairs]
    out += [("t", (("p", a),) * n) for a in ("I8", "I16", "F32", "I32") for n in (5, 6, 7, 8, 9, 15, 16) if SIZE[a] * n <= 40]
    out += [("t", (("p", "I8"),) * n) for n in (15, 16)]
    # units, strings, references, closures
    u, s = ("u",), ("s",)
    out += [u, s, ("r", ("p", "I8")), ("c", ("p", "I64")), ("c", ("t", (P[0], P[5]))), ("r", ("t", (P[3], P[4], P[0])))]
    out += [("t", x) for x in itertools.product([u, s, P[0], ("c", P[1]), ("r", P[4])], repeat=2)]
    out += [("t", (P[0], u, P[3], u)), ("t", (u, u)), ("t", (s, P[0], s)), ("t", (u, P[5])), ("t", (P[4], u, P[4]))]
    # constructors: enumerations around the widths of the tag, one constructor with fields among plain ones, unions
    for n in (1, 2, 3, 4, 5, 8, 9, 16, 17) + ((255, 256, 257) if deep else (256, 257)):
        out.append(("v", ((),) * n))
        out.append(("d", ((),) * n))
    fields = [(), (P[0],), (P[3],), (P[4],), (P[5],), (P[0], P[3]), (P[4], P[4]), (P[0], P[1], P[2]), (P[3], P[3], P[3]), (s, P[0]), (u,)]
    for a, b in itertools.product(fields, repeat=2):
        out.append(("v", (a, b)))
        if deep or a <= b:
            out.append(("d", (a, b)))
    for a in fields:
        out += [("v", (a,)), ("d", (a,))]
        out += [("v", (a, (), ())), ("v", ((), a, ())), ("d", ((), (), a)), ("v", (a, (P[1],), (P[5], P[0])))]
    inner = [("v", ((P[0],), ())), ("v", ((P[3], P[0]), (P[4],))), ("v", ((), (), ())), ("d", ((P[1],), ())), ("v", ((P[5],),)), ("g", P[0]), ("g", ("t", (P[0], P[3])))]
    for x in inner:
        out += [("v", ((x,), ())), ("v", ((P[0], x), (x, P[3]))), ("t", (P[0], x)), ("t", (x, x)), ("t", (x, P[4], x)), ("g", x), ("r", x), ("c", x), ("d", ((x, P[0]), (P[3],)))]
    return list(dict.fromkeys(out))


def size_align(s):
    if s[0] == "p":
        return SIZE[s[1]], SIZE[s[1]]
    o, al = 0, 1
    for f in s[1]:
        n, a = size_align(f)
        o = (o + a - 1) // a * a + n
        al = max(al, a)
    return (o + al - 1) // al * al, al


def flat(s, o=0):
    """[(offset, primitive)]"""
    if s[0] == "p":
        return [(o, s[1])]
    out, p = [], 0
    for f in s[1]:
        n, a = size_align(f)
        p = (p + a - 1) // a * a
        out += flat(f, o + p)
        p += n
    return out


def spread(s):
    """Structures of at most 16 bytes each of whose eightbytes holds one field: what the LLVM backend passes as C does
    while registers last (see the known findings of P14)."""
    n, _ = size_align(s)
    eb = [o // 8 for o, _ in flat(s)]
    return n <= 16 and len(set(eb)) == len(eb)


def cabi_chibi(s):
    return [(g, f, True, True) for g, f in PREFIXES]


def cabi_llvm(s):
    if s[0] == "p":
        return cabi_chibi(s)
    if size_align(s)[0] > 16:
        return [(0, 0, True, False), (3, 3, True, False)]
    if not spread(s):
        return []
    return [(0, 0, True, True), (1, 3, True, True)]


def check(ctx):
    ctx.llrl0()
    sh = list(enumerate(shapes(ctx.thorough)))
    # the LLVM backend has a smaller set of shapes at -O0, and at -O in quick runs
    short = [x for x in sh if ctx.thorough or (x[1][0] != "t" or len(x[1][1]) != 3 or all(f in (("p", "I8"), ("p", "I64"), ("p", "F32"), ("p", "F64")) for f in x[1][1]))]
    few = [x for x in short if x[1][0] != "t" or len(x[1][1]) != 3]
    base = open(os.path.join(VERIF, "llrl", "p14.c")).read()
    jobs = []
    for backend, opt, mode, ss in [("llvm", True, "exe", short if ctx.thorough else few), ("llvm", False, "exe", short), ("chibi", False, "exe", sh), ("chibi", False, "macro", short if ctx.thorough else few)]:
        k = max(1, len(ss) // (40 if backend == "llvm" else 60))
        for part in range(k):
            jobs.append((backend, opt, mode, ss[part::k], part, ""))
    # the inputs of the known findings, each on its own
    P = lambda *x: ("t", tuple(("p", y) for y in x))
    findings = [("packed structure passed", P("I8", "I16"), (0, 0, False, True)), ("packed structure returned", P("I8", "I16"), (0, 0, True, False)),
                ("large structure passed", P("I64", "I64", "I64"), (0, 0, False, True)), ("structure passed when registers run out", P("I64", "I64"), (5, 0, False, True))]
    for n, (what, s, cfg) in enumerate(findings):
        jobs.append(("llvm", False, "finding", [(n, s)], n, what + str(cfg)))

    def one(job):
        backend, opt, mode, ss, part, what = job
        name = "%s%s-%s" % (backend, "-O" if opt else "", mode)
        d = os.path.join(ctx.work, "%s-%d" % (name, part))
        os.makedirs(d)
        cabi = cabi_chibi if backend == "chibi" else cabi_llvm
        if mode == "finding":
            cabi = lambda s: [findings[part][2]]
        defs, top, c, keys = module(ss, cabi)
        if mode == "finding":
            keys = [k for k in keys if k[0] % 64 >= 32]
        open(os.path.join(d, "p14.c"), "w").write(base + c)
        so, o = os.path.join(d, "p14.so"), os.path.join(d, "p14.o")
        r = run(["clang", "-O0", "-fPIC", "-c", "-o", o, os.path.join(d, "p14.c")], mem_gb=0, timeout=300)
        r = r.ok and run(["clang", "-shared", "-o", so, o], mem_gb=0)
        if not r or not r.ok:
            raise RuntimeError("clang: %s" % (r and r.describe()))
        if mode == "macro":
            open(os.path.join(d, "mac.llrl"), "w").write("(export m)\n" + defs + "(macro (m s) %s (ok `unit))\n" % top)
            open(os.path.join(d, "main.llrl"), "w").write('(import "~/mac" m)\n(m)\n')
        else:
            open(os.path.join(d, "main.llrl"), "w").write(defs + top)
        out, exe = os.path.join(d, "out"), os.path.join(d, "main.exe")
        env = {"LD_PRELOAD": so, "P14_OUT": out, "P14_ONLY": str(keys[0][0]) if mode == "finding" else ""}
        r = run([ctx.llrl0(), "-b" + backend] + (["-O"] if opt else []) + ["-c" + o, "-o", exe, "main"], cwd=d, timeout=800, mem_gb=0, env=env)
        if r.ok and mode != "macro":
            r = run([exe], cwd=d, timeout=60, mem_gb=0, env=dict(env, LD_PRELOAD=""))
        got = {}
        txt = open(out).read() if os.path.exists(out) else ""
        for l in txt.split("\n"):
            f = l.split(" ")
            if len(f) >= 3:
                got[int(f[0])] = (int(f[1]), int(f[2]), " ".join(f[3:]))
        bad, checks = [], 0
        for rid, i, route in keys:
            g = got.get(rid)
            s = dict(ss)[i]
            if g is None:
                bad.append((i, s, route, "nothing: " + r.describe()))
                break
            if g[1] or not g[0]:
                bad.append((i, s, route, "%d of %d checks fail: %s" % (g[1], g[0], g[2])))
            checks += g[0]
        if not bad and (not r.ok or not txt.endswith("done\n")):
            bad.append((None, None, "", r.describe()))
        import shutil
        if not bad or mode != "finding":
            shutil.rmtree(d, ignore_errors=True) if not bad else None
        return name, mode, what, ss, len(keys), checks, bad, {rid: g[0] for rid, g in got.items()}

    done, counts = {}, {}
    with ThreadPoolExecutor(8) as ex:
        for name, mode, what, ss, n, checks, bad, got in ex.map(one, jobs):
            if mode == "finding":
                i, s = ss[0]
                N = Names()
                if bad:
                    ctx.violation("cabi/llvm/%s" % what.split("(")[0], "the LLVM backend does not follow the C calling convention: %s %s" % (what, N.ty(s)), {"type": N.ty(s), "result": str(bad[0][3])[:300]})
                continue
            a = done.setdefault(name, [0, 0])
            a[0] += n
            a[1] += checks
            for rid, k in got.items():
                if rid % 64 < 32:
                    counts.setdefault(rid, {}).setdefault(k, name)
            for i, s, route, why in bad[:6]:
                if s is None:
                    ctx.violation("run/" + name, "a program of %s does not compile or end: %s" % (name, why), {"where": name})
                    continue
                t = Names()
                ty = t.ty(s)
                ctx.violation("%s/%s/%s" % (ty if not t.decls else t.decls[-1][:200], route, name), "%s: a value of %s %s does not survive: %s (%s)" % (name, ty, " ".join(t.decls)[:500], route, why[:300]),
                              {"type": ty, "declarations": t.decls, "route": route, "where": name})
    # every backend makes the same number of checks on the same route: none is skipped
    for rid, by in counts.items():
        if len(by) > 1:
            ctx.violation("count/%d" % rid, "backends disagree on how many parts of a value they see: route %d %s" % (rid, by), {"route": rid, "checks": by})
    for name, (n, k) in done.items():
        ctx.part(name, states=n, transitions=k, traces_validated_against_impl=k)
    ctx.count(shapes=len(sh), routes=len(ROUTES))
    ctx.sample({"shape": Names().ty(sh[77][1]), "route": ROUTES[1][0], "program": subst(ROUTES[1][2], Names(), 77, sh[77][1])})
