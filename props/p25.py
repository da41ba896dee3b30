import itertools, os, re, struct, time
from concurrent.futures import ThreadPoolExecutor
from mc.common import VERIF, run

LEVEL = "exhaustive"


# ---- syntax trees ---------------------------------------------------------------------------------------------
class Sym(str):
    pass


class Char(str):
    pass


NIL = ()


class Int(tuple):  # (signed, value)
    pass


def esc(s):
    return "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c) for c in s)


def text(t):
    if isinstance(t, Int):
        return str(t[1])
    if isinstance(t, bool):
        return "#t" if t else "#f"
    if isinstance(t, float):
        return repr(t)
    if isinstance(t, Sym):
        return str(t)
    if isinstance(t, Char):
        return "#\\" + {"\n": "\\n", "\\": "\\\\", "\t": "\\t"}.get(t, str(t))
    if isinstance(t, str):
        return '"' + esc(t) + '"'
    if t == NIL:
        return "()"
    out = []
    while isinstance(t, Cons):
        out.append(text(t.car))
        t = t.cdr
    return "(" + " ".join(out) + ("" if t == NIL and not isinstance(t, Cons) else " . " + text(t)) + ")"


class Cons:
    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr

    def __eq__(self, o):
        return isinstance(o, Cons) and same(self.car, o.car) and same(self.cdr, o.cdr)


def same(a, b):
    return type(a) == type(b) and a == b and text(a) == text(b)


def hexs(s):
    return s.encode().hex()


def dump(t):
    if isinstance(t, Int):
        return "i%x v%x " % (t[0], t[1] & (1 << 64) - 1)
    if isinstance(t, bool):
        return "b%x " % t
    if isinstance(t, float):
        return "f%x " % struct.unpack("<Q", struct.pack("<d", t))[0]
    if isinstance(t, Sym):
        return "s%s " % hexs(t)
    if isinstance(t, Char):
        return "c%x " % ord(t)
    if isinstance(t, str):
        return "t%s " % hexs(t)
    if isinstance(t, Cons):
        return "p0 " + dump(t.car) + dump(t.cdr)
    return "n0 "


def lst(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Cons(x, r)
    return r


def I(n):
    return Int((1 if n < 0 else 0, n))


A, B, X = Sym("a"), Sym("b"), Sym("x")
ATOMS = [I(0), I(1), I(-1), I(-(1 << 63)), I((1 << 64) - 1), I(1 << 63), I(255), 0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, True, False, A, Sym("+"), Sym("a/b:c-d?e"), Sym("..."), Sym("a" * 70),
         "", "a", 'q"\\\n\t\r', "\u00e9\U0001f600", "x" * 200, Char("a"), Char("\n"), Char("\\"), Char("\U0001f600"), Char("\u00e9"), Char(" "), NIL]


def trees(deep):
    yield from ATOMS
    for a, b in itertools.product(ATOMS, repeat=2):
        yield Cons(a, b)
    few = [I(1), A, "s", NIL]
    for n in (2, 3):
        for xs in itertools.product(few, repeat=n):
            for tail in few:
                yield lst(*xs, tail=tail)
    small = [A, NIL, I(-2)]
    t2 = [Cons(a, b) for a in small for b in small]
    t3 = [Cons(a, b) for a in small + t2 for b in small + t2]
    yield from t3
    if deep:
        for a, b in itertools.product(t3, repeat=2):
            yield Cons(a, b)
    for n in (5, 17, 100):
        yield lst(*[I(k) for k in range(n)])
    d = A
    for _ in range(60):
        d = lst(d)
    yield d
    for q in ("quote", "quasiquote", "unquote", "capture", "annotate", "load", "lambda", "let", "match", "if"):
        yield lst(Sym(q))
        yield lst(Sym(q), A)
        yield lst(Sym(q), A, B)


# ---- programs -------------------------------------------------------------------------------------------------
DUMP = '''(import "std/s" _)
(export _)
(c-function put-str {(-> String Char U64)} "p25_str")
(c-function put-num {(-> U64 Char U64)} "p25_num")
(c-function put-f64 {(-> F64 U64)} "p25_f64")
(c-function put-end {(-> U64 U64)} "p25_end")
(c-function fresh {(-> String U64)} "p25_fresh")
(function (dump s) {(-> (Syntax Sexp) U64)}
  (match s
    [(syntax (sexp:integer (let g) (let v))) (put-num (if g 1 0) #\\i) (put-num v #\\v)]
    [(syntax (sexp:fpnumber (let v))) (put-f64 v)]
    [(syntax (sexp:bool (let v))) (put-num (if v 1 0) #\\b)]
    [(syntax (sexp:symbol (let v))) (put-str v #\\s)]
    [(syntax (sexp:string (let v))) (put-str v #\\t)]
    [(syntax (sexp:char (let v))) (put-num (char/unicode-scalar v) #\\c)]
    [(syntax (sexp:cons (let a) (let b))) (put-num 0 #\\p) (dump a) (dump b)]
    [(syntax sexp:nil) (put-num 0 #\\n)]
    [(syntax (sexp:use _)) (put-num 0 #\\u)]))
'''.replace("(put-num (char/unicode-scalar v) #\\c)", "(put-num (conv (char/unicode-scalar v)) #\\c)").replace('(import "std/s" _)', '(import "builtin" syntax sexp:_)\n(import "std/s" _)\n(import "std/char" Char)\n(import "std/conv" conv)')

IMP = '(import "builtin" syntax sexp:_)\n(import "std/s" _)\n(import "~/dump" dump put-str put-num put-end fresh)\n'


def functions(stmts, per=60, pre=""):
    s = []
    for j in range(0, len(stmts), per):
        s.append("(function (fn%d) {(-> unit)}\n  %s\n  unit)" % (j // per, "\n  ".join(stmts[j:j + per])))
    s += ["(fn%d)" % j for j in range((len(stmts) + per - 1) // per)]
    return pre + "\n".join(s) + "\n"


class Prog:
    """A program, what it writes while running and what while compiling"""

    def __init__(self, name, main, mods=None, run_exp=(), comp_exp=(), show=None):
        self.name, self.main, self.mods, self.run_exp, self.comp_exp, self.show = name, main, mods or {}, list(run_exp), list(comp_exp), show or {}


def conversions(ctx):
    ts = list(trees(ctx.thorough))
    mac = IMP + '''(export ident look twice)
(macro (ident s) (match s [(syntax (sexp:cons _ (syntax (sexp:cons (let x) _)))) (ok (s:list 'quote x))] [_ (err "x")]))
(macro (look s) (match s [(syntax (sexp:cons _ (syntax (sexp:cons (syntax (sexp:integer _ (let k))) (let x))))) (dump x) (put-end k) (ok 'unit)] [_ (err "x")]))
(macro (twice s) (dump s) (match s [(syntax (sexp:cons _ (syntax (sexp:cons (syntax (sexp:integer _ (let k))) (let x))))) (put-end k) (ok (s:cons \\look (s:cons (s:integer #f k) x)))] [_ (err "x")]))
'''
    pre = IMP + '(import "~/mac" ident look twice)\n'
    per = 1500
    for p in range(0, len(ts), per):
        part = ts[p:p + per]
        st, exp, cexp = [], [], []
        for k, t in enumerate(part):
            st.append("(dump '%s) (put-end %d)" % (text(t), k))
            exp.append((k, dump(t)))
            st.append("(dump (ident %s)) (put-end %d)" % (text(t), k))
            exp.append((k, dump(t)))
            st.append("(look %d %s)" % (k, text(t)))
            cexp.append((k, dump(lst(t))))
            if k % 7 == 0:
                st.append("(twice %d . (%s %s))" % (k, text(t), text(t)))
                cexp.append((k, dump(lst(Sym("twice"), I(k), t, t))))
                cexp.append((k, dump(lst(t, t))))
        yield Prog("conversions %d" % (p // per), functions(st, pre=pre), {"mac": mac}, exp, cexp, {k: text(t) for k, t in enumerate(part)})


UQ, UQS = Sym("unquote"), Sym("unquote-splicing")
VALUES = [lst(A, B), I(5), NIL, lst(I(1)), Cons(A, B)]


class Fail(Exception):
    pass


def qq(t, env):
    if isinstance(t, Cons):
        if t.car == UQ and isinstance(t.cdr, Cons) and same(t.cdr.cdr, NIL):
            return env[t.cdr.car]
        if isinstance(t.car, Cons) and t.car.car == UQS:
            v = env[t.car.cdr.car]
            if same(t.cdr, NIL):
                return v
            rest = qq(t.cdr, env)
            xs = []
            while isinstance(v, Cons):
                xs.append(v.car)
                v = v.cdr
            if not same(v, NIL):
                raise Fail
            return lst(*xs, tail=rest)
        return Cons(qq(t.car, env), qq(t.cdr, env))
    return t


def templates(n, deep):
    """All templates of n leaves"""
    x, y = lst(UQ, X), lst(UQ, Sym("y"))
    leaves = [A, x, y] + ([I(1), NIL] if n <= 3 else [])
    splice = [lst(UQS, X), lst(UQS, Sym("y"))]
    if n > 3 + deep:
        leaves, splice = [A, x], splice[1:]

    def tree(n):
        if n == 1:
            return leaves
        r = []
        for parts in compositions(n):
            if len(parts) < 1 or parts == (n,):
                continue
            for xs in itertools.product(*[elem(p) for p in parts]):
                r.append(lst(*xs))
                if len(xs) > 1 and not (isinstance(xs[-1], Cons) and xs[-1].car == UQS) and (deep or n < 4):
                    r.append(lst(*xs[:-1], tail=xs[-1]))
        return r

    def elem(p):
        return tree(p) + (splice if p == 1 else [])
    if n == 1:
        return leaves + [lst(e) for e in leaves + splice]
    return tree(n)


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def qtext(t):
    """Like text, with the abbreviations where they apply"""
    if isinstance(t, Cons) and isinstance(t.cdr, Cons) and same(t.cdr.cdr, NIL) and t.car in (UQ, UQS):
        return ("," if t.car == UQ else ",@") + qtext(t.cdr.car)
    if not isinstance(t, Cons):
        return text(t)
    out = []
    while isinstance(t, Cons):
        if out and t.car == UQ and isinstance(t.cdr, Cons) and same(t.cdr.cdr, NIL):
            break
        out.append(qtext(t.car))
        t = t.cdr
    return "(" + " ".join(out) + ("" if same(t, NIL) else " . " + qtext(t)) + ")"


def quasi(ctx):
    ts = [t for n in range(1, 5 if not ctx.thorough else 6) for t in templates(n, ctx.thorough)]
    if not ctx.thorough:
        ts = [t for t in ts]
    vals = VALUES
    per = 300
    for p in range(0, len(ts), per):
        part = ts[p:p + per]
        defs, exp, st = [], [], []
        for k, t in enumerate(part):
            src = qtext(t) if k % 3 else text(t)
            defs.append("(function (q%d x y) {(-> (Syntax Sexp) (Syntax Sexp) (Result (Syntax Sexp) String))} (ok `%s))" % (k, src))
            defs.append("(function (r%d x y) {(-> (Syntax Sexp) (Syntax Sexp) unit)} (match (q%d x y) [(ok (let s)) (ignore (dump s))] [(err _) (ignore (put-num 0 #\\e))]) (ignore (put-end %d)))" % (k, k, k))
            defs.append("(function (all%d) {(-> unit)} %s)" % (k, " ".join("(r%d '%s '%s)" % (k, text(a), text(b)) for a, b in itertools.product(vals, repeat=2))))
            st.append("(all%d)" % k)
            for a, b in itertools.product(vals, repeat=2):
                try:
                    exp.append((k, dump(qq(t, {X: a, Sym("y"): b}))))
                except Fail:
                    exp.append((k, "e0 "))
        yield Prog("quasi-quotation %d" % (p // per), functions(st, pre=IMP + "\n".join(defs) + "\n"), {}, exp, [], {k: qtext(t) for k, t in enumerate(part)})


# ---- s/match ----------------------------------------------------------------------------------------------------
WILD = Sym("_")


def match(p, t, env):
    if isinstance(p, Cons):
        if p.car == UQ and isinstance(p.cdr, Cons) and same(p.cdr.cdr, NIL):
            env[p.cdr.car] = t
            return True
        if isinstance(p.car, Cons) and p.car.car == UQS and same(p.cdr, NIL):
            env[p.car.cdr.car] = t
            return True
        return isinstance(t, Cons) and match(p.car, t.car, env) and match(p.cdr, t.cdr, env)
    if isinstance(p, Sym) and p == WILD:
        return True
    if isinstance(p, float):
        return isinstance(t, float) and p == t
    return same(p, t)


def patterns(deep):
    vs = [Sym("v"), Sym("w"), Sym("u")]
    out = [WILD, A, I(1), I(-1), "s", True, Char("c"), 1.5, NIL, lst(UQ, vs[0])]
    leaf = [WILD, A, I(1), None, NIL]  # None: a variable
    for n in (1, 2, 3):
        for xs in itertools.product(leaf, repeat=n):
            if n == 3 and not deep and xs.count(None) == 0:
                continue
            k = 0
            ys = []
            for x in xs:
                if x is None:
                    x = lst(UQ, vs[k])
                    k += 1
                ys.append(x)
            out.append(lst(*ys))
            if n < 3:
                out.append(lst(*ys, lst(UQS, Sym("r"))))
                out.append(lst(*ys, tail=lst(UQ, Sym("r"))))
                out.append(lst(*ys, tail=A))
            if n <= 2:
                out.append(lst(lst(*ys), B))
                out.append(lst(A, lst(*ys)))
                out.append(lst(A, tail=lst(lst(*ys, lst(UQS, Sym("r"))))))
    out.append(lst(lst(UQS, Sym("r"))))
    return out


def total(p):
    """Whether the pattern is one that accepts everything"""
    return same(p, WILD) or isinstance(p, Cons) and (isinstance(p.car, Sym) and p.car == UQ or isinstance(p.car, Cons) and isinstance(p.car.car, Sym) and p.car.car == UQS and same(p.cdr, NIL))


def bound(p):
    if isinstance(p, Cons):
        if p.car == UQ and isinstance(p.cdr, Cons):
            return [p.cdr.car]
        if p.car == UQS:
            return [p.cdr.car]
        return bound(p.car) + bound(p.cdr)
    return []


def matching(ctx):
    ps = patterns(ctx.thorough)
    atoms = [A, B, I(1), I(-1), I(2), "s", "a", True, False, Char("c"), 1.5, NIL]
    subs = list(atoms)
    few = [A, B, I(1), NIL]
    for n in (1, 2, 3):
        subs += [lst(*xs) for xs in itertools.product(few[:3] if n == 3 else few, repeat=n)]
    subs += [Cons(a, b) for a in few for b in few[:3]]
    subs += [lst(lst(*xs), B) for n in (1, 2) for xs in itertools.product(few[:3], repeat=n)] + [lst(A, lst(*xs)) for n in (1, 2, 3) for xs in itertools.product(few[:3], repeat=n)]
    per = 60
    for p in range(0, len(ps), per):
        part = ps[p:p + per]
        defs, st, exp = [], [], []
        for k, pt in enumerate(part):
            vs = bound(pt)
            defs.append("(function (m%d s) {(-> (Syntax Sexp) U64)} (s/match s [%s %s (put-end %d)] %s))" % (k, qtext(pt) if k % 2 else text(pt), " ".join("(dump %s)" % v for v in vs), k, "" if total(pt) else "[_ (put-num 0 #\\e) (put-end %d)]" % k))
        for j, s in enumerate(subs):
            defs.append("(function (s%d) {(-> (Syntax Sexp))} '%s)" % (j, text(s)))
        for k, pt in enumerate(part):
            for j, s in enumerate(subs):
                st.append("(m%d (s%d))" % (k, j))
                env = {}
                exp.append((k, "".join(dump(env[v]) for v in bound(pt)) if match(pt, s, env) else "e0 "))
        yield Prog("matching %d" % (p // per), functions(st, per=200, pre=IMP + "\n".join(defs) + "\n"), {}, exp, [], {k: qtext(t) for k, t in enumerate(part)})


# ---- expansion --------------------------------------------------------------------------------------------------
MAC = IMP + '''(export _)
(c-function note {(-> U64 U64)} "p25_end")
(macro (seven s) (ok '7))
(macro (steps s) (s/match s [(_ 0 ,x) (ok x)] [(_ 1 ,x) (ok `(,\\steps 0 ,x))] [(_ 2 ,x) (ok `(,\\steps 1 ,x))] [(_ 3 ,x) (ok `(,\\steps 2 ,x))] [_ (err "steps")]))
(macro (q s) (s/match s [(_ ,x) (ok `(quote ,x))] [_ (err "q")]))
(macro (twice s) (s/match s [(_ ,x) (ok `(add2 ,x ,x))] [_ (err "twice")]))
(function (hidden x) {(-> U64 U64)} (add2 x 100))
(builtin-op add2 {(-> U64 U64 U64)} "unsigned.add")
(macro (use-hidden s) (s/match s [(_ ,x) (ok `(,\\hidden ,x))] [_ (err "use-hidden")]))
(value-data Bqx (bqx U64))
(macro (the-type s) (ok '\\Bqx))
(macro (captured-type s) (ok `,\\Bqx))
(macro (mk s) (s/match s [(_ ,x) (ok `(,\\bqx ,x))] [_ (err "mk")]))
(macro (un s) (s/match s [(_ ,x) (ok `(,\\bqx ,x))] [_ (err "un")]))
(macro (clause s) (s/match s [(_ ,p ,e) (ok `(,p ,e))] [_ (err "clause")]))
(macro (declare s) (s/match s [(_ ,n ,v) (ok `(function (annotate ,n U64) ,v))] [_ (err "declare")]))
(macro (begin2 s) (s/match s [(_ ,@xs) (ok `(begin ,@xs))] [_ (err "begin2")]))
(macro (swap s) (s/match s [(_ ,a ,b) (let ([t (gensym)]) (ok `(let ([,t ,a]) (sub2 ,b ,t))))] [_ (err "swap")]))
(builtin-op sub2 {(-> U64 U64 U64)} "unsigned.sub")
(macro (fail s) (s/match s [(_ ,@_) (err "no such luck")] [_ (err "fail")]))
(macro (later s) (ok `(,\\fail)))
(value-data (Pair A) (pair A A))
(macro (pair-type s) (s/match s [(_ ,t) (ok `(,\\Pair ,t))] [_ (err "pair-type")]))
(macro (mk-pair s) (s/match s [(_ ,@xs) (ok `(,\\pair ,@xs))] [_ (err "mk-pair")]))
(class (Weight A)
  (function (weight x) {(-> A U64)}))
(instance weight-u64 (Weight U64) (function (weight x) (add2 x 1)))
(instance weight-bqx (Weight Bqx) (function (weight x) (match x [(bqx (let v)) (add2 v 2)])))
(macro (weigh s) (s/match s [(_ ,x) (ok `(,\\weight ,x))] [_ (err "weigh")]))
(macro (weighted s) (s/match s [(_ ,n ,t) (ok `(function (,n x) {(forall T) (-> ,t U64) (where (,\\Weight T))} (weigh x)))] [_ (err "weighted")]))
(macro (weight-of s) (s/match s [(_ ,n ,t ,e) (ok `(instance ,n (,\\Weight ,t) (function (weight x) ,e)))] [_ (err "weight-of")]))
(macro (ptr-of s) (s/match s [(_ ,t) (ok `(,\\Ptr ,t))] [_ (err "ptr-of")]))
'''

EXPR = [("(seven)", 7), ("(steps 0 (seven))", 7), ("(steps 3 (seven))", 7), ("(steps 1 (steps 2 5))", 5), ("(twice (seven))", 14), ("(twice (twice 1))", 4), ("(use-hidden 1)", 101), ("(steps 2 (use-hidden (twice 2)))", 104), ("(swap 1 (swap 2 9))", 6), ("(seven-too)", 7)]


def contexts():
    """(declarations, expression, value as a function of the hole's value)"""
    yield "", "@", lambda v: v
    yield "", "(add2 @ @)", lambda v: 2 * v
    yield "", "(let ([x @]) (add2 x 1))", lambda v: v + 1
    yield "", "(let ([(hidden x) 3] [twice 4]) @)", lambda v: v
    yield "", "(if #t @ 0)", lambda v: v
    yield "", "(if (eq2 @ @) 1 0)", lambda v: 1
    yield "", "(match @ [(let y) (add2 y @)])", lambda v: 2 * v
    yield "", "(match (mk @) [(un (let z)) z])", lambda v: v
    yield "", "(match 3 [2 0] [(let k) @])", lambda v: v
    yield "", "(begin 0 @)", lambda v: v
    yield "(function (g% x) {(-> U64 U64)} (add2 x @))", "(g% @)", lambda v: 2 * v
    yield "(function g% {U64} @)", "g%", lambda v: v
    yield "(declare g% @)", "(add2 g% 1)", lambda v: v + 1
    yield "", "(match (some @) [(some (let k)) (add2 k 1)] [none 0])", lambda v: v + 1
    yield "(function (g% b) {(-> (captured-type) U64)} (match b [(un (let z)) z]))", "(g% (mk @))", lambda v: v
    yield "(value-data D% (d% (captured-type)))", "(match (d% (mk @)) [(d% (un (let z))) z])", lambda v: v
    yield "(steps 2 (function g% {U64} @))", "g%", lambda v: v
    yield "(begin2 (function g% {U64} @) (function h% {U64} (add2 g% 1)))", "h%", lambda v: v + 1
    yield "", "(capture2 @)".replace("capture2 @", "add2 @ (add2 @ 1)"), lambda v: 2 * v + 1
    yield "", "(annotate @ U64)", lambda v: v
    yield "", "@{U64}", lambda v: v
    yield "", "((let ([(f x) (add2 x @)]) f) 1)", lambda v: v + 1
    yield "", "(while #f @) 5", lambda v: 5
    yield "(function (g% b) {(-> (pair-type (captured-type)) U64)} (match b [(mk-pair (un (let z)) (un (let w))) (add2 z w)]))", "(g% (mk-pair (mk @) (mk @)))", lambda v: 2 * v
    yield "(function (g% b) {(-> (pair-type (pair-type U64)) U64)} (match b [(mk-pair (mk-pair (let z) _) (mk-pair _ (let w))) (add2 z w)]))", "(g% (mk-pair (mk-pair @ 0) (mk-pair 0 @)))", lambda v: 2 * v
    yield "", "(add2 (weigh @{U64}) (weigh (mk @)))", lambda v: 2 * v + 3
    yield "(weighted w% T)", "(add2 (w% @{U64}) (w% (mk @)))", lambda v: 2 * v + 3
    yield "(value-data D% (d% U64)) (weight-of i% D% (match x [(d% (let k)) (add2 k @)]))", "(weigh (d% @))", lambda v: 2 * v
    yield "(c-function put-ptr% {(-> (ptr-of U8) U64)} \"p25_ptr\")", "(add2 @ (put-ptr% ptr:null))", lambda v: v


def expansion(ctx):
    defs, st, exp, show = [], [], [], {}
    k = 0
    for d, c, f in contexts():
        for e, v in EXPR:
            k += 1
            defs.append(d.replace("@", e).replace("%", str(k)))
            body = c.replace("@", e).replace("%", str(k))
            defs.append("(function (e%d) {(-> U64)} %s)" % (k, body))
            st.append("(put-num (e%d) #\\r) (put-end %d)" % (k, k))
            exp.append((k, "r%x " % f(v)))
            show[k] = (d + " " + c).replace("@", e)
    # arguments reach a macro unexpanded
    for a in ("(seven)", "(steps 3 (seven))", "(q (seven))", "(fail)", "(1 . (seven))", "((twice) (twice))"):
        k += 1
        st.append("(dump (q %s)) (put-end %d)" % (a, k))
        exp.append((k, dump(parse(a))))
        show[k] = "(q %s)" % a
    pre = IMP + '(import "~/mac" seven steps q twice use-hidden mk un clause declare begin2 swap captured-type pair-type mk-pair weigh weighted weight-of ptr-of weight-u64 weight-bqx)\n(import "~/mac2" seven-too)\n(import "std/memory" ptr:null)\n(builtin-op add2 {(-> U64 U64 U64)} "unsigned.add")\n(builtin-op sub2 {(-> U64 U64 U64)} "unsigned.sub")\n(builtin-op eq2 {(-> U64 U64 Bool)} "integer.eq")\n(function (hidden x) {(-> U64 U64)} 0)\n(value-data Bqx (bqx Bool))\n'
    mac2 = '(import "~/mac" seven)\n(export seven-too)\n(import "std/s" _)\n(macro (seven-too s) (ok `(,\\seven)))\n'
    yield Prog("expansion", functions(st, pre=pre + "\n".join(x for x in defs if x) + "\n"), {"mac": MAC, "mac2": mac2}, exp, [], show)


def parse(s):
    toks = re.findall(r"[()]|[^\s()]+", s)

    def one(i):
        if toks[i] == "(":
            xs, i = [], i + 1
            tail = NIL
            while toks[i] != ")":
                if toks[i] == ".":
                    tail, i = one(i + 1)
                else:
                    x, i = one(i)
                    xs.append(x)
            return lst(*xs, tail=tail), i + 1
        t = toks[i]
        return (I(int(t)) if re.fullmatch(r"-?\d+", t) else Sym(t)), i + 1
    return one(0)[0]


LISTS = r'''
(function (res r) {(-> (Result (Syntax Sexp) String) unit)} (match r [(ok (let s)) (ignore (dump s))] [(err _) (ignore (put-num 0 #\e))]))
(function (all a b) {(-> (Syntax Sexp) (Syntax Sexp) unit)}
  (res (s/reverse a)) (res (s/append a b))
  (res (s/map (lambda (x) `(,x 1)) a))
  (res (s/traverse (lambda (x) (s/match x [2 (err "two")] [_ (ok `(,x))])) a))
  (res (s/zip (lambda (x y) `(,y . ,x)) a b))
  (res (s/foldl (lambda (x y) `(,x ,y)) b a))
  (res (s/foldr (lambda (x y) `(,x ,y)) b a))
  (match (s/length a) [(ok (let n)) (ignore (put-num n #\l))] [(err _) (ignore (put-num 0 #\e))])
  (match (s/unsnoc a) [(ok (some (: (let x) (let y)))) (dump x) (ignore (dump y))] [(ok none) (ignore (put-num 0 #\z))] [(err _) (ignore (put-num 0 #\e))])
  (match (s/for-each (lambda (x) (dump x) (s/match x [2 (err "two")] [_ (ok unit)])) a) [(ok unit) unit] [(err _) (ignore (put-num 0 #\e))])
  (ignore (put-end 0)))
'''


def items(t):
    xs = []
    while isinstance(t, Cons):
        xs.append(t.car)
        t = t.cdr
    return xs, same(t, NIL)


def lists(ctx):
    el = [I(1), I(2), A]
    ls = [lst(*xs) for n in range(5 if ctx.thorough else 4) for xs in itertools.product(el, repeat=n)] + [I(5), Cons(I(1), A), lst(I(1), I(2), tail=I(1))]
    other = [NIL, lst(A), lst(I(1), I(2)), lst(A, B, X), I(9), Cons(A, B)]
    st, exp, show = [], [], {}
    for a in ls:
        for b in other:
            st.append("(all '%s '%s)" % (text(a), text(b)))
            xs, ok = items(a)
            ys, ok2 = items(b)
            e = "e0 "
            o = ""
            o += dump(lst(*reversed(xs))) if ok else e
            o += dump(lst(*xs, tail=b)) if ok else e
            o += dump(lst(*[lst(x, I(1)) for x in xs])) if ok else e
            o += dump(lst(*[lst(x) for x in xs])) if ok and not any(same(x, I(2)) for x in xs) else e
            o += dump(lst(*[Cons(y, x) for x, y in zip(xs, ys)])) if ok and ok2 and len(xs) == len(ys) else e
            acc = b
            for x in xs:
                acc = lst(acc, x)
            o += dump(acc) if ok else e
            # the fold function gets the accumulated value last
            o += dump(foldr(b, xs)) if ok else e
            o += "l%x " % len(xs) if ok else e
            o += (dump(lst(*xs[:-1])) + dump(xs[-1]) if xs else "z0 ") if ok else e
            if ok:
                for x in xs:
                    o += dump(x)
                    if same(x, I(2)):
                        o += e
                        break
            else:
                o += e
            exp.append((0, o))
    yield Prog("lists of syntax", functions(st, pre=IMP + LISTS), {}, exp, [], {0: "functions over lists"})


def foldr(a, xs):
    # (s/foldr f a (b c d)) = (f a (f b (f c d)))
    return a if not xs else lst(a, foldr(xs[0], xs[1:]))


def symbols(ctx):
    n = 3000000 if ctx.thorough else 1200000
    mac = IMP + '''(export g many)
(macro (g s) (match (gensym) [(let t (syntax (sexp:symbol (let v)))) (ok `(quote ,t))] [_ (err "g")]))
(macro (many s) (let ([(one) (match (gensym) [(syntax (sexp:symbol (let v))) (fresh v)] [_ 1])]) (let ([n (ref 0 {U64})] [bad (ref 0 {U64})])
  (while (lt? ~n 1200) (set! bad (add ~bad (one))) (set! n (add ~n 1))) (put-num ~bad #\\m) (put-end 0) (ok 'unit))))
'''.replace("IMPX", "")
    mac = mac.replace("(export g many)", '(export g many)\n(import "std/ref" _)\n(import "std/arithmetic" add)\n(import "std/ord" lt?)')
    mac2 = mac.replace("(export g many)", "(export g2 many2)").replace("(macro (g s)", "(macro (g2 s)").replace("(macro (many s)", "(macro (many2 s)")
    main = IMP + '''(import "~/mac" g many)
(import "~/mac2" g2 many2)
(import "std/ref" _)
(import "std/arithmetic" add)
(import "std/ord" lt?)
(function (check s) {(-> (Syntax Sexp) U64)} (match s [(syntax (sexp:symbol (let v))) (fresh v)] [_ 1]))
(function (gen-loop) {(-> unit)}
  (let ([n (ref 0 {U64})] [bad (ref 0 {U64})])
    (while (lt? ~n %d) (set! bad (add ~bad (check (gensym)))) (set! n (add ~n 1)))
    (put-num ~bad #\\r) (ignore (put-end 0))))
(gen-loop)
''' % n
    gs = ["(g)", "(g2)"]
    main += "(function (many-of) {(-> unit)} (many) (many2) (many) unit)\n(many-of)\n"
    # symbols generated while compiling, told apart while running (by a table of its own)
    st = " ".join("(dump %s)" % gs[k % 2] for k in range(200))
    main += "(function (compiled) {(-> unit)} %s (ignore (put-end 1)))\n(compiled)\n" % st
    yield Prog("generated symbols", main, {"mac": mac, "mac2": mac2}, [(0, "r0 "), (1, None)], [(0, "m0 ")] * 3, {0: "gensym", 1: "gensym in macros"})


def rejected(ctx):
    """Failing macros in every position: reported as errors at their use"""
    for c in ["@", "(add2 1 @)", "(let ([x @]) x)", "(if #t 1 @)", "(match 1 [(let y) @])", "(match @ [_ 1])", "(match 1 [@ 2] [_ 3])", "(begin @ 1)", "(annotate 1 @)", "(let ([(f x) @]) 1)", "(steps 2 @)", "(twice @)", "(quote2 @)".replace("quote2", "add2 2")]:
        yield "(function (f) {(-> U64)}\n %s)" % c.replace("@", "(fail 1)"), "no such luck", c.replace("@", "(fail 1)") and 2
        yield "(function (f) {(-> U64)}\n %s)" % c.replace("@", "(later)"), "no such luck", None
    yield "(fail)", "no such luck", 1
    yield "(steps 3 (fail))", "no such luck", None
    yield "(function f {(fail)} 1)", "no such luck", 1
    yield "(value-data D (d (fail)))", "no such luck", 1
    yield "(macro (mine s) (ok '1))\n(function f {U64} (mine))", "same module", 2
    yield "(function (f) {(-> U64)}\n (steps 9 1))", "steps", 2


def check(ctx):
    llrl0, so = ctx.llrl0(), ctx.shared(["p25.c"])
    c = os.path.join(VERIF, "llrl", "p25.c")
    progs = [p for g in (conversions, quasi, matching, expansion, lists, symbols) for p in g(ctx)]
    backends = [("chibi", 0), ("llvm", 0), ("llvm", 1)]
    jobs = [(p, b, o) for p in progs for b, o in backends if ctx.thorough or not o or p.name.startswith(("expansion", "conv", "quasi-quotation 0"))]

    def one(k):
        t0 = time.time()
        r = one_(k)
        if os.environ.get("P25_TIME"):
            print("%-25s %s %.1f" % (jobs[k][0].name, jobs[k][1:], time.time() - t0), r[1], flush=True)
        return r

    def one_(k):
        p, b, o = jobs[k]
        d = os.path.join(ctx.work, "p%d" % k)
        os.makedirs(d)
        for n, s in dict(p.mods, dump=DUMP, main=p.main).items():
            open(os.path.join(d, n + ".llrl"), "w").write(s)
        exe, co, ro = (os.path.join(d, x) for x in ("exe", "cout", "rout"))
        r = run([llrl0, "-b" + b] + ["-O"] * o + ["-c" + c, "-o", exe, "main"], cwd=d, timeout=600, mem_gb=0, env={"LD_PRELOAD": so, "P25_OUT": co})
        if not r.ok:
            return [("compile", "does not compile: " + r.describe())], 0
        r = run([exe], cwd=d, timeout=300, mem_gb=0, env={"P25_OUT": ro})
        if not r.ok:
            return [("run", "does not run: " + r.describe())], 0
        os.remove(exe)
        bad = []
        n = 0
        for what, f, exp in (("while compiling", co, p.comp_exp), ("while running", ro, p.run_exp)):
            got = open(f).read().split("\n")[:-1] if os.path.exists(f) else []
            lines = [l.split(": ", 1) for l in got]
            if what == "while compiling" and "gener" not in p.name:
                # functions are built in an order of their own: compared as multisets
                a = sorted("%s: %s" % (k, v) for k, v in lines)
                e = sorted("%d: %s" % x for x in exp)
                if a != e:
                    x = next((x for x in e if x not in a), None) or next((x for x in a if x not in e), "some twice")
                    bad.append(("%s/%s" % (what, x), "%s: %s, expected %s; case %s" % (what, next((y for y in a if y.split(":")[0] == x.split(":")[0] and y not in e), "nothing"), x, p.show.get(int(x.split(":")[0])) if x[0].isdigit() else "")))
                n += len(exp)
                continue
            for i, (k, v) in enumerate(exp):
                n += 1
                g = lines[i] if i < len(lines) else ["", "nothing"]
                if v is None:
                    ws = g[1].split()
                    if len(set(ws)) != len(ws) or len(ws) != 200:
                        bad.append(("%s/unique" % what, "symbols generated by macros are the same"))
                    continue
                if g != [str(k), v]:
                    bad.append(("%s/%d/%s" % (what, k, p.show.get(k)), "%s: case %s gives %s instead of %s" % (what, p.show.get(k), g[1], v)))
                    if len(bad) > 4:
                        break
        return bad, n

    parts = {}
    with ThreadPoolExecutor(8) as ex:
        for (p, b, o), (bad, n) in zip(jobs, ex.map(one, range(len(jobs)))):
            where = b + " -O" * o
            for key, what in bad:
                ctx.violation("%s/%s/%s" % (p.name, key, where), "%s on %s: %s" % (p.name, where, what[:1500]), {"program": p.name, "backend": where, "what": what})
            name = p.name.rstrip("0123456789 ")
            parts[name] = parts.get(name, 0) + n
    for name, n in parts.items():
        ctx.part(name, states=n, transitions=n, traces_validated_against_impl=n)

    rej = [(t, m, l, b) for t, m, l in rejected(ctx) for b in ("chibi", "llvm")]

    def reject(k):
        t, m, line, b = rej[k]
        d = os.path.join(ctx.work, "x%d" % k)
        os.makedirs(d)
        pre = '(import "~/mac" fail later steps twice) (builtin-op add2 {(-> U64 U64 U64)} "unsigned.add")\n'
        for n, s in dict(mac=MAC, dump=DUMP, main=pre + t).items():
            open(os.path.join(d, n + ".llrl"), "w").write(s)
        r = run([llrl0, "-b" + b, "-o", "exe", "main"], cwd=d, timeout=100, mem_gb=0, env={"LD_PRELOAD": so, "P25_OUT": os.path.join(d, "out")})
        err = r.err.decode("utf-8", "replace")
        if r.rc != 1 or m not in err or os.path.exists(os.path.join(d, "exe")):
            return "is not reported: " + r.describe()
        if line is not None:
            src = (pre + t).split("\n")
            loc = re.search(r"~/main:(\d+):(\d+)", err)
            if not loc or int(loc[1]) != line + 1:
                return "is not reported at its use: " + err[:300]
            col = src[line].find("(fail") if "(fail" in src[line] else src[line].find("(steps 9") if "(steps 9" in src[line] else None
            if col is not None and int(loc[2]) != col + 1:
                return "is reported at column %s instead of %d: %s" % (loc[2], col + 1, err[:300])

    with ThreadPoolExecutor(8) as ex:
        for (t, m, l, b), bad in zip(rej, ex.map(reject, range(len(rej)))):
            if bad:
                ctx.violation("failing/%s/%s" % (t, b), "a failing macro in %s (%s) %s" % (t, b, bad), {"program": t})
    ctx.part("failing macros", states=len(rej), transitions=len(rej), traces_validated_against_impl=len(rej))
    ctx.assumptions.append("nested quasi-quotation is set aside (documented as not supported), as are symbols a program itself makes up in the form of generated ones")
