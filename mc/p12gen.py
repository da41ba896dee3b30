"""The programs of P12: every expression of a small typed language up to a number of nodes, its text in llrl, and a
reference interpreter that says what it does for every sequence of answers its conditions can get."""

# V-expressions: ('t') effect with a value, ('v', i) variable, ('get', r) cell, ('ret', e), ('call', g, e) direct call of a
# local function, ('app', g, e) call through a closure value, ('lam', e, x) call of an anonymous function, ('h', a, b) C
# call, ('p', a, b) call of a top-level function, ('f', a, b) the same through a variable computed by an effect,
# ('seq', a, b), ('let', a, b), ('let2', a, b, c), ('cell', a, b), ('put', r, a, b), ('tup', a, b, c), ('fun', body, rest),
# ('rec', a, b, c), ('mut', a, b, c), ('if', c, a, b), ('while', c, a, b)
# B-expressions: ('b'), ('not', b), ('and', a, b), ('or', a, b)


def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for rest in splits(n - i, k - 1):
            yield (i,) + rest


_memo = {}


def vexprs(n, nv, nr, nf):
    """V-expressions of n nodes with nv variables, nr cells and nf local functions in scope"""
    key = (n, nv, nr, nf)
    if key in _memo:
        return _memo[key]
    out = []
    V, B = vexprs, bexprs
    if n == 1:
        out.append(("t",))
        out += [("v", i) for i in range(nv)]
        out += [("get", i) for i in range(nr)]
    if n >= 2:
        for e in V(n - 1, nv, nr, nf):
            out.append(("ret", e))
            for g in range(nf):
                out.append(("call", g, e))
                out.append(("app", g, e))
    if n >= 3:
        for i, j in splits(n - 1, 2):
            L = V(i, nv, nr, nf)
            R = V(j, nv, nr, nf)
            for op in ("h", "p", "f", "seq"):
                out += [(op, a, b) for a in L for b in R]
            out += [("let", a, b) for a in L for b in V(j, nv + 1, nr, nf)]
            out += [("cell", a, b) for a in L for b in V(j, nv, nr + 1, nf)]
            out += [("lam", a, b) for a in V(i, nv + 1, nr, 0) for b in R]
            out += [("fun", a, b) for a in V(i, nv + 1, nr, nf) for b in V(j, nv, nr, nf + 1)]
            out += [("put", r, a, b) for r in range(nr) for a in L for b in R]
    if n >= 4:
        for i, j, k in splits(n - 1, 3):
            L, R = V(i, nv, nr, nf), V(j, nv, nr, nf)
            C = B(i, nv, nr, nf)
            out += [("let2", a, b, c) for a in L for b in R for c in V(k, nv + 2, nr, nf)]
            out += [("tup", a, b, c) for a in L for b in R for c in V(k, nv + 2, nr, nf)]
            out += [(op, c, a, b) for op in ("if", "while") for c in C for a in R for b in V(k, nv, nr, nf)]
            out += [("rec", a, b, c) for a in V(i, nv + 1, nr, nf + 1) for b in V(j, nv + 1, nr, nf) for c in V(k, nv, nr, nf + 1)]
            out += [("mut", a, b, c) for a in V(i, nv + 1, nr, nf + 1) for b in V(j, nv + 1, nr, nf + 1) for c in V(k, nv, nr, nf + 2)]
    _memo[key] = out
    return out


_bmemo = {}


def bexprs(n, nv, nr, nf):
    key = (n, nv, nr, nf)
    if key in _bmemo:
        return _bmemo[key]
    out = []
    if n == 1:
        out.append(("b",))
    if n >= 2:
        out += [("not", e) for e in bexprs(n - 1, nv, nr, nf)]
        out += [("eff", e) for e in vexprs(n - 1, nv, nr, nf) if e[0] in ("ret", "h", "call", "t")]
    if n >= 3:
        for i, j in splits(n - 1, 2):
            for op in ("and", "or"):
                out += [(op, a, b) for a in bexprs(i, nv, nr, nf) for b in bexprs(j, nv, nr, nf)]
    _bmemo[key] = out
    return out


def label(e, k):
    """e with its effects numbered from k; returns (e, next number)"""
    op = e[0]
    if op in ("t", "b"):
        return (op, k), k + 1
    if op in ("f", "rec", "eff"):
        own, k = k, k + 1
    if op == "mut":
        own, k = k, k + 2
    out = [op]
    for x in e[1:]:
        if isinstance(x, tuple):
            x, k = label(x, k)
        out.append(x)
    if op in ("f", "rec", "mut", "eff"):
        out.append(own)
    return tuple(out), k


def text(e, vs, rs, fs, ty, n=0):
    """llrl source; vs, rs, fs are the names in scope"""
    op = e[0]
    T = lambda x, v=vs, r=rs, f=fs: text(x, v, r, f, ty)
    new = lambda p, s: p + str(len(s))
    if op == "t":
        return "(t %d)" % e[1]
    if op == "b":
        return "(b %d)" % e[1]
    if op == "v":
        return vs[e[1]]
    if op == "get":
        return "(ptr/load (ref/ptr %s))" % rs[e[1]]
    if op == "ret":
        return "(return %s)" % T(e[1])
    if op == "call":
        return "(%s %s)" % (fs[e[1]], T(e[2]))
    if op == "app":
        return "(ap %s %s)" % (fs[e[1]], T(e[2]))
    if op == "lam":
        x = new("x", vs)
        return "((let ([(l %s) {(-> %s %s)} %s]) l) %s)" % (x, ty, ty, text(e[1], vs + [x], rs, [], ty), T(e[2]))
    if op == "h":
        return "(h %s %s)" % (T(e[1]), T(e[2]))
    if op == "p":
        return "(p %s %s)" % (T(e[1]), T(e[2]))
    if op == "f":
        return "((pick %d) %s %s)" % (e[3], T(e[1]), T(e[2]))
    if op == "seq":
        return "(begin %s %s)" % (T(e[1]), T(e[2]))
    if op == "let":
        x = new("x", vs)
        return "(let ([%s %s]) %s)" % (x, T(e[1]), T(e[2], vs + [x]))
    if op == "cell":
        r = new("r", rs)
        return "(let ([%s (ref %s)]) %s)" % (r, T(e[1]), T(e[2], vs, rs + [r]))
    if op == "put":
        return "(begin (ptr/store! %s (ref/ptr %s)) %s)" % (T(e[2]), rs[e[1]], T(e[3]))
    if op == "let2":
        x, y = new("x", vs), new("x", vs) + "b"
        return "(let ([%s %s] [%s %s]) %s)" % (x, T(e[1]), y, T(e[2]), T(e[3], vs + [x, y]))
    if op == "tup":
        x, y = new("x", vs), new("x", vs) + "b"
        return "(match (: %s %s) [(: (let %s) (let %s)) %s])" % (T(e[1]), T(e[2]), x, y, T(e[3], vs + [x, y]))
    if op == "fun":
        g, x = new("g", fs), new("x", vs)
        return "(let ([(%s %s) {(-> %s %s)} %s]) %s)" % (g, x, ty, ty, text(e[1], vs + [x], rs, fs, ty), T(e[2], vs, rs, fs + [g]))
    if op == "rec":
        g, x = new("g", fs), new("x", vs)
        return "(let ([(%s %s) {(-> %s %s)} (if (b %d) %s %s)]) %s)" % (g, x, ty, ty, e[4], T(e[1], vs + [x], rs, fs + [g]), T(e[2], vs + [x]), T(e[3], vs, rs, fs + [g]))
    if op == "mut":
        g, k, x = new("g", fs), new("g", fs) + "b", new("x", vs)
        return "(let ([(%s %s) (if (b %d) %s %s)] [(%s %s) (if (b %d) %s %s)]) %s)" % (
            g, x, e[4], T(e[1], vs + [x], rs, fs + [k]), x, k, x, e[4] + 1, T(e[2], vs + [x], rs, fs + [g]), x, T(e[3], vs, rs, fs + [g, k]))
    if op == "if":
        return "(if %s %s %s)" % (T(e[1]), T(e[2]), T(e[3]))
    if op == "while":
        return "(begin (while %s %s) %s)" % (T(e[1]), T(e[2]), T(e[3]))
    if op == "not":
        return "(not %s)" % T(e[1])
    if op == "eff":
        return "(begin %s (b %d))" % (T(e[1]), e[2])
    return "(%s %s %s)" % (op, T(e[1]), T(e[2]))


class Return(Exception):
    pass


class TooLong(Exception):
    pass


M64 = (1 << 64) - 1


def mix(a, b):
    return (a * 7 + b * 3 + 1) % 101


class Interp:
    def __init__(self, e, depth, limit=300):
        self.e, self.depth, self.limit = e, depth, limit

    def run(self, tape):
        self.tape, self.pos, self.ev, self.steps = tape, 0, [], 0
        try:
            r = self.ev_(self.e, [7], [], [])
        except Return as x:
            r = x.args[0]
        self.ev.append((3, r))
        return self.ev, self.pos

    def bit(self, k):
        v = self.tape[self.pos] if self.pos < len(self.tape) else 0
        self.pos += 1
        self.ev.append((1, k))
        return v

    def call(self, g, x):
        self.steps += 1
        try:
            return g(x)
        except Return as r:
            return r.args[0]

    def ev_(self, e, vs, rs, fs):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        E = self.ev_
        op = e[0]
        if op == "t":
            self.ev.append((0, e[1]))
            return e[1] % 101
        if op == "v":
            return vs[e[1]]
        if op == "get":
            return rs[e[1]][0]
        if op == "ret":
            raise Return(E(e[1], vs, rs, fs))
        if op in ("call", "app"):
            return self.call(fs[e[1]], E(e[2], vs, rs, fs))
        if op == "lam":
            x = E(e[2], vs, rs, fs)
            return self.call(lambda v: E(e[1], vs + [v], rs, []), x)
        if op in ("h", "p", "f"):
            a = E(e[1], vs, rs, fs)
            b = E(e[2], vs, rs, fs)
            if op == "f":
                self.ev.append((0, e[3]))
            if op != "h":
                a, b = b, a
            self.ev.append((2, a * 101 + b))
            return mix(a, b)
        if op == "seq":
            E(e[1], vs, rs, fs)
            return E(e[2], vs, rs, fs)
        if op == "let":
            return E(e[2], vs + [E(e[1], vs, rs, fs)], rs, fs)
        if op == "cell":
            return E(e[2], vs, rs + [[E(e[1], vs, rs, fs)]], fs)
        if op == "put":
            rs[e[1]][0] = E(e[2], vs, rs, fs)
            return E(e[3], vs, rs, fs)
        if op in ("let2", "tup"):
            a = E(e[1], vs, rs, fs)
            b = E(e[2], vs, rs, fs)
            return E(e[3], vs + [a, b], rs, fs)
        if op == "fun":
            return E(e[2], vs, rs, fs + [lambda x: E(e[1], vs + [x], rs, fs)])
        if op == "rec":
            def g(x):
                if self.bit(e[4]):
                    return E(e[1], vs + [x], rs, fs + [g])
                return E(e[2], vs + [x], rs, fs)
            return E(e[3], vs, rs, fs + [g])
        if op == "mut":
            def g1(x):
                return E(e[1], vs + [x], rs, fs + [g2]) if self.bit(e[4]) else x
            def g2(x):
                return E(e[2], vs + [x], rs, fs + [g1]) if self.bit(e[4] + 1) else x
            return E(e[3], vs, rs, fs + [g1, g2])
        if op == "if":
            return E(e[2] if self.B(e[1], vs, rs, fs) else e[3], vs, rs, fs)
        if op == "while":
            while self.B(e[1], vs, rs, fs):
                E(e[2], vs, rs, fs)
            return E(e[3], vs, rs, fs)
        raise AssertionError(op)

    def B(self, e, vs, rs, fs):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        op = e[0]
        if op == "b":
            return self.bit(e[1])
        if op == "not":
            return not self.B(e[1], vs, rs, fs)
        if op == "eff":
            self.ev_(e[1], vs, rs, fs)
            return self.bit(e[2])
        if op == "and":
            return self.B(e[1], vs, rs, fs) and self.B(e[2], vs, rs, fs)
        return self.B(e[1], vs, rs, fs) or self.B(e[2], vs, rs, fs)


def runs(e, depth):
    """[(tape, events)] of every sequence of answers, branching on the first `depth` answers; None if one does not end."""
    out, it, tape = [], Interp(e, depth), []
    while True:
        try:
            ev, used = it.run(tape)
        except (TooLong, RecursionError):
            return None
        tape = tape[:used] + [0] * (min(used, depth) - len(tape))
        out.append((tape, ev))
        while tape and tape[-1] == 1:
            tape.pop()
        if not tape:
            return out
        tape[-1] = 1


def digest(rs):
    h = 0xcbf29ce484222325
    for tape, ev in rs:
        for k, v in ev:
            h = ((h ^ (k * 65536 + v)) * 0x100000001b3) & M64
    return h


# Larger shapes around captured state, recursion and loops; H marks a hole.
H = ("H",)
SKELETONS = [
    # a cell shared by a closure and its surroundings
    ("cell", ("t",), ("fun", ("put", 0, H, H), ("seq", ("call", 0, H), H))),
    ("cell", H, ("fun", ("put", 0, ("h", ("get", 0), H), H), ("seq", ("app", 0, H), ("h", ("call", 0, H), ("get", 0))))),
    ("cell", ("t",), ("seq", ("put", 0, H, H), H)),
    # two closures over different variables
    ("let", H, ("fun", H, ("let", H, ("fun", H, ("h", ("app", 0, H), ("app", 1, H)))))),
    ("let2", H, H, ("fun", ("fun", H, ("app", 0, H)), ("app", 0, H))),
    ("fun", ("lam", H, H), ("p", ("call", 0, H), ("app", 0, H))),
    # loops over a cell
    ("cell", H, ("while", ("b",), ("put", 0, ("h", ("get", 0), H), H), H)),
    ("cell", ("t",), ("while", ("and", ("b",), ("b",)), ("if", ("b",), ("ret", H), ("put", 0, H, H)), H)),
    ("while", ("b",), ("let", H, ("while", ("b",), H, H)), H),
    ("while", ("b",), ("cell", H, ("fun", ("put", 0, H, H), ("seq", ("app", 0, H), ("get", 0)))), H),
    # recursion, direct and through closures
    ("rec", ("h", ("call", 0, H), H), H, ("call", 0, H)),
    ("rec", ("app", 0, H), H, ("p", ("call", 0, H), ("app", 0, H))),
    ("let", H, ("rec", ("call", 0, ("h", H, H)), H, ("app", 0, H))),
    ("mut", ("call", 0, H), ("app", 0, H), ("h", ("call", 0, H), ("app", 1, H))),
    ("cell", H, ("mut", ("put", 0, H, ("call", 0, H)), ("call", 0, H), ("seq", ("app", 1, H), ("get", 0)))),
    # early exits in the middle of evaluating operands
    ("h", ("h", H, ("if", ("b",), ("ret", H), H)), H),
    ("f", H, ("p", H, ("if", ("b",), H, ("ret", H)))),
    ("h", H, ("while", ("b",), ("h", H, ("ret", H)), H)),
    ("let", ("fun", ("if", ("b",), ("ret", H), H), ("h", ("call", 0, H), ("app", 0, H))), ("h", H, H)),
    ("tup", H, ("if", ("b",), ("ret", H), H), ("h", H, H)),
    # conditions
    ("if", ("or", ("and", ("b",), ("b",)), ("not", ("b",))), H, H),
    ("if", ("and", ("not", ("b",)), ("or", ("b",), ("eff", ("ret", H)))), H, H),
    ("h", ("if", ("b",), H, H), ("if", ("b",), H, H)),
    ("if", ("b",), ("if", ("b",), H, H), ("if", ("b",), H, H)),
    ("h", ("h", H, ("h", H, H)), ("h", ("h", H, H), H)),
    ("p", ("h", ("p", H, H), ("p", H, H)), ("h", ("p", H, H), ("p", H, H))),
]


def _count(e):
    return 1 if e == H else sum(_count(x) for x in e[1:] if isinstance(x, tuple))


def skeletons(limit_small):
    """Every skeleton with every hole filled: all combinations of one-node fillings when there are few of them, else one
    hole at a time varies; and each hole in turn with two- and three-node fillings while the others are effects."""
    out = []
    for s in SKELETONS:
        full = fill_one(s, None)
        if count_full(s) <= limit_small:
            out += fill_one(s, "all")
        else:
            out += full
        for i in range(_count(s)):
            out += fill_one(s, i)
    return list(dict.fromkeys(out))


def count_full(s):
    n = [1]

    def walk(e, nv, nr, nf):
        if e == H:
            n[0] *= len(vexprs(1, nv, nr, nf))
            return
        for i, x in enumerate(e):
            if isinstance(x, tuple):
                dv, dr, df = scope(e, i)
                walk(x, nv + dv, nr + dr, 0 if e[0] == "lam" and i == 1 else nf + df)
    walk(s, 1, 0, 0)
    return n[0]


def scope(e, i):
    """what child i of e has in scope on top of e: variables, cells, functions"""
    op = e[0]
    if op == "let":
        return (1, 0, 0) if i == 2 else (0, 0, 0)
    if op in ("let2", "tup"):
        return (2, 0, 0) if i == 3 else (0, 0, 0)
    if op == "cell":
        return (0, 1, 0) if i == 2 else (0, 0, 0)
    if op == "fun":
        return (1, 0, 0) if i == 1 else (0, 0, 1)
    if op == "rec":
        return [(1, 0, 1), (1, 0, 0), (0, 0, 1)][i - 1]
    if op == "mut":
        return [(1, 0, 1), (1, 0, 1), (0, 0, 2)][i - 1]
    if op == "lam":
        return (1, 0, 0) if i == 1 else (0, 0, 0)
    return (0, 0, 0)


def fill_one(s, big):
    """The fillings of s: every combination of one-node ones ("all"), or effects everywhere except in one hole: any
    hole, with one-node fillings (None), or hole `big`, with two- and three-node ones."""
    res = []

    def walk(e, nv, nr, nf, pick, counter):
        if e == H:
            i = counter[0]
            counter[0] += 1
            if i != pick and big != "all":
                return [("t",)]
            return vexprs(1, nv, nr, nf) if big in (None, "all") else vexprs(2, nv, nr, nf) + vexprs(3, nv, nr, nf)
        outs = [e]
        for i, x in enumerate(e):
            if isinstance(x, tuple):
                dv, dr, df = scope(e, i)
                f = walk(x, nv + dv, nr + dr, 0 if e[0] == "lam" and i == 1 else nf + df, pick, counter)
                outs = [o[:i] + (y,) + o[i + 1:] for o in outs for y in f]
        return outs
    for pick in (range(_count(s)) if big is None else [big]):
        res += walk(s, 1, 0, 0, pick, [0])
    return res
