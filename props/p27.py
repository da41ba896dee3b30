import itertools, os, shutil
from concurrent.futures import ThreadPoolExecutor
from mc.common import VERIF, run

LEVEL = "exhaustive"
CORE = '(no-implicit-std)\n(import "builtin" _)\n'
NOTE = '(c-function note {(-> I32 I32)} "cli_note")\n'
PROBE = '(c-function probe {(-> I32 I32)} "cli_probe")\n'
ARGS = ["", "a", "-r", "--", "-o", "x y", "\u00e9", "*", "$HOME", "'", "a" * 300, "\\", "\n"]


def fnv(b):
    h = 14695981039346656037
    for c in b:
        h = (h ^ c) * 1099511628211 & (1 << 64) - 1
    return "i%d %016x" % (len(b), h)


class Sandbox:
    """One run of the tool in a directory of its own"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = ctx.llrl0()
        self.so = ctx.shared(["cli.c"])
        self.obj = os.path.join(ctx.work, "cli.o")
        r = run(["clang", "-O2", "-c", "-o", self.obj, os.path.join(VERIF, "llrl", "cli.c")], mem_gb=0)
        assert r.ok, r.describe()

    def go(self, k, files, args, stdin=b"", out=None, before=None, link=True, env=None, dirs=()):
        d = os.path.join(self.ctx.work, "r%d" % k)
        os.makedirs(os.path.join(d, "w"))
        os.makedirs(os.path.join(d, "tmp"))
        for x in dirs:
            os.makedirs(os.path.join(d, "w", x))
        for n, s in files.items():
            p = os.path.join(d, "w", n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(s if isinstance(s, bytes) else s.encode())
            if n.startswith("bin/"):
                os.chmod(p, 0o755)
        runs = os.path.join(d, "runs")
        o = None if out is None else os.path.join(d, "w", out.replace("$W", os.path.join(d, "w")))
        if before is not None:
            open(o, "wb").write(before)
        e = {"LD_PRELOAD": self.so, "MC_RUNS": runs, "TMPDIR": os.path.join(d, "tmp")}
        e.update({x: y.replace("$W", os.path.join(d, "w")) for x, y in (env or {}).items()})
        args = [a.replace("$W", os.path.join(d, "w")) for a in args]
        cmd = [self.exe] + (["-c" + self.obj] if link else []) + args
        r = run(cmd, cwd=os.path.join(d, "w"), env=e, stdin=stdin, timeout=120, mem_gb=0)
        r.runs = [int(x) for x in open(runs).read().split()] if os.path.exists(runs) else []
        r.out_file = None
        if o is not None and os.path.isfile(o):
            r.out_file = open(o, "rb").read()
        r.direct = None
        if o is not None and r.ok and r.out_file is not None and os.access(o, os.X_OK):
            if os.path.exists(runs):
                os.remove(runs)
            r.direct = run([o] + self.direct_args, env=e, stdin=stdin, timeout=60, mem_gb=0)
            r.direct.runs = [int(x) for x in open(runs).read().split()] if os.path.exists(runs) else []
        shutil.rmtree(d)
        return r

    direct_args = ["q", ""]


def status(k):
    """The statuses that report outcome k of a program"""
    return {k} if k < 256 else {256 - k, 128 + k - 256}


def show(r):
    return r.describe()


def said(r, args, stdin):
    exp = "".join("a%s\n" % a.encode().hex() for a in args) + fnv(stdin) + "\n"
    return r.out.decode("utf-8", "replace") == exp


def products(ctx):
    """Options x arguments x outcomes of a valid program"""
    outcomes = [0, 3, 255, 256 + 6, 256 + 9, 256 + 15] if ctx.thorough else [0, 3, 256 + 9]
    outs = [None, "out", "$W/abs", "sub/o ut"] if ctx.thorough else [None, "out", "$W/abs"]
    arglists = [None, ["a", "-r", "--", ""], ["x"]] if ctx.thorough else [None, ["a", "-r", "--", ""]]
    for b, opt, v, rn, out, args, k in itertools.product([None, "default", "llvm", "chibi"], [0, 1], [0, 1], [0, 1], outs, arglists, outcomes):
        running = rn or args or out is None
        if not running and k != 3:
            continue
        if not ctx.thorough and (b in (None, "default")) and (opt or v or k == 0):
            continue
        long = (opt + v + rn + (k == 3)) % 2 == 1
        a = []
        if b:
            a += ["--backend=" + b] if long else ["-b", b]
        if long:
            a += ["--optimize"] * opt + ["--verbose"] * v + ["--run"] * rn
            if out:
                a += ["--output", out]
            a.append("m")
        else:
            a.append("m")
            if opt or v or rn:
                a.append("-" + "O" * opt + "v" * v + "r" * rn)
            if out:
                a += ["-o", out]
        if args is not None:
            a += ["--"] + args
        yield dict(files={"m.llrl": CORE + NOTE + PROBE + "(note 7)\n(probe %d)\n" % k}, args=a, out=out, dirs=["sub"], stdin=b"in\0put\n"), dict(k=k, running=running, run_args=args or [], verbose=v)


def check_product(r, c, e):
    k = e["k"]
    if e["running"]:
        if r.rc not in status(k):
            return "the program ends with %s, the compiler with %s" % ("status %d" % k if k < 256 else "signal %d" % (k - 256), show(r))
        if r.runs != [7, 1000 + k]:
            return "the program is not run exactly once: %s, %s" % (r.runs, show(r))
        if not said(r, e["run_args"], c["stdin"]):
            return "the program does not get its arguments and input, or its output is changed: %s" % show(r)
        if ("e%d\n" % k).encode() not in r.err:
            return "what the program writes to stderr is lost: %s" % show(r)
        if not e["verbose"] and r.err != ("e%d\n" % k).encode():
            return "something else is written to stderr: %s" % show(r)
    else:
        if not r.ok:
            return "compiling does not succeed: %s" % show(r)
        if r.runs or r.out:
            return "the program is run without being asked to: %s" % show(r)
    if c["out"] is not None:
        if r.out_file is None:
            return "no output file is written: %s" % show(r)
        if r.ok:
            d = r.direct
            if d is None:
                return "the output file is not executable"
            if d.rc not in status(k) or d.runs != [7, 1000 + k] or not said(d, Sandbox.direct_args, c["stdin"]):
                return "the output file, when run, does %s" % show(d)


GOOD = CORE + NOTE + "(note 7)\n"


def faults(ctx):
    """Everything that can go wrong x how the result is asked for"""
    good = {"m.llrl": GOOD}
    bad = [
        ("no such module", {}, ["m"], {}),
        ("no such imported module", {"m.llrl": CORE + '(import "~/x" _)\n'}, ["m"], {}),
        ("no such package", {"m.llrl": CORE + '(import "pk/x" _)\n'}, ["m"], {}),
        ("imports itself", {"m.llrl": CORE + '(import "~/m" _)\n'}, ["m"], {}),
        ("imports in a circle", {"m.llrl": CORE + '(import "~/n")\n', "n.llrl": CORE + '(import "~/m")\n'}, ["m"], {}),
        ("unclosed parenthesis", {"m.llrl": GOOD + "(note 8"}, ["m"], {}),
        ("bad token", {"m.llrl": GOOD + "(note #q)"}, ["m"], {}),
        ("not UTF-8", {"m.llrl": GOOD.encode() + b"; \xff\n"}, ["m"], {}),
        ("bad directive", {"m.llrl": GOOD + "($nothing)"}, ["m"], {}),
        ("bad syntax", {"m.llrl": GOOD + "(function)"}, ["m"], {}),
        ("unknown name", {"m.llrl": GOOD + "(nope 1)"}, ["m"], {}),
        ("unknown import", {"m.llrl": GOOD + '(import "builtin" nope)'}, ["m"], {}),
        ("unknown export", {"m.llrl": GOOD + "(export nope)"}, ["m"], {}),
        ("declared twice", {"m.llrl": GOOD + "(function (f) {(-> I32)} 1)\n(function (f) {(-> I32)} 1)"}, ["m"], {}),
        ("wrong type", {"m.llrl": GOOD + '(note "a")'}, ["m"], {}),
        ("wrong kind", {"m.llrl": GOOD + "(function (f x) {(-> (I32 I32) I32)} 1)"}, ["m"], {}),
        ("no instance", {"m.llrl": GOOD + "(class C (C A) (function c {(-> A I32)}))\n(note (c 1))"}, ["m"], {}),
        ("not exhaustive", {"m.llrl": GOOD + "(note (match 1 [1 1]))"}, ["m"], {}),
        ("error in an import", {"m.llrl": GOOD + '(import "~/n" f)\n(note f)', "n.llrl": CORE + "(export f)\n(function f {I32} nope)"}, ["m"], {}),
        ("second entry is missing", good, ["m", "n"], {}),
        ("second entry is wrong", dict(good, **{"n.llrl": GOOD + "(nope)"}), ["m", "n"], {}),
        ("second entry is not parsed", dict(good, **{"n.llrl": GOOD + "("}), ["m", "n"], {}),
        ("failing macro", {"m.llrl": GOOD + '(import "~/n" x)\n(note (x))', "n.llrl": CORE + '(export x)\n(macro (x s) (err "no such thing"))'}, ["m"], {}),
        ("failing linker", good, ["m", "-c-lnothing-of-this-name"], {}),
        ("unknown option of clang", good, ["m", "-c--no-such-option"], {}),
        ("clang is missing", good, ["m"], dict(env={"PATH": "/nonexistent"})),
        ("clang fails", dict(good, **{"bin/clang": "#!/bin/sh\nexit 3\n"}), ["m"], dict(env={"PATH": "$W/bin:/usr/bin:/bin"})),
        ("clang is killed", dict(good, **{"bin/clang": "#!/bin/sh\nkill -9 $$\n"}), ["m"], dict(env={"PATH": "$W/bin:/usr/bin:/bin"})),
        ("package registered twice", dict(good, **{"a/x.llrl": GOOD}), ["m", "-pa", "-pa"], {}),
        ("package named twice", dict(good, **{"a/x.llrl": GOOD, "b/x.llrl": GOOD}), ["m", "-pa:a", "-pa:b"], {}),
        ("package std", dict(good, **{"a/x.llrl": GOOD}), ["m", "-pstd:a"], {}),
        ("package builtin", dict(good, **{"a/x.llrl": GOOD}), ["m", "-pbuiltin:a"], {}),
        ("package with three parts", dict(good, **{"a/x.llrl": GOOD}), ["m", "-pa:b:c"], {}),
        ("package with a slash", dict(good, **{"a/x.llrl": GOOD}), ["m", "-pa/b:a"], {}),
        ("package with a dot for a name", dict(good, **{"a/x.llrl": GOOD}), ["m", "-p.:a"], {}),
        ("package with dots for a name", dict(good, **{"a/x.llrl": GOOD}), ["m", "-p..:a"], {}),
        ("package named as the current one", dict(good, **{"a/x.llrl": GOOD}), ["m", "-p~:a"], {}),
        ("package with an empty name", dict(good, **{"a/x.llrl": GOOD}), ["m", "-p:a"], {}),
        ("entry outside", {"../m.llrl": GOOD}, ["../m"], {}),
        ("absolute entry", good, ["$W/m"], {}),
        ("empty entry", good, [""], {}),
        ("no entry", good, [], {}),
        ("unknown backend", good, ["m", "-bgcc"], {}),
        ("backend without a name", good, ["m", "-b"], {}),
        ("two backends", good, ["m", "-bllvm", "-bchibi"], {}),
        ("unknown option", good, ["m", "--wrong"], {}),
        ("unknown short option", good, ["m", "-z"], {}),
    ]
    for name, files, args, o in bad:
        for b in ("chibi", "llvm"):
            if "-bgcc" in args or "-b" in args or "-bllvm" in args:
                bs = []
            else:
                bs = ["-b" + b]
            for how in range(4):
                pre = [[], ["-r"], ["-o", "out"], ["-r", "-o", "out"]][how]
                tail = ["--", "x"] if how == 1 else []
                for before in ((None, b"#!/bin/sh\nexit 0\n") if how >= 2 else (None,)):
                    env = dict(o.get("env", {}))
                    c = dict(files=files, args=bs + pre + args + tail, out="out" if how >= 2 else None, before=before, env=env)
                    yield c, name
    # where the result cannot be written
    for b in ("chibi", "llvm"):
        for rn in ([], ["-r"]):
            for out, name in (("no/out", "output in a missing directory"), ("sub", "output is a directory"), ("m.llrl/out", "output below a file")):
                yield dict(files=good, args=["-b" + b] + rn + ["-o", out, "m"], out=out, dirs=["sub"]), name
            yield dict(files=good, args=["-b" + b] + rn + ["m"], out=None, env={"TMPDIR": "/nonexistent"}), "no directory for temporary files"


def check_fault(r, c, name):
    if r.timeout or r.rc == 0:
        return "%s, and yet the compiler does not fail: %s" % (name, show(r))
    if not r.err:
        return "%s, and no error is reported: %s" % (name, show(r))
    if r.runs:
        return "%s, and yet something is run" % name
    if r.out_file is not None and r.out_file != c.get("before"):
        return "%s, and yet an output file of %d bytes is there" % (name, len(r.out_file))


def meanings(ctx):
    """Features, packages and entries: which modules are executed in which form"""
    feats = ["f", "g", "h-1"]
    body = CORE + NOTE + "(note 1)\n" + "".join("($when ($feature \"%s\") (note %d))\n($when ($not ($feature \"%s\")) (note %d))\n" % (f, 10 + i, f, 20 + i) for i, f in enumerate(feats))
    use = body + '(import "pk/x" _)\n'
    for n in range(4):
        for fs in itertools.product(feats + ["F"], repeat=n):
            if n == 3 and not ctx.thorough and len(set(fs)) == 3:
                continue
            exp = [10 + i if f in fs else 20 + i for i, f in enumerate(feats)]
            a = []
            for i, f in enumerate(fs):
                a += [["-f", f], ["-f" + f], ["--feature", f]][(i + n) % 3]
            yield dict(files={"m.llrl": use, "pk/x.llrl": body.replace("(note 1)", "(note 2)")}, args=["-r"] + a + ["m", "-p", "pk"]), [[2] + exp + [1] + exp]
    # packages
    x = lambda k: CORE + NOTE + "(export f%d)\n(function f%d {I32} %d)\n(note %d)\n" % (k, k, k, k)
    for names in (["a"], ["b"], ["a", "b"], ["b", "a"]):
        for form in range(6):
            fs = {"m.llrl": CORE + NOTE + "".join('(import "%s/x" f%d)\n(import "%s/sub/y")\n(import "%s")\n' % (n, 100 if n == "a" else 200, n, n) for n in names) + "(note 1)\n" + "".join("(note f%d)\n" % (100 if n == "a" else 200) for n in names)}
            a, exp = [], []
            for n in names:
                k = 100 if n == "a" else 200
                dirn = ["$1", "d/$1", "$1", "other-$1", "d/other-$1", "$1/"][form].replace("$1", n)
                fs[dirn.rstrip("/") + "/x.llrl"] = x(k)
                fs[dirn.rstrip("/") + "/sub/y.llrl"] = x(k + 1) + '(import "~/x" f%d)\n' % k
                fs[dirn.rstrip("/") + "/prelude.llrl"] = x(k + 2) + '(import "~/sub/y" f%d)\n' % (k + 1)
                a += ["-p", ["$1", "d/$1", "$W/$1", "$1:other-$1", "$1:$W/d/other-$1", "$1/"][form].replace("$1", n)]
                exp.append([k, k + 1, k + 2])
            tail = [1] + [100 if n == "a" else 200 for n in names]
            yield dict(files=fs, args=a + ["-r", "m"]), [sum(p, []) + tail for p in itertools.permutations(exp)]
    # entries
    mods = {"a.llrl": CORE + NOTE + '(import "~/s/c")\n(note 1)\n', "b.llrl": CORE + NOTE + "(note 2)\n", "s/c.llrl": CORE + NOTE + "(note 3)\n", "p/prelude.llrl": CORE + NOTE + "(note 5)\n", "prelude.llrl": CORE + NOTE + "(note 4)\n"}
    what = {"a": {1, 3}, "a.llrl": {1, 3}, "b": {2}, "s/c": {3}, "s/c.llrl": {3}, "prelude": {4}, "p/prelude": {5}}
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for es in itertools.product(sorted(what), repeat=n):
            all = set().union(*(what[e] for e in es))
            yield dict(files=mods, args=list(es) if n % 2 else list(es) + ["-r"]), [list(p) for p in itertools.permutations(sorted(all)) if 1 not in p or p.index(3) < p.index(1)]


def check_meaning(r, c, exps):
    if not r.ok:
        return "does not succeed: %s" % show(r)
    if r.runs not in exps:
        return "executes %s instead of %s" % (r.runs, exps[0])


def passing(ctx):
    """Arguments and inputs of a program that is run directly"""
    k = 0
    al = ARGS if ctx.thorough else ARGS[:10]
    for n in (1, 2):
        for args in itertools.product(al, repeat=n):
            if n == 2 and not ctx.thorough and (al.index(args[0]) + al.index(args[1])) % 3:
                continue
            k += 1
            stdin = bytes(range(256)) * [0, 1, 16, 300][k % 4] + b"x" * (k % 7)
            yield dict(files={"m.llrl": CORE + PROBE + "(probe %d)\n" % (k % 256)}, args=["-b", ["chibi", "llvm"][k % 2], "m", "--"] + list(args), stdin=stdin), (list(args), k % 256)


def check_passing(r, c, e):
    args, k = e
    if r.rc != k or not said(r, args, c["stdin"]):
        return "arguments %r and %d bytes of input do not reach the program: %s" % (args, len(c["stdin"]), show(r))


STD = '''(import "std/system" args)
(import "std/string" _)
(import "std/memory" _)
(c-function arg {(-> (Ptr U8) U64 I32)} "cli_arg")
(for (let a) (args) (ignore (arg (string/c-compatible-ptr a) (string/length a))))
'''


def check(ctx):
    s = Sandbox(ctx)
    jobs = []
    for name, gen, judge in (("options and outcomes", products, check_product), ("failures", faults, check_fault), ("features, packages and entries", meanings, check_meaning), ("arguments and input", passing, check_passing)):
        for c, e in gen(ctx):
            jobs.append((name, c, e, judge))

    def one(i):
        name, c, e, judge = jobs[i]
        r = s.go(i, c["files"], c["args"], c.get("stdin", b""), c.get("out"), c.get("before"), env=c.get("env"), dirs=c.get("dirs", ()))
        return judge(r, c, e)

    n = {}
    with ThreadPoolExecutor(8) as ex:
        for (name, c, e, judge), bad in zip(jobs, ex.map(one, range(len(jobs)))):
            n[name] = n.get(name, 0) + 1
            if bad:
                ctx.violation("%s/%s" % (name, " ".join(c["args"]) + "/" + str(e)), "llrl0 %s: %s" % (" ".join(map(repr, c["args"])), bad), {"args": c["args"], "files": {k: str(v) for k, v in c["files"].items()}})
    for name in n:
        ctx.part(name, states=n[name], transitions=n[name], traces_validated_against_impl=n[name])
    runtime(ctx, s)
    ctx.assumptions.append("one command line at a time; programs end by exit or by a signal")


def runtime(ctx, s):
    """What a running program sees of its arguments, through the library"""
    import subprocess
    for b in ("chibi", "llvm"):
        exe = ctx.compile("args-" + b, {"m": STD}, backend=b, opt=False, cfiles=("cli.c",))
        if exe is None:
            continue
        lists = [list(p) for n in range(4 if ctx.thorough else 3) for p in itertools.product(ARGS, repeat=n)]
        with ThreadPoolExecutor(8) as ex:
            for a, r in zip(lists, ex.map(lambda a: run([exe] + a, timeout=20, mem_gb=0), lists)):
                if not r.ok or r.out.decode() != "".join("a%s\n" % x.encode().hex() for x in a):
                    ctx.violation("runtime/%s/%r" % (b, a), "a program run with arguments %r sees %s" % (a, r.describe()), {"args": a})
        ctx.part("arguments seen by a program", states=len(lists), transitions=len(lists), traces_validated_against_impl=len(lists))
