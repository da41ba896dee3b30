import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from mc.common import VERIF, CheckError, run

LEVEL = "exhaustive"
MODES = ["readers", "writers", "files", "paths", "directories", "processes"]
NOBODY = 65534


def check(ctx):
    llrl0, so = ctx.llrl0(), ctx.shared(["p24.c"])
    c = os.path.join(VERIF, "llrl", "p24.c")
    # what is explored removes and overwrites files: it runs as a user that owns nothing but a scratch directory
    top = tempfile.mkdtemp(prefix="p24-")
    try:
        os.chmod(top, 0o755)
        helper = os.path.join(top, "helper")
        r = run(["gcc", "-O1", "-o", helper, os.path.join(VERIF, "llrl", "p24h.c")], cwd=top, timeout=100)
        if not r.ok:
            raise CheckError("cannot build the helper: " + r.describe())
        backends = [("chibi", 0), ("llvm", 0), ("llvm", 1)]

        def build(k):
            b, o = backends[k]
            d = os.path.join(ctx.work, "b%d" % k)
            os.makedirs(d)
            shutil.copy(os.path.join(VERIF, "llrl", "p24.llrl"), os.path.join(d, "main.llrl"))
            exe = os.path.join(top, "exe%d" % k)
            r = run([llrl0, "-b" + b] + ["-O"] * o + ["-c" + c, "-c-ldl", "-o", exe, "main"], cwd=d, timeout=300, mem_gb=0, env={"LD_PRELOAD": so})
            if not r.ok:
                return None, r.describe()
            os.chmod(exe, 0o755)
            return exe, None

        with ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(build, range(len(backends))))
        for (exe, why), (b, o) in zip(exes, backends):
            if exe is None:
                ctx.violation("compile/%s" % b, "the program does not compile on %s: %s" % (b, why), {"backend": b})

        jobs = [(m, k) for m in MODES for k, (exe, _) in enumerate(exes) if exe]

        def one(job):
            m, k = job
            d = os.path.join(top, "%s%d" % (m, k))
            os.makedirs(d)
            os.chown(d, NOBODY, NOBODY)
            log = os.path.join(d, "log")
            env = {"P24_MODE": m, "P24_OUT": log, "P24_HELPER": helper, "LC_ALL": "C", "HOME": d, "PATH": "/usr/bin:/bin"}
            if ctx.thorough:
                env["P24_DEEP"] = "1"
            w = os.path.join(d, "w")
            os.makedirs(w)
            os.chown(w, NOBODY, NOBODY)
            r = run(["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--no-new-privs", exes[k][0]], cwd=w, timeout=600, mem_gb=0, env=env)
            lines = open(log).read().split("\n") if os.path.exists(log) else []
            if "setpriv" in r.err.decode("utf-8", "replace"):
                raise CheckError(r.describe())
            return r, lines

        with ThreadPoolExecutor(8) as ex:
            for (m, k), (r, lines) in zip(jobs, ex.map(one, jobs)):
                where = backends[k][0] + " -O" * backends[k][1]
                found, cur = [], None
                done = None
                for l in lines:
                    if l.startswith("V "):
                        found.append(l[2:])
                    elif l.startswith("D "):
                        done = [int(x) for x in l.split()[1:]]
                    elif found and l:
                        found[-1] += "\n" + l
                for v in found:
                    ctx.violation("%s/%s/%s" % (m, v.split("\n")[0], where), "%s on %s: %s" % (m, where, v[:1500]), {"part": m, "backend": where, "case": v})
                if not r.ok or done is None:
                    ctx.violation("%s/ends/%s" % (m, where), "%s on %s: the program does not end regularly: %s" % (m, where, r.describe()), {"part": m, "backend": where})
                else:
                    ctx.part("%s, %s" % (m, where), states=done[0], transitions=done[1], traces_validated_against_impl=done[0])
    finally:
        run(["chmod", "-R", "u+rwx", top], cwd="/", timeout=60)
        shutil.rmtree(top, ignore_errors=True)
    ctx.assumptions.append("sequences of operations C leaves undefined on a stream (a read directly after a write and the reverse) are left out; names with a zero byte and names that are not UTF-8 are left open")
