"""Shared machinery of the checks: building the code under test from /repo's working tree, running it under
time limits, and reporting (evidence file, VIOLATION / KNOWN-FINDING lines, replay artefacts)."""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class CheckError(Exception):
    """The check itself could not run (build failure, engine failure): neither 0 nor 1."""


def make_env():
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/usr/lib/llvm-14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin"
    e.update(LLVM_SYS_110_PREFIX="/usr/lib/llvm-14", LLVM_SYS_110_FFI_WORKAROUND="YES",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    return e


ENV = make_env()


class Res:
    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout

    def describe(self):
        how = "timed out" if self.timeout else (
            "killed by signal %d" % -self.rc if self.rc is not None and self.rc < 0 else "exit status %s" % self.rc)
        tail = (self.err or b"")[-1500:].decode("utf-8", "replace")
        return how + ("; stderr: " + tail.strip() if tail.strip() else "")


def run(cmd, cwd=None, env=None, timeout=60, stdin=b"", mem_gb=8):
    """Runs cmd in its own session; kills the whole session on timeout. Output is bytes."""
    e = dict(ENV)
    if env:
        e.update(env)

    def pre():
        import resource
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Res(p.returncode, out, err, to, time.time() - t)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        try:
            h.update(open(p, "rb").read())
        except FileNotFoundError:
            h.update(b"-")
        h.update(b"\0")
    return h.hexdigest()


def build_rt():
    """rt/Makefile does not know of rt.h and rt/build.rs ignores a failing make: rebuild when anything differs."""
    rt = os.path.join(REPO, "rt")
    with Lock("rt"):
        srcs = [os.path.join(rt, f) for f in os.listdir(rt) if f.endswith((".c", ".h")) or f == "Makefile"]
        prods = [os.path.join(rt, "libllrt.a")]
        stamp = os.path.join(BUILD, "rt.stamp")
        cur = _hash_files(srcs + prods)
        if os.path.exists(stamp) and open(stamp).read() == cur and os.path.exists(prods[0]):
            return
        r = run(["make", "-B", "-C", rt], timeout=120)
        if not r.ok:
            raise CheckError("make -C rt failed: " + r.describe())
        # rt/build.rs is only rerun by cargo when a file of the package changed: make sure it is
        os.utime(os.path.join(rt, "rt.o"), None)
        open(stamp, "w").write(_hash_files(srcs + prods))


def cargo(manifest, args, target, timeout=800, env=None):
    build_rt()
    e = {"CARGO_TARGET_DIR": target}
    if env:
        e.update(env)
    with Lock("cargo-" + os.path.basename(target)):
        r = run(["cargo", "build", "--offline", "--manifest-path", manifest] + args, env=e, timeout=timeout, mem_gb=0,
                cwd=os.path.dirname(manifest))
    if not r.ok:
        raise CheckError("cargo build of %s failed: %s" % (manifest, r.describe()))


def build_llrl0():
    t = os.path.join(BUILD, "target")
    cargo(os.path.join(REPO, "Cargo.toml"), ["--release", "-p", "llrl0", "--locked"], t)
    return os.path.join(t, "release", "llrl0")


def build_engine(bin_name):
    """Rust engines of /verif/rust; `mcs` does not depend on /repo, `mcx` links /repo's crates."""
    t = os.path.join(BUILD, "engine")
    cargo(os.path.join(VERIF, "rust", "Cargo.toml"), ["--release", "--locked", "-p", bin_name], t)
    return os.path.join(t, "release", bin_name)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.viol = []          # (key, what, artefact path)
        self.known_hit = {}
        self.known = {k["key"]: k for k in load_known() if k.get("property") == pid and k.get("status") == "known"}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(pid + "-"):
                os.remove(os.path.join(self.replays, f))
        ev = self.evidence_path()
        if os.path.exists(ev):
            os.remove(ev)

    thorough = property(lambda s: s.tier == "thorough")

    def evidence_path(self):
        return os.path.join(VERIF, "evidence", self.pid + ".json")

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- coverage -------------------------------------------------------------------------------------------
    def count(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        s = s if isinstance(s, str) else json.dumps(s)
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s[:1500])

    def part(self, name, **kw):
        """Coverage of one part of the check, recorded apart as well as added to the totals."""
        d = self.cov.setdefault("parts", {}).setdefault(name, {})
        for k in ("programs", "pairs of declarations"):  # each one a state, and an execution of the real front end
            if k in kw and "states" not in kw:
                kw.update(states=kw[k], transitions=kw[k], traces_validated_against_impl=kw[k])
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = d.get(k, 0) + v
                if k in ("states", "transitions", "traces_validated_against_impl"):
                    self.cov[k] += v
            else:
                d[k] = v

    # ---- verdicts -------------------------------------------------------------------------------------------
    def violation(self, key, what, replay):
        """replay: dict (written as JSON) describing how to reproduce it. One artefact per distinct key."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = what
            return
        for k, _, _ in self.viol:
            if k == key:
                return
        if len(self.viol) >= 20:
            return
        p = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        json.dump({"property": self.pid, "key": key, "what": what, "replay": replay}, open(p, "w"), indent=1,
                  default=lambda o: o.decode("utf-8", "replace") if isinstance(o, bytes) else str(o))
        self.viol.append((key, what, p))
        self.log("violation", key, "::", what[:2000])

    def absorb(self, report, part=None):
        """Takes over the JSON-lines report of a Rust engine."""
        for line in open(report):
            o = json.loads(line)
            if "violation" in o:
                v = o["violation"]
                self.violation(v["key"], v["what"], v.get("replay", {}))
            elif "cover" in o:
                c = o["cover"]
                self.part(c.pop("part", part or "main"), **c)
            elif "sample" in o:
                self.sample(o["sample"])

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            self.cov["samples"] = self.cov["samples"][:3]
            s = json.dumps(ev, indent=1)
        open(self.evidence_path(), "w").write(s)
        for k, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k].get("what", what)))
        for k, what, p in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("done: states=%d transitions=%d validated=%d violations=%d" % (
            self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], len(self.viol)))
        return 1 if self.viol else 0

    # ---- code under test ------------------------------------------------------------------------------------
    def llrl0(self):
        if not hasattr(self, "_llrl0"):
            self._llrl0 = build_llrl0()
            self.log("llrl0 built")
        return self._llrl0

    def engine(self, name="mcs"):
        return build_engine(name)

    def compile(self, name, files, entry=None, backend="chibi", opt=True, cfiles=("mcio.c",), extra=(), timeout=120,
                report=True):
        """Compiles an llrl program ({module name: source text or path}) with /repo's llrl0. A harness that uses
        nothing but documented features and does not compile is a violation (report=True)."""
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        for n, src in files.items():
            p = os.path.join(d, n + ".llrl")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(src)
        entry = entry or list(files)[0]
        exe = os.path.join(d, "%s-%s%s.exe" % (entry, backend, "-O" if opt else ""))
        cmd = [self.llrl0(), "-b", backend] + (["-O"] if opt else [])
        for c in cfiles:
            cmd.append("-c" + (c if os.path.isabs(c) else os.path.join(VERIF, "llrl", c)))
        cmd += list(extra) + ["-o", exe, entry]
        # code that is compiled is also loaded into the compiler's JIT: c-functions must resolve there
        env = {"LD_PRELOAD": self.shared(cfiles)} if cfiles else None
        r = run(cmd, cwd=d, timeout=timeout, mem_gb=0, env=env)
        if not r.ok or not os.path.exists(exe):
            if report:
                self.violation("compile/%s/%s" % (name, backend),
                               "a valid program no longer compiles (%s): %s" % (" ".join(cmd[1:]), r.describe()),
                               {"cmd": cmd, "files": files})
            return None
        return exe

    def run_lines(self, name, programs, backend="chibi", opt=True, timeout=300, run_timeout=60, jobs=8, cfiles=(), extra=(), files=None):
        """Compiles and runs every program [(id, source, expected lines)], comparing what they print line by line;
        a line is `<key> <result>`. Returns the number of lines compared."""
        from concurrent.futures import ThreadPoolExecutor
        self.llrl0()
        if cfiles:
            self.shared(cfiles)

        def one(p):
            pid, src, exp = p
            exe = self.compile("%s-%s" % (name, pid), dict({"m" + pid: src}, **(files or {})), entry="m" + pid, backend=backend, opt=opt, cfiles=cfiles, extra=extra, timeout=timeout)
            if exe is None:
                return 0
            r = run([exe], timeout=run_timeout, mem_gb=0, cwd=os.path.dirname(exe))
            got = r.out.decode("utf-8", "replace").split("\n")
            bad = 0
            for i, e in enumerate(exp):
                g = got[i] if i < len(got) else "<nothing: %s>" % r.describe()
                if g != e:
                    key = e.split(" ")[0]
                    where = backend + ("-O" if opt else "")
                    lines = [l for l in src.split("\n") if key in l][:3]
                    self.violation("%s/%s" % (key, where), "on %s: %r instead of %r, in %s" % (where, g, e, " // ".join(lines)[:1500]), {"source": src, "line": i, "expected": e, "got": g, "backend": where})
                    bad += 1
                    if bad > 5 or i >= len(got):
                        break
            if not bad and not r.ok:
                self.violation("exit/%s/%s/%s" % (name, pid, backend), "the program prints everything but does not end well: " + r.describe(), {"source": src})
            os.remove(exe)
            return len(exp)

        with ThreadPoolExecutor(jobs) as ex:
            n = sum(ex.map(one, programs))
        self.log(name, backend, "-O" if opt else "", "%d lines compared" % n)
        return n

    def run_engine(self, eng, prop, exes, timeout=840, part=None, **extra):
        rep = os.path.join(self.work, "report-%s.jsonl" % prop)
        cmd = [eng, prop, "--work", self.work, "--report", rep, "--tier", self.tier, "--seed", str(self.seed)]
        for e in exes:
            cmd += ["--exe", e]
        for k, v in extra.items():
            cmd += ["--" + k, str(v)]
        r = run(cmd, timeout=timeout, mem_gb=0)
        if os.path.exists(rep):
            self.absorb(rep, part)
        if not r.ok:
            if os.path.basename(eng) in ("mcx", "mca"):  # the code under test runs inside this engine
                self.violation("engine/" + prop, "the code under test brings the process down: " + r.describe(), {"cmd": cmd})
            else:
                raise CheckError("engine %s failed: %s" % (prop, r.describe()))
        self.log("engine", prop, "done in %.1fs" % r.wall)

    def shared(self, cfiles):
        cf = [c if os.path.isabs(c) else os.path.join(VERIF, "llrl", c) for c in cfiles]
        so = os.path.join(self.work, "c-%s.so" % hashlib.sha256(" ".join(cf).encode()).hexdigest()[:12])
        if not os.path.exists(so):
            r = run(["clang", "-O2", "-shared", "-fPIC", "-o", so] + cf, mem_gb=0)
            if not r.ok:
                raise CheckError("cannot compile %s: %s" % (cf, r.describe()))
        return so

    def harness(self, name, **kw):
        """An op-interpreter of /verif/llrl/<name>.llrl"""
        src = open(os.path.join(VERIF, "llrl", name + ".llrl")).read()
        mcio = open(os.path.join(VERIF, "llrl", "mcio.llrl")).read()
        return self.compile(name, {name: src, "mcio": mcio}, **kw)
