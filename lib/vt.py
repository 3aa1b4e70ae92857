"""Common machinery: building /repo's code, running TLC, evidence, verdicts."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
VENV = "/opt/gfft/venv"
PY = VENV + "/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay


class CheckError(Exception):
    """The machinery itself failed: neither 0 nor 1."""


def log(*a):
    print("[vt]", *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def _tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "." + name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _clean_old(prefix, keep):
    for d in os.listdir(BUILD):
        if d.startswith(prefix) and d != keep and not d.startswith("."):
            p = os.path.join(BUILD, d)
            try:
                if time.time() - os.path.getmtime(p) > 6 * 3600 and not os.environ.get("VT_KEEP"):
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass


def build_ext():
    """Builds the Python extension from /repo's working tree with the project's own CMake files.
    Returns a directory to put on PYTHONPATH (extension plus a copy of the package)."""
    h = _tree_hash([REPO + "/src", REPO + "/gaussianfft", REPO + "/CMakeLists.txt", REPO + "/cmake",
                    REPO + "/utils.py", REPO + "/bin"], "ext1")
    name = "ext-" + h
    out = os.path.join(BUILD, name)
    site = os.path.join(out, "site")
    with _Lock("ext"):
        if os.path.exists(os.path.join(out, "ok")):
            return site
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(site)
        env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1")
        soabi = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('SOABI'))"],
                                        text=True).strip()
        b = os.path.join(out, "b")
        cmds = [["cmake", "-S", ".", "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DSKBUILD=2",
                 "-DSKBUILD_SOABI=" + soabi, "-DSKBUILD_PLATLIB_DIR=" + site, "-DPython3_EXECUTABLE=" + PY,
                 "-DCMAKE_PREFIX_PATH=" + VENV + "/lib/python3.12/site-packages/pybind11/share/cmake"],
                ["ninja", "-C", b, "-j8"]]
        for c in cmds:
            r = subprocess.run(c, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("extension build failed:\n" + r.stdout[-3000:])
        sos = [f for f in os.listdir(b) if f.startswith("_gaussianfft") and f.endswith(".so")]
        if not sos:
            raise CheckError("no extension produced")
        for f in sos:
            shutil.copy(os.path.join(b, f), site)
        shutil.copytree(REPO + "/gaussianfft", site + "/gaussianfft",
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(site + "/gaussianfft/_version.py", "w") as f:
            f.write("__version__ = version = '0.1.dev0'\n__version_tuple__ = version_tuple = (0, 1)\n")
        shutil.rmtree(b, ignore_errors=True)
        open(os.path.join(out, "ok"), "w").close()
        _clean_old("ext-", name)
    return site


NRLIB_FLAGS = ["-std=c++17", "-w", "-DHAS_BOOST_FILESYSTEM", "-DUSE_BOOST", "-DFLENS_FIRST_INDEX=0",
               "-I" + REPO + "/src", "-I" + REPO + "/src/nrlib", "-fno-access-control"]
VARIANTS = {
    "o1": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer"],
}


def nrlib_sources():
    res = []
    for root, ds, fs in os.walk(REPO + "/src/nrlib"):
        ds[:] = [d for d in ds if d not in ("unittests", "backup", "experimentation")]
        for f in fs:
            if f.endswith(".cpp") and f != "pchheader.cpp":
                res.append(os.path.join(root, f))
    for root, ds, fs in os.walk(REPO + "/src/flens"):
        res += [os.path.join(root, f) for f in fs if f.endswith(".cc")]
    return sorted(res)


def build_nrlib(variant="o1"):
    h = _tree_hash([REPO + "/src"], "nrlib2" + variant + " ".join(NRLIB_FLAGS + VARIANTS[variant]))
    name = "nrlib-%s-%s" % (variant, h)
    out = os.path.join(BUILD, name)
    lib = os.path.join(out, "libnr.a")
    with _Lock("nrlib" + variant):
        if os.path.exists(lib):
            return lib
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        srcs = nrlib_sources()
        flags = [f for f in NRLIB_FLAGS if f != "-fno-access-control"]

        def one(i):
            o = os.path.join(out, "%d.o" % i)
            r = subprocess.run(["g++"] + flags + VARIANTS[variant] + ["-c", srcs[i], "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (r.returncode, srcs[i] + "\n" + r.stdout[-2000:], o)
        with ThreadPoolExecutor(8) as p:
            rs = list(p.map(one, range(len(srcs))))
        for rc, msg, _ in rs:
            if rc:
                raise CheckError("nrlib build failed: " + msg)
        tmp = lib + ".tmp"
        subprocess.check_call(["ar", "rcs", tmp] + [o for _, _, o in rs])
        for _, _, o in rs:
            os.unlink(o)
        os.rename(tmp, lib)
        _clean_old("nrlib-", name)
    return lib


LINK = ["-lboost_filesystem", "-lfftw3", "-lfftw3f", "-lopenblas", "-llapacke", "-lpthread", "-ldl"]


def build_harness(name, variant="o1"):
    """Compiles /verif/harness/<name>.cpp against /repo's sources; returns the executable."""
    lib = build_nrlib(variant)
    src = os.path.join(VERIF, "harness", name + ".cpp")
    h = _tree_hash([src, os.path.join(VERIF, "harness", "hh.hpp")], os.path.basename(os.path.dirname(lib)))
    exe = os.path.join(os.path.dirname(lib), name + "-" + h)
    with _Lock("h-" + name + variant):
        if os.path.exists(exe):
            return exe
        r = subprocess.run(["g++"] + NRLIB_FLAGS + VARIANTS[variant] + ["-I" + VERIF + "/harness", src, lib,
                           "-o", exe + ".tmp"] + LINK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("harness %s does not compile:\n%s" % (name, r.stdout[-4000:]))
        os.rename(exe + ".tmp", exe)
    return exe


def build_c(name, args=()):
    """A helper of /verif itself (reference generator, clock shim): /verif/harness/<name>.c -> .so"""
    src = os.path.join(VERIF, "harness", name + ".c")
    h = _tree_hash([src], " ".join(args))
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "%s-%s.so" % (name, h))
    with _Lock("c-" + name):
        if not os.path.exists(so):
            r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", src, "-o", so + ".tmp", "-lm", "-ldl"] + list(args),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError(r.stdout)
            os.rename(so + ".tmp", so)
    return so


# ------------------------------------------------------------------ TLC

def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        assert -2**31 < v < 2**31, v
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class TlcResult:
    pass


_UNQ = re.compile(r'\\(.)')


def _unescape(s):
    return _UNQ.sub(lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


def run_tlc(module, cfg, defs=None, simulate=None, depth=None, workers=1, files=None, timeout=600, seed=None,
            heap="4g", fail_ok=False, extra=(), deadlock=False):
    """Runs TLC on spec/<module>.tla in a scratch directory holding all of spec/ plus a generated module
    `Gen` (definitions in `defs`: name -> TLA+ text).  Lines printed as <<"@", tag, json>> are collected."""
    tmp = tempfile.mkdtemp(prefix="vt-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        if defs is not None:
            with open(os.path.join(tmp, "Gen.tla"), "w") as f:
                f.write("---- MODULE Gen ----\nEXTENDS Integers, Sequences, FiniteSets, TLC\n")
                for k, v in defs.items():
                    f.write("%s == %s\n" % (k, v))
                f.write("====\n")
        for k, v in (files or {}).items():
            with open(os.path.join(tmp, k), "w") as f:
                f.write(v)
        with open(os.path.join(tmp, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-config", "M.cfg",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE"]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        cmd += ["-seed", str(seed if seed is not None else SEED), "-fp", "17"]
        cmd += list(extra) + [module]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = p.stdout.decode("utf8", "replace")
        r = TlcResult()
        r.rc, r.out, r.wall = p.returncode, out, time.time() - t0
        r.items = []
        # PrintT may wrap long tuples over several lines: join until the closing >>
        buf = None
        for line in out.splitlines():
            if buf is None and re.match(r'<< ?"@"', line):
                buf = line
            elif buf is not None:
                buf += " " + line.strip()
            else:
                continue
            if buf.rstrip().endswith(('">>', '" >>')):
                m = re.match(r'<< ?"@", *"((?:[^"\\]|\\.)*)", *"((?:[^"\\]|\\.)*)" ?>>\s*$', buf)
                if m:
                    r.items.append((m.group(1), json.loads(_unescape(m.group(2)))))
                    buf = None
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            r.generated = int(m[-1].replace(",", "")) if m else 0
            r.distinct = 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        r.depth = int(m[-1]) if m else 0
        r.violated = ("is violated" in out) or ("violated" in out and "Error" in out)
        if r.rc != 0 and not fail_ok:
            keep = [x for x in out.splitlines() if x.strip() and not x.startswith(("Parsing", "Semantic processing", '<<"@"'))]
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, "\n".join(keep)[:1500]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    build_c("refrng"); build_c("clockshim")
    with ThreadPoolExecutor(2) as p:
        for f in [p.submit(build_ext), p.submit(build_nrlib)]:
            f.result()
    for f in sorted(os.listdir(VERIF + "/harness")):
        if f.endswith(".cpp"):
            build_harness(f[:-4])


# ------------------------------------------------------------------ checks

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.seed = SEED
        self.scratch = tempfile.mkdtemp(prefix="vt-%s-" % pid)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(self, *a, **k):
        r = run_tlc(*a, **k)
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        return r

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def evidence(self, violations=0):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["-"], **self.cov)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        p = "%s/evidence/%s.json" % (VERIF, self.pid)
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1, default=str)
        os.rename(p + ".tmp", p)

    def write_replay(self, obj):
        d = VERIF + "/replay"
        os.makedirs(d, exist_ok=True)
        p = "%s/%s.json" % (d, self.pid)
        with open(p, "w") as f:
            json.dump(obj, f, indent=1, default=str)
        return p


def known_findings(pid):
    res = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def run_limited(cmd, timeout, **k):
    """subprocess.run of code under test: no answer within the time allowed is a violation."""
    try:
        return subprocess.run(cmd, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        raise Violation("no answer within %d s: %s" % (timeout, os.path.basename(cmd[1])))


def main(pid, tier, fn):
    ctx = Ctx(pid, tier)
    try:
        try:
            fn(ctx)
        except Violation as v:
            log("possible violation:", v.what, "- running once more to confirm")
            first = v
            if time.time() - ctx.t0 > 300:       # no time for a second run (code that hangs)
                p = ctx.write_replay(dict(property=pid, what=v.what, replay=v.replay, seed=SEED, tier=tier))
                ctx.evidence(1)
                print(v.what)
                print("VIOLATION property=%s replay=%s" % (pid, p))
                return 1
            for _ in range(3):
                ctx2 = Ctx(pid, tier)
                try:
                    fn(ctx2)
                except Violation as w:
                    p = ctx.write_replay(dict(property=pid, what=w.what, replay=w.replay, first=first.what,
                                              seed=SEED, tier=tier))
                    ctx.evidence(1)
                    print(w.what)
                    print("VIOLATION property=%s replay=%s" % (pid, p))
                    return 1
                finally:
                    shutil.rmtree(ctx2.scratch, ignore_errors=True)
            raise CheckError("a violation did not repeat: " + first.what)
        ctx.evidence(0)
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs %s" % (
            pid, tier, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0,
            " ".join("%s=%s" % kv for kv in ctx.cov.items())))
        return 0
    except CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        return 3
    except Exception:
        import traceback
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
