"""Running the C++ harnesses (line protocol of harness/hh.hpp)."""
import os, resource, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import vt


def hx(s):
    b = s if isinstance(s, bytes) else s.encode("latin1")
    return b.hex() or "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


def fl(x):
    return float(x).hex()


def unfl(s):
    return float.fromhex(s) if "nan" not in s and "inf" not in s else float(s)


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))      # runaway growth ends in bad_alloc, not in the OOM killer


def _one(exe, lines, timeout, cwd, limit):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0")
    env.pop("LD_PRELOAD", None)
    try:
        r = subprocess.run([exe], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, preexec_fn=limit)
    except subprocess.TimeoutExpired as e:
        got = (e.stdout or b"").decode("latin1").split("\n")[:-1]
        return got, "no answer within %d s" % timeout
    got = r.stdout.decode("latin1").split("\n")[:-1]
    err = None
    if r.returncode != 0 or len(got) != len(lines):
        err = "process ended with %d: %s" % (r.returncode, r.stderr.decode("latin1")[-600:])
    return got, err


def run(ctx, name, lines, variant="o1", jobs=1, timeout=None, group=None):
    """One answer (a list of words) per line.  `jobs` splits the lines into independent runs (group: starts of
    indivisible blocks).  A crash is a violation reported on the command that caused it."""
    exe = vt.build_harness(name, variant)
    timeout = timeout or (60 if ctx.tier == "quick" else 600)
    if not lines:
        return []
    cuts = [0]
    if jobs > 1:
        starts = sorted(set(group)) if group else list(range(len(lines)))
        per = max(1, (len(starts) + jobs - 1) // jobs)
        cuts = [starts[i] for i in range(0, len(starts), per)]
        cuts[0] = 0
    cuts.append(len(lines))
    parts = [lines[a:b] for a, b in zip(cuts, cuts[1:])]

    def go(k):
        d = os.path.join(ctx.scratch, "h%s-%d" % (name, k))
        os.makedirs(d, exist_ok=True)
        try:
            return _one(exe, parts[k], timeout, d, None if variant == "asan" else _limit)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as p:
        rs = list(p.map(go, range(len(parts))))
    out = []
    for k, (got, err) in enumerate(rs):
        if err:
            i = len(got)
            cmd = parts[k][i] if i < len(parts[k]) else "(end)"
            lo = max(0, i - 30)
            raise vt.Violation("the code under test failed in %r: %s" % (cmd[:300], err),
                               dict(harness=name, commands=parts[k][lo:i + 1]))
        out += got
    return [x.split(" ") for x in out]
