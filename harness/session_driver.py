"""Executes sessions (lists of operations, as written by the specification) against the real package.
usage: session_driver.py IN.pickle OUT.pickle   (PYTHONPATH: the freshly built package; LD_PRELOAD: clock shim)
Every session runs in processes of its own, forked from this one, which itself never touches the stream."""
import ctypes, hashlib, os, pickle, signal, struct, sys, traceback

import numpy as np
import gaussianfft as g

shim = ctypes.CDLL(None)
job = pickle.load(open(sys.argv[1], "rb"))
UNITS, VARIOS, PURES, FAILS, WANT = job["units"], job["varios"], job["pures"], job["fails"], job.get("want", "hash")
KEEP = any(d["fn"] == "recheck" for d in PURES.values())
TIMEOUT = job.get("timeout", 120)
TYPES = {t.value: t for t in g.VariogramType}


def mk(a, style):
    """The factory call for argument record a; style selects among equivalent ways to write it."""
    u = UNITS[a["u"]]
    t = a["type"]
    if style & 1 and t in TYPES:
        t = TYPES[t]
    rng = lambda r: r * u if r > 0 else (0.0 if r == 0 else -1.0)
    full = dict(perp_range=rng(a["ry"]), depth_range=rng(a["rz"]), azimuth=float(a["azi"]), dip=float(a["dip"]),
                power=a["pow"] / 10.0)
    if style & 2:
        dflt = dict(perp_range=-1.0, depth_range=-1.0, azimuth=0.0, dip=0.0, power=1.5)
        return g.variogram(t, rng(a["rx"]), **{k: v for k, v in full.items() if v != dflt[k]})
    if style & 4:
        return g.variogram(t, rng(a["rx"]), **full)
    return g.variogram(t, rng(a["rx"]), *full.values())


cache = {}


def vario(i, style):
    if style & 8:
        return mk(VARIOS[i], style)
    if i not in cache:
        cache[i] = mk(VARIOS[i], style)
    return cache[i]


def simulate(c, style):
    v = vario(c["v"], style)
    u = UNITS[VARIOS[c["v"]]["u"]]
    st = lambda d: d * u if d >= 0 else float(d)
    full = dict(nx=c["nx"], dx=st(c["dx"]), ny=c["ny"], dy=st(c["dy"]), nz=c["nz"], dz=st(c["dz"]))
    adv = dict(padx=c["px"], pady=c["py"], padz=c["pz"], sx=c["sx"] / 1000.0, sy=c["sy"] / 1000.0, sz=c["sz"] / 1000.0)
    plain = all(adv[k] == d for k, d in dict(padx=-1, pady=-1, padz=-1, sx=1.0, sy=1.0, sz=1.0).items())
    f, args = g.advanced.simulate, dict(full, **adv)
    if plain and not style & 16:
        f, args = g.simulate, full
    if style & 32:
        dflt = dict(ny=1, dy=-1.0, nz=1, dz=-1.0, padx=-1, pady=-1, padz=-1, sx=1.0, sy=1.0, sz=1.0)
        args = {k: x for k, x in args.items() if k in ("nx", "dx") or x != dflt[k]}
        return f(v, **args)
    if style & 64:
        return f(variogram=v, **args)
    return f(v, *args.values())


kept = []                # every array handed out in this process, with the bytes it must still have


def digest(x):
    return hashlib.sha256(x.tobytes()).hexdigest()[:24]


def pure(w):
    d = PURES[w]
    if d["fn"] in ("recheck", "scribble"):
        import gc
        gc.collect()
        for i, (x, h) in enumerate(kept):
            if digest(x) != h:
                raise AssertionError("array %d returned earlier has changed" % i)
        if d["fn"] == "scribble" and kept:
            x = kept[len(kept) // 2][0]
            x[:] = 7.25
            kept[len(kept) // 2] = (x, digest(x))
        return True
    if d["fn"] == "quote":
        return g.quote()
    v = vario(d["v"], d.get("style", 0))
    if d["fn"] == "corr":
        return v.corr(*d["args"])
    return list(g.simulation_size(v, *d["args"]))


def refused(w):
    v = vario(0, 0)
    scope = dict(g=g, v=v, np=np)
    return eval(FAILS[w], scope)


def execute(op):
    o = op["op"]
    try:
        if o == "seed":
            g.seed(int(op["val"]))
            return dict(ok=True)
        if o == "query":
            return dict(ok=True, val=str(g.seed()))
        if o == "sim":
            x = simulate(op["c"], op.get("style", 0))
            r = dict(ok=True, len=len(x), id=digest(x), shape=x.shape, cls=type(x).__name__,
                     dtype=str(x.dtype), finite=bool(np.isfinite(x).all()), contig=bool(x.flags.c_contiguous),
                     writable=bool(x.flags.writeable))
            if KEEP:
                kept.append((x, r["id"]))
            if WANT == "data":
                r["data"] = np.array(x)
            return r
        if o == "pure":
            x = pure(op["w"])
            return dict(ok=True, val=x, id=hashlib.sha256(repr(x).encode()).hexdigest()[:24])
        if o == "fail":
            refused(op["w"])
            return dict(ok=True)
        if o == "tick":
            shim.vt_set_time(ctypes.c_longlong(op["abs"]))
            return dict(ok=True)
    except Exception as e:
        return dict(ok=False, err=type(e).__name__, msg=str(e)[:300])
    raise RuntimeError(o)


def send(fd, x):
    b = pickle.dumps(x)
    os.write(fd, struct.pack("<I", len(b)))
    while b:
        b = b[os.write(fd, b):]


def recvn(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def recv(fd):
    return pickle.loads(recvn(fd, struct.unpack("<I", recvn(fd, 4))[0]))


def serve(me, rfd, wfd):
    kids = {}
    where = {}
    while True:
        try:
            m = recv(rfd)
        except EOFError:
            os._exit(0)
        tgt = m["p"]
        if m["op"] == "tick":
            r = execute(m)
            for k in kids.values():
                send(k[1], m); recv(k[0])
        elif tgt != me:
            k = where[tgt]
            if m["op"] == "fork":
                where[m["q"]] = k
            send(kids[k][1], m)
            r = recv(kids[k][0])
        elif m["op"] == "fork":
            a, b = os.pipe(); c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(b); os.close(c)
                for k in kids.values():
                    os.close(k[0]); os.close(k[1])
                serve(m["q"], a, d)
            os.close(a); os.close(d)
            kids[m["q"]] = (c, b)
            where[m["q"]] = m["q"]
            r = dict(ok=True)
        else:
            r = execute(m)
        send(wfd, r)


def run_session(ops):
    a, b = os.pipe(); c, d = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(b); os.close(c)
        signal.alarm(TIMEOUT)
        try:
            serve(1, a, d)
        except BaseException:
            traceback.print_exc()
            os._exit(7)
    os.close(a); os.close(d)
    res = []
    known = {}                      # clock tokens -> reported values
    try:
        for op in ops:
            op = dict(op)
            if op["op"] == "seed":
                tok = tuple(op["tok"])
                if tok[0] == "auto" and tok[1] not in known:
                    # learn the value of a clock seed the way a user would: ask the process that has it
                    send(b, dict(op="query", p=op["holder"]))
                    known[tok[1]] = recv(c).get("val", "0")
                op["val"] = tok[1] if tok[0] == "set" else known[tok[1]]
            if op["op"] == "tick":
                op["abs"] = job["epoch"] + op["t"]
            send(b, op)
            r = recv(c)
            if op["op"] == "seed":
                r["val"] = op["val"]
            res.append(r)
    except (EOFError, BrokenPipeError):
        os.close(b); os.close(c)
        _, st = os.waitpid(pid, 0)
        res.append(dict(crash=True, status=st))
        return res
    os.close(b); os.close(c)
    os.waitpid(pid, 0)
    return res


def shard(sessions):
    return [run_session(s) for s in sessions]


signal.signal(signal.SIGPIPE, signal.SIG_IGN)
nsh = max(1, min(job.get("jobs", 6), len(job["sessions"])))
pids = []
for k in range(nsh):
    pid = os.fork()
    if pid == 0:
        try:
            out = [(i, run_session(job["sessions"][i])) for i in range(k, len(job["sessions"]), nsh)]
            pickle.dump(out, open(sys.argv[2] + ".%d" % k, "wb"))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(9)
    pids.append(pid)
bad = [p for p in pids if os.waitpid(p, 0)[1] != 0]
if bad:
    sys.exit(9)
res = {}
for k in range(nsh):
    res.update(dict(pickle.load(open(sys.argv[2] + ".%d" % k, "rb"))))
pickle.dump([res[i] for i in range(len(job["sessions"]))], open(sys.argv[2], "wb"))
