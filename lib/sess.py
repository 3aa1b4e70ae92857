"""Sessions: argument pools, running the driver, shared by the checks on the Python package."""
import os, pickle, random, subprocess
from fractions import Fraction
import vt, ref

UNITS = [1.0, 0.1, 25.0, 3.7, 1e-3, 1234.5]
TYPES = ["constant", "exponential", "gaussian", "general_exponential", "matern32", "matern52", "matern72", "spherical"]
NAMES = TYPES + ["GAUSSIAN", "Gaussian", "gAuSsIaN", "SPHERICAL", "Exponential", "MATERN32", "Matern52", "MATERN72",
                 "General_Exponential", "CONSTANT", "nosuchtype"]
RATIO = dict(constant=1000, exponential=2330, spherical=1920, gaussian=6670, matern32=4000, matern52=4760,
             matern72=5260)

FAILS = {
    "none_v": "g.simulate(None, 4, 1.0)",
    "neg_nx": "g.simulate(v, -1, 1.0)",
    "str_nx": "g.simulate(v, 'a', 1.0)",
    "float_nx": "g.simulate(v, 4.5, 1.0)",
    "no_dx": "g.simulate(v, 4)",
    "bad_kw": "g.simulate(v, 4, 1.0, nosuch=3)",
    "neg_ny": "g.simulate(v, 4, 1.0, -3, 1.0)",
    "neg_seed": "g.seed(-1)",
    "float_seed": "g.seed(1.5)",
    "str_seed": "g.seed('12')",
    "huge_seed": "g.seed(2**64)",
    "adv_kw": "g.advanced.simulate(v, 4, 1.0, padx=1.5)",
    "adv_none": "g.advanced.simulate(None, 4, 1.0, padx=1)",
    "bad_corr": "v.corr()",
    "bad_corr4": "v.corr(1.0, 2.0, 3.0, 4.0)",
    "bad_vario": "g.variogram()",
    "bad_vario2": "g.variogram('gaussian', 'x')",
    "bad_size": "g.simulation_size(v, 'x', 1.0)",
    "none_size": "g.simulation_size(None, 4, 1.0)",
}


def canon(a):
    """Mirror of CanonVario, used only to choose arguments away from rounding boundaries."""
    t = a["type"].lower()
    if t not in TYPES:
        t = "spherical"
    return dict(t=t, rx=a["rx"], ry=a["ry"] if a["ry"] > 0 else a["rx"], rz=a["rz"] if a["rz"] > 0 else a["rx"],
                azi=a["azi"], dip=a["dip"], pow=a["pow"] if t == "general_exponential" else 0, u=a["u"])


def ratio(v):
    return 4000 + (v["pow"] - 15) * 534 if v["t"] == "general_exponential" else RATIO[v["t"]]


def axis_ranges(v, d):
    if d == 1:
        return [v["rx"]]
    rx = max(v["rx"], v["ry"])
    ry = v["ry"] if v["azi"] == 0 else rx
    return [rx, ry, v["rz"]][:d]


def dims(c):
    return 1 if c["ny"] <= 1 or c["dy"] < 0 else 2 if c["nz"] <= 1 or c["dz"] < 0 else 3


def pad_ok(v, c, maxtot):
    """No axis lands on a rounding boundary, and the padded grid is small enough."""
    d = dims(c)
    tot = 1
    for n, s, r, p in zip((c["nx"], c["ny"], c["nz"])[:d], (c["dx"], c["dy"], c["dz"])[:d], axis_ranges(v, d),
                          (c["px"], c["py"], c["pz"])[:d]):
        a, b = Fraction(ratio(v) * r, 1000 * s), Fraction(r, s)
        pad = p
        if p < 0:
            if a - n > 0 and (a.denominator == 1) or b.denominator == 1:
                return False
            pad = max(int(max(a - n, 0)), int(b)) + 1
        tot *= n + pad
    return tot <= maxtot


def default_pads(v, c):
    """Padding chosen by default, one entry per axis (mirror of Padding, used only to choose arguments)."""
    d = dims(c)
    out = []
    for n, s, r in zip((c["nx"], c["ny"], c["nz"])[:d], (c["dx"], c["dy"], c["dz"])[:d], axis_ranges(v, d)):
        out.append(max(int(max(Fraction(ratio(v) * r, 1000 * s) - n, 0)), int(Fraction(r, s))) + 1)
    return out


def same_call(rng, v, c):
    """Another argument record that should mean the same call (the specification decides whether it does)."""
    c = dict(c)
    d = dims(c)
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(5)
        if k == 0 and d == 1:
            c.update(rng.choice([dict(ny=1, dy=-1, nz=1, dz=-1), dict(ny=rng.choice([0, 1]), dy=rng.randint(1, 9)),
                                 dict(ny=rng.randint(0, 9), dy=-1, nz=rng.randint(1, 5), dz=rng.choice([-1, 3]))]))
        elif k == 0 and d == 2:
            c.update(rng.choice([dict(nz=1, dz=-1), dict(nz=rng.choice([0, 1]), dz=rng.randint(1, 9)),
                                 dict(nz=rng.randint(0, 9), dz=-1)]))
        elif k == 1:
            dp = default_pads(v, c)
            a = rng.randrange(d)
            key = "p" + "xyz"[a]
            if c[key] < 0:
                c[key] = rng.choice([dp[a], dp[a], dp[a], max(0, dp[a] - 1), dp[a] + 1, -7])
            else:
                c[key] = rng.choice([c[key], c[key] + 1, max(0, c[key] - 1)] + [-1] * (c[key] == dp[a]))
        elif k == 2:
            for a in "xyz"[d:]:
                c["p" + a] = rng.choice([-1, 0, 3, 50])
                c["s" + a] = rng.choice([1, 500, 1000])
        elif k == 3:
            for a in "xyz"[:d]:
                if c["s" + a] >= 1000:
                    c["s" + a] = rng.choice([1000, 1500, 2000])
    return c


def rand_vario(rng, names=None):
    t = rng.choice(names or NAMES)
    r = lambda: rng.choice([rng.randint(5, 60), rng.randint(5, 300)])
    return dict(type=t, rx=r(), ry=rng.choice([-1, 0, r(), r()]), rz=rng.choice([-1, 0, r(), r()]),
                azi=rng.choice([0, 0, 30, 45, 90, 120, -75, 180, 360, 17]),
                dip=rng.choice([0, 0, 0, 20, 45, -30, 90]),
                pow=rng.choice([15, 15, 10, 19, 12]), u=rng.randrange(len(UNITS)))


def rand_call(rng, varios, d=None, big=False, adv=None):
    for _ in range(100000):
        vi = rng.randrange(len(varios))
        v = canon(varios[vi])
        dd = d or rng.choice([1, 1, 2, 2, 3])
        mx = {1: 60, 2: 24, 3: 9}[dd] * (4 if big else 1)
        n = [rng.randint(1, mx)] + [rng.randint(2, mx) for _ in range(2)]
        step = lambda: rng.choice([rng.randint(1, 12), rng.randint(3, 90)])
        c = dict(v=vi, nx=n[0], dx=step(), ny=n[1], dy=step(), nz=n[2], dz=step(), px=-1, py=-1, pz=-1,
                 sx=1000, sy=1000, sz=1000)
        if dd == 1:
            k = rng.randrange(4)
            if k == 0: c.update(ny=1, dy=-1, nz=1, dz=-1)
            elif k == 1: c.update(ny=rng.choice([0, 1]))
            elif k == 2: c.update(dy=-1)
            else: c.update(ny=1, nz=1, dz=-1)
        elif dd == 2:
            k = rng.randrange(3)
            if k == 0: c.update(nz=1, dz=-1)
            elif k == 1: c.update(nz=rng.choice([0, 1]))
            else: c.update(dz=-1)
        if adv if adv is not None else rng.random() < 0.35:
            for a in "xyz"[:dd]:
                if rng.random() < 0.6: c["p" + a] = rng.choice([0, 1, 2, 5, rng.randint(0, 20)])
                if rng.random() < 0.5: c["s" + a] = rng.choice([1, 50, 300, 500, 900, 999, 1000, 1500])
        if pad_ok(v, c, {1: 3000, 2: 12000, 3: 30000}[dd] * (20 if big else 1)):
            return c
    raise vt.CheckError("no call found")


def family(rng, base=None):
    """Variograms that differ from the first one in exactly one argument each."""
    b = base or rand_vario(rng)
    b = dict(b, ry=rng.randint(5, 40), rz=rng.randint(5, 40), rx=rng.randint(5, 40))
    out = [b]
    for k, vals in dict(pow=[12, 13], rx=[b["rx"] + 1], ry=[b["ry"] + 1, -1], rz=[b["rz"] + 1, -1], azi=[b["azi"] + 180, 33, -33],
                        dip=[31, -31], type=rng.sample(TYPES, 2), u=[(b["u"] + 1) % len(UNITS)]).items():
        out += [dict(b, **{k: x}) for x in vals]
    return out


def near_calls(rng, varios, c, maxtot=200000):
    """Calls on the grid of c that differ from it in exactly one argument (including every variogram)."""
    out = [dict(c, v=i) for i in range(len(varios))]
    for a in "xyz"[:dims(c)]:
        out += [dict(c, **{"n" + a: c["n" + a] + 1}), dict(c, **{"d" + a: c["d" + a] + 1}), dict(c, **{"s" + a: 400})]
        if c["p" + a] >= 0:
            out.append(dict(c, **{"p" + a: c["p" + a] + 1}))
            if c["p" + a] and c["n" + a] > 1:
                out.append(dict(c, **{"p" + a: c["p" + a] - 1, "n" + a: c["n" + a] + 1}))
    return [x for x in out if dims(x) == dims(c) and pad_ok(canon(varios[x["v"]]), x, maxtot)]


def equal_3d(rng, varios, lo, hi):
    """Two lists of 3D calls whose padded grids have the same total number of cells."""
    S = [2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 28, 30, 32, 36, 40, 42, 48, 50, 54, 56, 60, 64]
    while True:
        t = [rng.choice(S) for _ in range(3)]
        T = t[0] * t[1] * t[2]
        if not lo <= T <= hi:
            continue
        parts = rng.choice([1, 2, 3])
        other = [[rng.choice(S) for _ in range(3)] for _ in range(parts - 1)]
        rest = T - sum(a * b * c for a, b, c in other)
        cand = [(a, b, rest // (a * b)) for a in S for b in S if rest > 0 and rest % (a * b) == 0 and rest // (a * b) in S]
        cand = [x for x in cand if list(x) != t]
        if cand:
            break

    def call(x):
        n = [rng.randint(2, k) for k in x]
        return dict(v=rng.randrange(len(varios)), nx=n[0], dx=rng.randint(3, 40), ny=n[1], dy=rng.randint(3, 40), nz=n[2],
                    dz=rng.randint(3, 40), px=x[0] - n[0], py=x[1] - n[1], pz=x[2] - n[2], sx=rng.choice([1000, 700]), sy=1000, sz=1000)
    return [call(t)], [call(x) for x in other + [list(rng.choice(cand))]]


def run_driver(ctx, sessions, varios, pures=None, want="hash", env=None, jobs=6, timeout=60, epoch=1700000000):
    site = vt.build_ext()
    shim = vt.build_c("clockshim")
    fin, fout = os.path.join(ctx.scratch, "in.pickle"), os.path.join(ctx.scratch, "out.pickle")
    pickle.dump(dict(units=UNITS, varios=varios, pures=pures or {}, fails=FAILS, sessions=sessions, want=want,
                     jobs=jobs, timeout=timeout, epoch=epoch), open(fin, "wb"))
    e = dict(os.environ, PYTHONPATH=site, LD_PRELOAD=shim, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    r = vt.run_limited([vt.PY, os.path.join(vt.VERIF, "harness", "session_driver.py"), fin, fout], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=ctx.pick(330, 1500))
    if r.returncode != 0:
        if "ImportError" in r.stderr or "ModuleNotFoundError" in r.stderr:
            raise vt.Violation("the package does not import: " + r.stderr[-500:])
        raise vt.CheckError("driver failed: " + r.stderr[-3000:])
    return pickle.load(open(fout, "rb"))


def gen_histories(ctx, num, depth, varios, calls, seeds, pures, fails, procs=2, times=3, seed=None):
    """Behaviours of the specification (TLC simulation mode)."""
    defs = dict(GProcs="1 .. %d" % procs, GSeeds=vt.tla(set(seeds)),
                GCalls="{" + ", ".join(vt.tla(c) for c in calls) + "}",
                GVarios="[i \\in 0 .. %d |-> (<<%s>>)[i + 1]]" % (len(varios) - 1, ", ".join(vt.tla(v) for v in varios)),
                GTimes="1 .. %d" % times, GPures=vt.tla(set(pures)), GFails=vt.tla(set(fails)))
    cfg = """SPECIFICATION GSpec
CONSTANTS Procs <- MCProcs  SeedVals <- MCSeeds  Calls <- MCCalls  Varios <- MCVarios  Times <- MCTimes
Depth = %d
""" % depth
    r = ctx.tlc("SessionGen", cfg, defs=defs, simulate=num, depth=depth + 2, seed=seed)
    hs = [x for t, x in r.items if t == "H"]
    if not hs:
        raise vt.CheckError("no behaviours generated:\n" + r.out[-2000:])
    return hs[:num]


def to_session(h, rng):
    """History record -> driver operations.  A clock seed is learnt by asking a process that holds it."""
    ops = []
    cur, now = {}, None
    for e in h:
        o = dict(e)
        p = o["p"]
        if o["op"] == "tick":
            now = str(o["t"])
        if o["op"] == "sim":
            o["style"] = rng.randrange(128)
            cur.setdefault(p, ("auto", now))
        if o["op"] == "fork" and p in cur:
            cur[o["q"]] = cur[p]
        if o["op"] == "seed":
            if o["tok"][0] == "auto":
                o["holder"] = next(q for q, t in cur.items() if t == tuple(o["tok"]))
            cur[p] = tuple(o["tok"])
        ops.append(o)
    return ops


def rand_sessions(rng, n, length, calls, seeds, pures, fails, procs=2, auto=True, weights=None):
    """Random sessions chosen by the driver's side (for trace validation), not by the specification."""
    out = []
    w = dict(dict(sim=10, seed=4, query=3, pure=3, fail=2, fork=1, tick=2), **(weights or {}))
    kinds, ws = list(w), list(w.values())
    for _ in range(n):
        live, cur, now = [1], {}, rng.randint(1, 5)
        ops = [dict(op="tick", p=0, t=now)]
        if not auto:
            s = rng.choice(seeds)
            ops.append(dict(op="seed", p=1, tok=["set", s])); cur[1] = ("set", s)
        recent = []
        while len(ops) < length:
            k = rng.choices(kinds, ws)[0]
            p = rng.choice(live)
            if k == "sim":
                c = rng.choice(recent[-4:]) if recent and rng.random() < 0.5 else rng.choice(calls)
                recent.append(c)
                ops.append(dict(op="sim", p=p, c=c, style=rng.randrange(128)))
                cur.setdefault(p, ("auto", str(now)))
            elif k == "seed":
                held = [(q, t) for q, t in cur.items() if t[0] == "auto"]
                if held and auto and rng.random() < 0.4:
                    q, t = rng.choice(held)
                    ops.append(dict(op="seed", p=p, tok=list(t), holder=q))
                else:
                    t = ("set", rng.choice(seeds))
                    ops.append(dict(op="seed", p=p, tok=list(t)))
                cur[p] = t
            elif k == "query":
                ops.append(dict(op="query", p=p))
            elif k == "pure" and pures:
                ops.append(dict(op="pure", p=p, w=rng.choice(pures)))
            elif k == "fail" and fails:
                ops.append(dict(op="fail", p=p, w=rng.choice(fails)))
            elif k == "fork" and len(live) < procs:
                q = len(live) + 1
                live.append(q)
                if p in cur: cur[q] = cur[p]
                ops.append(dict(op="fork", p=p, q=q))
            elif k == "tick":
                now += rng.randint(1, 3)
                ops.append(dict(op="tick", p=0, t=now))
        out.append(ops)
    return out


def trace_lines(sessions, results):
    """Recorded runs as events for the trace specification."""
    ev = []
    for s, r in zip(sessions, results):
        ev.append(dict(op="new", t=s[0]["t"]))
        for o, x in zip(s, r):
            if x.get("crash"):
                ev.append(dict(op="crash", p=o["p"]))
                break
            if o["op"] == "tick":
                if o is not s[0]:
                    ev.append(dict(op="tick", t=o["t"]))
            elif o["op"] == "fork":
                ev.append(dict(op="fork", p=o["p"], q=o["q"]))
            elif o["op"] == "seed":
                ev.append(dict(op="seed", p=o["p"], tok=o["tok"], ok=x["ok"]))
            elif o["op"] == "query":
                ev.append(dict(op="query", p=o["p"], ok=x["ok"], val=x.get("val", "")))
            elif o["op"] == "sim":
                ev.append(dict(op="sim", p=o["p"], c=o["c"], ok=x["ok"], len=x.get("len", -1),
                               id="f" + x.get("id", "")))
            elif o["op"] == "pure":
                ev.append(dict(op="pure", p=o["p"], w=o["w"], ok=x["ok"], id="p" + x.get("id", "")))
            elif o["op"] == "fail":
                ev.append(dict(op="fail", p=o["p"], ok=x["ok"]))
    return ev


def validate_trace(ctx, ev, varios, mode, procs=4):
    """Runs the trace specification on the events; returns the index of the first one it cannot explain, or None."""
    import json
    defs = dict(GProcs="1 .. %d" % procs,
                GVarios="[i \\in 0 .. %d |-> (<<%s>>)[i + 1]]" % (len(varios) - 1, ", ".join(vt.tla(v) for v in varios)))
    cfg = """SPECIFICATION TSpec
CONSTANTS Procs <- MCProcs  SeedVals <- MCSeeds  Calls <- MCCalls  Varios <- MCVarios  Times <- MCTimes
Mode = "%s"
VIEW TView
POSTCONDITION TraceAccepted
""" % mode
    r = ctx.tlc("SessionTrace", cfg, defs=defs, files={"trace.ndjson": "\n".join(json.dumps(e) for e in ev) + "\n"},
                fail_ok=True, timeout=800)
    if r.rc == 0:
        ctx.traces += 1
        return None
    if "Postcondition" not in r.out and "TraceAccepted" not in r.out and "POSTCONDITION" not in r.out.upper():
        raise vt.CheckError("trace specification failed:\n" + r.out[-3000:])
    if not r.depth:
        raise vt.CheckError("no depth:\n" + r.out[-3000:])
    return r.depth - 1


def py_calls(ctx, calls):
    site = vt.build_ext()
    fin, fout = os.path.join(ctx.scratch, "ci.pickle"), os.path.join(ctx.scratch, "co.pickle")
    pickle.dump(dict(units=UNITS, calls=calls), open(fin, "wb"))
    e = dict(os.environ, PYTHONPATH=site, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = vt.run_limited([vt.PY, os.path.join(vt.VERIF, "harness", "py_calls.py"), fin, fout], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=ctx.pick(330, 1500))
    if r.returncode < 0:
        raise vt.Violation("the interpreter died (signal %d) in a valid call" % -r.returncode)
    if r.returncode:
        raise vt.CheckError("py_calls failed: " + r.stderr[-2000:])
    return pickle.load(open(fout, "rb"))
