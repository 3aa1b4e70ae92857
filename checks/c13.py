"""C13: the empirical variogram estimators."""
import math, os, pickle, random, subprocess
import numpy as np
import vt, ref
from concurrent.futures import ThreadPoolExecutor


def cases(rng, n):
    out = []
    while len(out) < n:
        d = rng.choice([1, 2, 2, 3])
        top = {1: 14, 2: 6, 3: 4}[d]
        dims = [rng.randint(2, top) for _ in range(d)] + [1] * (3 - d)
        unit = rng.random() < 0.5
        step = [1 if unit else rng.randint(1, 6) for _ in range(3)]
        g = dict(n=dims, d=step)
        N = dims[0] * dims[1] * dims[2]
        mx = math.sqrt(sum(((a - 1) * s) ** 2 for a, s in zip(dims, step)))
        res = rng.randint(1, max(1, int(mx)))
        cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
        refs = rng.sample(cells, min(len(cells), rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.4:
            refs = [(0, 0, 0)]
        if any(max(sum(((a - b) * s) ** 2 for a, b, s in zip(c, r, step)) for c in cells) < res * res for r in refs):
            continue
        out.append(dict(g=g, f=[[rng.randint(0, 9) for _ in range(N)] for _ in range(rng.choice([1, 2, 3]))], refs=refs, res=res,
                        cr2=rng.choice([1, 2, 5, 10, 26]), step=rng.randint(1, 3), k=rng.randint(1, N), off=rng.randint(0, N - 1),
                        pad=[rng.randint(0, 9) for _ in range(3)]))
    return out


def exact(o):
    m = math.isqrt(o["max2"])
    return not o["edge"] or (m * m == o["max2"] and m % o["nb"] == 0)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) < 1e-9) | (np.isnan(a) & np.isnan(b))))


def judge(ctx, q, t, a):
    where = dict(case=q, specification=t)
    if a[0] != "ok":
        raise vt.Violation("the estimator raised " + a[1], where)
    r = a[1]
    n = q["g"]["n"]
    S = len(q["f"])
    tup = lambda l: [tuple(int(y) for y in x) for x in l]
    for what, want in (("all", t["all"]), ("center", [t["center"]]), ("origo", [[0, 0, 0]]), ("regular", t["regular"])):
        if tup(r[what]) != tup(want):
            raise vt.Violation("reference points '%s': %s, expected %s" % (what, tup(r[what]), tup(want)), where)
    one, two = (tup(x) for x in r["random"])
    if one != two or len(set(one)) != q["k"] or not set(one) <= set(tup(t["all"])) or not r["nosuch"]:
        raise vt.Violation("random reference points: %s, %s" % (one, two), where)
    if not close(*r["dummy"]):
        raise vt.Violation("dummy_sim: half the squared field is %s, expected one minus the correlation %s" % r["dummy"], where)
    d = [float(x) for x in q["g"]["d"]]
    want = (n[0], d[0], n[1], d[1], n[2], d[2]) + tuple(q["pad"]) + (1.0, 1.0, 1.0)
    if any(c != want for c in r["calls"]):
        raise vt.Violation("simulated %s, expected %s" % (r["calls"], want), where)
    if exact(t["origin"]) and all(exact(x) for x in t["refs"]):
        ctx.count("estimates_compared")
        nb = t["origin"]["nb"]
        mx = math.sqrt(t["origin"]["max2"])
        if not close(r["mid"], [(b + 1) * mx / nb for b in range(nb)]):
            raise vt.Violation("distance values %s" % r["mid"], where)
        # fields are handed out in turn, so any run of S simulations sees each of them once
        true = np.array([float(ref.corr1d("gaussian", (b + 1) * mx / nb / 10.0)) for b in range(nb)])
        ok = False
        for rot in range(S):
            acc, dl = np.zeros(nb), []
            for i in range(S):
                loc, c = np.zeros(nb), np.zeros(nb)
                for k in range(len(q["refs"])):
                    for b, x in enumerate(t["bins"][(rot + i) % S][k]):
                        loc[b] += 1 - (x["sum"] / x["cnt"] if x["cnt"] else math.nan) / 2.0
                        c[b] += 1
                with np.errstate(all="ignore"):
                    acc += loc / c
                dl.append(acc / (i + 1) - true)
            ok = ok or close(r["deltas"], dl)
        if not close(r["est"], acc / S) or not close(r["cnt"], c * S):
            raise vt.Violation("estimate %s (%s), expected %s (%s)" % (r["est"], r["cnt"], acc / S, c * S), where)
        if not close(r["true"][1], true) or not ok:
            raise vt.Violation("true variogram or convergence differ: %s %s" % (r["true"], r["deltas"]), where)
    if r["two"] is not None:
        ctx.count("group_estimates_compared")
        for (x, y, err), groups in zip(r["two"], (t["close"], t["lattice"])):
            byd = [{e["d2"]: e["sum"] / e["cnt"] for e in gs} for gs in groups]
            got = {round(xx * xx): (yy, ee) for xx, yy, ee in zip(x, y, err)}
            if set(got) != set(byd[0]) or len(got) != len(x):
                raise vt.Violation("distances %s, expected the roots of %s" % (list(x), sorted(byd[0])), where)
            for q2, (yy, ee) in got.items():
                ys = [b[q2] for b in byd]
                if abs(yy - np.mean(ys)) > 1e-9 or abs(ee - np.std(ys)) > 1e-9:
                    raise vt.Violation("at distance %g: %g +- %g, expected %g +- %g" % (math.sqrt(q2), yy, ee, np.mean(ys), np.std(ys)), where)
        w2 = (n[0], 1.0, n[1], 1.0, n[2], 1.0) + tuple(q["pad"])
        if any(c[:9] != w2 for c in r["calls2"]):
            raise vt.Violation("simulated %s, expected %s" % (r["calls2"], w2), where)


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 13)
    cs = cases(rng, ctx.pick(600, 3000))
    parts = [cs[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as p:
        rs = list(p.map(lambda c: ctx.tlc("EmpVarioGen", "SPECIFICATION Spec\n", defs=dict(GCases=vt.tla(c)), timeout=800), parts))
    terms = []
    for c, r in zip(parts, rs):
        m = {x["i"]: x["r"] for _, x in r.items}
        terms.append([m[i + 1] for i in range(len(c))])
    cs = [q for c in parts for q in c]
    ts = [t for c in terms for t in c]
    fin, fout = os.path.join(ctx.scratch, "i.pickle"), os.path.join(ctx.scratch, "o.pickle")
    pickle.dump(cs, open(fin, "wb"))
    e = dict(os.environ, PYTHONPATH=vt.build_ext(), PYTHONDONTWRITEBYTECODE="1")
    r = vt.run_limited([vt.PY, vt.VERIF + "/harness/py_util.py", fin, fout], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=ctx.pick(200, 1000))
    if r.returncode:
        raise vt.Violation("the utilities could not be used: " + r.stderr[-800:])
    for q, t, a in zip(cs, ts, pickle.load(open(fout, "rb"))):
        judge(ctx, q, t, a)
        ctx.traces += 1
    ctx.cov["cases"] = len(cs)
    ctx.sample(dict(case=cs[0]))
