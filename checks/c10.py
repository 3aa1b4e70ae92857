"""C10: the covariance grid holds the variogram's covariance at the wrap-around lag of every cell."""
import math, random
import numpy as np
import vt, sess, ref, hn
from c08 import TNUM


def vline(v, u, sd):
    return "%d %s" % (TNUM[v["t"]], " ".join(hn.fl(x) for x in (
        (v["pow"] or 15) / 10.0, v["rx"] * u, v["ry"] * u, v["rz"] * u, math.radians(v["azi"]), math.radians(v["dip"]), sd)))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 10)
    mx = ctx.pick(64, 200)
    r = ctx.tlc("LagGen", "SPECIFICATION Spec\nINVARIANTS Bound Even Cong\nCONSTRAINT Emit\n", defs=dict(GMax=str(mx)))
    lag = {x["n"]: x["lags"] for _, x in r.items}
    if len(lag) != mx:
        raise vt.CheckError("lags")
    lines, meta = [], []

    def add(d, ns):
        a = sess.rand_vario(rng)
        v, u = sess.canon(a), sess.UNITS[a["u"]]
        v["rx"], v["ry"], v["rz"] = (rng.randint(2, 40) for _ in range(3))
        step = [rng.randint(1, 9) for _ in range(d)]
        sm = [rng.choice([1000, 1000, 1000, 300, 900, 1, 1500]) for _ in range(d)]
        sd = rng.choice([1.0, 1.0, 2.0, 0.5])
        lines.append("cov%d %s %s %s %s" % (d, vline(v, u, sd), " ".join(map(str, ns)), " ".join(hn.fl(s * u) for s in step),
                                            " ".join(hn.fl(s / 1000.0) for s in sm)))
        meta.append((d, ns, v, u, step, [min(s, 1000) for s in sm], sd))
    for n in range(1, mx + 1):
        for _ in range(ctx.pick(2, 4)):
            add(1, [n])
    top2, top3 = ctx.pick((9, 5), (16, 8))
    for n in range(1, top2 + 1):
        for m in range(1, top2 + 1):
            for _ in range(ctx.pick(2, 3)):
                add(2, [n, m])
    for n in range(1, top3 + 1):
        for m in range(1, top3 + 1):
            for l in range(1, top3 + 1):
                for _ in range(2):
                    add(3, [n, m, l])
    for _ in range(ctx.pick(30, 200)):
        add(2, [rng.randint(1, 50), rng.randint(1, 50)])
        add(3, [rng.randint(1, 16), rng.randint(1, 16), rng.randint(1, 16)])
    ans = hn.run(ctx, "fftx", lines, jobs=8)
    for l, a, (d, ns, v, u, step, sm, sd) in zip(lines, ans, meta):
        if a[0] != "ok":
            raise vt.Violation("covariance grid failed: %s" % hn.unhx(a[1]), dict(command=l))
        w = a[1:]
        if d > 1:
            if [int(x) for x in w[:d]] != ns:
                raise vt.Violation("covariance grid of size %s, expected %s" % (w[:d], ns), dict(command=l))
            w = w[d:]
        got = np.array([hn.unfl(x) for x in w])
        if len(got) != np.prod(ns):
            raise vt.Violation("covariance grid of %d values, expected %s" % (len(got), ns), dict(command=l))
        got = got.reshape(ns)
        cc = dict(d=d, tot=ns, step=step, v=v, smooth=sm)
        err = None
        for hp in (math.pi / 2, 1.57):
            e = sd * sd * ref.cov_grid(cc, u, hp, [lag[n] for n in ns])
            x = np.max(np.abs(e - got))
            if err is None or x < err:
                err, best = x, e
        ctx.traces += 1
        if not err <= 1e-9:
            i = np.unravel_index(np.argmax(np.abs(best - got)), got.shape)
            raise vt.Violation("covariance at cell %s (lag %s) is %.12g, expected %.12g"
                               % (i, [lag[n][k] for n, k in zip(ns, i)], got[i], best[i]),
                               dict(command=l, vario=v, unit=u, cells=ns, steps=step, smooth=sm, sd=sd))
    # CovGrid2D: the same covariances, looked up by lag
    lines, meta = [], []
    for _ in range(ctx.pick(150, 1500)):
        a = sess.rand_vario(rng)
        v, u = sess.canon(a), sess.UNITS[a["u"]]
        nx, ny, dx, dy = rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 30), rng.randint(1, 30)
        lines.append("cg2 %s %d %d %s %s" % (vline(v, u, 1.0), nx, ny, hn.fl(dx * u), hn.fl(dy * u)))
        meta.append((v, u, nx, ny, dx, dy))
    for l, a, (v, u, nx, ny, dx, dy) in zip(lines, hn.run(ctx, "vario", lines, jobs=4), meta):
        if a[0] != "ok":
            raise vt.Violation("CovGrid2D failed", dict(command=l))
        w = [hn.unfl(x) for x in a[1:]]
        k = 0
        for i in range(-nx + 1, nx):
            for j in range(-ny + 1, ny):
                e = float(ref.corr(v, i * dx * u, j * dy * u, 0.0, u))
                if not abs(w[k] - e) <= 2e-6:
                    raise vt.Violation("CovGrid2D(%d,%d) is %g, expected %g" % (i, j, w[k], e), dict(command=l))
                k += 1
        ctx.traces += 1
    ctx.cov.update(grids=len(ans), covgrid2d=len(lines))
    ctx.sample(dict(lags_of_7=lag[7], lags_of_8=lag[8]))
