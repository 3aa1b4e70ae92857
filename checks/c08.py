"""C08: variograms mean what their arguments say."""
import math, random
from fractions import Fraction
import numpy as np
import vt, sess, ref, hn

ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5), (5, 12, 13), (12, -5, 13),
       (8, 15, 17), (-15, 8, 17), (7, 24, 25), (24, 7, 25)]
TNUM = dict(constant=0, exponential=1, spherical=2, gaussian=3, general_exponential=4, matern32=5, matern52=6, matern72=7)


def deg(a):
    return math.degrees(math.atan2(a[1], a[0]))


def cases(ctx, rng):
    out = []
    for t in sess.NAMES:                    # every name, along and across every axis, inside, at and beyond the range
        for az, dp in [((1, 0, 1), (1, 0, 1)), ((0, 1, 1), (1, 0, 1)), ((1, 0, 1), (0, 1, 1)), ((3, 4, 5), (1, 0, 1)),
                       ((1, 0, 1), (4, 3, 5)), ((3, 4, 5), (5, 12, 13))]:
            for x, y, z in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (4, 0, 0), (0, 6, 0), (0, 0, 9), (3, -2, 1), (-3, 2, -1),
                            (5, 0, 0), (40, 1, 2)]:
                for ry, rz in [(6, 9), (-1, -1), (0, 3)]:
                    out.append(dict(v=dict(type=t, rx=4, ry=ry, rz=rz, azi=0, dip=0, pow=15, u=0), az=az, dp=dp, x=x, y=y, z=z))
    for _ in range(ctx.pick(6000, 60000)):
        v = sess.rand_vario(rng)
        v.update(rx=rng.choice([rng.randint(1, 30), rng.randint(1, 400)]), azi=0, dip=0, pow=rng.randint(5, 20))
        s = rng.choice([1, 3, 10, 40])
        out.append(dict(v=v, az=rng.choice(ANG), dp=rng.choice([(1, 0, 1)] + ANG), x=rng.randint(-s, s), y=rng.randint(-s, s),
                        z=rng.choice([0, rng.randint(-s, s)])))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 8)
    cs = cases(ctx, rng)
    exp = []
    B = 4000
    for b in range(0, len(cs), B):
        part = [dict(c, az=list(c["az"]), dp=list(c["dp"])) for c in cs[b:b + B]]
        r = ctx.tlc("VarioGen", "SPECIFICATION Spec\nINVARIANTS Lengths Symmetric Circle MainAxis\nCONSTRAINT Emit\n",
                    defs=dict(GCases="<<" + ",\n".join(vt.tla(c) for c in part) + ">>"))
        got = {x["i"]: x for _, x in r.items}
        if len(got) != len(part):
            raise vt.CheckError("TLC answered %d of %d" % (len(got), len(part)))
        exp += [got[k + 1] for k in range(len(part))]
    calls, clines = [], []
    for c in cs:
        u = sess.UNITS[c["v"]["u"]]
        v = dict(c["v"], azi=deg(c["az"]), dip=deg(c["dp"]))
        x, y, z = c["x"] * u, c["y"] * u, c["z"] * u
        forms = [(x, y, z)] + [(x, y)] * (z == 0) + [(x,)] * (z == 0 and y == 0) + [(-x, -y, -z)]
        calls.append(("corrs", v, rng.randrange(4), forms, {}))
    got = sess.py_calls(ctx, calls)
    for c, e, g, call in zip(cs, exp, got, calls):
        d = math.sqrt(sum((n / m) ** 2 for n, m in e["q"]))
        w = float(ref.corr1d(e["t"], d, e["pow"] / 10.0))
        if e["t"] == "spherical" and abs(d - 1) < 1e-9:
            w = 0.0
        ctx.traces += 1
        if g[0] != "ok" or not all(close(x, w) for x in g[1]):
            raise vt.Violation("corr gives %s, the variogram's definition %.15g" % (g[1], w),
                               dict(case=c, call=call[1:], got=g[1], expected=w, distance=d))
        u = sess.UNITS[c["v"]["u"]]
    # the C++ face of the same: covariance, variogram and point forms, with a standard deviation
    lines, want = [], []
    for c, e in zip(cs, exp):
        if rng.random() < 0.5:
            continue
        u, sd = sess.UNITS[c["v"]["u"]], rng.choice([1.0, 2.5, 0.1])
        rr = [c["v"]["rx"]] + [c["v"][k] if c["v"][k] > 0 else c["v"]["rx"] for k in ("ry", "rz")]
        p = [rng.uniform(-9, 9) for _ in range(3)]
        lines.append("probe %d %s %s %s %s %s %s %s" % (
            TNUM[e["t"]], hn.fl(c["v"]["pow"] / 10.0), " ".join(hn.fl(r * u) for r in rr),
            hn.fl(math.radians(deg(c["az"]))), hn.fl(math.radians(deg(c["dp"]))), hn.fl(sd),
            " ".join(hn.fl(c[k] * u) for k in "xyz"), "0 0 0"))
        d = math.sqrt(sum((n / m) ** 2 for n, m in e["q"]))
        w = float(ref.corr1d(e["t"], d, e["pow"] / 10.0))
        want.append((w, sd, c))
    ans = hn.run(ctx, "vario", lines, jobs=4)
    for l, a, (w, sd, c) in zip(lines, ans, want):
        if a[0] != "ok":
            raise vt.Violation("%s: %s" % (l, hn.unhx(a[1])), dict(command=l))
        val = [hn.unfl(x) for x in a[1:]]
        k = 0
        dims = [3] + [2] * (c["z"] == 0) + [1] * (c["z"] == 0 and c["y"] == 0)
        for dim in (3, 2, 1):
            five = val[k:k + 5]
            k += 5
            if dim in dims and not all(close(x, y) for x, y in zip(five, (w, w, sd * sd * w, sd * sd * w, sd * sd * (1 - w)))):
                raise vt.Violation("%dD corr, corrpoint, cov, covpoint, variogram are %s; correlation should be %.15g"
                                   % (dim, five, w), dict(case=c, command=l, got=five, expected=w, sd=sd))
        ctx.traces += 1
    ctx.cov.update(cases=len(cs), cpp_cases=len(lines))
    ctx.sample(dict(case=cs[-1], expected=exp[-1], got=got[-1]))
