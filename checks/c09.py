"""C09: a variogram object is its parameters, whatever was done to it before."""
import math, random
import vt, sess, ref, hn
from c08 import TNUM

NAMES = dict(constant="constant", exponential="exponential", spherical="spherical", gaussian="Gaussian",
             general_exponential="general exponential", matern32="matern 3/2", matern52="matern 5/2", matern72="matern 7/2")
LAGS = [(0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.7, -0.4, 0.2), (1.5, 1, -2)]
RAD15 = math.radians(15)


def vals(o):
    """What an object with these parameters answers."""
    v = dict(t=o["t"], rx=o["rx"] / 10.0, ry=o["ry"] / 10.0, rz=o["rz"] / 10.0, azi=15 * o["az"], dip=15 * o["dp"], pow=o["pow"])
    sd = o["sd"] / 10.0
    c = lambda x, y=0.0, z=0.0: sd * sd * float(ref.corr(v, x, y, z))
    k = float(ref.corr(v, 0.7, -0.4, 0.2))
    return ([v["rx"], v["ry"], v["rz"], o["az"] * RAD15, o["dp"] * RAD15, sd, sess.ratio(v) / 1000.0],
            [c(*l) for l in LAGS] + [c(0.7, -0.4), c(0.7), sd * sd * (1 - k), k])


def behaviours(ctx, rng, num, depth, exhaustive):
    news = []
    for t in (sess.TYPES if not exhaustive else rng.sample(sess.TYPES, 2)):
        news.append(dict(t=t, rx=rng.choice([10, 25]), ry=rng.choice([7, 30]), rz=rng.choice([5, 13]), az=rng.choice([0, 3]),
                         dp=rng.choice([0, 2]), sd=rng.choice([10, 20]), pow=15 if t != "general_exponential" else rng.choice([12, 15, 19])))
    small = exhaustive
    defs = dict(GNew="{" + ",".join(vt.tla(o) for o in news) + "}",
                GRange=vt.tla({-5, 0, 20} if small else {-5, 0, 3, 12, 20, 44}), GLimit=vt.tla({-1, 8, 100} if small else {-1, 0, 6, 8, 21, 100}),
                GAngle=vt.tla({0, 2} if small else {-3, 0, 1, 2, 6, 12, 24}), GDev=vt.tla({-20, 15} if small else {-20, 0, 5, 10, 15}),
                GTriples=vt.tla({(11, 22, 33), (11, 22, 0), (-1, 5, 6), (9, -2, 7)} if not small else {(11, 22, 33), (11, 22, 0)}))
    cfg = """SPECIFICATION GSpec
CONSTANTS Slots <- MCSlots NewObjs <- MCNew RangeVals <- MCRange LimitVals <- MCLimit AngleVals <- MCAngle DevVals <- MCDev
Depth = %d
INVARIANT TypeOK
PROPERTIES FailSafe OneAtATime
""" % depth
    if exhaustive:
        r = ctx.tlc("VarioObjGen", cfg, defs=defs, workers=1, timeout=800)
    else:
        r = ctx.tlc("VarioObjGen", cfg, defs=defs, simulate=num, depth=depth + 2)
    return [x for _, x in r.items]


def lines_of(h):
    out = ["reset"]
    for e in h:
        a, op = e["a"], e["op"]
        if op == "new":
            o = a[0]
            out.append("new %d %d %s" % (e["k"], TNUM[o["t"]], " ".join(hn.fl(x) for x in (
                o["pow"] / 10.0, o["rx"] / 10.0, o["ry"] / 10.0, o["rz"] / 10.0, o["az"] * RAD15, o["dp"] * RAD15, o["sd"] / 10.0))))
        elif op in ("clone", "drop"):
            out.append("%s %d %s" % (op, e["k"], a[0] if a else ""))
        else:
            f = RAD15 if op[:2] in ("sa", "ra") else 0.1
            out.append("%s %d %s" % (op, e["k"], " ".join(hn.fl(x * f) for x in a)))
    return out


def judge(ctx, h, lines, ans):
    memo = judge.memo
    for i, e in enumerate(h):
        a = ans[i + 1]
        where = dict(commands=lines[:i + 2], operation=e["op"], expected=e["objs"], answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (e["op"], hn.unhx(a[1])), where)
        w = a[1:]
        if e["op"] not in ("new", "clone", "drop"):
            if (w[0] == "1") != (e["out"] == "error"):
                raise vt.Violation("%s: the call %s" % (lines[i + 1], "was refused" if w[0] == "1" else "was accepted"), where)
            w = w[1:]
        live = {k + 1: o for k, o in enumerate(e["objs"]) if o["t"] != "none"}
        if int(w[0]) != len(live):
            raise vt.CheckError("slots")
        w = w[1:]
        for _ in live:
            k, w = int(w[0]), w[1:]
            o = live[k]
            key = tuple(sorted(o.items()))
            if key not in memo:
                memo[key] = vals(o)
            g, c = memo[key]
            got = [hn.unfl(x) for x in w[:7]]
            cov = [hn.unfl(x) for x in w[8:17]]
            name = hn.unhx(w[7]).decode()
            bad = [(x, y) for x, y in zip(got + cov, g + c) if not abs(x - y) <= 1e-9 * max(1.0, abs(y))]
            if bad or name != NAMES[o["t"]]:
                raise vt.Violation("after %s an object with parameters %s answers %s" % (e["op"], o, bad or name), where)
            w = w[17:]


judge.memo = {}


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 9)
    hs = []
    for k in range(ctx.pick(1, 4)):
        hs += behaviours(ctx, rng, ctx.pick(600, 4000), 10 if k % 2 == 0 else 18, False)
    hs += behaviours(ctx, rng, 0, ctx.pick(3, 4), True)
    lines, starts = [], []
    ls = []
    for h in hs:
        starts.append(len(lines))
        l = lines_of(h)
        ls.append(l)
        lines += l
    ans = hn.run(ctx, "vario", lines, jobs=8, group=starts)
    for h, l, s in zip(hs, ls, starts):
        judge(ctx, h, l, ans[s:s + len(l)])
        ctx.traces += 1
    ctx.cov.update(behaviours=len(hs), operations=len(lines))
    ctx.sample(dict(behaviour=[(e["op"], e["k"], e["a"]) for e in hs[0]][:8]))
