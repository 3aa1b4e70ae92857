"""C21: points, lines, planes, triangles, boxes, polygons, transformations, interpolation."""
import math, random
import vt, hn
from concurrent.futures import ThreadPoolExecutor

TRIS = [(1, 0, 1), (3, 4, 5), (-4, 3, 5), (5, -12, 13), (0, 1, 1), (-8, -15, 17), (-1, 0, 1), (24, 7, 25)]


def need(c, m):
    if not c:
        raise Bad(m)


class Bad(Exception):
    pass


def near(a, b, t=1e-7):
    return abs(a - b) <= t * max(1.0, abs(b))


def cases(rng, n):
    R = lambda k=3: rng.randint(-k, k)
    P = lambda k=3: [R(k), R(k), R(k)]

    def L(k=3):
        while True:
            p = P(k)
            r = rng.random()
            q = P(k) if r < .7 else [p[i] + (rng.choice([-2, -1, 1, 2]) if i == rng.randrange(3) else 0) for i in range(3)]
            if r > .85:
                p[2] = q[2] = 0
            if p != q:
                e = rng.choice([(1, 1), (1, 1), (1, 0), (0, 0), (0, 1)])
                return dict(p=p, q=q, e1=bool(e[0]), e2=bool(e[1]))

    def tri(k=3):
        while True:
            a = [P(k) for _ in range(3)]
            u, v = [[a[i][j] - a[0][j] for j in range(3)] for i in (1, 2)]
            if any((u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])):
                return a
    cs = []
    for _ in range(n):
        l, m = L(), L()
        r = rng.random()
        if r < .25:                                            # parallel, often on one line
            s = rng.choice([-1, 1, 1])
            d = [s * (b - a) for a, b in zip(l["p"], l["q"])]
            o = rng.choice([0, 0, 1, -1]) if rng.random() < .6 else P(1)
            off = [o * x for x in d] if isinstance(o, int) else o
            m["p"] = [a + b for a, b in zip(l["p"], off)]
            m["q"] = [a + b for a, b in zip(m["p"], d)]
            if any(abs(x) > 6 for x in m["p"] + m["q"]):
                m = L()
        elif r < .5:                                           # in the plane
            for p in (l["p"], l["q"], m["p"], m["q"]):
                p[2] = 0
            if l["p"] == l["q"] or m["p"] == m["q"]:
                continue
        x = P()
        if rng.random() < .3:
            m["p"] = [rng.choice([-1, 1, 2]) * v for v in x]
            if m["p"] == m["q"] or any(abs(v) > 4 for v in m["p"]):
                m = L()
        cs.append(dict(t="lines", l=l, m=m, x=x))
    for _ in range(n // 2):
        cs.append(dict(t="plane", a=tri(), b=tri(), x=P(), l=L()))
    for _ in range(n):
        a = tri(2) if rng.random() < .95 else [[0, 0, 0], [1, 1, 1], [2, 2, 2]]
        l = L(3)
        if rng.random() < .3:                                  # above the triangle, towards it or away
            w = [rng.randint(1, 2) for _ in range(3)]
            c = [round(sum(w[i] * a[i][j] for i in range(3)) / sum(w)) for j in range(3)]
            l = dict(p=[c[0] + R(1), c[1] + R(1), c[2] + rng.choice([-3, -2, 2, 3])], q=c if rng.random() < .3 else [c[0] + R(2), c[1] + R(2), c[2] + rng.choice([-2, 1, 2])], e1=True, e2=rng.random() < .6)
            if l["p"] == l["q"] or any(abs(v) > 5 for v in l["p"] + l["q"]):
                l = L(3)
        cs.append(dict(t="tri", a=a, l=l))
    for _ in range(n):
        tri_ = list(rng.choice(TRIS))
        ln = [rng.randint(1, 8) for _ in range(3)]
        l = L(9)
        if tri_ == [1, 0, 1] or rng.random() < .3:
            while True:
                d = [rng.choice([0, 1, -1, 2, -2, 4, -4]) for _ in range(3)]
                if any(d):
                    break
            l["p"] = [rng.randint(-3, 9) for _ in range(3)]
            if rng.random() < .4:                              # through a point of an edge or corner
                k = rng.randint(-2, 3)
                g = [rng.choice([0, ln[i], rng.randint(0, ln[i])]) for i in range(3)]
                l["p"] = [g[i] - k * d[i] for i in range(3)]
            l["q"] = [a + b for a, b in zip(l["p"], d)]
        cs.append(dict(t="box", len=ln, ref=P(9), tri=tri_, x=[rng.randint(-4, 12) for _ in range(3)], l=l))
    m = 0
    while m < n:
        k = rng.randint(3, 8)
        c = (rng.randint(2, 10), rng.randint(2, 10))
        pts = list({(rng.randint(0, 12), rng.randint(0, 12)) for _ in range(k)} - {c})
        if rng.random() < .5:                                  # a hull
            pts = hull(pts)
        else:
            pts.sort(key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))
        off = rng.choice([0, 0, -6, 20, -30])
        pts = [(2 * (x + off), 2 * (y - off)) for x, y in pts]
        s = rng.randrange(len(pts)) if pts else 0
        pts = pts[s:] + pts[:s]
        if rng.random() < .3:
            pts.reverse()
        if len(pts) < 3 or not simple(pts):
            continue
        m += 1
        q = [[rng.randint(2 * off - 3, 2 * off + 27), rng.randint(-2 * off - 3, -2 * off + 27)] for _ in range(8)]
        cs.append(dict(t="poly", p=[list(x) for x in pts], q=q))
    for _ in range(n):
        ms = []
        for _ in range(rng.randint(1, 5)):
            k, ax = rng.choice("TSMHR"), rng.randint(1, 3)
            ms.append([k, ax] + ({"T": lambda: [R(5)], "S": lambda: [rng.choice([-2, 1, 2, 3])], "M": lambda: [], "H": lambda: [R(2), R(2)], "R": lambda: [list(rng.choice(TRIS[:4] + TRIS[4:5]))]}[k])())
        if sum(1 for x in ms if x[0] == "R") <= 3:
            cs.append(dict(t="move", x=P(4), m=ms))
    for _ in range(n // 2):
        x = [R(4)]
        for _ in range(rng.randint(1, 4)):
            x.append(x[-1] + rng.randint(1, 2))
        cs.append(dict(t="curve", x=x, y=[R(4) for _ in x], q=[rng.randint(4 * x[0] - 6, 4 * x[-1] + 6) for _ in range(6)] + [4 * x[0], 4 * x[-1], 4 * x[len(x) // 2]]))
    return cs


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return []

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(pts), half(pts[::-1])
    return a[:-1] + b[:-1]


def simple(p):
    """No two edges meet (the specification checks this again)."""
    n = len(p)
    o = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    on = lambda a, b, c: o(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    if len(set(p)) < n or sum(p[i - 1][0] * p[i][1] - p[i - 1][1] * p[i][0] for i in range(n)) == 0:
        return False
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        if on(a, b, c) or on(b, c, a):
            return False
        for j in range(n):
            if j in (i, (i + 1) % n, (i - 1) % n):
                continue
            d, e = p[j - 1], p[j]
            if on(a, b, d) or on(a, b, e) or on(d, e, a) or on(d, e, b) or (o(a, b, d) * o(a, b, e) < 0 and o(d, e, a) * o(d, e, b) < 0):
                return False
    return True


def glob(c, x):
    k, s, h = c["tri"]
    return [c["ref"][0] + (k * x[0] - s * x[1]) / h, c["ref"][1] + (s * x[0] + k * x[1]) / h, c["ref"][2] + x[2]]


def line(c):
    f = lambda v: " ".join(hn.fl(x) for x in v)
    ln = lambda l, g=lambda x: x: "%s %s %d %d" % (f(g(l["p"])), f(g(l["q"])), l["e1"], l["e2"])
    t = c["t"]
    if t == "lines":
        return "lines %s %s %s" % (ln(c["l"]), ln(c["m"]), f(c["x"]))
    if t == "plane":
        return "plane %s %s %s %s" % (" ".join(map(f, c["a"])), f(c["x"]), ln(c["l"]), " ".join(map(f, c["b"])))
    if t == "tri":
        return "tri %s %s" % (" ".join(map(f, c["a"])), ln(c["l"]))
    if t == "box":
        g = lambda x: glob(c, x)
        return "box %s %s %s %s %s" % (f(c["ref"]), f(c["len"]), hn.fl(math.atan2(c["tri"][1], c["tri"][0])), f(g(c["x"])), ln(c["l"], g))
    if t == "poly":
        h = lambda v: " ".join("%s %s" % (hn.fl(x / 2), hn.fl(y / 2)) for x, y in v)
        return "poly %d %s %d %s %d" % (len(c["p"]), h(c["p"]), len(c["q"]), h(c["q"]), c["rect"])
    if t == "move":
        w = []
        for m in c["m"]:
            a = [math.atan2(m[2][1], m[2][0]), 0] if m[0] == "R" else (m[2:] + [0, 0])[:2]
            w.append("%s%d %s" % (m[0], m[1], f(a)))
        return "move %s %d %s" % (f(c["x"]), len(w), " ".join(w))
    return "curve %d %s %d %s" % (len(c["x"]), " ".join(f(z) for z in zip(c["x"], c["y"])), len(c["q"]), f([x / 4 for x in c["q"]]))


def q(x):
    return x[0] / x[1]


def vec(p):
    return [x / p[1] for x in p[0]]


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def toline(p, l):
    d = [b - a for a, b in zip(l["p"], l["q"])]
    t = sum(x * (y - z) for x, y, z in zip(d, p, l["p"])) / sum(x * x for x in d)
    if l["e1"]:
        t = max(t, 0)
    if l["e2"]:
        t = min(t, 1)
    return dist(p, [a + t * b for a, b in zip(l["p"], d)])


def close(a, b, t=1e-7):
    return all(near(x, y, t) for x, y in zip(a, b))


def judge(c, r, a):
    v = iter(a)
    D = lambda: hn.unfl(next(v))
    I = lambda: int(next(v))
    P = lambda: [D(), D(), D()]
    t = c["t"]
    if t == "lines":
        d, a1, b1 = D(), P(), P()
        w = math.sqrt(q(r["d2"]))
        need(near(d, w) and near(D(), w), "distance of two lines %s, expected %s" % (d, w))
        need(toline(a1, c["l"]) < 1e-6 and toline(b1, c["m"]) < 1e-6 and near(dist(a1, b1), w), "closest points %s %s" % (a1, b1))
        need(I() == r["par"], "IsParallel")
        need(I() == r["over"], "IsOverLapping")
        for k in ("xy", "inf"):
            hit, at = I(), P()
            m = r[k]
            if m["edge"]:
                continue
            need(hit == m["hit"], "IntersectXY (%s): %d" % (k, hit))
            need(close(at[:2], vec(m["at"])[:2] if hit else [0, 0]) and at[2] == 0, "IntersectXY (%s): at %s" % (k, at))
        ln = D()
        need(near(ln, math.sqrt(r["len"])) if r["len"] >= 0 else ln > 1e300, "GetLength %s" % ln)
        w = math.sqrt(q(r["x2"]))
        need(near(D(), w), "distance of a point from a line")
        need(close(P(), vec(r["foot"])), "FindProjection")
        need(near(D(), w), "distance of a point from a line, with side")
        side = I()
        need(r["side"] == 0 or side == (r["side"] > 0), "side of the line: right %d" % side)
        need(I() == (r["x2"][0] == 0), "IsPointOnLine")
        g = D()
        if r["n"][0] and r["n"][1]:
            need(abs(g - math.acos(max(-1, min(1, r["dot"] / math.sqrt(r["n"][0] * r["n"][1]))))) < 1e-6, "GetAngle %s" % g)
        else:
            need(g == 0, "GetAngle %s" % g)
        need(D() == r["left"], "LeftFromLineXY")
    elif t == "plane":
        n = r["n"]
        s = math.sqrt(sum(x * x for x in n))
        need(close(P(), [x / s for x in n]), "normal vector")
        need(near(D(), math.sqrt(q(r["x2"]))), "distance from a plane")
        need(close(P(), vec(r["foot"])), "projection on a plane")
        pos, on = I(), I()
        need(r["side"] == 0 or pos == (r["side"] > 0), "IsOnPositiveSide %d" % pos)
        need(on == (r["side"] == 0), "IsPointOnPlane %d" % on)
        m = r["line"]
        need(I() == m["par"], "line parallel to plane")
        hit, at = I(), P()
        if not m["edge"]:
            need(hit == m["hit"], "line hits plane: %d" % hit)
            need(not hit or close(at, vec(m["at"])), "line hits plane at %s" % at)
        D()
        i1, i2, ends = P(), P(), I()
        if not r["par"]:
            need(not ends and dist(i1, i2) > 1e-9, "intersection of planes is not a line")
            for p in (i1, i2):
                for nn, x in ((r["n"], c["a"][0]), (r["n2"], c["b"][0])):
                    need(abs(sum(u * (y - z) for u, y, z in zip(nn, p, x))) < 1e-6 * (1 + sum(map(abs, nn)) * (1 + max(map(abs, p)))), "a point of the intersection of planes is not in them")
    elif t == "tri":
        m = r["line"]
        for k in (1, 0):
            hit, at = I(), P()
            if not m["edge"]:
                need(hit == m["hit"], "line hits triangle: %d" % hit)
                need(not hit or close(at, vec(m["at"])), "line hits triangle at %s" % at)
        d, p = D(), P()
        w = math.sqrt(q(r["d2"]))
        if m["edge"] and near(d, 0, 1e-7):
            return
        need(abs(d - w) < 1e-6, "distance of a line from a triangle %s, expected %s" % (d, w))
        need(abs(toline(p, c["l"]) - w) < 1e-6, "closest point of a triangle %s" % p)
        a = c["a"]
        u, x, y = [[p_ - q_ for p_, q_ in zip(z, a[0])] for z in (a[1], a[2], p)]
        dd = lambda f, g: sum(i * j for i, j in zip(f, g))
        den = dd(u, u) * dd(x, x) - dd(u, x) ** 2
        if den:
            s1 = (dd(x, x) * dd(y, u) - dd(u, x) * dd(y, x)) / den
            s2 = (dd(u, u) * dd(y, x) - dd(u, x) * dd(y, u)) / den
            need(min(s1, s2, 1 - s1 - s2) > -1e-6 and dist(y, [s1 * i + s2 * j for i, j in zip(u, x)]) < 1e-6, "closest point %s is not in the triangle" % p)
    elif t == "box":
        ins, d = I(), D()
        need(r["border"] or ins == r["in"], "point inside box: %d" % ins)
        need(abs(d - math.sqrt(r["d2"])) < 1e-7, "distance from box %s, expected %s" % (d, math.sqrt(r["d2"])))
        for k in range(8):
            need(close(P(), glob(c, [c["len"][0] * (k & 1), c["len"][1] * (k >> 1 & 1), c["len"][2] * (k >> 2 & 1)])), "corner %d" % k)
        n = I()
        got = [P() for _ in range(n)]
        h = r["hits"]
        dd = [y - x for x, y in zip(c["l"]["p"], c["l"]["q"])]
        exact = c["tri"] == [1, 0, 1] and all(x in (0, 1, 2, 4, -1, -2, -4) for x in dd)
        if exact or h["plain"]:
            want = [glob(c, vec(x)) for x in h["at"]]
            need(len(got) == len(want) and all(any(dist(x, y) < 1e-7 for y in got) for x in want), "a line meets the box in %s, expected %s" % (got, want))
        else:
            need(n <= 2, "%d intersections with a box" % n)
    elif t == "poly":
        p = [[x / 2, y / 2] for x, y in c["p"]]
        n = len(p)
        need(I() == n, "size")
        need(I() == (r["area"] > 0), "IsCounterclockwise of a polygon with signed area %s" % (r["area"] / 8))
        need(I() == r["convex"], "IsConvex")
        e = [math.sqrt(x) / 2 for x in r["edges"]]
        x = D()
        need(near(x, sum(e)), "circumference %s, expected %s" % (x, sum(e)))
        ext = [D() for _ in range(4)]
        need(ext == [min(z[0] for z in p), max(z[0] for z in p), min(z[1] for z in p), max(z[1] for z in p)], "extent %s" % ext)
        for i, w in enumerate(r["in"]):
            g, rt, lt = I(), I(), I()
            need(w == 2 or g == w, "point %s inside: %d" % ([z / 2 for z in c["q"][i]], g))
            if r["tan"] and len(r["tan"][i][0]) == 1 and len(r["tan"][i][1]) == 1:
                need([rt + 1] == r["tan"][i][0] and [lt + 1] == r["tan"][i][1], "tangent vertices %d, %d from %s, expected %s" % (rt, lt, c["q"][i], r["tan"][i]))
        for i in range(n):
            for j, k in ((0, i), (min(i, n // 2), max(i, n // 2))):
                w = min(sum(e[j:k]), sum(e) - sum(e[j:k]))
                x = D()
                need(near(x, w), "distance along the polygon from %d to %d: %s, expected %s" % (j, k, x, w))
        if c["rect"]:
            x, y, l1, l2, g = D(), D(), D(), D(), D()
            need(near(l1 * l2, q(r["rect"]) / 4, 1e-4), "smallest rectangle has area %s, expected %s" % (l1 * l2, q(r["rect"]) / 4))
            for z in p:
                u = (z[0] - x) * math.cos(g) + (z[1] - y) * math.sin(g)
                w = -(z[0] - x) * math.sin(g) + (z[1] - y) * math.cos(g)
                need(-1e-3 < u < l1 + 1e-3 and -1e-3 < w < l2 + 1e-3, "vertex %s outside the smallest rectangle %s" % (z, (x, y, l1, l2, g)))
        need(next(v) == "|", "answer")
        rest = [hn.unfl(z) for z in v]
        c["r"] = [[round(2 * z) for z in rest[i:i + 2]] for i in range(0, len(rest), 2)]
        need(all(2 * z == round(2 * z) for z in rest), "points of the convex polygon")
    elif t == "move":
        x = P()
        need(close(x, vec(r["at"]), 1e-9), "point moved to %s, expected %s" % (x, vec(r["at"])))
    else:
        n = len(c["q"])
        x = [D() for _ in range(n)]
        need(all(near(i, q(j), 1e-9) for i, j in zip(x, r["lin"])), "linear interpolation %s, expected %s" % (x, r["lin"]))
        if r["spl"]:
            x = [D() for _ in range(n)]
            need(all(near(i, q(j), 1e-9) for i, j in zip(x, r["spl"])), "spline %s, expected %s" % (x, r["spl"]))
            x = [D() for _ in range(n)]
            need(all(near(i, q(j) if 4 * c["x"][0] <= k <= 4 * c["x"][-1] else 77, 1e-9) for i, j, k in zip(x, r["spl"], c["q"])), "spline with a value outside")


def table(ctx, cs):
    k = (len(cs) + 5) // 6
    parts = [cs[i:i + k] for i in range(0, len(cs), k)]
    with ThreadPoolExecutor(6) as p:
        rs = list(p.map(lambda b: ctx.tlc("GeometryTab", "SPECIFICATION Spec\nCONSTANT Chunk = 50\n", defs=dict(GCases="<<" + ",\n".join(vt.tla(c) for c in b) + ">>"), timeout=850), parts))
    return [x for r in rs for _, b in r.items for x in b]


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 21)
    cs = cases(rng, ctx.pick(250, 4000))
    rng.shuffle(cs)
    rows = table(ctx, cs)
    if len(rows) != len(cs):
        raise RuntimeError("rows")
    for c, r in zip(cs, rows):
        if c["t"] == "poly":
            c["rect"] = int(r["convex"] and r["area"] > 0)
    lines = [line(c) for c in cs]
    ans = hn.run(ctx, "geom", lines, "asan", jobs=8)
    n = {}
    for c, r, l, a in zip(cs, rows, lines, ans):
        where = dict(case=c, expected=r, commands=[l], answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (l[:60], hn.unhx(a[1])), where)
        try:
            judge(c, r, a[1:])
        except Bad as x:
            raise vt.Violation("%s: %s" % (c["t"], x), where)
        except (StopIteration, ValueError) as x:
            raise vt.Violation("%s: unreadable answer (%r)" % (c["t"], x), where)
        n[c["t"]] = n.get(c["t"], 0) + 1
    back = [dict(t="convexified", p=c["p"], r=c["r"]) for c in cs if c["t"] == "poly"]
    for b, r in zip(back, table(ctx, back)):
        if not r["ok"]:
            raise vt.Violation("MakeConvex: %s became %s" % (b["p"], b["r"]), dict(case=b, commands=[line(next(c for c in cs if c["t"] == "poly" and c["p"] == b["p"]))]))
    ctx.traces += len(cs) + len(back)
    ctx.cov["cases"] = n
    ctx.sample(dict(case=cs[0], expected=rows[0]))
