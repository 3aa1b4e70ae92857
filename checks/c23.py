"""C23: kriging."""
import random
import vt, hn
from concurrent.futures import ThreadPoolExecutor
MISS = 99999


def cases(rng, n):
    out = []
    for _ in range(n):                                       # few data, exact
        nodal = rng.random() < .5
        t = rng.choice(["line", "field", "field", "field"])
        wide = rng.random() < .4
        ni = rng.randint(10, 34) if wide else rng.randint(2, 9)
        nj = 1 if t == "line" else rng.randint(2, 5)
        if t != "line" and rng.random() < .5:
            ni, nj = nj, ni
        c = dict(t=t, ni=ni, nj=nj, a=rng.choice([1, 2, 3, 4, 8]), b=1 if t == "line" else rng.choice([1, 2, 3, 4, 8]), nodal=nodal or t == "line")
        if c["nodal"]:
            c["a"], c["b"] = max(2, c["a"]), c["b"] if t == "line" else max(2, c["b"])
        const = rng.randint(-4, 4) if rng.random() < .2 else None
        c["m"] = [rng.randint(-5, 5) if const is None else const for _ in range(ni * nj)]
        pts, near = [], rng.random() < .6
        for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 3])):
            if pts and near:
                x, y = pts[0][0] + rng.randint(-4, 4), pts[0][1] + rng.randint(-4, 4)
            else:
                x, y = rng.randint(0, 2 * ni - 2), rng.randint(0, 2 * nj - 2)
            x, y = min(max(x, 0), 2 * ni - 2), min(max(y, 0), 2 * nj - 2)
            if c["nodal"] and t == "line":
                x -= x % 2
            if t == "line" or not c["nodal"]:
                if any(p[:2] == [x, y] for p in pts):
                    continue
            pts.append([x, y, rng.randint(-9, 9)])
        if c["nodal"] and t != "line":
            if pts and rng.random() < .5:
                pts.append(pts[0][:2] + [rng.randint(-9, 9)])
        if not c["nodal"] and len(pts) > ni * nj:
            pts = pts[:1]
        if t != "line" and rng.random() < .3:
            pts.insert(rng.randint(0, len(pts)), [rng.randint(0, 2 * ni - 2), rng.randint(0, 2 * nj - 2), MISS])
        c["d"] = sorted(pts) if t == "line" else pts
        # h: 0 all data everywhere; else kriging in blocks, h = P / 2
        r = rng.random()
        c["h"] = 0 if t == "line" or r < .5 else rng.choice([1, 1, 1, 2, 3])
        c["r"] = 0
        c["all"] = int(t == "line" or r < .3)
        if not c["all"] and c["h"] == 0:
            c["h"] = 4 * max(ni, nj)                         # blocks, but wide enough for all data
        out.append(c)
    return out


def many(rng, n):
    out = []
    for _ in range(n):
        ni, nj = rng.randint(12, 40), rng.randint(12, 40)
        nodal = rng.random() < .6
        m = rng.choice([30, 120, 230]) if ni * nj > 500 else rng.randint(5, 80)
        seen, d = set(), []
        lim = (rng.randint(2, ni), rng.randint(2, nj)) if rng.random() < .5 else (ni, nj)
        while len(d) < min(m, lim[0] * lim[1] // 2):
            i, j = rng.randrange(lim[0]), rng.randrange(lim[1])
            x = [2 * i, 2 * j, rng.randint(-9, 9)]
            if (i, j) in seen and not nodal:
                continue
            seen.add((i, j))
            d.append(x)
        kind = rng.choice([2, 2, 1])                          # spherical, exponential
        r = rng.choice([3, 5, 8, 12])
        out.append(dict(t="many", ni=ni, nj=nj, a=r, b=r, r=r if kind == 2 else 0, nodal=nodal, m=[rng.randint(-5, 5) for _ in range(ni * nj)],
                        d=d, h=1, kind=kind, all=int(rng.random() < .15)))
    return out


def line(c, rng):
    f = hn.fl
    if c["t"] == "line":
        known = {p[0] // 2: p[2] for p in c["d"]}
        dx = rng.choice([1, .5, 4])
        w = ["line", str(c["ni"]), f(dx), f(c["a"] * dx / 2), f(rng.choice([1, 2]))] + [f(x) for x in c["m"]]
        for i in range(c["ni"]):
            w += ["1", f(known[i])] if i in known else ["0"]
        return " ".join(w)
    dx, dy = rng.choice([1, .5, 4, 16]), rng.choice([1, 2, .25, 32])
    x0, y0 = rng.choice([0, -64, 1024]), rng.choice([0, 128, -32])
    if c["t"] == "many":
        dy = dx
    cmd = rng.choice(["nodes", "index"]) if c["nodal"] else "points"
    P = 2 * c["h"]
    c["res"] = int(rng.random() < .35)
    w = [cmd, str(c["ni"]), str(c["nj"]), f(dx), f(dy), f(x0), f(y0)] + [f(x) for x in c["m"]]
    w += [str(c.get("kind", -1)), f(c["a"] * dx / 2), f(c["b"] * dy / 2), f(rng.choice([1, 2, .5])), str(c["all"]), str(c["res"]), f(P if P else 2), str(len(c["d"]))]
    for x, y, z in c["d"]:
        w += [f(x0 + x * dx / 2), f(y0 + y * dy / 2), f(z)]
    return " ".join(w)


def table(ctx, cs):
    parts = [cs[i::7] for i in range(7)]
    keys = ("t", "ni", "nj", "a", "b", "nodal", "m", "d", "h", "r")
    with ThreadPoolExecutor(7) as p:
        rs = list(p.map(lambda b: ctx.tlc("KrigingTab", "SPECIFICATION Spec\nCONSTANT Chunk = 20\n", defs=dict(GCases="<<" + ",\n".join(vt.tla({k: c[k] for k in keys}) for c in b) + ">>"), timeout=850), [x for x in parts if x]))
    rows = [[x for _, b in r.items for x in b] for r in rs]
    return [rows[i % 7][i // 7] for i in range(len(cs))]


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 23)
    cs = cases(rng, ctx.pick(900, 8000)) + many(rng, ctx.pick(40, 300))
    rng.shuffle(cs)
    rows = table(ctx, cs)
    lines = [line(c, rng) for c in cs]
    ans = hn.run(ctx, "krig", lines, "asan", jobs=8)
    n, nodes = {}, 0
    for c, r, l, a in zip(cs, rows, lines, ans):
        where = dict(case=c, commands=[l], expected=r, answer=a)
        if a[0] != "ok":
            raise vt.Violation("kriging failed: %s" % hn.unhx(a[1]), where)
        got = [hn.unfl(x) for x in a[1:]]
        if len(got) != len(r):
            raise vt.Violation("kriging: unreadable answer", where)
        for k, (g, e) in enumerate(zip(got, r)):
            q, ok = (e, e[1] != 0) if c["t"] == "many" else e
            if not ok:
                continue
            w = q[0] / q[1] + (0 if c.get("res") else c["m"][k])
            nodes += 1
            if not abs(g - w) <= 2e-4 * max(1, abs(w)):
                raise vt.Violation("kriging (%s%s): node (%d, %d) is %s, expected %s" % (l.split()[0], "" if c["all"] else ", in blocks", k % c["ni"], k // c["ni"], g, w), where)
        t = l.split()[0] + ("" if c["all"] else " blocks") + (" many" if c["t"] == "many" else "")
        n[t] = n.get(t, 0) + 1
    ctx.traces += len(cs)
    ctx.cov["cases"] = n
    ctx.cov["nodes_compared"] = nodes
    ctx.sample(dict(case=cs[0]))
