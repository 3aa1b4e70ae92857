"""C18: positions, line numbers and cell indexes of a SegY geometry agree."""
import math, random
import vt, hn

TRI = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (5, 12, 13), (12, -5, 13),
       (8, 15, 17), (-15, 8, 17), (24, 7, 25), (-7, -24, 25), (99, 20, 101), (-20, 99, 101)]
KINDS = ["traces"] * 10 + ["grid7", "grid7", "grid13", "grid13", "surf", "rsurf"]


def case(rng, kind):
    a, b, h = rng.choice(TRI)
    if kind == "surf":
        a, b, h = 1, 0, 1
    mI, mX = rng.choice([1, 2, 5, 12, 25, 100]), rng.choice([1, 2, 5, 12, 25, 100])
    mI, mX = min(mI, max(1, 800 // h)), min(mX, max(1, 800 // h))
    nI, nX = rng.randint(2, 6), rng.randint(2, 6)
    if kind == "traces":
        if rng.random() < 0.25:
            nI, nX = rng.choice([(1, rng.randint(2, 7)), (rng.randint(2, 7), 1)])
        sI, sX = [rng.choice([1, 1, 2, 3, 5, 10]) * rng.choice([1, -1]) for _ in range(2)]
    else:
        sI, sX = [rng.choice([1, 1, 2, 3, 10]) * (rng.choice([1, -1]) if kind == "grid13" else 1) for _ in range(2)]
    il0, xl0 = [rng.choice([rng.randint(0, 9), rng.randint(100, 5000), rng.randint(-60, 60)]) for _ in range(2)]
    s = rng.choice([1, -1])
    u, w = (mI * a, mI * b), (-s * mX * b, s * mX * a)
    if kind in ("grid7", "surf", "rsurf"):         # crosslines along the first axis, both numbered from 0
        w, u = (mX * a, mX * b), (-mI * b, mI * a)
        il0 = xl0 = 0
        sI = sX = 1
    if kind == "grid13" and rng.random() < 0.5:     # inlines along the first axis or the other way round, right handed
        w, u = (mX * a, mX * b), (-mI * b, mI * a)
    elif kind == "grid13":
        u, w = (mI * a, mI * b), (-mX * b, mX * a)
    c = dict(kind=kind, o=[rng.choice([0, rng.randint(-50, 50), rng.randint(100000, 600000)]) for _ in range(2)], u=list(u), w=list(w), il0=il0,
             sI=sI, nI=nI, xl0=xl0, sX=sX, nX=nX, h=h, mI=mI, mX=mX)
    pts = []
    for _ in range(14):
        p = [rng.randint(-16, 8 * n + 12) for n in (nI, nX)]
        if all((x - 4) % 8 for x in p):             # not on the border between two cells
            pts.append(p)
    c["pts"] = pts
    lim = lambda l0, st, n: (min(l0, l0 + (n - 1) * st), max(l0, l0 + (n - 1) * st), abs(st))
    I, X = lim(il0, sI, nI), lim(xl0, sX, nX)
    subs, areas = [], []
    for _ in range(3):
        q = {}
        for (lo, hi, st), (f, t, ss) in ((I, ("a", "b", "si")), (X, ("c", "d", "sx"))):
            n = (hi - lo) // st + 1
            x = rng.randrange(n)
            y = rng.randrange(x, n)
            q[f], q[t] = lo + x * st, lo + y * st + (rng.randrange(st) if y < n - 1 else 0)
            q[ss] = rng.choice([-1, st, 2 * st, 3 * st])
        if rng.random() < 0.15:
            k = rng.choice("abcd")
            q[k] = rng.choice([I if k in "ab" else X][0][:2]) + rng.choice([-1, 1]) * rng.randint(500, 900)
        subs.append(q)
    for _ in range(40):
        if len(areas) == 4:
            break
        x, y = rng.randint(-20, 8 * nI + 16), rng.randint(-20, 8 * nX + 16)
        if rng.random() < 0.3:                      # along the lines
            e, f = (rng.randint(1, 8 * nI + 36), 0), (0, rng.randint(1, 8 * nX + 36))
        else:                                       # at any angle to them
            e = (rng.randint(-8 * nI, 8 * nI), rng.randint(-8 * nX, 8 * nX))
            f = (-e[1] * mX * mX, e[0] * mI * mI)
            g = math.gcd(*f)
            if not g:
                continue
            k = rng.randint(1, 9)
            f = (f[0] // g * k, f[1] // g * k)
            if max(map(abs, f)) > 100:
                continue
        q = [[x, y], [x + e[0], y + e[1]], [x + e[0] + f[0], y + e[1] + f[1]], [x + f[0], y + f[1]]]
        v = [8 * il0 + p[0] * sI for p in q] + [8 * xl0 + p[1] * sX for p in q]
        over = lambda i, n: max(p[i] for p in q) > 0 and min(p[i] for p in q) < 8 * (n - 1)
        if all(z % 8 for z in v) and over(0, nI) and over(1, nX):
            areas.append(q)
    c["ratio"] = [mI // math.gcd(mI, mX), mX // math.gcd(mI, mX)]
    c["subs"], c["areas"] = subs, areas
    return c


def build(c, e, rng):
    """The command that makes the geometry."""
    k = c["kind"]
    if k == "traces":
        t = [r for row in e["lat"] for r in row]
        if rng.random() < 0.5:
            t = [r for b in range(c["nX"]) for r in [e["lat"][a][b] for a in range(c["nI"])]]
        if rng.random() < 0.4: t.reverse()
        if rng.random() < 0.2:                    # any order that starts in a corner
            q = t[1:]
            rng.shuffle(q)
            t = t[:1] + q
        reg = int(rng.random() < 0.3)
        return "traces %d %d " % (len(t), reg) + " ".join("%d %d %s %s" % (r[0], r[1], hn.fl(r[2] / 8), hn.fl(r[3] / 8)) for r in t), t
    if k in ("grid7", "surf", "rsurf"):
        fx, fy, nx, ny = c["w"], c["u"], c["nX"], c["nI"]
        mx, my = c["mX"] * c["h"], c["mI"] * c["h"]
    else:
        first = c["u"][0] * c["w"][1] - c["u"][1] * c["w"][0] > 0
        (fx, fy, nx, ny) = (c["u"], c["w"], c["nI"], c["nX"]) if first else (c["w"], c["u"], c["nX"], c["nI"])
        mx, my = (c["mI"], c["mX"]) if first else (c["mX"], c["mI"])
        mx, my = mx * c["h"], my * c["h"]
    x0, y0 = [c["o"][i] - fx[i] / 2 - fy[i] / 2 for i in range(2)]
    rot = math.atan2(fx[1], fx[0])
    if k == "surf":
        return "surf %s %d %d" % (" ".join(map(hn.fl, (x0, y0, mx * nx, my * ny))), nx + 1, ny + 1), None
    if k == "rsurf":
        return "rsurf %s %d %d %s" % (" ".join(map(hn.fl, (x0, y0, mx * nx, my * ny))), nx + 1, ny + 1, hn.fl(rot)), None
    s = "%s %s %d %d" % (k, " ".join(map(hn.fl, (x0, y0, mx, my))), nx, ny)
    if k == "grid13":
        uu, ww = [sum(x * x for x in v) for v in (c["u"], c["w"])]
        s += " " + " ".join(map(hn.fl, (c["il0"] - c["sI"] / 2, c["xl0"] - c["sX"] / 2, c["sI"] * c["u"][0] / uu, c["sI"] * c["u"][1] / uu,
                                        c["sX"] * c["w"][0] / ww, c["sX"] * c["w"][1] / ww)))
    return s + " " + hn.fl(rot), None


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 18)
    cs = [case(rng, rng.choice(KINDS)) for _ in range(ctx.pick(1500, 20000))]
    exp = []
    keys = ("o", "u", "w", "il0", "sI", "nI", "xl0", "sX", "nX", "pts", "subs", "areas", "ratio")
    for b in range(0, len(cs), 500):
        r = ctx.tlc("SegyGeom", "SPECIFICATION Spec\nCONSTANT Chunk = 20\n",
                    defs=dict(GCases="<<" + ",\n".join(vt.tla({k: c[k] for k in keys}) for c in cs[b:b + 500]) + ">>"))
        exp += [x for _, part in r.items for x in part]
    if len(exp) != len(cs):
        raise vt.CheckError("TLC answered %d of %d" % (len(exp), len(cs)))
    lines, starts, todo = [], [], []

    def add(line, f):
        lines.append(line)
        todo.append(f)

    def near(g, w, tol=1e-6):
        return len(g) == len(w) and all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(g, w))

    class Bad(Exception):
        pass

    def need(ok, what):
        if not ok:
            raise Bad(what)

    def parse_info(a):
        return dict(nx=int(a[0]), ny=int(a[1]), dx=hn.unfl(a[2]), dy=hn.unfl(a[3]), x0=hn.unfl(a[4]), y0=hn.unfl(a[5]), rot=hn.unfl(a[6]),
                    lim=[int(x) for x in a[7:13]], first=int(a[13]))

    def lattice(slot, rows, single=False):
        """Queries for every trace; answers are checked against the frame reported for the slot."""
        for r in rows:
            def chk(a, S, r=r):
                need(a[0] == "ok", "trace at line (%d,%d) is refused" % (r[0], r[1]))
                a = a[1:]
                xy = (r[2] / 8, r[3] / 8)
                f = S[slot]
                need(near([hn.unfl(x) for x in a[0:2]], xy), "line (%d,%d) is placed at %s, not %s" % (r[0], r[1], [hn.unfl(x) for x in a[0:2]], xy))
                i, j = int(a[2]), int(a[3])
                need(i < f["nx"] and j < f["ny"], "index (%d,%d) outside %dx%d" % (i, j, f["nx"], f["ny"]))
                need((i, j) not in f["used"], "two traces in cell (%d,%d)" % (i, j))
                f["used"].add((i, j))
                need([int(a[4]), int(a[5])] == r[:2], "cell (%d,%d) has lines %s, expected %s" % (i, j, a[4:6], r[:2]))
                need(near([hn.unfl(x) for x in a[6:8]], xy), "cell (%d,%d) is placed at %s, not %s" % (i, j, a[6:8], xy))
                need([int(a[8]), int(a[9])] == r[:2], "position %s has lines %s, expected %s" % (xy, a[8:10], r[:2]))
                need((int(a[10]), int(a[11])) == (i, j), "position %s is in cell %s, lines %s in (%d,%d)" % (xy, a[10:12], r[:2], i, j))
                need(int(a[12]) == j * f["nx"] + i, "cell number")
                co, si = math.cos(f["rot"]), math.sin(f["rot"])
                px = f["x0"] + (i + 0.5) * f["dx"] * co - (j + 0.5) * f["dy"] * si
                py = f["y0"] + (i + 0.5) * f["dx"] * si + (j + 0.5) * f["dy"] * co
                need(near((px, py), xy), "cell (%d,%d) of the grid is at %s, not %s" % (i, j, (px, py), xy))
            add("lat %d %d %d %s %s" % (slot, r[0], r[1], hn.fl(r[2] / 8), hn.fl(r[3] / 8)), chk)

    for c, e in zip(cs, exp):
        starts.append(len(lines))
        cmd, t = build(c, e, rng)
        single = c["nI"] == 1 or c["nX"] == 1

        def chk(a, S, c=c, e=e, t=t, single=single):
            need(a[0] == "ok", "geometry refused")
            f = S[0] = dict(parse_info(a[1:]), used=set(), case=c)
            nl, nm = (c["nI"], c["nX"]) if f["first"] else (c["nX"], c["nI"])
            need((f["nx"], f["ny"]) == (nl, nm), "%d x %d cells, expected %d x %d" % (f["nx"], f["ny"], nl, nm))
            lens = [c["mI"] * c["h"], c["mX"] * c["h"]]
            if not f["first"]: lens.reverse()
            if not single:
                need(near([f["dx"], f["dy"]], lens), "cell size %s, expected %s" % ((f["dx"], f["dy"]), lens))
                need(f["lim"] == e["lim"], "line ranges %s, expected %s" % (f["lim"], e["lim"]))
            else:
                w = [0, 1, 2, 3, 4] if c["nX"] == 1 else [0, 1, 3, 4, 5]
                need([f["lim"][k] for k in w] == [e["lim"][k] for k in w], "line ranges %s, expected %s" % (f["lim"], e["lim"]))
            f["order"], f["t"] = [int(x) for x in a[15:]], t
        add(cmd, chk)
        if rng.random() < 0.2:
            def chk(a, S):
                f = parse_info(a[1:])
                need(all(S[0][k] == f[k] for k in f), "a copy differs")
            add("copy", chk)
        rows = [r for row in e["lat"] for r in row]
        lattice(0, rows)
        if t is not None:
            def chk(a, S):         # the table of traces handed back is in cell order (after the queries: all cells are known)
                need(a[0] == "ok", "refused")
            for k, r in enumerate(t):
                def chk(a, S, k=k, r=r):
                    i, j = int(a[1]), int(a[2])
                    f = S[0]
                    need(f["order"][i + f["nx"] * j] == k, "the table of traces has trace %d in the cell of trace %d" % (f["order"][i + f["nx"] * j], k))
                add("idx 0 %d %d" % (r[0], r[1]), chk)
        # whole steps outside
        for _ in range(3):
            L = e["lim"]
            if single:
                break
            il = rng.randrange(L[0], L[1] + 1, L[2])
            xl = rng.randrange(L[3], L[4] + 1, L[5])
            d = rng.choice([1, 1, 2, 5])
            q = rng.randrange(4)
            if q == 0: il = L[1] + d * L[2]
            if q == 1: il = L[0] - d * L[2]
            if q == 2: xl = L[4] + d * L[5]
            if q == 3: xl = L[3] - d * L[5]

            def chk(a, S, il=il, xl=xl):
                need(a[0] == "err", "lines (%d,%d) outside the survey have the cell %s" % (il, xl, a[1:]))
            add("idx 0 %d %d" % (il, xl), chk)
        if not single:
            for p in e["pts"]:
                def chk(a, S, p=p):
                    a = a[1:]
                    need(int(a[0]) == p[4] and int(a[5]) == p[4], "point %s is %sside" % ((p[0] / 8, p[1] / 8), "out" if p[4] else "in"))
                    need(near([hn.unfl(x) for x in a[1:3]], (p[2] / 8, p[3] / 8)), "point has lines %s" % a[1:3])
                    need(near([hn.unfl(x) for x in a[3:5]], (p[0] / 8, p[1] / 8)), "lines lead back to %s" % a[3:5])
                    if p[2] % 8 != 4 and p[3] % 8 != 4:
                        need([int(x) for x in a[8:10]] == [(p[2] + 4) // 8, (p[3] + 4) // 8], "nearest lines %s" % a[8:10])
                    f = S[0]
                    ci = (p[5], p[6])
                    if f["first"]: i, j, m = ci[0], ci[1], (c["nI"], c["nX"])
                    else: i, j, m = ci[1], ci[0], (c["nX"], c["nI"])
                    if p[4]:
                        gi, gj = int(a[10]), int(a[11])
                        need((int(math.floor(hn.unfl(a[6]))), int(math.floor(hn.unfl(a[7])))) == (gi, gj), "cell and decimal index differ")
                        need(gi in (i, f["nx"] - 1 - i) and gj in (j, f["ny"] - 1 - j), "point in cell (%d,%d)" % (gi, gj))
                        k = f["near"].get(ci) if "near" in f else None
                    else:
                        need(a[10] == "out", "point outside has cell %s" % a[10:12])
                add("pt 0 %s %s" % (hn.fl(p[0] / 8), hn.fl(p[1] / 8)), lambda a, S, chk=chk, c=c: chk(a, S))
        for q, s in zip(c["subs"], e["subs"]):
            if single:
                break

            def chk(a, S, s=s):
                need((a[0] == "ok") == s["ok"], "part of the survey %s" % ("refused" if s["ok"] else "outside it accepted"))
                if s["ok"]:
                    f = S[1] = dict(parse_info(a[1:]), used=set())
                    ni, nxl = [(v[1] - v[0]) // v[2] + 1 for v in (s["il"], s["xl"])]
                    need((f["nx"], f["ny"]) == ((ni, nxl) if S[0]["first"] else (nxl, ni)), "part has %d x %d cells for lines %s %s" % (f["nx"], f["ny"], s["il"], s["xl"]))
                    need(int(a[15]) == 0, "part on existing lines said to need interpolation")
                    need(f["first"] == S[0]["first"] and f["lim"] == s["il"] + s["xl"], "part has lines %s, expected %s" % (f["lim"], s["il"] + s["xl"]))
            add("sub %d %d %d %d %d %d" % tuple(q[k] for k in ("a", "b", "c", "d", "si", "sx")), chk)
            if s["ok"]:
                lattice(1, [r for r in rows if s["il"][0] <= r[0] <= s["il"][1] and (r[0] - s["il"][0]) % s["il"][2] == 0 and
                            s["xl"][0] <= r[1] <= s["xl"][1] and (r[1] - s["xl"][0]) % s["xl"][2] == 0])
        for q, w in zip(c["areas"], e["areas"]):
            # the template rectangle, given as a right-handed grid
            u, v = c["u"], c["w"]
            A = [[c["o"][i] + (x * u[i] + y * v[i]) / 8 for i in range(2)] for x, y in q]
            if (A[1][0] - A[0][0]) * (A[3][1] - A[0][1]) - (A[1][1] - A[0][1]) * (A[3][0] - A[0][0]) < 0:
                A = [A[0], A[3], A[2], A[1]]
            k = rng.randrange(4)
            A = A[k:] + A[:k]
            d = lambda p, q: math.hypot(q[0] - p[0], q[1] - p[1])
            nx, ny = rng.randint(1, 4), rng.randint(1, 4)

            def chk(a, S, w=w):
                need([int(x) for x in a[1:5]] == w, "lines around the rectangle %s, expected %s" % (a[1:5], w))
                need([int(a[5]), int(a[6])] == [S[0]["lim"][2], S[0]["lim"][5]], "steps")
            if not single:
                add("area %s %d %d %s" % (" ".join(map(hn.fl, (A[0][0], A[0][1], d(A[0], A[1]) / nx, d(A[0], A[3]) / ny))), nx, ny,
                                          hn.fl(math.atan2(A[1][1] - A[0][1], A[1][0] - A[0][0]))), chk)
    ans = hn.run(ctx, "segygeom", lines, jobs=8, group=starts)
    S = {}
    st = set(starts)
    lo = 0
    for i, (a, f) in enumerate(zip(ans, todo)):
        if i in st:
            lo = i
        try:
            f(a, S)
        except Bad as x:
            raise vt.Violation("%s: %s" % (" ".join(lines[i].split()[:3]), x), dict(commands=lines[lo:i + 1][:1] + lines[lo:i + 1][-3:], answer=a))
        except (IndexError, ValueError) as x:
            raise vt.Violation("%s: %s (%s)" % (lines[i][:80], a, x), dict(commands=lines[lo:i + 1][:1] + lines[lo:i + 1][-3:], answer=a))
    ctx.traces += len(cs)
    ctx.cov.update(surveys=len(cs), queries=len(lines))
    ctx.sample(dict(survey={k: cs[0][k] for k in keys}))
