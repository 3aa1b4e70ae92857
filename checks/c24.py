"""C24: volumes and Storm grids."""
import math, random, struct
import vt, hn
from concurrent.futures import ThreadPoolExecutor
TRI = [[1, 0, 1]] * 4 + [[0, 1, 1], [-1, 0, 1], [3, 4, 5], [4, -3, 5], [-3, 4, 5], [5, 12, 13], [12, -5, 13]]
NAMES = ["sand", "shale", "f3", "coal", "x_y"]
need = lambda c, m: (_ for _ in ()).throw(Bad(m)) if not c else None


class Bad(Exception):
    pass


def corners(v):
    c, s, h = v["tri"]
    return [(v["x0"] + (c * X - s * Y) / h, v["y0"] + (s * X + c * Y) / h) for X in (0, v["lx"]) for Y in (0, v["ly"])]


def surfaces(rng, v, n=2):
    """surfaces from top to bottom around the volume, mostly covering it"""
    flat = rng.random() < .4
    b, c = (0, 0) if flat else (rng.randint(-2, 2), rng.randint(-2, 2))
    a, out = rng.randint(-60, 60), []
    for i in range(n):
        if i and not flat and rng.random() < .5:
            b, c = b + rng.randint(-1, 1), c + rng.randint(-1, 1)
            a += 20
        f = dict(a=a, b=b, c=c, box=[])
        if b or c or rng.random() < .3:
            ps = corners(v)
            r = rng.choice([1, 2, 5, 9])
            f["box"] = [math.floor(min(p[0] for p in ps)) - r, math.floor(min(p[1] for p in ps)) - r, math.ceil(max(p[0] for p in ps)) + r, math.ceil(max(p[1] for p in ps)) + r]
            if rng.random() < .1:
                k = rng.randrange(4)
                f["box"][k] += (r + 2) * (1 if k < 2 else -1)
                if f["box"][0] >= f["box"][2] or f["box"][1] >= f["box"][3]:
                    f["box"] = [0, 0, 1, 1]
        out.append(f)
        a += rng.choice([4, 8, 12, 16, 20, 32]) if rng.random() < .95 or n > 2 else 0
    return out


def dims(rng, v):
    v["x0"], v["y0"] = rng.randint(-20, 20), rng.randint(-20, 20)
    v["lx"], v["ly"] = v["ni"] * rng.choice([1, 2, 4, 8]), v["nj"] * rng.choice([1, 2, 4, 8])


def runs(rng, n):
    out = []
    for _ in range(n):
        g, ops = [None, None], []

        def new(s, k):
            v = dict(k=k, ni=rng.choice([1, 2, 4, 5]), nj=rng.choice([1, 2, 4, 5]), nk=rng.choice([1, 2, 3, 4, 5]), tri=rng.choice(TRI))
            dims(rng, v)
            v["top"], v["bot"] = surfaces(rng, v)
            g[s] = v
            ops.append(dict(v, op="new", s=s + 1, how=rng.choice([0, 0, 1, 2]), val=rng.choice([-999, 0, 7])))
            fill(s)
            if k == "fac":
                bodies(s)

        def fill(s):
            if g[s]["k"] == "cont":
                z = [rng.choice([-999, 3, 5]) if rng.random() < .2 else rng.randint(-999, 9999) for _ in range(rng.choice([3, 7, 11, 23]))]
            else:
                z = [rng.choice([-999, 0, 1, 2, 3]) if rng.random() < .9 else rng.randint(-1, 4) for _ in range(rng.choice([3, 7, 11]))]
            ops.append(dict(op="fill", s=s + 1, m=rng.choice([1, 2, 5, 13]), v=z))

        def bodies(s):
            nm = rng.sample(NAMES, rng.randint(1, 4))
            ops.append(dict(op="bodies", s=s + 1, names=nm, bodies=[rng.randrange(len(nm)) if rng.random() < .95 else rng.choice([-1, len(nm)]) for _ in range(rng.randint(2, 5))]))

        new(0, rng.choice(["cont", "cont", "fac"]))
        for _ in range(rng.randint(8, 18)):
            s = rng.randrange(2)
            if g[s] is None or rng.random() < .06:
                new(s, rng.choice(["cont", "cont", "fac"]))
                continue
            v, r = g[s], rng.random()
            if r < .30:
                for _ in range(4):
                    odd = rng.random() < .7
                    p = lambda m: rng.randint(-3, 8 * m + 3) if rng.random() < .8 else rng.choice([0, 8 * m])
                    a, b, c = p(v["ni"]), p(v["nj"]), p(v["nk"])
                    if odd:
                        a, b, c = a | 1, b | 1, c | 1
                    ops.append(dict(op="ask", s=s + 1, a=a, b=b, c=c, tol=rng.choice([0, 16, 40, 100]) + (1 if odd else 0)))
            elif r < .40:
                ops.append(dict(op="cells", s=s + 1))
            elif r < .46:
                ops.append(dict(op="set", s=s + 1, m=rng.randrange(200), v=rng.choice([-999, 7, 0, 1, -1]) if v["k"] == "cont" else rng.choice([-999, 7, 0, 1])))
            elif r < .50:
                fill(s)
            elif r < .53:
                ops.append(dict(op="miss", s=s + 1, v=rng.choice([-999, -1, 7, 99])))
            elif r < .57:
                ops.append(dict(op="label", s=s + 1, zone=rng.randint(0, 12), model=rng.choice(["m.xml", "ModelFile", "a-b"]), var=rng.choice(["poro", "VP", "x_1"])))
            elif r < .62:
                ops.append(dict(op="fmt", s=s + 1, v=rng.randrange(2)))
            elif r < .65:
                bodies(s)
            elif r < .70:
                w = dict(v)
                dims(rng, w)
                if rng.random() < .6:                          # a little smaller, within the surfaces
                    w = dict(v, lx=v["ni"] * max(1, v["lx"] // v["ni"] // 2), ly=v["nj"] * max(1, v["ly"] // v["nj"] // 2))
                ops.append(dict(op="dims", s=s + 1, x0=w["x0"], y0=w["y0"], lx=w["lx"], ly=w["ly"]))
                g[s] = w
            elif r < .74:
                g[s] = dict(v, tri=rng.choice(TRI))
                ops.append(dict(op="angle", s=s + 1, tri=g[s]["tri"]))
            elif r < .79:
                t, b = surfaces(rng, v)
                ops.append(dict(op="surf", s=s + 1, top=t, bot=b, skip=rng.randrange(2), own=rng.choice([0, 0, 0, 1, 2])))
            elif r < .82:
                t, b, et, eb = surfaces(rng, v, 4)
                ops.append(dict(op="surf4", s=s + 1, top=t, bot=b, et=et, eb=eb, own=rng.choice([0, 0, 0, 1, 2])))
            elif r < .86:
                ops.append(dict(op="copy", s=s + 1, t=2 - s))
                g[1 - s] = dict(v)
            elif r < .93:
                f, e = rng.choice([1, 2]), rng.randrange(2)
                if rng.random() < .5:
                    ops.append(dict(op="fmt", s=s + 1, v=rng.randrange(2)))
                ops.append(dict(op="write", s=s + 1, f=f, e=e))
                if rng.random() < .2:
                    ops.append(dict(op="cut", s=s + 1, f=f, w=rng.choice([0, 0, 1, 2, 3, 4])))
                if rng.random() < .9:
                    t = rng.randrange(2)
                    ops.append(dict(op="read", s=t + 1, k=v["k"] if rng.random() < .93 else ("fac" if v["k"] == "cont" else "cont"), f=f, e=e))
                    g[t] = dict(v)
                    ops.append(dict(op="view", s=t + 1))
                    ops.append(dict(op="cells", s=t + 1))
                    if v["k"] == "fac":
                        ops.append(dict(op="facies", s=t + 1))
            elif r < .975:
                ops.append(dict(op=rng.choice(["raw", "crava", "sgri", "sgri", "sgri"]), s=s + 1))
            elif r < .985 or v["k"] == "cont":
                ops.append(dict(op="view", s=s + 1))
            else:
                ops.append(dict(op="facies", s=s + 1))
        for s in (1, 2):
            ops += [dict(op="view", s=s), dict(op="cells", s=s)] if g[s - 1] else []
        out.append(ops)
    return out


def sline(f, X, Y, rng):
    if not f["box"]:
        return "c " + hn.fl(f["a"])
    x1, y1, x2, y2 = f["box"]
    nx, ny = rng.choice([2, 2, 3, 5]), rng.choice([2, 2, 3, 5])
    w = ["p"] + [hn.fl(q) for q in (X + x1, Y + y1, X + x2, Y + y2)] + [str(nx), str(ny)]
    for j in range(ny):
        for i in range(nx):
            w.append(hn.fl(f["a"] + (f["b"] * (x1 + (x2 - x1) * i / (nx - 1)) + f["c"] * (y1 + (y2 - y1) * j / (ny - 1))) / 4))
    return " ".join(w)


ang = lambda t: hn.fl(math.atan2(t[1], t[0]))
q = lambda x: x[0] / x[1]
NAMEF = {1: "g1", 2: "d/g2"}


def command(e, k, see, X, Y, rng, rp):
    op = e["op"]
    w = "%s %d %d" % (op, k == "cont", e["s"] - 1)
    S = lambda f: sline(f, X, Y, rng)
    if op == "new":
        return "%s %d %s %s %s %s %s %s %s %d %d %d %d" % (w, e["how"], hn.fl(X + e["x0"]), hn.fl(Y + e["y0"]), hn.fl(e["lx"]), hn.fl(e["ly"]), ang(e["tri"]), S(e["top"]), S(e["bot"]), e["ni"], e["nj"], e["nk"], e["val"])
    if op == "set":
        return "%s %d %d" % (w, e["m"], e["v"])
    if op == "fill":
        return "%s %d %d %s" % (w, e["m"], len(e["v"]), " ".join(map(str, e["v"])))
    if op in ("miss", "fmt"):
        return "%s %d" % (w, e["v"])
    if op == "label":
        return "%s %d %s %s" % (w, e["zone"], hn.hx(e["model"]), hn.hx(e["var"]))
    if op == "bodies":
        return "%s %d %s %d %s" % (w, len(e["names"]), " ".join(hn.hx(x) for x in e["names"]), len(e["bodies"]), " ".join(map(str, e["bodies"])))
    if op == "dims":
        return "%s %s %s %s %s" % (w, hn.fl(X + e["x0"]), hn.fl(Y + e["y0"]), hn.fl(e["lx"]), hn.fl(e["ly"]))
    if op == "angle":
        return w + " " + ang(e["tri"])
    if op == "surf":
        return "%s %d %d %s %s" % (w, e["own"], e["skip"], S(e["top"]), S(e["bot"]))
    if op == "surf4":
        return "%s %d %s" % (w, e["own"], " ".join(S(e[x]) for x in ("top", "bot", "et", "eb")))
    if op == "copy":
        return "%s %d %d" % (w, e["t"] - 1, rng.randrange(2))
    if op == "write":
        return "%s %s %d %d" % (w, hn.hx(NAMEF[e["f"]]), e["e"], rp)
    if op == "read":
        return "%s %s %d %d %d" % (w, hn.hx(NAMEF[e["f"]]), e["e"], rp, rng.randrange(2))
    if op == "cut":
        return "%s %s %s" % (w, hn.hx(NAMEF[e["f"]]), hn.hx(["", "_top", "_bot", "_erosion_top", "_erosion_bot"][e["w"]]))
    if op == "cells":
        return "%s %d" % (w, len(see["ztop"][0]) == 4)
    if op == "facies":
        return "%s %d" % (w, len(see["n"]) - 2)
    if op == "sgri":
        return "%s %s %s" % (w, hn.hx(rng.choice(["", "d/"])), hn.fl((see["c"]["bot"]["a"] - see["c"]["top"]["a"]) / see["c"]["nk"]))
    if op == "ask":
        return "%s %s %s %s %s %d %d %s %d" % (w, hn.fl(X + q(see["x"])), hn.fl(Y + q(see["y"])), hn.fl(q(see["z"])), hn.fl(e["tol"] / 64), *see["cell"], hn.fl(e["c"] / 8), see["layok"])
    return w


def near(a, b, t=1e-6):
    return abs(a - b) <= t * max(1.0, abs(b))


def judge(e, k, see, a, X, Y):
    op, X0 = e["op"], see.get("v") if isinstance(see, dict) else None
    eq = lambda s, w, m, t=1e-6: need(s != "t" and near(hn.unfl(s), w, t), "%s is %s, expected %s" % (m, s if s == "t" else hn.unfl(s), w))
    if op in ("view", "sgri"):
        c = see["c"]
        sc = 1e-3 if op == "sgri" else 1
        for s, w, m in zip(a[:4], (X + c["x0"], Y + c["y0"], c["lx"], c["ly"]), ("x minimum", "y minimum", "x length", "y length")):
            eq(s, w * sc, m, 1e-8 if sc == 1 else 1e-6)
        th = hn.unfl(a[4])
        need(abs(math.cos(th) - c["tri"][0] / c["tri"][2]) < 1e-7 and abs(math.sin(th) - c["tri"][1] / c["tri"][2]) < 1e-7, "angle %s" % th)
        need([int(x) for x in a[5:9]] == [c["ni"], c["nj"], c["nk"], c["ni"] * c["nj"] * c["nk"]], "size %s" % a[5:9])
        need(int(a[9]) == (c["fmt"] if sc == 1 else 0) and hn.unfl(a[10]) == c["miss"], "format %s, missing code %s" % (a[9], hn.unfl(a[10])))
        need(int(a[11]) == (c["zone"] if sc == 1 else 0) and hn.unhx(a[12]).decode() == (c["model"] if sc == 1 else "ModelFile"), "zone %s, model %s" % (a[11], hn.unhx(a[12])))
        n = len(c["z"])
        need([hn.unfl(x) for x in a[13:13 + n]] == c["z"], "values %s, expected %s" % ([hn.unfl(x) for x in a[13:13 + n]], c["z"]))
        if k == "cont":
            need(hn.unhx(a[13 + n]).decode() == (c["var"] if sc == 1 else "UNKNOWN"), "variable %s" % hn.unhx(a[13 + n]))
        if op == "sgri":
            eq(a[14 + n], c["top"]["a"] * sc, "top", 1e-5)
            eq(a[15 + n], c["bot"]["a"] * sc, "bottom", 1e-5)
    elif op == "cells":
        p = 0
        ni, nj = X0["ni"], X0["nj"]
        for m, (x, y, z) in enumerate(see["xyz"]):
            i, j, kk = m % ni, m // ni % nj, m // (ni * nj)
            eq(a[p], X + q(x), "x of the centre of cell (%d,%d,%d)" % (i, j, kk), 1e-9)
            eq(a[p + 1], Y + q(y), "y of the centre of cell (%d,%d,%d)" % (i, j, kk), 1e-9)
            eq(a[p + 2], q(z), "z of the centre of cell (%d,%d,%d)" % (i, j, kk))
            if see["clear"]:
                need(a[p + 3:p + 7] == [str(i), str(j), str(kk), str(m)], "centre of cell (%d,%d,%d) found in %s" % (i, j, kk, a[p + 3:p + 7]))
            p += 7
        for s, w, m in zip(a[p:p + 6], [see["ext"][n] for n in (0, 1, 2, 3, 0, 3)], ("lowest top", "highest top", "lowest bottom", "highest bottom", "smallest z", "largest z")):
            eq(s, q(w), m)
        p += 6
        for s, w, m in zip(a[p:p + 3], (X + q(see["mid"][0]), Y + q(see["mid"][1]), q(see["mid"][2])), "xyz"):
            eq(s, w, "centre " + m, 1e-9 if m != "z" else 1e-6)
        p += 3
        for n in range(4):
            eq(a[p], X + q(see["rel"][n][0]), "corner x", 1e-9)
            eq(a[p + 1], Y + q(see["rel"][n][1]), "corner y", 1e-9)
            p += 2
        for n in range(4):
            for w in see["ztop"][n]:
                eq(a[p], q(w), "height of a surface")
                p += 1
        lz = hn.unfl(a[p])
        need(q(see["lz"][0]) - 1e-6 <= lz <= q(see["lz"][1]) + 1e-6, "largest height %s, expected %s to %s" % (lz, *map(q, see["lz"])))
        eq(a[p + 1], X0["lx"] / ni, "cell size in x")
        eq(a[p + 2], X0["ly"] / nj, "cell size in y")
        if k == "cont":
            if lz > 1e-3:
                eq(a[p + 3], q(see["sum"]) / (ni * nj) / lz, "mean relative thickness")
            eq(a[p + 4], q(see["ext"][0]), "smallest z")
            eq(a[p + 5], q(see["ext"][3]), "largest z")
    elif op == "raw":
        v = see
        if k == "cont":
            t1, t2 = hn.unhx(a[0]).decode().split("\n", 1), hn.unhx(a[1]).decode().split()
            need(t1[0] == "TITLE" and list(map(float, t1[1].split())) == v + [0], "file with a header of its own: %r" % t1[1][:80])
            need(list(map(float, t2)) == v, "plain file: %r" % t2[:20])
    elif op == "crava":
        if k == "cont":
            b = hn.unhx(a[0])
            head, _, b = b.partition(b"\n")
            need(head == b"crava_fftgrid_binary", "first line %r" % head)
            h = struct.unpack(">4d2i7d3i", b[:108]) if len(b) >= 108 else None
            need(h is not None, "file too short")
            w = (X + X0["x0"], Y + X0["y0"], X0["lx"] / X0["ni"], X0["ly"] / X0["nj"], X0["ni"], X0["nj"], 1.5, 2.5, 3.5, 4.5, 5.5, 6.5)
            need(all(near(x, y, 1e-9) for x, y in zip(h, w)) and h[13:] == (X0["ni"], X0["nj"], X0["nk"]), "header %s, expected %s" % (h, w))
            need(abs(math.cos(h[12]) - X0["tri"][0] / X0["tri"][2]) < 1e-7, "angle %s" % h[12])
            z = struct.unpack(">%df" % ((len(b) - 108) // 4), b[108:108 + (len(b) - 108) // 4 * 4])
            need(list(z) == see["z"], "values %s, expected %s" % (z, see["z"]))
    elif op == "facies":
        for m, w in enumerate(see["f"]):
            need(a[2 * m:2 * m + 2] == (["t", "t"] if not 0 <= X0["z"][m] < len(X0["bodies"]) else [str(w)] * 2), "facies of cell %d: %s, expected %s" % (m, a[2 * m:2 * m + 2], w))
        p = 2 * len(see["f"])
        for i, w in enumerate(see["n"]):
            need(a[p + i] == (hn.hx(w) if w else "t"), "name of facies %d: %s" % (i - 1, a[p + i]))
        need(a[p + len(see["n"])] == ("1" if see["ok"] else "t"), "consistency check: %s, expected %d" % (a[-1], see["ok"]))
    elif op == "ask":
        o = see
        if o["okxy"] and o["okz"]:
            w = ["t"] * 4 if o["layer"] < 0 else [str(o["cell"][0]), str(o["cell"][1]), str(o["layer"]), str(o["cell"][0] + X0["ni"] * (o["cell"][1] + X0["nj"] * o["layer"]))]
            need(a[:4] == w, "cell %s, expected %s" % (a[:4], w))
            need(int(a[6]) == o["in"], "inside: %s" % a[6])
            if e["tol"] % 2 or Id(X0):
                need(int(a[7]) == o["nearz"], "inside with tolerance: %s" % a[7])
        if o["okxy"]:
            need(int(a[4]) == o["box"] and int(a[5]) == o["box"], "inside the area: %s %s, expected %d" % (a[4], a[5], o["box"]))
        if k == "cont":
            if o["okxy"]:
                need(a[8:10] == (["t", "t"] if o["cell"][0] < 0 else list(map(str, o["cell"]))), "column %s, expected %s" % (a[8:10], o["cell"]))
            if o["okxy"] and o["okz"] and not o["flat"]:
                if o["cell"][0] < 0:
                    need(a[10:12] == ["t", "t"], "value outside: %s" % a[10:12])
                else:
                    eq(a[10], q(o["val"]), "interpolated value", 1e-5)
                    eq(a[11], q(o["val"]), "value between the cells found", 1e-5)
                if o["nearok"]:
                    eq(a[12], q(o["near"]), "value closest in z", 1e-5)
            if o["layok"]:
                eq(a[13], q(o["lay"]), "value by layer", 1e-5)


def Id(v):
    return v["tri"] == [1, 0, 1] and not (v["top"]["b"] or v["top"]["c"] or v["bot"]["b"] or v["bot"]["c"])


def table(ctx, cs):
    parts = [cs[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as p:
        rs = list(p.map(lambda b: ctx.tlc("StormTrace", "SPECIFICATION Spec\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n", defs=dict(GRuns="<<" + ",\n".join(vt.tla(c) for c in b) + ">>"), timeout=850), [x for x in parts if x]))
    return [rs[i % 8].items[i // 8][1] for i in range(len(cs))]


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 24)
    cs = runs(rng, ctx.pick(280, 3000))
    rows = table(ctx, cs)
    lines, group, back = [], [], []
    for n, (ops, row) in enumerate(zip(cs, rows)):
        X, Y = rng.choice([(0, 0), (0, 0), (453210, 6789012), (-1000.5, 31.25)])
        rp = rng.randrange(2) if not any(e["op"] == "new" and e["k"] == "fac" for e in ops) else 1
        group.append(len(lines))
        lines.append("start")
        back.append(None)
        kinds = {}
        for e, r in zip(ops, row):
            s = e["s"]
            if e["op"] in ("new", "read"):
                kinds[s] = e["k"]
            if r["a"] == "open":
                continue
            k = kinds[s]
            if e["op"] == "copy":
                kinds[e["t"]] = k
            lines.append(command(e, k, r["o"], X, Y, rng, rp))
            back.append((n, e, k, r, X, Y))
    ans = hn.run(ctx, "storm", lines, "asan", jobs=8, group=group)
    cnt = {}
    for i, (l, a, b) in enumerate(zip(lines, ans, back)):
        if b is None:
            continue
        n, e, k, r, X, Y = b
        first = max(g for g in group if g <= i)
        where = dict(commands=lines[first:i + 1], run=cs[n], expected=r, answer=a)
        try:
            if r["a"] == "throws":
                need(a[0] == "err", "no exception")
            else:
                if a[0] != "ok":
                    raise Bad("exception: %s" % (hn.unhx(a[1])[:200] if len(a) > 1 else ""))
                try:
                    judge(e, k, r["o"], a[1:], X, Y)
                except (IndexError, ValueError) as x:
                    raise Bad("unreadable answer (%s)" % x)
        except Bad as x:
            raise vt.Violation("storm grid, %s: %s" % (e["op"], x), where)
        cnt[e["op"]] = cnt.get(e["op"], 0) + 1
        if r["a"] == "throws":
            cnt["throws"] = cnt.get("throws", 0) + 1
    ctx.traces += len(cs)
    ctx.cov["operations"] = cnt
    ctx.sample(dict(run=cs[0][:4]))

