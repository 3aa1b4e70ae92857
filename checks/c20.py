"""C20: surfaces on regular grids."""
import math, random, struct
import vt, hn
from concurrent.futures import ThreadPoolExecutor


def line(op):
    k = op[0]
    ang = lambda t: hn.fl(math.atan2(t[1], t[0]))
    if k == "new":
        return "new %d %s %d %d %d %d %d %d %d %s %s" % (*op[1:10], ang(op[11]), " ".join(hn.fl(n / d) for n, d in op[10]))
    if k == "turn":
        return "turn %d %s" % (op[1], ang(op[2]))
    if k == "rotate":
        return "rotate %d %d %s" % (op[1], op[2], ang(op[3]))
    if k == "rect":
        return "rect %d %s" % (op[1], " ".join(map(str, op[2])))
    if k == "ask":
        h = op[4][2]
        return "ask %d %s %s" % (op[1], hn.fl(op[5][0] / h), hn.fl(op[5][1] / h))
    return " ".join(map(str, op))


class Bad(Exception):
    pass


def need(c, m):
    if not c:
        raise Bad(m)


def near(a, b, t):
    return abs(a - b) <= t * max(1.0, abs(b))


def view(a, v, tol, ctol):
    need(a[0] == v["k"], "surface is %s" % a[0])
    if v["k"] == "undef":
        return
    a = a[1:]
    if v["k"] == "rot":
        ref = [hn.unfl(x) for x in a[:3]]
        need(near(ref[0], v["x0"], ctol) and near(ref[1], v["y0"], ctol), "reference point %s" % ref[:2])
        need(abs(math.cos(ref[2]) - v["tri"][0] / v["tri"][2]) < 1e-6 and abs(math.sin(ref[2]) - v["tri"][1] / v["tri"][2]) < 1e-6, "angle %s" % ref[2])
        a = a[3:]
    need([int(x) for x in a[:3]] == [v["ni"], v["nj"], v["ni"] * v["nj"]], "size %s" % a[:3])
    g = [hn.unfl(x) for x in a[3:11]]
    h = v["tri"][2]
    w = [x / h for x in v["box"]] + [v["dx"], v["dy"], v["lx"], v["ly"]]
    need(all(near(x, y, ctol) for x, y in zip(g, w)), "box, steps and lengths %s, expected %s" % (g, w))
    need(hn.unfl(a[11]) == v["mv"], "missing value %s" % a[11])
    need(hn.unhx(a[12]).decode() == v["nm"], "name %r" % hn.unhx(a[12]))
    q = lambda x: x[0] / x[1]
    need(near(hn.unfl(a[13]), q(v["sum"][0]), tol), "smallest value %s, expected %s" % (hn.unfl(a[13]), v["sum"][0]))
    need(near(hn.unfl(a[14]), q(v["sum"][1]), tol), "largest value %s, expected %s" % (hn.unfl(a[14]), v["sum"][1]))
    need(int(a[16]) == v["n"], "number of values %s" % a[16])
    mean = q(v["sum"][2]) / v["n"] if v["n"] else v["mv"]
    need(near(hn.unfl(a[15]), mean, tol * 10), "mean %s, expected %s" % (hn.unfl(a[15]), mean))
    c, s = v["tri"][0] / h, v["tri"][1] / h
    for m, z in enumerate(v["z"]):
        b = a[17 + 4 * m:21 + 4 * m]
        i, j = m % v["ni"], m // v["ni"]
        need(near(hn.unfl(b[0]), q(z), tol), "value %s in node (%d,%d), expected %s" % (hn.unfl(b[0]), i, j, z))
        need(int(b[1]) == (z == [v["mv"], 1]), "node (%d,%d) missing: %s" % (i, j, b[1]))
        x, y = v["x0"] + c * i * v["dx"] - s * j * v["dy"], v["y0"] + s * i * v["dx"] + c * j * v["dy"]
        need(near(hn.unfl(b[2]), x, ctol) and near(hn.unfl(b[3]), y, ctol), "node (%d,%d) at (%s,%s), expected (%g,%g)" % (i, j, hn.unfl(b[2]), hn.unfl(b[3]), x, y))
    if v["k"] == "plain":
        r = [hn.unfl(x) for x in a[17 + 4 * len(v["z"]):]]
        need(r[0] == r[1] == hn.unfl(a[13]) and r[2] == r[3] == hn.unfl(a[14]), "nodes of the smallest and largest value %s" % r)


def ask(op, e, a, v, tol):
    q = lambda x: x[0] / x[1]
    ob = e["obs"]
    a8, b8 = op[2:4]
    need(near(hn.unfl(a[0]), q(ob["z"]), tol), "value %s, expected %s" % (hn.unfl(a[0]), ob["z"]))
    need(int(a[1]) == ob["in"], "inside: %s" % a[1])
    edge = a8 == 8 * (v["ni"] - 1) or b8 == 8 * (v["nj"] - 1)
    if not edge:
        need(near(hn.unfl(a[2]), q(ob["zi"]), tol), "value inside %s, expected %s" % (hn.unfl(a[2]), ob["zi"]))
    if v["k"] == "plain":
        need(all(near(hn.unfl(x), q(y), tol) for x, y in zip(a[3:7], ob["c"])), "corners %s" % a[3:7])
        need([int(x) for x in a[7:9]] == ob["cell"], "cell %s, expected %s" % (a[7:9], ob["cell"]))
        for t, x, n in zip((a8, b8), a[9:11], ob["near"]):
            need(t % 8 == 4 or int(x) == n, "nearest node %s, expected %s" % (a[9:11], ob["near"]))
        if ob["in"]:
            need(hn.unfl(a[11]) == a8 / 8 and hn.unfl(a[12]) == b8 / 8, "position %s" % a[11:13])


def foreign(ctx, rng):
    """Files written by others: their kind, and Sgri files."""
    kinds = [w.split() for w in ("-996 3 4", "STORMGRID_BINARY", "STORMGRID_BINARY x", "NORSAR General Grid Format v1.0", "NORSAR a b c v2.0", "NORSAR a b c v3.0",
                                 "NORSAR", "two words", "3 4", "1.5 2.5", "7 x", "x 7", "7", "7 2.5", "a b c", "-996", "-9960 1", "")]
    cs = [dict(t="kind", words=w) for w in kinds]
    labels = [[], ["X"], ["x", "y"], ["x axis", "Y AXIS"], ["depth"], ["X", "depth"], ["y", "x"]]
    extra = []
    for i in range(ctx.pick(150, 2500)):
        ax = rng.choice([["X axis", "Y axis"], ["x", "y"], ["X", "Y"], ["Inline x", "Crossline y"], ["depth", "time"], ["y", "x"], ["axis 1", "Y"]])
        ng, nx, ny = rng.randint(1, 3), rng.randint(2, 4), rng.randint(2, 4)
        n = nx * ny * ng
        name, tail = rng.choice([("", ""), ("b.bin", ""), ("b.bin", " "), ("b.bin", "  ! binary file"), ("b.bin", "\t"), ("b", ""), ("long_name_of_a_binary_file.Sgri", "")])
        lab = rng.choice(labels[:4] if rng.random() < .6 else labels)
        cs.append(dict(t="sgri", dim=rng.choice([2] * 9 + [3]), ax=ax, ng=ng if rng.random() < .95 else 0, nx=nx, ny=ny, dx=rng.choice([1, 2, 25]), dy=rng.choice([1, 5, 50]), x1=rng.randint(-50, 500), y1=rng.randint(-50, 500),
                       ang=rng.choice([0, 0, 1]), mv=rng.choice([-999, 12345, 3]), name=name, tail=tail, cplx=int(rng.random() < .07),
                       there=n if rng.random() < .75 else rng.choice([n - 1, nx * ny, nx * ny - 1, n + 2]),
                       lab=all(a.upper() in b.upper() for a, b in zip(lab, ax)), found=rng.random() < .95))
        extra.append((rng.choice([".", ".", "sub"]), "h.hdr", lab))
    r = ctx.tlc("SurfFiles", "SPECIFICATION Spec\nCONSTANT Chunk = 50\n", defs=dict(GCases="<<" + ",\n".join(vt.tla(c) for c in cs) + ">>"), timeout=800)
    rows = [x for _, b in r.items for x in b]
    lines = []
    for c, row, i in zip(cs, rows, range(-len(kinds), len(extra))):
        if c["t"] == "kind":
            t = " ".join(c["words"])
            lines.append("kind %s" % hn.hx((t + ("\n" if i % 2 else "")).encode()))
            continue
        d, h, lab = extra[i]
        bf = (c["name"] or "h.Sgri") if c["found"] else "-"
        lines.append(" ".join(["sgri", d, h, hn.hx(row["text"].encode()), bf, hn.hx(struct.pack(">%df" % len(row["vals"]), *row["vals"])), str(len(lab))] + [hn.hx(x.encode()) for x in lab]))
    ans = hn.run(ctx, "surf", lines, "asan", jobs=4)
    for c, row, l, a in zip(cs, rows, lines, ans):
        where = dict(case=c, expected=row, commands=[l], answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (l[:60], hn.unhx(a[1])), where)
        a = a[1:]
        try:
            if c["t"] == "kind":
                need(a[0] == row["kind"], "a file starting with %r is of kind %s, expected %s" % (" ".join(c["words"]), a[0], row["kind"]))
                continue
            p = " ".join(a).split(" | ")
            need(p[0] == "sgri", "the kind of a Sgri file is %s" % p[0])

            def same(t, z, name):
                t = t.split()
                need(t[:3] == ["s", str(c["nx"]), str(c["ny"])], "%s: size %s" % (name, t[:3]))
                need(hn.unfl(t[3]) == c["mv"] and [hn.unfl(x) for x in t[4:4 + len(z)]] == z, "%s: values %s" % (name, t[3:]))
                return [hn.unfl(x) for x in t[4 + len(z):]]
            one, many = row["one"], row["many"]
            for t, name, ok in ((p[1], "read alone", one["ok"] and one["plain"]), (p[2], "read as rotated", one["ok"])):
                if not ok:
                    need(t == "error", "%s: no error" % name)
                else:
                    need(t != "error", "%s: error" % name)
                    x = same(t, one["z"], name)
                    need(x == ([] if name == "read alone" else [c["ang"]]), "%s: angle %s" % (name, x))
            if not many["ok"]:
                need(p[3].endswith("error"), "reading all surfaces: no error")
            else:
                need(not p[3].endswith("error"), "reading all surfaces: error")
                g = p[3].split("@")[1:]
                need(len(g) == c["ng"], "%d surfaces" % len(g))
                for t, z in zip(g, many["z"]):
                    x = same(t, z, "one of many")
                    need(x == [c["ang"], many["x0"] / 2, many["y0"] / 2, c["dx"], c["dy"]], "place and steps %s" % x)
        except Bad as x:
            raise vt.Violation("%s" % x, where)
    ctx.traces += len(lines)
    ctx.cov["foreign_files"] = len(lines)


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 20)
    foreign(ctx, rng)
    inv = "INVARIANTS Bounded InBox Extremes\nPROPERTY FilesKeep\n"
    cfg = "SPECIFICATION %s\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("SurfacesGen", cfg % ("MCSpec", 0) + inv + "CONSTRAINT Bound\n", defs=dict(GLevel=str(ctx.pick(4, 6))), workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct

    def gen(k):
        return [x for _, x in ctx.tlc("SurfacesGen", cfg % ("GSpec", 20), defs=dict(GLevel="99"), simulate=ctx.pick(70, 1200), depth=23, seed=ctx.seed * 41 + k).items]
    with ThreadPoolExecutor(6) as p:
        hs = [x for g in p.map(gen, range(ctx.pick(6, 24))) for x in g]
    lines, exp, starts, bg = [], [], [], []
    for h in hs:
        starts.append(len(lines))
        f = rng.random() < 0.25
        lines.append("start %s" % ("f" if f else "d")); exp.append(None); bg.append((h, f))
        for e in h:
            lines.append(line(e["op"])); exp.append(e); bg.append((h, f))
            for x in (1, 2):
                if e["v"][x - 1]["k"] == "rot" and rng.random() < 0.3:
                    lines.append("resample %d" % x); exp.append((e, x)); bg.append((h, f))
    ans = hn.run(ctx, "surf", lines, "asan", jobs=8, group=starts)
    ops = {}
    for i, (e, a) in enumerate(zip(exp, ans)):
        h, f = bg[i]
        where = dict(behaviour=[line(x["op"]) for x in h], precision="single" if f else "double", at=lines[i], expected=e, answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (lines[i][:60], hn.unhx(a[1])), where)
        if e is None:
            continue
        a = a[1:]
        try:
            if isinstance(e, tuple):
                v = e[0]["v"][e[1] - 1]
                b = [x / v["tri"][2] for x in v["box"]]
                need(all(near(hn.unfl(x), y, 2e-5) for x, y in zip(a[1:5], b)), "resampled surface covers %s, expected %s" % ([hn.unfl(x) for x in a[1:5]], b))
                need(hn.unfl(a[5]) == v["mv"], "missing value of the resampled surface")
                ops["resample"] = ops.get("resample", 0) + 1
                continue
            k = a.index("|")
            o, vs = a[:k], a[k + 1:]
            k = vs.index("|")
            tol = 2e-4 if f else 1e-6
            op = e["op"]
            ops[op[0]] = ops.get(op[0], 0) + 1
            for x, t in ((0, vs[:k]), (1, vs[k + 1:])):
                try:
                    view(t, e["v"][x], tol, 2e-5)
                except Bad as y:
                    raise Bad("surface %d: %s" % (x + 1, y))
            if op[0] == "ask":
                ask(op, e, o, e["v"][op[1] - 1], tol)
            elif op[0] in ("rect", "neigh"):
                need(int(o[0]) == e["obs"][0], "answer %s, expected %s" % (o, e["obs"]))
            elif op[0] == "load":
                need(o == e["obs"], "reading gives %s, expected %s" % (o, e["obs"]))
        except Bad as x:
            raise vt.Violation("%s: %s" % (lines[i][:80], x), where)
        except (IndexError, ValueError) as x:
            raise vt.Violation("%s: unreadable answer (%s)" % (lines[i][:80], x), where)
    ctx.traces += len(hs)
    ctx.cov.update(behaviours=len(hs), operations=ops)
    ctx.sample(dict(behaviour=[line(x["op"]) for x in hs[0]]))
