"""C19: a SegY file holds the traces written and is read back trace for trace."""
import random, struct
import vt, hn
from checks.c18 import TRI
from concurrent.futures import ThreadPoolExecutor

SC = {0: 1, -1: -10, -2: -100, -3: -1000, -4: -10000, 1: 10, 2: 100, 3: 1000}
STD = [(71, 73, 77, 9, 21, 109, 0), (71, 73, 77, 221, 21, 109, 0), (71, 181, 185, 189, 193, 109, 37), (71, 73, 77, 5, 21, 109, 0),
       (71, 73, 77, 181, 185, 109, 0), (71, 73, 77, 185, 189, 109, 0)]
DZ = [0.5, 1, 1.5, 2, 2.5, 4, 8, 0.125]


def survey(rng, single=0.2):
    a, b, h = rng.choice(TRI)
    m = [min(rng.choice([1, 2, 5, 25]), max(1, 300 // h)) for _ in range(2)]
    n = [rng.randint(2, 5) for _ in range(2)]
    if rng.random() < single:
        n = rng.choice([[1, rng.randint(2, 5)], [rng.randint(2, 5), 1]])
    s = [rng.choice([1, 1, 1, 2, 5]) * rng.choice([1, -1]) for _ in range(2)]
    q = rng.choice([1, -1])
    l0 = [rng.choice([rng.randint(20, 40), rng.randint(100, 5000)]) for _ in range(2)]
    return dict(o=[rng.randint(1, 9000) for _ in range(2)], u=[m[0] * a, m[0] * b], w=[-q * m[1] * b, q * m[1] * a], il0=l0[0], sI=s[0], nI=n[0],
                xl0=l0[1], sX=s[1], nX=n[1])


def fmt(rng):
    """Header layout: (locations, command)."""
    r = rng.random()
    if r < 0.6:
        k, by = rng.randrange(6), int(rng.random() < 0.25)
        L = list(STD[k])
        if by: L[0] = -1
        return L, "fmt std %d %d" % (k, by)
    free = [x for x in range(1, 236, 4) if x not in (113, 117)]
    q = rng.sample(free, 6)
    if rng.random() < 0.2: q[0] = -1
    return q + [0], "fmt loc %d %d %d %d %d %d" % tuple(q)


def world(rng, L):
    e = rng.choice([0, 0, -1, -2, -2, -3, -4, 1, 2]) if L[0] > 0 else 0
    return dict(e=e, z0=rng.choice([0, 100, 1500, 1492.5, -200]), dz=rng.choice(DZ))


def xy(p, e):
    return [float("%de%d" % (v, e)) for v in p]      # the decimal number itself, as a user would write it


def be(fm, v):
    return struct.pack(">" + fm, v)


def ibm(v):
    if v == 0: return b"\0\0\0\0"
    s, v = (0x80, -v) if v < 0 else (0, v)
    e = 64
    while v >= 1: v /= 16; e += 1
    while v < 1 / 16: v *= 16; e -= 1
    return bytes([s | e]) + int(v * 2 ** 24).to_bytes(3, "big")


def near(g, w, tol=1e-7):
    return len(g) == len(w) and all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(g, w))


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def fls(a):
    return [hn.unfl(x) for x in a]


def history(ctx, rng, add, H):
    """One behaviour of SegyFile replayed; the bytes of the file and the traces read are compared."""
    c, L, w = H["case"], *fmt_world(rng)
    L, cmd = L
    odd = rng.random() < 0.3                                  # an interval that is not a binary fraction: depths kept off the sample limits
    if odd: w["dz"] = rng.choice([4.1, 2.3, 0.7, 1.001, 16.384, 4.06, 0.29, 1.137, 32.001])
    e, z0, dz = w["e"], w["z0"], w["dz"]
    nz, vs = c["nz"], 0.25
    D = lambda s: "%d %s" % (len(s), " ".join(hn.fl(v * vs) for v in s))
    val = lambda i, k: ((i * 37 + k * k * 5 + k * 3 + (i * k) % 7) % 401) - 200
    data = lambda i, n: D([val(i, k) for k in range(1, n + 1)])
    ok = lambda a: need(a[0] == "ok", "refused: %s" % a[:1])
    add(cmd, ok, start=True)
    g = []
    for a in range(c["nI"]):
        for b in range(c["nX"]):
            p = [8 * c["o"][i] + 8 * a * c["u"][i] + 8 * b * c["w"][i] for i in range(2)]
            g.append("%d %d %s %s" % (c["il0"] + a * c["sI"], c["xl0"] + b * c["sX"], *map(hn.fl, xy(p, e))))
    add("geom %d %s" % (len(g), " ".join(g)), ok)
    text = {}
    tl = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        l = rng.choice([0, 5, 38, 40, -1, rng.randrange(39)])
        s = "".join(rng.choice("ABCXYZabcxyz0189 .,-+:;()/%&'=") for _ in range(rng.choice([0, 3, 40, 75, 76, 90])))
        tl.append((l, s))
        if 0 <= l <= 39: text[l] = s[:75].ljust(75)

    def chk(a):
        ok(a)
        need([int(x) for x in a[1:] if x] == [-1 if not 0 <= l <= 39 else int(len(s) > 75) for l, s in tl], "SetLine answers %s" % a[1:])
    add("w %s %d %s %d %d %d %s" % (hn.fl(z0), nz, hn.fl(dz), SC[e], rng.randrange(2), len(tl), " ".join("%d %s" % (l, hn.hx(s)) for l, s in tl)), chk)
    zz = lambda t8: hn.fl(z0 + (t8 / 8 + (1e-4 if t8 < 8 * nz else -1e-4) * odd) * dz)
    for op in H["hist"]:
        o, ob = op["op"], op["obs"]
        k = o[0]
        off = o[4] % 7 * 50 if k == "at" else o[2] % 7 * 50 if k in ("xy", "head") else 0
        if k == "at":
            x = xy(o[3], e)
            line = "%s %d %d %s %s %d %s" % (k, o[1], o[2], hn.fl(x[0]), hn.fl(x[1]), off, data(o[4], nz))
        elif k in ("xy", "store", "head"):
            x = xy(o[1], e)
            v = "%d %s %s" % (o[7], hn.fl(z0 + (o[3] + 0.5) * dz), hn.fl(z0 + nz * dz + 1)) if o[7] else "0"
            line = "%s %s %s %d %s %s %s %s" % (k, hn.fl(x[0]), hn.fl(x[1]), off, data(o[2], o[4]), hn.fl(o[5] * vs), hn.fl(o[6] * vs), v)
            if k == "head": line += " %d %d" % tuple(o[8:])
        elif k == "flush":
            line = k
        elif k == "open":
            def chk(a):
                ok(a)
                f = hn.unhx(a[1])
                n = len(H["file"])
                need(len(f) == 3600 + n * (240 + 4 * nz), "file has %d bytes for %d traces" % (len(f), n))
                for l in range(40):
                    s = ("C%2d  " % (l + 1) + text[l]) if l in text else "C%2d" % (l + 1)
                    s = s.ljust(80) if l < 39 or l in text else "C40 END EBCDIC".ljust(80)
                    need(f[80 * l:80 * l + 80] == s.encode("cp500"), "text header line %d is %r" % (l + 1, f[80 * l:80 * l + 80].decode("cp500")))
                need(f[3216:3218] == be("h", round(dz * 1000)) and f[3220:3222] == be("h", nz) and f[3224:3226] == be("h", 5), "binary header")
                for i, t in enumerate(H["file"]):
                    at = 3600 + i * (240 + 4 * nz)
                    want = bytearray(240)
                    want[114:118] = be("h", nz) + be("h", round(dz * 1000))
                    if L[0] > 0: want[L[0] - 1:L[0] + 1] = be("h", SC[e])
                    for loc, v in zip(L[1:5], t["p"] + [t["il"], t["xl"]]):
                        want[loc - 1:loc + 3] = be("i", v)
                    if L[5] > 0: want[L[5] - 1:L[5] + 1] = be("h", int(z0))
                    if L[6] > 0: want[L[6] - 1:L[6] + 3] = be("i", t["off"])
                    got = f[at:at + 240]
                    if got != bytes(want):
                        q = next(j for j in range(240) if got[j] != want[j])
                        raise Bad("byte %d of the header of trace %d is %d, expected %d (%s)" % (q + 1, i + 1, got[q], want[q], t))
                    s = struct.unpack(">%df" % nz, f[at + 240:at + 240 + 4 * nz])
                    need(list(s) == [v * vs for v in t["s"]], "samples of trace %d are %s" % (i + 1, s))
            add("close", chk)
            add("count", lambda a: need(a == ["ok", str(len(H["file"]))], "number of traces %s" % a))
            # a start time given, or taken from the headers when it is whole
            z0r = -99999 if z0 == int(z0) and L[5] > 0 and rng.random() < 0.3 else z0

            def chk(a):
                ok(a)
                need(int(a[1]) == nz and near([hn.unfl(a[2])], [dz]) and int(a[3]) == len(H["file"]), "opened with %s" % a[1:])
            line = "r " + hn.fl(z0r)
            add(line, chk)
            continue
        elif k == "again":
            add("r " + hn.fl(z0r), ok)
            continue
        elif k in ("next", "btw"):
            line = "next 0 0x0p+0" if k == "next" else "next 1 %s %s %s" % (zz(o[1]), zz(o[2]), hn.fl(o[3] / 2))

            def chk(a, ob=ob):
                ok(a)
                if ob["k"] == "end":
                    need(a[1:] == ["null"], "a trace after the last: %s" % a[1:6])
                    return
                t = ob["t"]
                need(a[1] != "null", "no trace")
                need([int(a[1]), int(a[2])] == [t["il"], t["xl"]], "trace with lines %s, expected %s" % (a[1:3], [t["il"], t["xl"]]))
                need(near(fls(a[3:5]), xy(t["p"], e)), "trace at %s, expected %s" % (fls(a[3:5]), xy(t["p"], e)))
                need([int(a[5]), int(a[6])] == [ob["j0"], ob["j1"]], "samples %s, expected %d to %d" % (a[5:7], ob["j0"], ob["j1"]))
                need(near(fls(a[7:9]), [z0, dz]), "start and step %s" % fls(a[7:9]))
                need(fls(a[10:]) == [v * vs for v in t["s"][ob["j0"]:ob["j1"] + 1]], "values")
            add(line, chk)
            continue
        add(line, lambda a, ob=ob: need((a[0] == "ok") == (ob["k"] == "ok"), "%s, expected %s" % (a[0], ob["k"])))


def fmt_world(rng):
    f = fmt(rng)
    return f, world(rng, f[0])


def rcase(rng):
    c = survey(rng)
    nI, nX = c["nI"], c["nX"]
    c["nz"] = rng.randint(1, 9)
    cells = [(a, b) for a in range(nI) for b in range(nX)]
    if rng.random() < 0.5: cells = [(a, b) for b in range(nX) for a in range(nI)]
    if rng.random() < 0.4: cells.reverse()
    f = cells[0]
    # the lines of the first trace and the corners are complete, so that the geometry is determined
    may = [x for x in cells if x[0] != f[0] and x[1] != f[1] and not (x[0] in (0, nI - 1) and x[1] in (0, nX - 1))]
    holes = rng.sample(may, rng.randint(0, min(3, len(may)))) if rng.random() < 0.6 else []
    order = [x for x in cells if x not in holes]
    if rng.random() < 0.3:
        q = order[1:]
        rng.shuffle(q)
        order = order[:1] + q
    t = rng.choice([0, rng.randint(0, 8 * c["nz"] - 1)])
    b = rng.choice([8 * c["nz"], rng.randint(t, 8 * c["nz"])])
    zq = rng.choice([0, 0, 1, 2, 4])
    if t // 8 > c["nz"] - 1: t = 0
    c.update(holes=[list(x) for x in holes], order=[list(x) for x in order], top8=t, base8=b, zq=zq)
    pt = lambda n: rng.choice([v for v in range(-3, 8 * n - 4) if v % 8 != 4] if rng.random() < 0.85 else [-9, -6, 8 * n - 1, 8 * n + 9])
    c["vals"] = [[pt(nI), pt(nX), rng.randint(-3, 8 * c["nz"] + 3), rng.randrange(3)] for _ in range(14)]
    c["near"] = [[pt(nI), pt(nX)] for _ in range(5)]
    lines = []
    for _ in range(8):
        a, b = rng.randrange(nI), rng.randrange(nX)
        if holes and rng.random() < 0.4: a, b = rng.choice(holes)
        q = [c["il0"] + a * c["sI"], c["xl0"] + b * c["sX"]]
        if rng.random() < 0.25: q[rng.randrange(2)] += rng.choice([-1, 1]) * rng.choice([1, 60])
        lines.append(q)
    c["lines"] = lines
    return c


def encode(c, e, rng, L, w, bf, sco, dts):
    """The file the model describes, in any of the sample formats, with other header bytes arbitrary."""
    nz = c["nz"]
    bh = bytearray(rng.randbytes(400))
    bh[16:18], bh[20:22], bh[24:26] = be("h", dts[0]), be("h", nz), be("h", bf)
    out = [bytes(bh)]
    for i, t in enumerate(e["file"]):
        h = bytearray(rng.randbytes(240))
        h[0] &= 0x7f
        h[114:118] = be("h", nz) + be("h", dts[1])
        sc = sco[i % len(sco)]
        if L[0] > 0: h[L[0] - 1:L[0] + 1] = be("h", SC.get(sc, 1) if rng.random() < 0.9 or sc else 0)
        if L[5] > 0: h[L[5] - 1:L[5] + 1] = be("h", int(w["z0"]))
        p = [v * 10 ** (w["e"] - sc) for v in t[3:5]]           # the unit of this trace is finer than the common one
        for loc, v in zip(L[1:5], p + t[:2]):
            h[loc - 1:loc + 3] = be("i", v)
        s = e["smp"][t[2] - 1]
        out += [bytes(h), b"".join(ibm(v * 0.25) if bf == 1 else be({2: "i", 3: "h"}[bf], v) if bf in (2, 3) else be("f", v * 0.25) for v in s)]
    return b"".join(out)


def reading(ctx, rng, add, c, e):
    L, cmd = fmt(rng)
    w = world(rng, L)
    bf = rng.choice([1, 2, 3, 5, 5])
    vs = 0.25 if bf in (1, 5) else 1
    nz, z0, dz, ex = c["nz"], w["z0"], w["dz"], w["e"]
    # scale factors may differ from trace to trace; a finer one needs room in 32 bits
    sco = [ex] if L[0] < 0 or ex < -1 or rng.random() < 0.7 else [ex - 1, ex, 0 if ex >= 0 else ex]
    dts = [round(dz * 1000)] * 2
    ok = lambda a: need(a[0] == "ok", "refused %s" % a[:2])
    if rng.random() < 0.15: dts[rng.randrange(2)] = 0
    elif dz in (1, 2, 4) and rng.random() < 0.15: dts[1] = rng.choice([500, 1500, 4500, 3000])
    add(cmd, ok, start=True)
    add("put " + encode(c, e, rng, L, w, bf, sco, dts).hex(), ok)
    n = len(e["file"])
    single = c["nI"] == 1 or c["nX"] == 1
    zz = lambda t8: hn.fl(z0 + t8 / 8 * dz)
    siz = {3: 2}.get(bf, 4)
    smp = lambda i, j0=0, j1=nz - 1: [v * vs for v in e["smp"][i - 1][j0:j1 + 1]]

    def opn(a):
        ok(a)
        need(int(a[1]) == nz and int(a[3]) == n and (hn.unfl(a[2]) == dz or dts[0] == 0), "opened with %s" % a[1:])
    add("r " + hn.fl(z0), opn)
    if rng.random() < 0.5:
        add("count", lambda a: need(a == ["ok", str(n)], "number of traces %s" % a))
    order = {t[2]: i for i, t in enumerate(e["file"])}
    if rng.random() < 0.5:                                    # trace by trace
        only, keep = int(rng.random() < 0.3), int(rng.random() < 0.7)
        vol = "0"
        lo, hi = 0, nz - 1
        add("geo %d %d" % (only, keep), lambda a: (ok(a), need(sorted(map(int, a[1:3])) == sorted([c["nI"], c["nX"]]), "grid of %s" % a[1:3])))
        for q, x in zip(c["lines"], e["lines"]):
            if single and x["k"] == "no": continue
            if x["k"] == "no" and (q[0] - c["il0"]) % c["sI"] + (q[1] - c["xl0"]) % c["sX"]:      # line numbers between lines: only "is it defined"
                add("line %d %d" % tuple(q), lambda a, q=q: need(a[1] == "0", "line %s is said to have a trace" % q))
                continue

            def chk(a, q=q, x=x):
                ok(a)
                need(a[1] == str(int(x["k"] == "id")), "lines %s defined: %s" % (q, a[1]))
                if x["k"] != "id" or not keep: need(a[2:] == ["nohdr"], "header of lines %s: %s" % (q, a[2:]))
                else:
                    need(a[2] != "nohdr", "no header of lines %s" % q)
                    need([int(a[2]), int(a[3])] == q and near(fls(a[4:6]), xy(x["p"], ex)), "header of lines %s: %s" % (q, a[2:]))
            add("line %d %d" % tuple(q), chk)
            t, b = sorted(rng.randint(0, 8 * nz - 1) for _ in range(2))
            v = rng.random() < 0.4 and z0 >= 0 and not only
            j0, j1 = (t // 8, b // 8 if b > 0 else nz - 1) if v else (0, nz - 1)

            def chk(a, q=q, x=x, j0=j0, j1=j1):
                if x["k"] == "no":
                    need(a[1:] == ["nopos", "nodata"], "lines %s outside have data %s" % (q, a[1:4])); return
                if x["k"] == "hole":
                    need(a[1:] == ["0", "nodata"], "missing trace %s has position and data %s" % (q, a[1:5])); return
                need(int(a[1]) == 3600 + order[x["id"]] * (240 + siz * nz) + 240, "position in the file %s" % a[1])
                need(a[2] != "nodata" and fls(a[3:])[j0:j1 + 1] == smp(x["id"], j0, j1) and int(a[2]) == nz, "data of lines %s: %s" % (q, a[2:]))
            add("data %d %d %s" % (q[0], q[1], "1 %s %s" % (zz(t), zz(b)) if v else "0"), chk)
            if x["k"] != "no" and not only:
                p = x["p"] if "p" in x else None
                if p: add("dxy %s %s 0" % tuple(map(hn.fl, xy(p, ex))), lambda a, x=x, q=q: chk0(a, x, order, nz, siz, smp))
        for q, p, x in zip(c["near"], e["npos"], e["near"]):
            if single or only: continue
            if x["k"] == "id":
                add("dxy %s %s 0" % tuple(map(hn.fl, xy(p, ex))), lambda a, x=x: chk0(a, x, order, nz, siz, smp))
            else:
                add("dxy %s %s 0" % tuple(map(hn.fl, xy(p, ex))), lambda a, x=x: need(a[1:] == [{"no": "nopos", "hole": "0"}[x["k"]], "nodata"], "%s: %s" % (x["k"], a[1:4])))
    else:
        j0, j1 = e["j"]
        t, b, zq = c["top8"], c["base8"], c["zq"]
        whole = t == 0 and b == 8 * nz and rng.random() < 0.5
        if whole: j0, j1 = 0, nz - 1
        rel = rng.randrange(2)
        pad = zq / 2 if rel else zq / 2 * (b - t) / 8 * dz
        nv = rng.random() < 0.4
        add("all %s %s %d" % ("0" if whole else "1 %s %s" % (zz(t), zz(b)), hn.fl(pad), rel),
            lambda a: (ok(a), need(int(a[1]) == j1 - j0 + 1 and sorted(map(int, a[2:4])) == sorted([c["nI"], c["nX"]]), "longest trace and grid %s" % a[1:])))

        def chk(a):
            g = fls(a[2:])
            m = j1 - j0 + 1
            got = sorted(g[i:i + m] for i in range(0, len(g), m))
            need(got == sorted(smp(t[2], j0, j1) for t in e["file"]), "all values")
        add("vals", chk)
        for q, p, x in zip(c["vals"], e["vpos"], e["vals"]):
            if single: continue
            want = {"zero": 0, "missing": -99999}.get(x["k"])
            if want is None: want = x["v"] / 1280000 * vs
            add("val %s %s %s %d" % (*map(hn.fl, xy(p, ex)), zz(q[2]), q[3]),
                lambda a, want=want, q=q: (ok(a), need(near(fls(a[1:2]), [want], 1e-4 if want != -99999 else 0), "value at %s is %s, expected %s" % (q, fls(a[1:2]), want))))
        for q, p, x in zip(c["near"], e["npos"], e["near"]):
            if single: continue

            def chk(a, x=x, q=q):
                if x["k"] == "no": need(a[0] == "err", "trace outside"); return
                ok(a)
                if x["k"] == "hole": need(a[1] == "hole", "missing trace has data"); return
                need(a[1] != "hole" and near(fls(a[1:2]), [z0 + (j0 + 0.5) * dz]) and fls(a[3:]) == smp(x["id"], j0, j1), "nearest trace of %s" % q)
            add("near %s %s" % tuple(map(hn.fl, xy(p, ex))), chk)
        for q, x in zip(c["lines"], e["lines"]):
            if x["k"] == "no" and (single or (q[0] - c["il0"]) % c["sI"] + (q[1] - c["xl0"]) % c["sX"]): continue

            def chk(a, q=q, x=x):
                ok(a)
                need(a[1] == str(int(x["k"] == "id")), "lines %s defined: %s" % (q, a[1]))
                if x["k"] != "id": need(a[2:] == ["nohdr"], "header of lines %s: %s" % (q, a[2:]))
                else: need(a[2] != "nohdr" and [int(a[2]), int(a[3])] == q and near(fls(a[4:6]), xy(x["p"], ex)), "header of lines %s: %s" % (q, a[2:]))
            add("line %d %d" % tuple(q), chk)


def chk0(a, x, order, nz, siz, smp):
    need(int(a[1]) == 3600 + order[x["id"]] * (240 + siz * nz) + 240 and a[2] != "nodata" and fls(a[3:]) == smp(x["id"]), "data at a position: %s" % a[1:])


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 19)
    cfg = "SPECIFICATION %s\nCONSTANTS Depth = %d RDepth = %d\nINVARIANTS OneCell WholeTraces ReadsInOrder\nPROPERTIES OnlyGrows RefusedIsSilent ReadingIsSilent\n"
    mc = dict(o=[0, 0], u=[3, 4], w=[-4, 3], il0=7, sI=1, nI=2, xl0=3, sX=-1, nX=1, nz=2)
    r = ctx.tlc("SegyFileGen", cfg % ("MCSpec", 0, 0) + "CONSTRAINT Bound\n", defs=dict(GCases=vt.tla([mc]), GMax=ctx.pick(2, 3)), workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct

    def gen(k):
        q = random.Random(ctx.seed * 300 + k)
        cs = [dict(survey(q, 0), nz=q.randint(1, 7)) for _ in range(12)]
        return [x for _, x in ctx.tlc("SegyFileGen", (cfg % ("GSpec", 12, 10)).split("INV")[0], defs=dict(GCases=vt.tla(cs), GMax=0),
                                      simulate=ctx.pick(90, 800), depth=26, seed=ctx.seed * 37 + k).items]
    with ThreadPoolExecutor(6) as p:
        hs = [x for g in p.map(gen, range(ctx.pick(6, 18))) for x in g]
    cs, exp = [rcase(rng) for _ in range(ctx.pick(700, 8000))], []
    for b in range(0, len(cs), 350):
        r = ctx.tlc("SegyRead", "SPECIFICATION Spec\nCONSTANT Chunk = 10\n", defs=dict(GCases="<<" + ",\n".join(vt.tla(c) for c in cs[b:b + 350]) + ">>"))
        exp += [x for _, part in r.items for x in part]
    if len(exp) != len(cs):
        raise vt.CheckError("TLC answered %d of %d" % (len(exp), len(cs)))
    lines, todo, starts, info = [], [], [], []
    cur = [None]

    def add(line, f, start=False):
        if start: starts.append(len(lines))
        lines.append(line)
        todo.append(f)
        info.append(cur[0])
    for h in hs:
        cur[0] = dict(behaviour=[x["op"] for x in h["hist"]], survey=h["case"])
        history(ctx, rng, add, h)
    for c, e in zip(cs, exp):
        cur[0] = dict(case=c)
        reading(ctx, rng, add, c, e)
    ans = hn.run(ctx, "segyfile", lines, jobs=8, group=starts)
    lo, st = 0, set(starts)
    for i, (a, f) in enumerate(zip(ans, todo)):
        if i in st: lo = i
        try:
            f(a)
        except Bad as x:
            raise vt.Violation("%s: %s" % (lines[i][:70], x), dict(commands=[l[:2000] for l in lines[lo:i + 1]], answer=a[:60], **info[i]))
        except (IndexError, ValueError) as x:
            raise vt.Violation("%s: %s (%s)" % (lines[i][:70], a[:20], x), dict(commands=[l[:2000] for l in lines[lo:i + 1]], answer=a[:60], **info[i]))
    ctx.traces += len(hs) + len(cs)
    ctx.cov.update(behaviours=len(hs), files_read=len(cs), commands=len(lines))
    ctx.sample(dict(behaviour=[x["op"] for x in hs[0]["hist"]][:6], survey=hs[0]["case"]))
