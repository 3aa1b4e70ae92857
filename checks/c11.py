"""C11: the FFT grids compute the discrete Fourier transform and its inverse."""
import random
import numpy as np
import vt, hn


def smooth_even(n, e):
    m = n
    while True:
        k = m
        for p in (2, 3, 5, 7):
            while k % p == 0:
                k //= p
        if k == 1 and (not e or m % 2 == 0 or n == 1):
            return m
        m += 1


def more(ctx, rng, nr, cases, conv):
    """Convolution, padding with zeros and access by cyclic index."""
    lines, want = [], []
    sp = lambda v: " ".join(hn.fl(t) for t in np.ravel(v))
    for k, c in enumerate(cases):
        if c["d"] == 2:
            lines.append("conv2 %d %d 0 0 %s %s" % (*c["n"][:2], sp(c["x"]), sp(c["y"])))
        elif c["d"] == 3:
            lines.append("conv3 %d %d %d 0 0 0 %d %s %s" % (*c["n"], rng.randrange(2), sp(c["x"]), sp(c["y"])))
        else:
            continue
        want.append(np.array(conv[k + 1], float))
    for _ in range(ctx.pick(120, 1500)):
        d = rng.choice([2, 3])
        top = {2: 20, 3: 8}[d]
        n = [rng.randint(2 if a == 0 else 1, top) for a in range(d)]
        pad = [rng.randint(0, top // 2) for _ in range(d)]
        tot = [smooth_even(a + b, i == 0) for i, (a, b) in enumerate(zip(n, pad))]
        x, y = nr.randn(*tot), nr.randn(*tot)
        z = np.fft.ifftn(np.fft.fftn(x) * np.fft.fftn(y)).real
        lines.append("conv%d %s %s %s%s %s" % (d, " ".join(map(str, n)), " ".join(map(str, pad)), "%d " % rng.randrange(2) if d == 3 else "", sp(x), sp(y)))
        want.append(z[tuple(slice(0, k) for k in n)].ravel())
        if d == 3:
            lines.append("padz %s %s %s %s" % (" ".join(map(str, n)), " ".join(map(str, pad)), hn.fl(rng.choice([0.0, -1.5, 7.25])), sp(x[:n[0], :n[1], :n[2]])))
            z = np.zeros(tot)
            z[:n[0], :n[1], :n[2]] = x[:n[0], :n[1], :n[2]]
            want.append(np.concatenate([tot, z.ravel()]))
    ans = hn.run(ctx, "fftx", lines, jobs=8)
    for l, a, w in zip(lines, ans, want):
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (l.split()[0], hn.unhx(a[1])), dict(command=l[:2000]))
        g = np.array([float(int(t)) if l.startswith("padz") and i < 3 else hn.unfl(t) for i, t in enumerate(a[1:])])
        if g.shape != w.shape or np.abs(g - w).max() > (0 if l.startswith("padz") else 1e-10 * (1 + np.abs(w).max()) * len(w)):
            raise vt.Violation("%s gives other values than the specification" % l.split()[0], dict(command=l[:2000], answer=a[:50]))
    ctx.traces += len(lines)
    ctx.cov.update(convolutions=len(lines))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 11)
    nr = np.random.RandomState(ctx.seed + 11)
    cases = []
    for _ in range(ctx.pick(120, 1000)):
        d = rng.choice([1, 2, 3])
        n = [rng.choice([1, 2, 4])] + [rng.choice([1, 2, 4]) if d > a else 1 for a in (1, 2)]
        if d > 1:
            n[0] = rng.choice([2, 4])
        m = n[0] * n[1] * n[2]
        cases.append(dict(d=d, n=n, x=[rng.randint(-9, 9) for _ in range(m)], y=[rng.randint(-9, 9) for _ in range(m)],
                          v=[rng.randint(-99, 99) for _ in range(rng.choice([1, 2, 3, rng.randint(4, 40)]))], w=rng.choice([-1, 0, 1, 2, rng.randint(3, 50)])))
    r = ctx.tlc("DftGen", "SPECIFICATION Spec\nINVARIANTS Herm Inv Cnv Pad\nCONSTRAINT Emit\n",
                defs=dict(GCases="<<" + ",\n".join(vt.tla({k: c[k] for k in "nxyvw"}) for c in cases) + ">>"), timeout=800)
    spec = {x["i"]: np.array([complex(a, b) for a, b in x["f"]]) for _, x in r.items}
    conv = {x["i"]: x["c"] for _, x in r.items}
    pads = {x["i"]: np.array(x["p"]["v"], float) / x["p"]["d"] for _, x in r.items}
    jobs = []
    for k, c in enumerate(cases):
        jobs.append((c["d"], c["n"][:c["d"]], [0] * c["d"], np.array(c["x"], float).reshape(c["n"][:c["d"]]), spec[k + 1]))
    for _ in range(ctx.pick(250, 2500)):
        d = rng.choice([1, 2, 3])
        top = {1: 200, 2: 30, 3: 12}[d]
        n = [rng.randint(2 if a == 0 and d > 1 else 1, top) for a in range(d)]
        pad = [rng.randint(0, top // 2) for _ in range(d)]
        if d == 1:
            pad = [0]
        tot = [smooth_even(a + b, d > 1 and i == 0) for i, (a, b) in enumerate(zip(n, pad))] if d > 1 else n
        jobs.append((d, n, pad, nr.randn(*tot) * rng.choice([1, 1e-3, 1e6]), None))
    lines, meta = [], []
    for d, n, pad, x, e in jobs:
        for sc in (0, 1):
            if d == 1:
                lines.append("f1 %d 0 %d %s" % (sc, n[0], " ".join(hn.fl(t) for t in x.flat)))
            else:
                lines.append("f%d %d %s %s %s" % (d, sc, " ".join(map(str, n)), " ".join(map(str, pad)),
                                                  " ".join(hn.fl(t) for t in x.flat)))
            meta.append((d, n, pad, x, e, sc))
            if d > 1 and rng.random() < 0.5:           # single precision
                lines.append("s" + lines[-1][1:])
                meta.append((d, n, pad, x.astype(np.float32).astype(float), e, sc))
    for k, c in enumerate(cases):                      # series with padding
        for sc in (0, 1):
            lines.append("f1 %d %d %d %s" % (sc, c["w"], len(c["v"]), " ".join(hn.fl(t) for t in c["v"])))
            meta.append((1, [len(c["v"])], None, pads[k + 1], None, sc))
    more(ctx, rng, nr, cases, conv)
    ans = hn.run(ctx, "fftx", lines, jobs=8)
    for l, a, (d, n, pad, x, e, sc) in zip(lines, ans, meta):
        if a[0] != "ok":
            raise vt.Violation("transform failed: %s" % hn.unhx(a[1]), dict(command=l))
        w = [hn.unfl(t) for t in a[1:]]
        tot = [int(t) for t in a[1:1 + d]]
        if tot != list(x.shape):
            raise vt.Violation("transform of size %s, expected %s" % (tot, x.shape), dict(command=l))
        w = w[d:]
        half = (tot[0] // 2 + 1) * int(np.prod(tot[1:]))
        if d == 1 and tot[0] == 1:
            half = 1
        F = np.array(w[0:2 * half:2]) + 1j * np.array(w[1:2 * half:2])
        want = np.fft.fftn(x)[:tot[0] // 2 + 1].ravel()[:half]
        if e is not None and not np.allclose(want, e[:half], atol=1e-9):
            raise vt.CheckError("specification and numpy disagree on the transform")
        s = 1.0 / np.sqrt(x.size) if sc else 1.0
        scale = max(1e-300, float(np.abs(x).max()) * x.size)
        back = np.array(w[2 * half:])
        ref = x[tuple(slice(0, k) for k in n)].ravel() if d > 1 else x.ravel()
        ctx.traces += 1
        tol = 2e-7 if l[0] == "s" else 1e-11
        if np.abs(F - want * s).max() > tol * scale:
            raise vt.Violation("the transform is off by %g" % np.abs(F - want * s).max(), dict(command=l[:2000]))
        if back.shape != ref.shape or np.abs(back - ref).max() > tol * scale:
            raise vt.Violation("transforming back does not restore the data", dict(command=l[:2000]))
    ctx.cov.update(exact_cases=len(cases), transforms=len(lines))
    ctx.sample(dict(exact=cases[0], spectrum=[str(c) for c in spec[1]][:4]))
