"""C06: transform lengths are the smallest 7-smooth (even, where needed) number not below the request."""
import random
import vt, hn


def requests(ctx, rng):
    lim = 2**31 - 1
    sm = set()
    a = 1
    while a <= lim:
        b = a
        while b <= lim:
            c = b
            while c <= lim:
                d = c
                while d <= lim:
                    sm.add(d)
                    d *= 7
                c *= 5
            b *= 3
        a *= 2
    sm = sorted(sm)
    top = sm[-2]
    req = list(range(1, ctx.pick(6000, 60000)))
    big = set()
    pool = [s for s in sm if s >= req[-1]]
    for s in (pool if ctx.thorough else rng.sample(pool, 300)):
        big.update(x for x in (s - 1, s, s + 1) if x <= top)
    for _ in range(ctx.pick(500, 5000)):
        big.add(int(2 ** rng.uniform(12, 30.5)))
    big.update(x for e in range(12, 31) for x in (2**e - 1, 2**e, 2**e + 1))
    return req + sorted(x for x in big if req[-1] < x <= top)


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 6)
    req = requests(ctx, rng)
    defs = dict(GReq="<<" + ",".join(map(str, req)) + ">>")
    r = ctx.tlc("FftLenGen", "SPECIFICATION Spec\nINVARIANTS Covers IsSmooth EvenOnes Definition Monotone Fixed\n"
                "CONSTRAINT Emit\n", defs=defs, timeout=800, heap="8g")
    tab = {x[0]: (x[1], x[2]) for t, x in r.items}
    if len(tab) != len(req):
        raise vt.CheckError("%d of %d requests answered" % (len(tab), len(req)))
    lines, exp = [], []
    for n in req:
        lines += ["len %d 0" % n, "len %d 1" % n, "lend %d" % n]
        exp += [[tab[n][0]], [tab[n][1]], [tab[n][0]]]
    # the grids ask for an even length along their first axis only
    small = [n for n in req if n <= 200]
    for _ in range(ctx.pick(400, 4000)):
        ni, nj, nk = (rng.choice(small) for _ in range(3))
        pi, pj, pk = (rng.randint(0, 200 - n) for n in (ni, nj, nk))
        lines.append("g2 %d %d %d %d" % (ni, nj, pi, pj))
        I, J = tab[ni + pi][1], tab[nj + pj][0]
        exp.append([I, J, ni, nj, I // 2 + 1, J])
        if ni + pi < 60 and nj + pj < 60 and nk + pk < 60:
            lines.append("g3 %d %d %d %d %d %d" % (ni, nj, nk, pi, pj, pk))
            K = tab[nk + pk][0]
            exp.append([I, J, K, ni, nj, nk, I // 2 + 1, J, K])
    order = list(range(len(lines)))
    rng.shuffle(order)                      # large requests take long in the code under test: spread them
    lines, exp = [lines[k] for k in order], [exp[k] for k in order]
    got = hn.run(ctx, "fftx", lines, jobs=8, timeout=150 if ctx.tier == 'quick' else 600)
    for l, g, e in zip(lines, got, exp):
        ctx.traces += 1
        if g[0] != "ok" or [int(x) for x in g[1:]] != e:
            raise vt.Violation("%s gives %s, the rule says %s" % (l, g[1:], e), dict(command=l, got=g, expected=e))
    ctx.cov.update(requests=len(req), largest=req[-1], grids=len(lines) - 3 * len(req))
    ctx.sample(dict(request=req[-1], lengths=tab[req[-1]]))
