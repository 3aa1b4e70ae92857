"""C05: simulation_size follows the padding rule."""
import random
import vt, sess


def cases(ctx, rng):
    out = []
    base = dict(px=-1, py=-1, pz=-1, sx=1000, sy=1000, sz=1000)
    # exhaustive small family: every type, axis lengths on both sides of every threshold
    for t in sess.TYPES:
        for r, s in [(7, 2), (10, 3), (25, 10), (31, 4), (100, 7), (3, 10), (12, 12), (50, 10)]:
            for n in (1, 2, 5, 10, 17, 40, 100):
                v = dict(type=t, rx=r, ry=-1, rz=-1, azi=0, dip=0, pow=15, u=0)
                out.append((v, dict(base, nx=n, dx=s, ny=1, dy=-1, nz=1, dz=-1)))
    for _ in range(ctx.pick(1500, 20000)):
        v = sess.rand_vario(rng)
        if rng.random() < 0.3:
            v["rx"] = rng.randint(1, 20000)
        if rng.random() < 0.3:
            v["ry"] = rng.randint(1, 20000)
        n = lambda: rng.choice([1, 2, 3, rng.randint(1, 30), rng.randint(1, 2000)])
        s = lambda: rng.choice([rng.randint(1, 10), rng.randint(1, 90), rng.randint(1, 1000)])
        c = dict(base, nx=n(), dx=s(), ny=n(), dy=s(), nz=n(), dz=s())
        k = rng.randrange(4)
        if k == 0: c["ny"] = rng.choice([0, 1])
        elif k == 1: c["nz"] = rng.choice([0, 1])
        # stay inside 32 bit arithmetic of the model
        cv = sess.canon(v)
        if max(cv["rx"], cv["ry"], cv["rz"]) * sess.ratio(cv) + 1000 * 2000 * 1000 > 2**31 - 1:
            continue
        out.append((v, c))
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 5)
    cs = cases(ctx, rng)
    calls = []
    for v, c in cs:
        u = sess.UNITS[v["u"]]
        st = lambda d: d * u if d >= 0 else float(d)
        args = [c["nx"], st(c["dx"]), c["ny"], st(c["dy"]), c["nz"], st(c["dz"])]
        kw = {}
        k = rng.randrange(3)
        if k == 1:
            kw = dict(zip(("ny", "dy", "nz", "dz"), args[2:])); args = args[:2]
        elif k == 2 and c["ny"] == 1 and c["dy"] < 0:
            args = args[:2]
        calls.append(("size", v, rng.randrange(4), args, kw))
    got = sess.py_calls(ctx, calls)
    B = 2500
    for b in range(0, len(cs), B):
        part = cs[b:b + B]
        defs = dict(GCases="<<" + ",\n".join("[v |-> %s, c |-> %s]" % (vt.tla(v), vt.tla(c)) for v, c in part) + ">>")
        r = ctx.tlc("SizeGen", "SPECIFICATION Spec\nINVARIANTS CoversRatio CoversRange NotMore\nCONSTRAINT Emit\n",
                    defs=defs)
        exp = {x["i"]: x for t, x in r.items}
        if len(exp) != len(part):
            raise vt.CheckError("expected %d cases, got %d" % (len(part), len(exp)))
        for i, (v, c) in enumerate(part):
            st, val = got[b + i]
            e = exp[i + 1]
            ctx.traces += 1
            if st != "ok" or len(val) != e["d"] or any(x not in s for x, s in zip(val, e["sizes"])):
                raise vt.Violation("simulation_size gives %s, the padding rule %s" % (val, e["sizes"]),
                                   dict(vario=v, call=c, unit=sess.UNITS[v["u"]], got=val, expected=e))
            ctx.count("dim%d" % e["d"])
    ctx.sample(dict(vario=cs[-1][0], call=cs[-1][1], got=got[-1]))
    ctx.cov["cases"] = len(cs)
