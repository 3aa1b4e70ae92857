"""C22: grids of two to five dimensions."""
import math, random
import vt, hn
from concurrent.futures import ThreadPoolExecutor


def line(op):
    out = [op[0]]
    for x in op[1:]:
        out += [str(y) for y in x] if isinstance(x, list) else [str(x)]
    return " ".join(out)


def check(kind, t, v, a):
    """None, or what is wrong with the answer about one grid"""
    n = int(a[0])
    D = len(v["n"])
    p = 1
    ints = lambda k: [int(x) for x in a[p:p + k]]
    if n != len(v["z"]):
        return "%d cells, expected %d" % (n, len(v["z"]))
    if ints(D) != v["lo"] and n:
        return "first indices %s, expected %s" % (ints(D), v["lo"])
    p += D
    if ints(D) != v["n"]:
        return "sizes %s, expected %s" % (ints(D), v["n"])
    p += D
    for r in range(n):
        if ints(D) != v["cells"][r]:
            return "position %d is cell %s, expected %s" % (r, ints(D), v["cells"][r])
        p += D
        if hn.unfl(a[p]) != v["z"][r]:
            return "cell %s has %s, expected %s" % (v["cells"][r], hn.unfl(a[p]), v["z"][r])
        p += 1
    if a[p] != "x":
        return "answer"
    x = a[p + 1:]
    e = []
    if kind in "2g" and n:
        for q in (v["all"], v["low"], v["high"]):
            e += q[:2] if q else [None, None]
    elif kind == "3" and n and t != "i":
        for q in (v["all"], v["low"], v["high"]):
            e += [q[0], q[1], q[2] / q[3]] if q else []
    got = x[:len(e)]
    for y, w in zip(got, e):
        if w is not None and abs(hn.unfl(y) - w) > 1e-5 * max(1, abs(w)):
            return "least, most (and mean) %s, expected %s" % ([hn.unfl(z) for z in got], e)
    if kind == "3" and n and t != "i":
        if x[len(e)] != "log":
            return "answer"
        for y, z in zip(x[len(e) + 1:], v["z"]):
            w = 0 if z <= 0 or z == 100 else math.log(z)
            if not abs(hn.unfl(y) - w) <= 1e-6:
                return "logarithm of %s is %s" % (z, hn.unfl(y))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 22)
    cfg = "SPECIFICATION %s\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("GridsGen", cfg % ("MCSpec", 0) + "INVARIANTS Sized OneToOne Same\nPROPERTY Kept\nCONSTRAINT Bound\n", defs=dict(GLevel=str(ctx.pick(4, 6))), workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct

    def gen(k):
        return [x for _, x in ctx.tlc("GridsGen", cfg % ("GSpec", 20) + "INVARIANTS Sized OneToOne\n", defs=dict(GLevel="99"), simulate=ctx.pick(70, 1200), depth=23, seed=ctx.seed * 43 + k).items]
    with ThreadPoolExecutor(6) as p:
        hs = [x for g in p.map(gen, range(ctx.pick(6, 18))) for x in g]
    lines, exp, starts = [], [], []
    for h in hs:
        t = rng.choice("ddif")
        starts.append(len(lines))
        lines.append("start %s %s" % (h["kind"], t)); exp.append(None)
        for e in h["h"]:
            lines.append(line(e["op"])); exp.append((h, t, e))
    ans = hn.run(ctx, "grids", lines, "asan", jobs=8, group=starts)
    ops = {}
    for l, x, a in zip(lines, exp, ans):
        if x is None:
            continue
        h, t, e = x
        where = dict(dimensions=h["kind"], type=t, behaviour=[line(y["op"]) for y in h["h"]], at=l, expected=e, answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (l, hn.unhx(a[1])), where)
        try:
            i = a.index("|")
            j = a.index("|", i + 1)
            for w, b in ((1, a[i + 1:j]), (2, a[j + 1:])):
                m = check(h["kind"], t, e["v"][w - 1], b)
                if m:
                    raise vt.Violation("grid %d (%s dimensions) after '%s': %s" % (w, h["kind"], l, m), where)
        except (ValueError, IndexError) as y:
            raise vt.Violation("after '%s': unreadable answer (%r)" % (l, y), where)
        k = h["kind"] + e["op"][0]
        ops[k] = ops.get(k, 0) + 1
    ctx.traces += len(hs)
    ctx.cov["operations"] = ops
    ctx.sample(dict(kind=hs[0]["kind"], behaviour=[line(y["op"]) for y in hs[0]["h"]]))
