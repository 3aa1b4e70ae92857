"""C04: what comes back: shape, order, independence from how the call is written."""
import itertools, json, random
import numpy as np
import vt, sess, ref
from common import replay_terms, trace_check, pures_for

KEEP = dict(recheck=dict(fn="recheck"), scribble=dict(fn="scribble"))


def make_judge(ctx, varios):
    def judge(e, x, o, where):
        cc = e["call"]
        n = int(np.prod(cc["n"]))
        if list(x["shape"]) != [n] or x["dtype"] != "float64" or x["cls"] != "ndarray":
            raise vt.Violation("%s %s of %s, expected a float64 array of %d values" % (x["cls"], x["dtype"], x["shape"], n), where)
        if not (x["finite"] and x["contig"] and x["writable"]):
            raise vt.Violation("values not finite, or an array the caller cannot use: %s" % x["id"], where)
        if e["seed"][0] != "set" or cc["d"] == 1 or sum(k > 1 for k in cc["n"]) < 2:
            return
        got = np.asarray(x["data"])
        exp = ref.field(int(e["seed"][1]), e["pos"], cc, sess.UNITS[varios[o["c"]["v"]]["u"]])
        ctx.count("layouts_compared")
        if np.max(np.abs(got - exp)) < 1e-4:
            return
        box = exp.reshape(cc["n"], order="F")
        for perm in itertools.permutations(range(cc["d"])):
            for flip in itertools.product((1, -1), repeat=cc["d"]):
                t = box[tuple(slice(None, None, f) for f in flip)].transpose(perm)
                if np.max(np.abs(t.flatten(order="F") - got)) < 1e-4:
                    raise vt.Violation("the values come in a different order (axes %s, directions %s)" % (perm, flip), where)
    return judge


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 4)
    for k in range(ctx.pick(3, 12)):
        varios = [sess.rand_vario(rng) for _ in range(12)]
        calls = [sess.rand_call(rng, varios, d=d, adv=a) for d in (1, 2, 2, 3, 3) for a in (False, True) for _ in range(8)]
        seeds = ["0", "5", str(rng.getrandbits(32))]
        pures = dict(pures_for(varios), **KEEP)
        replay_terms(ctx, rng, varios, calls, seeds, num=ctx.pick(60, 300), depth=14, mode="shape", want="data",
                     judge=make_judge(ctx, varios), procs=1, times=1, pures=pures)
        # families of calls that mean the same; the trace specification decides which of them do
        ss = []
        for c in rng.sample(calls, ctx.pick(50, len(calls))):
            v = sess.canon(varios[c["v"]])
            fam = [c] + [sess.same_call(rng, v, c) for _ in range(5)]
            for f in fam:
                if not sess.pad_ok(v, f, 10**6):
                    continue
                ss.append([dict(op="tick", p=0, t=1), dict(op="seed", p=1, tok=["set", "5"]),
                           dict(op="sim", p=1, c=f, style=rng.randrange(128)),
                           dict(op="sim", p=1, c=c, style=rng.randrange(128)),
                           dict(op="pure", p=1, w="scribble"),
                           dict(op="sim", p=1, c=rng.choice(fam), style=rng.randrange(128)),
                           dict(op="pure", p=1, w="recheck")])
        # results of many sizes alive at the same time, kept and overwritten
        for _ in range(ctx.pick(4, 12)):
            cs = [rng.choice(calls)]
            for n in rng.sample([5, 700, 1500, 5000, 9000, 20000, 70000, 200000], 4):
                d = rng.choice([1, 2, 3])
                m = max(2, round(n ** (1 / d)))
                c = dict(v=rng.randrange(len(varios)), nx=m, dx=rng.randint(3, 40), ny=m if d > 1 else 1, dy=rng.randint(3, 40),
                         nz=m if d > 2 else 1, dz=rng.randint(3, 40), px=1, py=1, pz=1, sx=1000, sy=1000, sz=1000)
                cs += [c, dict(c, nx=c["nx"] - 1)]
            ss.append([dict(op="tick", p=0, t=1), dict(op="seed", p=1, tok=["set", "6"])] +
                      [y for c in cs for y in (dict(op="sim", p=1, c=c, style=rng.randrange(128)), dict(op="pure", p=1, w="recheck"))] +
                      [dict(op="pure", p=1, w="scribble"), dict(op="sim", p=1, c=rng.choice(cs), style=0), dict(op="pure", p=1, w="recheck")])
        ctx.pures = pures
        trace_check(ctx, ss, varios, "shape")
