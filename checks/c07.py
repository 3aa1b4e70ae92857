"""C07: a simulated field is the seeded white noise filtered by the square root of the covariance's transform."""
import math, random
import numpy as np
import vt, sess, ref
from common import replay_terms


def make_judge(ctx, varios):
    worst = [0.0]

    def judge(e, x, o, where):
        if e["seed"][0] != "set":
            return
        cc = e["call"]
        u = sess.UNITS[varios[o["c"]["v"]]["u"]]
        got = np.asarray(x["data"])
        s = int(e["seed"][1])
        smooth = any(k < 1000 for k in cc["smooth"])
        best = None
        for hp in ((math.pi / 2, 1.57) if smooth else (math.pi / 2,)):
            exp = ref.field(s, e["pos"], cc, u, hp)
            if got.shape != exp.shape:
                raise vt.Violation("a field of %s values, expected %s" % (got.shape, exp.shape), where)
            d = float(np.max(np.abs(got - exp)))
            best = d if best is None else min(best, d)
        # anything finite the rounding of the transforms can explain; a wrong filter is off by far more
        tol = 2e-5
        worst[0] = max(worst[0], best)
        ctx.count("fields_compared")
        if not best <= tol:
            raise vt.Violation("the field differs from the filtered noise by %g" % best, dict(where, worst=best, unit=u))
    return judge, worst


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 7)
    for k in range(ctx.pick(3, 12)):
        varios = [sess.rand_vario(rng, [t]) for t in sess.TYPES for _ in range(2)] + [sess.rand_vario(rng) for _ in range(8)]
        calls = [sess.rand_call(rng, varios, d=d) for d in (1, 2, 3) for _ in range(40)]
        calls += [sess.rand_call(rng, varios, d=d, adv=True) for d in (1, 2, 3) for _ in range(20)]
        seeds = ["0", "1", "123456", "4294967295", str(rng.getrandbits(32)), str(rng.getrandbits(32))]
        judge, worst = make_judge(ctx, varios)
        replay_terms(ctx, rng, varios, calls, seeds, num=ctx.pick(90, 400), depth=ctx.pick(14, 18), mode="repro",
                     want="data", judge=judge, procs=1, times=1)
        # near-identical calls one after the other, and a few large grids
        for d in (1, 2, 3):
            fam = sess.family(rng) if d % 2 else sess.family(rng, dict(sess.rand_vario(rng), type="general_exponential"))
            base = sess.rand_call(rng, fam[:1], d=d, adv=True)
            near = sess.near_calls(rng, fam, base, 40000)
            big = [sess.rand_call(rng, fam, d=d, big=True) for _ in range(2)]
            j2, w2 = make_judge(ctx, fam)
            replay_terms(ctx, rng, fam, near + big, seeds, num=ctx.pick(24, 80), depth=16, mode="repro", want="data", judge=j2,
                         procs=1, times=1)
            worst[0] = max(worst[0], w2[0])
        ctx.cov["worst_difference"] = max(ctx.cov.get("worst_difference", 0), worst[0])
