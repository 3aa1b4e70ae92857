"""C02: every simulation gets fresh noise, and only simulations draw from the stream."""
import random
import vt, sess
from common import model_session, replay_terms, trace_check, thread_check


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 2)
    model_session(ctx)
    thread_check(ctx, rng, ctx.pick(40, 400))
    varios = [sess.rand_vario(rng) for _ in range(10)]
    calls = [sess.rand_call(rng, varios, d=d) for d in (1, 2, 3) for _ in range(ctx.pick(8, 16))]
    calls += [sess.rand_call(rng, varios, d=d, big=True) for d in (1, 2, 3) for _ in range(ctx.pick(1, 3))]
    seeds = ["0", "7", "99", "4294967295", str(rng.getrandbits(32))]
    replay_terms(ctx, rng, varios, calls, seeds, num=ctx.pick(60, 400), depth=ctx.pick(16, 24), mode="draws")
    # The number of simulations (and the padded sizes of the 3D ones) decides where a stream is; nothing else does.
    for k in range(ctx.pick(3, 12)):
        probes = [sess.rand_call(rng, varios, d=d) for d in (1, 2, 3)]
        low = [c for c in calls if sess.dims(c) < 3]
        ss = []
        for _ in range(ctx.pick(40, 80)):
            n = rng.randint(0, 5)
            ops = [dict(op="tick", p=0, t=1), dict(op="seed", p=1, tok=["set", rng.choice(seeds[:2])])]
            for _ in range(n):
                ops.append(dict(op="sim", p=1, c=rng.choice(low), style=rng.randrange(128)))
                for _ in range(rng.randint(0, 3)):
                    ops.append(rng.choice([dict(op="query", p=1), dict(op="pure", p=1, w=rng.choice(list(ctx.pures))),
                                           dict(op="fail", p=1, w=rng.choice(list(sess.FAILS)))]))
            ops += [dict(op="sim", p=1, c=c, style=rng.randrange(128)) for c in rng.sample(probes, rng.randint(1, 3))]
            ss.append(ops)
        ss += sess.rand_sessions(rng, ctx.pick(20, 40), 26, calls, seeds, list(ctx.pures), list(sess.FAILS), procs=3)
        # padded 3D grids of equal total size, cut differently, lead to the same place (small and large ones)
        for lo, hi, n in [(8, 60, 70), (60, 400, 50), (400, 20000, 30), (20000, 200000, ctx.pick(6, 15))]:
            for _ in range(n):
                s, pr = rng.choice(seeds[:2]), rng.choice(probes)
                pre = [rng.choice(low) for _ in range(rng.randint(0, 2))]
                for fam in sess.equal_3d(rng, varios, lo, hi):
                    ss.append([dict(op="tick", p=0, t=1), dict(op="seed", p=1, tok=["set", s])] +
                              [dict(op="sim", p=1, c=c, style=rng.randrange(128)) for c in pre + fam + [pr, probes[0]]])
        trace_check(ctx, ss, varios, "draws")
