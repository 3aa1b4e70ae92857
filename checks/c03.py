"""C03: the reported seed always describes the stream."""
import random
import vt, sess
from common import model_session, replay_terms, trace_check


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 3)
    model_session(ctx)
    varios = [sess.rand_vario(rng) for _ in range(6)]
    calls = [sess.rand_call(rng, varios) for _ in range(ctx.pick(8, 14))]
    seeds = ["0", "1", "2147483648", "4294967295", "4294967296", "9007199254740993", "18446744073709551615",
             str(rng.getrandbits(64))]
    replay_terms(ctx, rng, varios, calls, seeds, num=ctx.pick(90, 600), depth=ctx.pick(12, 20), mode="seed", procs=3,
                 times=4)
    # clock-seeded processes: same second, same fields; the reported value reproduces them
    for k in range(ctx.pick(3, 10)):
        ss = sess.rand_sessions(rng, ctx.pick(60, 100), 18, calls[:6], seeds, list(ctx.pures), list(sess.FAILS), procs=3,
                                weights=dict(query=8, seed=5, tick=4))
        for t in (1, 2, 3, 7, 60, 61, 3600, 86400, 86401, 1000000):
            for _ in range(2):
                c = calls[:3]
                ops = [dict(op="tick", p=0, t=t), dict(op="query", p=1)]
                ops += [dict(op="sim", p=1, c=x, style=rng.randrange(128)) for x in c]
                ops += [dict(op="query", p=1), dict(op="tick", p=0, t=t + 5), dict(op="sim", p=1, c=c[0], style=0),
                        dict(op="query", p=1), dict(op="seed", p=1, tok=["auto", str(t)], holder=1)]
                ops += [dict(op="sim", p=1, c=x, style=rng.randrange(128)) for x in c] + [dict(op="query", p=1)]
                ss.append(ops)
        trace_check(ctx, ss, varios, "seed")
