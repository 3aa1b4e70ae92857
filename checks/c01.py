"""C01: results are reproducible from the seed."""
import random
import vt, sess
from common import model_session, replay_terms, trace_check, thread_check


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 1)
    model_session(ctx)
    thread_check(ctx, rng, ctx.pick(40, 400))
    varios = [sess.rand_vario(rng) for _ in range(10)]
    calls = [sess.rand_call(rng, varios) for _ in range(ctx.pick(24, 40))]
    calls += [sess.rand_call(rng, varios, big=True) for _ in range(ctx.pick(3, 8))]
    seeds = ["0", "1", "123", "2147483647", "2147483648", "4294967295", str(rng.getrandbits(32))]
    # specification -> code: behaviours of Session replayed, equal terms must be equal bytes
    replay_terms(ctx, rng, varios, calls[:14], seeds[:5], num=ctx.pick(60, 400), depth=ctx.pick(14, 24), mode="repro")
    # code -> specification: sessions chosen by the driver, with much repetition
    for k in range(ctx.pick(3, 12)):
        ss = sess.rand_sessions(rng, ctx.pick(40, 60), 26, calls, seeds[:4] + seeds[-1:], list(ctx.pures), list(sess.FAILS),
                                procs=3, auto=False)
        # the same simulations after different prehistories
        base = [dict(op="sim", p=1, c=rng.choice(calls), style=rng.randrange(128)) for _ in range(4)]
        for pre in ss[:ctx.pick(12, 30)]:
            s = rng.choice(seeds)
            ss.append(pre[:rng.randint(2, len(pre))] + [dict(op="seed", p=1, tok=["set", s])] +
                      [dict(b, style=rng.randrange(128)) for b in base])
        trace_check(ctx, ss, varios, "repro")
        # the same simulation right after a nearly identical one (one argument different), in every order
        for d in (1, 2, 3):
            fam = sess.family(rng) if k % 2 else sess.family(rng, dict(sess.rand_vario(rng), type="general_exponential"))
            c = sess.rand_call(rng, fam[:1], d=d, adv=True)
            if rng.random() < 0.7:
                c.update({"p" + a: rng.randint(1, 12) for a in "xyz"[:d]})
            near = [x for x in sess.near_calls(rng, fam, c, 40000)]
            ss = []
            for x in near:
                for y in ([c, rng.choice(near)] if x != c else [rng.choice(near)]):
                    sd = lambda: dict(op="seed", p=1, tok=["set", "77"])
                    sim = lambda q: dict(op="sim", p=1, c=q, style=rng.randrange(128))
                    ss.append([dict(op="tick", p=0, t=1), sd(), sim(x), sd(), sim(y), sd(), sim(x)])
            trace_check(ctx, ss, fam, "repro")
