"""Shared pieces of the checks on the Python package."""
import itertools
import hashlib, json, random
import vt, sess, ref


def pures_for(varios):
    p = {"quote": dict(fn="quote")}
    for i in range(min(4, len(varios))):
        u = sess.UNITS[varios[i]["u"]]
        p["corr1_%d" % i] = dict(fn="corr", v=i, args=[7 * u], style=8)
        p["corr3_%d" % i] = dict(fn="corr", v=i, args=[3 * u, 2 * u, u])
        p["size_%d" % i] = dict(fn="size", v=i, args=[10, 7 * u, 9, 11 * u, 3, 13 * u])
    return p


def model_session(ctx, maxops=None):
    """Exhaustive check of the session model with small constants."""
    varios = [dict(type="spherical", rx=5, ry=-1, rz=-1, azi=0, dip=0, pow=15, u=0)]
    base = dict(v=0, nx=2, dx=2, ny=1, dy=-1, nz=1, dz=-1, px=-1, py=-1, pz=-1, sx=1000, sy=1000, sz=1000)
    calls = [base, dict(base, nx=3), dict(base, ny=2, dy=3, nz=2, dz=3, px=0, py=0, pz=0)]
    defs = dict(GProcs="1 .. 2", GSeeds='{"1", "2"}', GCalls="{" + ", ".join(vt.tla(c) for c in calls) + "}",
                GVarios="[i \\in 0 .. 0 |-> (<<%s>>)[i + 1]]" % vt.tla(varios[0]), GTimes="1 .. 2")
    cfg = """SPECIFICATION MCSpec
CONSTANTS Procs <- MCProcs  SeedVals <- MCSeeds  Calls <- MCCalls  Varios <- MCVarios  Times <- MCTimes
MaxOps = %d
VIEW MCView
INVARIANTS MovesOn Reproducible SameHistorySameStream FreshNoise Types
PROPERTIES SeedStable ReadOnly Isolated
""" % (maxops or ctx.pick(5, 6))
    r = ctx.tlc("SessionMC", cfg, defs=defs, workers=8, timeout=800)
    ctx.count("model_states", r.distinct)


def replay_terms(ctx, rng, varios, calls, seeds, num, depth, mode="draws", want="hash", judge=None, procs=2, pures=None,
                 times=3):
    """Behaviours of Session -> real package.  Equal result terms must be equal bytes; in mode "draws" terms with
    different noise must be different bytes.  `judge(obs, result, op)` adds a numeric oracle."""
    ctx.pures = pures_for(varios) if pures is None else pures
    hs = []
    for k in range(ctx.pick(3, 8)):           # several draws of the (small) sets of calls the behaviours range over
        hs += sess.gen_histories(ctx, num // ctx.pick(3, 8), depth, varios, rng.sample(calls, min(len(calls), 16)),
                                 rng.sample(seeds, min(3, len(seeds))), rng.sample(list(ctx.pures), 3),
                                 rng.sample(list(sess.FAILS), 3), procs=procs, times=times, seed=ctx.seed * 100 + k)
    rng2 = random.Random(ctx.seed + 5)
    ss = [sess.to_session(h, rng2) for h in hs]
    rs = sess.run_driver(ctx, ss, varios, ctx.pures, want=want)
    judge_sessions(ctx, ss, rs, mode, judge)
    ctx.traces += len(ss)
    ctx.count("behaviours_replayed", len(ss))
    ctx.sample(dict(behaviour=[{k: v for k, v in o.items() if k in ("op", "p", "tok", "t", "w", "c")} for o in ss[0][:6]]))
    return ss, rs


def later(a, b):
    """Mirror of Session!Later."""
    if not a:
        return bool(b)
    n = len(a)
    return (len(b) >= n and a[:n - 1] == b[:n - 1] and a[n - 1]["k"] == b[n - 1]["k"] and
            (a[n - 1]["n"] <= b[n - 1]["n"] if len(b) > n else a[n - 1]["n"] < b[n - 1]["n"]))


def judge_sessions(ctx, ss, rs, mode, judge=None):
    memo, back, auto, aback = {}, {}, {}, {}
    for s, r in zip(ss, rs):
        since = {}
        for i, o in enumerate(s):
            x = r[i] if i < len(r) else dict(crash=True)
            where = dict(session=s[:i + 1], result={k: v for k, v in x.items() if k != "data"})
            if x.get("crash"):
                raise vt.Violation("the process died in a call the model allows: %s" % json.dumps(o, default=str), where)
            e, p = o["obs"], o["p"]
            if o["op"] == "fork":
                since[o["q"]] = since.get(p, ())
            elif o["op"] == "seed":
                since[p] = ()
                if not x["ok"]:
                    raise vt.Violation("seeding failed: %s" % x, where)
            elif o["op"] == "sim":
                if not x["ok"]:
                    raise vt.Violation("simulate raised: %s" % x, where)
                ctx.count("simulations")
                call = json.dumps(e["call"], sort_keys=True)
                st = (tuple(e["seed"]), json.dumps(e["pos"]))
                key = (st[0], since.get(p, ()), call) if mode in ("repro", "seed") else st + (call,)
                since[p] = since.get(p, ()) + (call,)
                if st[0][0] == "set" or mode != "repro":
                    if memo.setdefault(key, x["id"]) != x["id"]:
                        raise vt.Violation("two results that must be bit-identical differ (seed %s, position %s)"
                                           % (e["seed"], e["pos"]), where)
                if mode == "draws":
                    b = back.setdefault(x["id"], (st[0], e["pos"]))
                    if b[0] != st[0] or later(b[1], e["pos"]) or later(e["pos"], b[1]):
                        raise vt.Violation("the same noise was used at different places: %s and %s" % (back[x["id"]], st),
                                           where)
                if judge:
                    judge(e, x, o, where)
            elif o["op"] == "query" and mode == "seed":
                if x["ok"] != (e["k"] == "seed"):
                    raise vt.Violation("seed() %s" % x, where)
                if e["k"] == "seed":
                    t = tuple(e["tok"])
                    if t[0] == "set" and x["val"] != t[1]:
                        raise vt.Violation("seed() reports %s after seed(%s)" % (x["val"], t[1]), where)
                    if t[0] == "auto" and (auto.setdefault(t, x["val"]) != x["val"] or aback.setdefault(x["val"], t) != t):
                        raise vt.Violation("clock seed reported inconsistently: %s" % x["val"], where)
            elif o["op"] == "pure":
                if not x["ok"]:
                    raise vt.Violation("a valid call raised: %s %s" % (o["w"], x), where)
                if memo.setdefault(("pure", o["w"]), x["id"]) != x["id"]:
                    raise vt.Violation("%s changed its value" % o["w"], where)
            elif o["op"] == "fail":
                if x["ok"]:
                    raise vt.Violation("a call with unusable arguments was accepted: %s" % sess.FAILS[o["w"]], where)


def trace_check(ctx, ss, varios, mode):
    """Sessions chosen by the driver -> recorded trace -> trace specification."""
    rs = sess.run_driver(ctx, ss, varios, ctx.pures)
    ev = sess.trace_lines(ss, rs)
    bad = sess.validate_trace(ctx, ev, varios, mode)
    ctx.count("trace_events", len(ev))
    ctx.count("sessions_recorded", len(ss))
    if bad is not None:
        lo = max(i for i in range(bad + 1) if ev[i]["op"] == "new")
        raise vt.Violation("the recorded run is not a behaviour of the specification: event %d %s"
                           % (bad, json.dumps(ev[bad])[:600]), dict(trace=ev[lo:bad + 1], varios=varios))
    return rs


def thread_check(ctx, rng, nruns):
    """Threads sharing the package: recorded overlapping calls must be explained by an order of atomic operations."""
    import os, pickle, subprocess
    calls = [(("gaussian", 30.0), (1500, 1.0)), (("exponential", 10.0), (30, 1.0, 25, 1.0)), (("spherical", 5.0), (12, 1.0)),
             (("matern32", 20.0), (60, 1.0, 50, 2.0)), (("exponential", 4.0), (20, 1.0, 16, 1.0, 12, 1.0))]
    # a word: what was simulated since the seeding, 2 for any 1D or 2D call, 4 for the 3D one
    words = [(2,) * k for k in range(12)] + [w for k in range(5) for w in itertools.product((2, 4), repeat=k) if 4 in w]
    wid = {w: i + 1 for i, w in enumerate(words)}
    seeds = [str(rng.getrandbits(32)), str(rng.getrandbits(20))]
    runs = []
    for _ in range(nruns):
        nt, k = rng.choice([(2, 4), (3, 3), (4, 2), (2, 5)])
        mk = lambda: rng.choice([("sim", rng.randrange(4))] * 8 + [("query", 0), ("pure", rng.randrange(4)), ("seed", rng.choice(seeds))])
        runs.append(dict(seed=rng.choice(seeds), threads=[[mk() for _ in range(k)] for _ in range(nt)]))
        mk = lambda: rng.choice([("sim", 4)] * 4 + [("sim", rng.randrange(4)), ("query", 0)])
        runs.append(dict(seed=rng.choice(seeds), threads=[[mk() for _ in range(k)] for k in rng.choice([(2, 2), (2, 3), (1, 1, 2), (1, 1, 1, 1)])]))
    site = vt.build_ext()
    fin, fout = os.path.join(ctx.scratch, "thr.in"), os.path.join(ctx.scratch, "thr.out")
    pickle.dump(dict(runs=runs, calls=calls, seeds=seeds, words=words), open(fin, "wb"))
    r = vt.run_limited([vt.PY, os.path.join(vt.VERIF, "harness", "py_threads.py"), fin, fout], timeout=ctx.pick(120, 600), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ, PYTHONPATH=site, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"), text=True)
    if r.returncode:
        raise vt.Violation("the package failed in a serial session: " + r.stderr[-500:])
    tab, out = pickle.load(open(fout, "rb"))
    if tab is None:
        raise vt.Violation("a serial session died: " + r.stderr[-500:])
    for run, o in zip(runs, out):
        if o is None or len(o) != sum(len(x) for x in run["threads"]):
            raise vt.Violation("a process with several threads died", dict(run=run))
    ids, num = {}, lambda x: ids.setdefault(x, len(ids) + 1)
    gtab = [[[num(x) for x in row] for row in tab[s]] for s in seeds]
    six = lambda s: seeds.index(s) + 1 if s in seeds else 0
    conv = lambda o: dict(o, c=six(o["c"]) if o["k"] == "seed" else o["c"] + 1, r=six(o["r"]) if o["k"] == "query" else num(o["r"]) if o["k"] == "sim" else 0)
    t = ctx.tlc("SessionLin", "SPECIFICATION Spec\n", workers=8, timeout=800,
                defs=dict(GTab=vt.tla(gtab), GAfter=vt.tla([[wid.get(w + (4 if c == 4 else 2,), 0) for w in words] for c in range(5)]), GRuns=vt.tla([dict(seed=six(run["seed"]), ops=[conv(x) for x in o]) for run, o in zip(runs, out)])))
    good = set(int(x) for _, x in t.items)
    for k, (run, o) in enumerate(zip(runs, out)):
        if k + 1 not in good:
            raise vt.Violation("no order of the overlapping calls explains the results of a run with %d threads" % len(run["threads"]), dict(run=run, recorded=o))
    ctx.count("threaded_runs", len(runs))
    ctx.count("overlapping_pairs", sum(1 for o in out for a in o for b in o if a["t"] < b["t"] and a["inv"] < b["res"] and b["inv"] < a["res"]))
