"""C12: random streams, generator objects and seed files."""
import random
import vt, ref, hn

JUNK = ["", "abc\n", "\n\n", "999999999999999999999999\n", "x12\n", "--\n", "   "]
SEEDS = ["0", "1", "77", "2147483648", "4294967295", "4294967296", "4294967373", "18446744073709551615"]


class Streams:
    """Numeric reading of the terms."""
    def __init__(self):
        self.tok, self.vals = {}, {}

    def seed(self, t):
        k = repr(t)
        if k not in self.tok:
            if t[0] == "set":
                v = int(t[1])
            elif t[0] == "auto":
                v = ref.Rng(int(t[1]) & 0xffffffff).u32()
            else:
                g = ref.Rng(self.seed(t[1]["seed"]) & 0xffffffff)
                g.skip(t[1]["pos"])
                v = g.u32()
            self.tok[k] = v
        return self.tok[k]

    def draw(self, e):
        k = repr((e["seed"], e["pos"], e["kind"], e["n"]))
        if k not in self.vals:
            g = ref.Rng(self.seed(e["seed"]) & 0xffffffff)
            g.skip(e["pos"])
            f = dict(u32=g.u32, unif=g.unif, open=g.unif_open, norm=g.norm)[e["kind"]]
            first = last = s = 0.0
            for i in range(e["n"]):
                last = float(f())
                if i == 0: first = last
                s += last
            self.vals[k] = (first, last, s)
        return self.vals[k]


def lines_of(h, rng):
    """Commands and, for each, what the model expects."""
    out, exp, text = ["tick %d" % (h[0]["a"][0] if h[0]["op"] == "tick" else h[0]["clock"])], [None], {}
    for e in h:
        a = list(e["a"])
        if e["op"] == "outside":
            v = a[2]
            if a[1] == "num":
                v = rng.choice(["%s\n", "%s", "  %s\n", "\n%s \n", "%s trailing\n", "%s\n12\n"]) % v
            if a[1] == "junk":
                v = JUNK[int(v[1:])]
            text[a[0]] = v
            a[2] = hn.hx(v)
        out.append(" ".join([e["op"]] + [str(x) for x in a]))
        exp.append(e)
        for f, c in sorted(e.get("files", {}).items()):
            out.append("look " + f)
            exp.append(dict(obs=dict(k="file", c=c, text=text.get(f))))
    return out, exp


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 12)
    defs = dict(GSeeds='{"1", "2"}', GFiles='{"a"}', GTimes="{1}", GJunk='{"x"}', GCounts="{1}", GMix="<<1>>")
    cfg = """SPECIFICATION %s
CONSTANTS Slots <- MCSlots SeedVals <- MCSeeds Files <- MCFiles Times <- MCTimes Junk <- MCJunk
Depth = %d
INVARIANTS BoundWasRead Types
PROPERTIES FailSafe OneAtATime DrawsAreSilent
"""
    d2 = dict(defs, GSeeds='{"1"}')
    r = ctx.tlc("RngGen", cfg % ("MCSpec", 0) + "CONSTRAINT Bound\nVIEW MCView\n", defs=d2, workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct
    hs = []
    for k in range(ctx.pick(4, 12)):
        defs = dict(GMix=["<<1, 1, 2, 2, 3>>", "<<1, 2, 3, 3, 3, 3>>"][k % 2], GSeeds=vt.tla(set(rng.sample(SEEDS, 4))), GFiles='{"a.seed", "b.seed"}', GTimes="{%s}" % ", ".join(
                        str(x) for x in rng.sample([0, 1, 2, 59, 60, 1234567890, 2000000000], 3)),
                    GJunk=vt.tla(set("j%d" % i for i in rng.sample(range(len(JUNK)), 3))), GCounts=vt.tla(set(rng.sample([1, 1, 2, 3, 5, 17, 100, 191, 381, 382, 383, 500], 4)) | {1}))
        r = ctx.tlc("RngGen", cfg % ("GSpec", 14 + 6 * (k % 3)), defs=defs, simulate=ctx.pick(300, 2000), depth=40, seed=ctx.seed * 50 + k)
        hs += [x for _, x in r.items]
    lines, starts, exp = [], [], []
    for h in hs:
        l, ex = lines_of(h, rng)
        starts.append(len(lines))
        lines += ["begin %d" % (len(l) + 2), "outside a.seed missing -", "outside b.seed missing -"] + l
        exp += [None, None, None] + ex
    ans = hn.run(ctx, "rng", lines, jobs=8, group=starts)
    S = Streams()
    memo = {}
    for i, (e, a) in enumerate(zip(exp, ans)):
        if e is None:
            continue
        lo = max(s for s in starts if s <= i) if (a[0] != "ok") else 0
        ob = e["obs"]
        where = dict(commands=lines[max(lo, i - 40):i + 1], expected=ob, answer=a)
        if (a[0] == "err") != (ob["k"] == "error"):
            raise vt.Violation("%s: %s" % (lines[i], "refused" if a[0] == "err" else "accepted"), where)
        if ob["k"] == "file":
            ctx.count("files_compared")
            c = ob["c"]
            want = (c[0], "") if c[0] in ("missing", "dir") else ("text", "%d\n" % S.seed(c) if c[0] == "draw" else ob["text"])
            if (a[1], hn.unhx(a[2]).decode() if c[0] not in ("missing", "dir") else "") != want:
                raise vt.Violation("%s: it is %s, expected %s" % (lines[i], a[1:], want), where)
        elif ob["k"] == "seed":
            ctx.count("seeds_compared")
            if int(a[1]) != S.seed(ob["tok"]):
                raise vt.Violation("start seed %s, expected %s (%s)" % (a[1], S.seed(ob["tok"]), ob["tok"]), where)
        elif ob["k"] == "value":
            ctx.count("draws_compared", ob["n"])
            got, want = [hn.unfl(x) for x in a[1:4]], S.draw(ob)
            tol = 0 if ob["kind"] != "norm" else 1e-12 * ob["n"]
            if any(abs(x - y) > tol * max(1, abs(y)) for x, y in zip(got, want)):
                raise vt.Violation("%s: got %s, the stream has %s" % (lines[i], got, want), where)
            k = (S.seed(ob["seed"]) % 2**32, repr(ob["pos"]), ob["kind"], ob["n"])
            if memo.setdefault(k, a[1:4]) != a[1:4]:
                raise vt.Violation("equal streams gave different bits", where)
    ctx.traces += len(hs)
    ctx.cov.update(behaviours=len(hs), operations=len(lines))
    ctx.sample(dict(behaviour=lines[:12]))
