"""C16: routing of log messages."""
import random
import vt, hn
from concurrent.futures import ThreadPoolExecutor

BITS = [1, 2, 4, 8, 16, 32, 64]
TEXTS = {"t%d" % i: t for i, t in enumerate(["a\n", "Warning: b", "100% c\n", "", "d e\n\n", "x" * 999, "y" * 1500 + "\n", "z" * 7000, "%s %d\n", "tab\tq"])}
PREF = {"": "", "p1": "NOTE: ", "p2": "** "}
RULER = "*" * 100


def render(items):
    out = ""
    for m in items:
        if m[0] == "m":
            t = m[2]
            if t.startswith("H"):
                s = TEXTS[t[1:]]
                n = max(0, 100 - len(s) - 10)
                t = "*****" + " " * (n // 2) + s + " " * (n // 2) + " " * (n % 2) + "*****\n"
            else:
                t = "\n" + RULER + "\n" if t == "ruler1" else RULER + "\n" if t == "ruler2" else TEXTS[t]
            out += PREF[m[1]] + t
        elif m[0] == "break":
            out += "\n\n"
        elif m[0] == "header":
            out += "  0%       20%       40%       60%       80%      100%\n  |    |    |    |    |    |    |    |    |    |    |\n"
        else:
            k = 1 + int(m[1] / 100.0 * 50)
            out += "\r  " + "^" * k + " " * (52 - k) + TEXTS[m[2]]
    return out


def mask(s):
    return sum(s)


def line(op):
    k = op[0]
    a = list(op[1:])
    if k in ("whole", "nonr"): return "%s %s %d" % (k, a[0], mask(a[1]))
    if k == "per": return "per %s %d %s %d" % (a[0], len(a[1]), " ".join(str(mask(x)) for x in a[1]), a[2])
    if k == "single": return "single %s %d %d %d" % (a[0], mask(a[1]), a[2], a[3])
    if k in ("msg", "header", "progress"): a[1] = hn.hx(TEXTS[a[1]])
    if k == "pmsg": a[2] = hn.hx(TEXTS[a[2]])
    if k == "prefix": a[1] = hn.hx(PREF[a[1]])
    return " ".join([k] + [str(x) for x in a])


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 16)
    cfg = """SPECIFICATION %s
CONSTANTS Bits <- MCBits Phases <- MCPhases Texts <- MCTexts Prefixes <- MCPrefixes
MaxStreams = %d
Depth = %d
INVARIANTS NoMoreThanSent OneScreen Buffered
PROPERTY AppendOnly
"""
    defs = lambda bits, per, ph, tx, pr, prog: dict(GBits=vt.tla(set(bits)), GOrder=vt.tla(sorted(bits)), GPer="{" + ", ".join(vt.tla(set(x)) for x in per) + "}",
        GPhases=vt.tla(set(ph)), GTexts=vt.tla(set(tx)), GPrefixes=vt.tla(set(pr)), GProg=vt.tla(set(prog)), GMax=str(ctx.pick(2, 3)))
    r = ctx.tlc("LogKitGen", cfg % ("MCSpec", ctx.pick(2, 3), 0) + "CONSTRAINT Bound\n", defs=defs([1, 2], [[1], [1, 2]], [0, 1], ["t0"], [""], [1]), workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct

    def gen(k):
        q = random.Random(ctx.seed * 500 + k)
        bits = q.sample(BITS, 4)
        per = [q.sample(bits, q.randint(0, 4)) for _ in range(4)] + [bits]
        d = defs(bits, per, q.sample([0, 1, 2, 3, 4, 7, 998, 999], 4), q.sample(list(TEXTS), 5), list(PREF), [0, 1, 37, 50, 99, 100])
        return [x for _, x in ctx.tlc("LogKitGen", cfg % ("GSpec", 4, 24), defs=d, simulate=ctx.pick(120, 800), depth=26, seed=ctx.seed * 31 + k).items], bits
    with ThreadPoolExecutor(6) as p:
        gs = list(p.map(gen, range(ctx.pick(6, 18))))
    lines, exp, starts, bg = [], [], [], []
    for hs, bits in gs:
        for h in hs:
            starts.append(len(lines))
            lines.append("new"); exp.append(None); bg.append((bits, h))
            for e in h:
                lines.append(line(e["op"])); exp.append(e["after"]); bg.append((bits, h))
        ctx.traces += len(hs)
    ans = hn.run(ctx, "logkit", lines, jobs=8, group=starts)
    base = None
    for i, (e, a) in enumerate(zip(exp, ans)):
        where = dict(behaviour=[x["op"] for x in bg[i][1]], at=lines[i][:200], expected=e)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (lines[i][:100], hn.unhx(a[1])), where)
        if e is None:
            base = [int(x) for x in a[1:8]]
            continue
        scr, cnt, rest = hn.unhx(a[1]).decode(), [int(x) for x in a[2:9]], a[9:]
        if scr != render(e["screen"]):
            raise vt.Violation("after %s the screen shows ...%r, expected ...%r" % (lines[i][:80], scr[-120:], render(e["screen"])[-120:]), where)
        bits = bg[i][0]
        want = [0] * 7
        for b, n in zip(sorted(bits), e["count"]):
            want[BITS.index(b)] = n
        if [x - y for x, y in zip(cnt, base)] != want:
            raise vt.Violation("after %s message counts are %s, expected %s" % (lines[i][:80], [x - y for x, y in zip(cnt, base)], want), where)
        got = {int(rest[k]): hn.unhx(rest[k + 1]).decode() for k in range(0, len(rest), 2)}
        exp_logs = {c["id"]: c["log"] for c in e["closed"]}
        exp_logs.update({l[0]: l[1] for l in e["logs"] if l[0]})
        for k, l in exp_logs.items():
            if got.get(k) != render(l):
                raise vt.Violation("after %s log %d holds ...%r, expected ...%r" % (lines[i][:80], k, (got.get(k) or "")[-120:], render(l)[-120:]), where)
        ctx.count("operations")
    ctx.cov["behaviours"] = ctx.traces
    ctx.sample(dict(behaviour=[x["op"] for x in gs[0][0][0]][:8]))
