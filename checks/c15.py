"""C15: text input."""
import itertools, random, re
import vt, hn
from concurrent.futures import ThreadPoolExecutor

WORDS = ["a", "bc", "12", "-7", "+3", "0.5", "-1.25", "3.", ".5", "1e3", "2E-2", "x1", "1x", "-", "1.2.3", "#", "#c", "!", "'q r'", "''", "\"s\nt\"", "\"\"", "a\"b", "'u", "0", "007"]
SEP = [" ", "\n", "\t", "  ", "\r\n", "\n\n", " \n ", "\n# c\n", "\n!d e\n"]


def texts(rng, n):
    out = ["", "\n", " ", "a", "#", "#\n", "1 2 3", "1 2 3\n", "''", "'a' 'b'\n"]
    while len(out) < n:
        if rng.random() < 0.5:
            t = rng.choice(["", "", "\n", " ", "# h\n"])
            nums = rng.random() < 0.4
            for _ in range(rng.randint(1, 6)):
                t += rng.choice(["12", "-7", "0", "5", "+3", "0.5", "1e3"][:7 if rng.random() < .5 else 5]) if nums else rng.choice(WORDS)
                t += rng.choice(SEP[:6] if nums else SEP)
            if rng.random() < 0.5:
                t = t.rstrip()
        else:
            t = "".join(rng.choice("ab12.- \t\n\r#\"'" if rng.random() < .8 else "a \n") for _ in range(rng.randint(1, 14)))
        if len(t) <= 34 and not re.search(r"\d{9}", t):
            out.append(t)
    return out


def codes(t):
    return [ord(c) for c in t]


def txt(l):
    return "".join(chr(c) for c in l)


def value(ty, w):
    t = txt(w)
    return hn.hx(t) if ty == "s" else float(t)


def same(ty, a, w):
    return a == hn.hx(txt(w)) if ty == "s" else hn.unfl(a) == value(ty, w)


def replay(ctx, hs, rng):
    lines, exp, starts, bg = [], [], [], []
    for h in hs:
        starts.append(len(lines))
        lines.append("new %s %d" % (hn.hx(txt(h["text"])), rng.random() < .2)); exp.append(None); bg.append(h)
        for e in h["ops"]:
            lines.append(" ".join(str(x) for x in e["op"])); exp.append(e); bg.append(h)
    ans = hn.run(ctx, "text", lines, jobs=8, group=starts)
    for i, (e, a) in enumerate(zip(exp, ans)):
        if e is None:
            continue
        where = dict(text=txt(bg[i]["text"]), operations=[x["op"] for x in bg[i]["ops"]], at=e["op"], expected=e, answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s raised an unexpected exception" % lines[i], where)
        a = a[1:]
        k = a.index("|")
        got, st = a[:k], [int(x) for x in a[k + 1:]]
        ob = e["obs"]
        v = ob["v"]
        ty = e["op"][1] if len(e["op"]) > 1 else "s"
        if ob["k"] in ("tok", "line", "noline"):
            good = got == [ob["k"], hn.hx(txt(v))]
        elif ob["k"] in ("val", "arr"):
            good = got[0] == ob["k"] and len(got) == len(v) + 1 and all(same(ty, x, w) for x, w in zip(got[1:], v))
        elif ob["k"] == "end":
            good = got == ["end", str(v[0])]
        else:
            good = got[0] == ob["k"]
        if not good:
            raise vt.Violation("%r: %s gives %s, expected %s" % (txt(bg[i]["text"]), e["op"], got, ob), where)
        if st[0] != e["line"]:
            raise vt.Violation("%r: line counter %d after %s, expected %d" % (txt(bg[i]["text"]), st[0], e["op"], e["line"]), where)
        if (st[1] == 1) != e["good"] or (e["good"] and st[2] != e["pos"] - 1):
            raise vt.Violation("%r: stream left at %s after %s, expected %s" % (txt(bg[i]["text"]), st[1:], e["op"], (e["good"], e["pos"] - 1)), where)
        ctx.count("operations")
    ctx.traces += len(hs)
    ctx.count("behaviours", len(hs))


def tables(ctx, rng, n):
    cs = []
    al = "ab 1-.\"\t"
    for t in texts(rng, n) + WORDS + ["".join(p) for k in range(5) for p in itertools.product("a \"", repeat=k)]:
        o = "".join(rng.choice("ab, ") for _ in range(rng.randint(1, 2)))
        s = t if rng.random() < .4 else "".join(rng.choice("ab,  1\"") for _ in range(rng.randint(0, 12)))
        w = rng.choice(["", "x", "xy", "xyz", o + "x", "x" + o, o + o, o])
        for x in (s, t):
            cs.append((x, o, w, rng.choice([rng.randint(-40, 40), rng.randint(-99999, 99999), rng.randint(-10 ** 6, 10 ** 6)]), rng.randint(0, 6)))
    # an unterminated quotation reaches to the end of the string, whatever follows; nothing is promised about it
    parts = [cs[k::6] for k in range(6)]
    with ThreadPoolExecutor(6) as p:
        rs = list(p.map(lambda c: ctx.tlc("TextTab", "SPECIFICATION Spec\nCONSTANT Chunk = 40\n",
                                          defs=dict(GCases=vt.tla([dict(t=codes(t), o=codes(o), n=codes(w), m=m, p=pr) for t, o, w, m, pr in c])), timeout=800), parts))
    for c, r in zip(parts, rs):
        rows = [x for _, l in r.items for x in l]
        ans = hn.run(ctx, "text", ["row %s %s %s %d %d" % (*(hn.hx(x) for x in q[:3]), *q[3:]) for q in c], jobs=2)
        for q, x, a in zip(c, rows, ans):
            where = dict(case=q, specification=x, answer=a)
            if a[0] != "ok":
                raise vt.Violation("%r: exception" % (q,), where)
            w = a[1:]
            n = int(w[0]); toks = w[1:n + 1]; w = w[n + 1:]
            n = int(w[0]); qt = w[1:n + 1]; w = w[n + 1:]
            hxs = lambda l: [hn.hx(txt(y)) for y in l]
            if toks != hxs(x["toks"]):
                raise vt.Violation("tokens of %r: %s" % (q[0], [hn.unhx(y) for y in toks]), where)
            closed = q[0].count('"') % 2 == 0
            if closed and not re.search(r'[^\s"]"|""\S|"[^\s"]', re.sub(r'(^|(?<=\s))"[^"]*"(?=\s|$)', " ", q[0])) and qt != hxs(x["qtoks"]):
                raise vt.Violation("quoted tokens of %r: %s" % (q[0], [hn.unhx(y) for y in qt]), where)
            if w[0] != hn.hx(txt(x["up"])) or w[1] != hn.hx(txt(x["chomp"])):
                raise vt.Violation("upper case or chomp of %r: %s %s" % (q[0], hn.unhx(w[0]), hn.unhx(w[1])), where)
            if w[2] != hn.hx(txt(x["subst"])):
                raise vt.Violation("%r with %r replaced by %r is %r" % (q[:3] + (hn.unhx(w[2]),)), where)
            if w[7:] != [hn.hx(txt(x["fixed"])), hn.hx(txt(x["int"])), hn.hx(txt(x["fixed"])) if abs(q[3]) < 10 ** 6 else w[9], hn.hx(txt(x["int"])), hn.hx(q[0])]:
                raise vt.Violation("%d eighths with %d decimals as text: %s" % (q[3], q[4], [hn.unhx(y) for y in w[7:]]), where)
            if not re.search(r"^\s|\s$", q[0]):        # blanks around a number: not part of the promise
                if (w[3] == "1") != x["isint"] or (w[5] != "no") != x["isint"] or (x["isint"] and int(w[5]) != int(q[0])):
                    raise vt.Violation("%r as an integer: %s %s" % (q[0], w[3], w[5]), where)
                if (w[4] == "1") != x["isdec"] or (w[6] != "no") != x["isdec"] or (x["isdec"] and hn.unfl(w[6]) != float(q[0])):
                    raise vt.Violation("%r as a number: %s %s" % (q[0], w[4], w[6]), where)
            ctx.count("table_rows")
    # arrays written are read back, n_per_line numbers on each line
    ls, want = [], []
    for _ in range(300):
        v = [rng.choice([0, 1, -1, rng.randint(-10**9, 10**9)]) for _ in range(rng.randint(0, 14))]
        per = rng.randint(1, 7)
        ls.append("write %d %s" % (per, " ".join(map(str, v)))); want.append((per, v))
    for (per, v), a in zip(want, hn.run(ctx, "text", ls)):
        t = hn.unhx(a[1]).decode()
        rows = [[int(x) for x in l.split()] for l in t.split("\n")]
        if rows and not rows[-1]:
            rows.pop()
        if rows != [v[i:i + per] for i in range(0, len(v), per)]:
            raise vt.Violation("array %s written %d per line: %r" % (v, per, t))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 15)
    # all short texts, all pairs of operations
    cfg = "SPECIFICATION GSpec\nCONSTANT Depth = %d\nINVARIANTS Inside ThmOK\n"
    short = ["".join(p) for k in range(ctx.pick(4, 5)) for p in itertools.product("a \n#'", repeat=k)]
    short += ["".join(p) for k in range(1, 4) for p in itertools.product("1 .\n", repeat=k)]
    one = lambda ts, dep, **k: ctx.tlc("TextInGen", cfg % dep, defs=dict(GTexts="{" + ", ".join(vt.tla(codes(t)) for t in ts) + "}", GRandom="TRUE" if "simulate" in k else "FALSE"), timeout=800, **k)
    hs = [x for _, x in one(short, 1, workers=4).items]
    hs += [x for _, x in one(texts(rng, ctx.pick(25, 200)), 2, workers=4).items]
    ks = range(ctx.pick(6, 20))
    with ThreadPoolExecutor(6) as p:
        rs = list(p.map(lambda k: one(texts(random.Random(ctx.seed * 1000 + k), 60), ctx.pick(6, 10), simulate=ctx.pick(500, 2000), depth=14, seed=ctx.seed * 77 + k), ks))
    for r in rs:
        hs += [x for _, x in r.items]
    replay(ctx, hs, rng)
    tables(ctx, rng, ctx.pick(500, 4000))
    ctx.sample(dict(text=txt(hs[-1]["text"]), operations=[e["op"] for e in hs[-1]["ops"]]))
