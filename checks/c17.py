"""C17: files and file names."""
import random
import vt, hn
from concurrent.futures import ThreadPoolExecutor

UP = {"a": "", "b": "", "d": "", "d/a": "d", "d/e": "d", "d/e/a": "d/e", "a/x": "a", "a/x/y": "a/x"}
SYM = "0PQR"


def data(c):
    return "".join(SYM[x] for x in c) or "-"


def line(op):
    return " ".join(data(x) if isinstance(x, list) else str(x) for x in op)


def tables(ctx, rng):
    cs = []
    seg = lambda: rng.choice(["a", "file", "x1", "b.c", "r.t.u", "long name", "q_", "a.", "z.tar.gz"])
    for _ in range(ctx.pick(800, 5000)):
        s = rng.choice(["", "", "/", "./", "../"]) + "/".join(seg() for _ in range(rng.randint(1, 4)))
        p = rng.choice(["", "/", "out", "out/", "/abs/dir", "rel/dir/", "p.q"])
        cs.append((s if rng.random() < .97 else "", rng.choice(["txt", ".txt", "segy", "", "e"]), p))
    cs = [c for c in cs if c[0] or True]
    co = lambda t: [ord(x) for x in t]
    cs = [c for c in cs if c[0]] + [("", "txt", p) for p in ("", "out", "out/", "/")]
    r = ctx.tlc("PathTab", "SPECIFICATION Spec\nCONSTANT Chunk = 50\n", defs=dict(GCases=vt.tla([dict(s=co(s), e=co(e), p=co(p)) for s, e, p in cs])), timeout=600)
    rows = [x for _, l in r.items for x in l]
    names = ["GetPath", "RemovePath", "GetStem", "GetExtension", "ReplaceExtension", "AddExtension", "PrependDir"]
    for c, x, a in zip(cs, rows, hn.run(ctx, "files", ["row %s %s %s" % tuple(hn.hx(y) for y in q) for q in cs])):
        for n, w, g in zip(names, x, a[1:]):
            if c[0] == "" and n != "PrependDir":
                continue
            if hn.unhx(g) != bytes(w):
                raise vt.Violation("%s%r gives %r, expected %r" % (n, c, hn.unhx(g), bytes(w)), dict(case=c, answer=a))
        ctx.count("path_rows")


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 17)
    tables(ctx, rng)
    cfg = """SPECIFICATION %s
CONSTANTS Paths <- MCPaths Up <- MCUp
Handles = %s
Depth = %d
INVARIANTS TreeOK ReadsStay
PROPERTIES Safe OnePath
"""
    fn = lambda ps: "[p \\in {%s} |-> CASE %s]" % (", ".join(vt.tla(p) for p in ps), " [] ".join("p = %s -> %s" % (vt.tla(p), vt.tla(UP[p])) for p in ps))
    defs = lambda ps, ds: dict(GPaths=vt.tla(set(ps)), GOrder=vt.tla(sorted(ps)), GUp=fn(ps), GData="{" + ", ".join(vt.tla(d) for d in ds) + "}")
    ps = ["a", "d", "d/a"] if not ctx.thorough else ["a", "d", "d/a", "a/x"]
    r = ctx.tlc("FilesGen", cfg % ("MCSpec", "{1}", 0) + "CONSTRAINT Bound\n", defs=defs(ps, [[1]]), workers=8, timeout=800)
    ctx.cov["model_states"] = r.distinct
    P = sorted(UP)

    def gen(k):
        q = random.Random(ctx.seed * 300 + k)
        ds = [[], [1], [2, 3], [3, 3, 1], [q.randint(1, 3) for _ in range(4)]]
        return [x for _, x in ctx.tlc("FilesGen", cfg % ("GSpec", "{1, 2}", 22), defs=defs(P, ds), simulate=ctx.pick(150, 1000), depth=24, seed=ctx.seed * 37 + k).items]
    with ThreadPoolExecutor(6) as p:
        hs = [x for g in p.map(gen, range(ctx.pick(6, 18))) for x in g]
    lines, exp, starts, bg = [], [], [], []
    for n, h in enumerate(hs):
        starts.append(len(lines))
        lines.append("new %d" % (rng.choice([400000, 1048576, 700001]) if n % ctx.pick(30, 20) == 0 else rng.choice([1, 1, 3, 1000]))); exp.append(None); bg.append(h)
        for e in h:
            lines.append(line(e["op"])); exp.append(e); bg.append(h)
    ans = hn.run(ctx, "files", lines, jobs=8, group=starts)
    for i, (e, a) in enumerate(zip(exp, ans)):
        where = dict(behaviour=[line(x["op"]) for x in bg[i]], at=lines[i], expected=e, answer=a)
        if a[0] != "ok":
            raise vt.Violation("%s failed: %s" % (lines[i], hn.unhx(a[1])), where)
        if e is None:
            continue
        a = a[1:]
        k = a.index("|")
        ob = e["obs"]
        want = {"ok": ["ok"], "error": ["error"], "num": ["num", str(ob.get("n"))], "data": ["data", data(ob.get("c", []))]}[ob["k"]]
        if a[:k] != want:
            raise vt.Violation("%s gives %s, expected %s" % (lines[i], a[:k], want), where)
        good = [str(int(x["open"] and not x["eof"])) for x in e["hs"]]
        if a[k + 1:k + 3] != good:
            raise vt.Violation("after %s handles are good: %s, expected %s" % (lines[i], a[k + 1:k + 3], good), where)
        w = [x["w"] for x in e["hs"]]
        tree = {a[j]: a[j + 1] for j in range(k + 3, len(a), 2)}
        exptree = {p: "dir" if n["k"] == "dir" else data(n["c"]) for p, n in zip(P, e["tree"]) if n["k"] != "none"}
        for p in set(tree) | set(exptree):
            if p in w and p in tree:
                continue
            if tree.get(p) != exptree.get(p):
                raise vt.Violation("after %s %s is %s, expected %s" % (lines[i], p, tree.get(p), exptree.get(p)), where)
        ctx.count("operations")
    ctx.traces += len(hs)
    ctx.cov["behaviours"] = len(hs)
    ctx.sample(dict(behaviour=[line(x["op"]) for x in hs[0]][:8]))
