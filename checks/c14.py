"""C14: binary representations of numbers."""
import random, struct
import vt, hn
from concurrent.futures import ThreadPoolExecutor

EDGE4 = [(0, 0, 0, 0), (255, 255, 255, 255), (128, 0, 0, 0), (127, 255, 255, 255), (0, 0, 0, 1), (0, 128, 0, 0), (1, 2, 3, 4), (0, 0, 255, 0)]


def rfloat(rng):
    k = rng.randrange(6)
    if k == 0: return tuple(struct.pack(">f", rng.choice([0.0, 1.0, -1.0, 0.1, 1e10, -1e-10, 3.4028235e38, 1.17549435e-38, 16.0, 15.999999, 0.0625])))
    e = rng.randint(1, 254)
    m = rng.choice([0, 1, 2**23 - 1, 2**22, rng.getrandbits(23), rng.getrandbits(23), rng.getrandbits(23) & ~7])
    return tuple(struct.pack(">I", rng.getrandbits(1) << 31 | e << 23 | m))


def ribm(rng):
    e = rng.choice([rng.randint(33, 97), 64, 65, 33, 34, 96, 97])
    m = rng.choice([0x100000, 0x1fffff, 0x200000, 0x3fffff, 0x400000, 0x7fffff, 0x800000, 0xffffff, rng.randint(0x100000, 0xffffff)])
    return tuple(struct.pack(">I", rng.getrandbits(1) << 31 | e << 24 | m))


def rdouble(rng):
    e = rng.choice([rng.randint(0, 2046), 1023, 0, 2046])
    return tuple(struct.pack(">Q", rng.getrandbits(1) << 63 | e << 52 | rng.choice([0, 1, 2**52 - 1, rng.getrandbits(52)])))


def tables(ctx, rng, n):
    cs = list(EDGE4) + [rfloat(rng) for _ in range(n)] + [ribm(rng) for _ in range(n)] + \
         [tuple(rng.getrandbits(8) for _ in range(4)) for _ in range(n // 2)]
    for e in range(1, 255):                          # every exponent, both ends of the mantissa
        for m in (0, 1, 7, 8, 2**23 - 1, 0x2aaaaa):
            cs.append(tuple(struct.pack(">I", (e & 1) << 31 | e << 23 | m)))
    for e in range(33, 98):
        for d in range(1, 16):
            cs.append(tuple(struct.pack(">I", e << 24 | d << 20 | rng.getrandbits(20))))
    parts = [cs[k::4] for k in range(4)]
    with ThreadPoolExecutor(4) as p:
        rs = list(p.map(lambda c: ctx.tlc("CodecTab", "SPECIFICATION Spec\nCONSTANT Chunk = 50\n", defs=dict(GCases=vt.tla(c)), timeout=800), parts))
    for c, r in zip(parts, rs):
        rows = [x for _, l in r.items for x in l]
        ans = hn.run(ctx, "codec", ["t " + hn.hx(bytes(b)) for b in c], jobs=2)
        if len(rows) != len(c):
            raise vt.CheckError("rows")
        for b, x, a in zip(c, rows, ans):
            where = dict(bytes=b, specification=x, answer=a)
            w = a[1:]
            raw = bytes(b)
            want = [str(x["i16"]), str(x["u16"]), str(x["i32"]), str(x["i32"] % 2**32)]
            if a[0] != "ok" or w[:4] != want:
                raise vt.Violation("integers %s from %s, expected %s" % (w[:4], raw.hex(), want), where)
            nan = (raw[0] & 127) == 127 and raw[1] >= 128 and struct.unpack(">I", raw)[0] & 0x7fffff
            if not nan and w[4] != raw.hex():
                raise vt.Violation("IEEE float from %s is %s" % (raw.hex(), w[4]), where)
            if x["dec"] and w[5] != bytes(x["dec"]).hex():
                raise vt.Violation("IBM float %s is read as %s, expected %s" % (raw.hex(), w[5], bytes(x["dec"]).hex()), where)
            if [w[6], w[7], w[8], w[9]] != [raw[:2].hex(), raw[:2].hex(), raw.hex(), raw.hex()]:
                raise vt.Violation("integers written as %s" % w[6:10], where)
            if x["enc"] and w[10] != bytes(x["enc"]).hex():
                raise vt.Violation("float %s is written as IBM %s, expected %s" % (raw.hex(), w[10], bytes(x["enc"]).hex()), where)
            ctx.count("table_rows")


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 14)
    tables(ctx, rng, ctx.pick(1200, 12000))
    hs = []
    for k in range(ctx.pick(3, 10)):
        q = lambda l: "{" + ", ".join(vt.tla(list(x)) for x in sorted(set(l))) + "}"
        defs = dict(GV2=q([tuple(rng.getrandbits(8) for _ in range(2)) for _ in range(8)] + [(128, 0), (255, 254)]),
                    GV4=q([tuple(rng.getrandbits(8) for _ in range(4)) for _ in range(8)] + EDGE4),
                    GVF=q([rfloat(rng) for _ in range(12)] + [(0, 0, 0, 0)]), GV8=q([rdouble(rng) for _ in range(10)]))
        r = ctx.tlc("CodecGen", "SPECIFICATION GSpec\nCONSTANT Depth = 10\nINVARIANT PosOK\n", defs=defs, simulate=ctx.pick(500, 1500), depth=12,
                    seed=ctx.seed * 10 + k)
        hs += [x for _, x in r.items]
    lines, exp, starts = [], [], []
    for h in hs:
        starts.append(len(lines))
        lines.append("new %d" % rng.getrandbits(1)); exp.append(None)
        at = 0
        sz = dict(short=2, double=8)
        for e in h:
            if e["op"] == "w":
                lines.append("w %s %s %d %s" % (e["ty"], e["end"], e["arr"], " ".join(hn.hx(bytes(v)) for v in e["v"])))
            else:
                lines.append("r %s %s %d %d %d" % (e["ty"], e["end"], e["arr"], e["n"], at))
                at += e["n"] * sz.get(e["ty"], 4)
            exp.append(e)
    ans = hn.run(ctx, "codec", lines, jobs=8, group=starts)
    for i, (e, a) in enumerate(zip(exp, ans)):
        if e is None:
            continue
        where = dict(commands=lines[max(0, i - 12):i + 1], expected=e, answer=a)
        if e["op"] == "w":
            if a != ["ok", hn.hx(bytes(e["buf"]))]:
                raise vt.Violation("%s: the stream holds %s, expected %s" % (lines[i], a[1], bytes(e["buf"]).hex()), where)
        elif e["err"]:
            if a[0] != "err":
                raise vt.Violation("%s: reading past the end was accepted" % lines[i], where)
        elif a != ["ok"] + [hn.hx(bytes(v)) for v in e["v"]]:
            raise vt.Violation("%s: read %s, expected %s" % (lines[i], a[1:], [bytes(v).hex() for v in e["v"]]), where)
        ctx.count("operations")
    ctx.traces += len(hs)
    ctx.sample(dict(behaviour=lines[:8]))
