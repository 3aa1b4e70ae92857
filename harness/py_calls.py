"""py_calls.py IN OUT: evaluates (fn, vario, style, args) on the real package."""
import pickle, sys
import numpy as np
import gaussianfft as g
job = pickle.load(open(sys.argv[1], "rb"))
U = job["units"]
TYPES = {t.value: t for t in g.VariogramType}


def mk(a, style=0):
    u = U[a["u"]]
    t = a["type"]
    if style & 1 and t in TYPES:
        t = TYPES[t]
    rng = lambda r: r * u if r > 0 else (0.0 if r == 0 else -1.0)
    full = dict(perp_range=rng(a["ry"]), depth_range=rng(a["rz"]), azimuth=float(a["azi"]), dip=float(a["dip"]),
                power=a["pow"] / 10.0)
    if style & 2:
        dflt = dict(perp_range=-1.0, depth_range=-1.0, azimuth=0.0, dip=0.0, power=1.5)
        return g.variogram(t, rng(a["rx"]), **{k: v for k, v in full.items() if v != dflt[k]})
    return g.variogram(t, rng(a["rx"]), *full.values())


out = []
for fn, a, style, args, kw in job["calls"]:
    try:
        v = mk(a, style)
        if fn == "size":
            r = list(g.simulation_size(v, *args, **kw))
        elif fn == "corr":
            r = v.corr(*args)
        elif fn == "corrs":
            r = [v.corr(*x) for x in args]
        out.append(("ok", r))
    except Exception as e:
        out.append(("err", type(e).__name__ + ": " + str(e)[:200]))
pickle.dump(out, open(sys.argv[2], "wb"))
