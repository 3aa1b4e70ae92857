"""py_util.py IN OUT: runs the empirical variogram estimators on given fields."""
import pickle, sys, warnings
import numpy as np
warnings.simplefilter("ignore")
import gaussianfft as g
import gaussianfft.advanced
fake = None
for mod in (g, g.advanced):
    mod.simulate = lambda *a, **k: fake(*a, **k)      # in place before the utilities are imported
from gaussianfft.util import EmpiricalVariogram
from gaussianfft.util.empirical_variogram2 import EmpiricalVariogram2
job = pickle.load(open(sys.argv[1], "rb"))
out = []
for q in job:
    try:
        n, d = q["g"]["n"], [float(x) for x in q["g"]["d"]]
        v = g.variogram("gaussian", 10.0)
        fields = [np.array(f, dtype=float) for f in q["f"]]
        log = []

        def fake_(vv, nx, dx, ny, dy, nz, dz, padx=-1, pady=-1, padz=-1, sx=1.0, sy=1.0, sz=1.0):
            log.append((nx, dx, ny, dy, nz, dz, padx, pady, padz, sx, sy, sz))
            return fields[(len(log) - 1) % len(fields)].copy()
        fake = fake_
        e = EmpiricalVariogram(v, n[0], d[0], n[1], d[1], n[2], d[2], *q["pad"])
        refs = [tuple(r) for r in q["refs"]]
        r = {}
        before = len(log)
        mid, est, cnt, _, ca = e.estimate_variogram(len(fields), float(q["res"]), refs, analyze_convergence=1)
        r["calls"] = log[before:]
        r["mid"], r["est"], r["cnt"], r["deltas"] = mid, est, cnt, ca.deltas
        r["true"] = e.true_variogram(float(q["res"]))
        r["dummy"] = (np.square(e.dummy_sim()) / 2).tolist(), [[[1 - v.corr(((d[0] * i) ** 2 + (d[1] * j) ** 2 + (d[2] * k) ** 2) ** .5) for k in range(n[2])]
                                                                 for j in range(n[1])] for i in range(n[0])]
        r["all"] = e.pick_reference_points("all")
        r["center"] = e.pick_reference_points("center")
        r["origo"] = e.pick_reference_points("origo")
        r["regular"] = e.pick_reference_points("regular", n=q["k"], offset=q["off"])
        r["random"] = [e.pick_reference_points("random", n=q["k"], seed=5) for _ in range(2)]
        try:
            e.pick_reference_points("nosuch")
            r["nosuch"] = False
        except ValueError:
            r["nosuch"] = True
        log.clear()
        w = EmpiricalVariogram2(v, n[0], n[1], n[2], *q["pad"], q["cr2"] ** 0.5, q["step"])
        r["two"] = w.estimate_variogram(len(fields)) if all(x == 1 for x in q["g"]["d"]) else None
        r["calls2"] = list(log)
        out.append(("ok", r))
    except Exception as ex:
        out.append(("err", type(ex).__name__ + ": " + str(ex)[:300]))
pickle.dump(out, open(sys.argv[2], "wb"))
