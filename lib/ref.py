"""Numeric reading of the specification's symbolic terms.  Independent of /repo: own generator (refrng.c), own
correlation functions, numpy's transforms."""
import ctypes, math
import numpy as np
import vt

_lib = None


def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(vt.build_c("refrng"))
        l.ref_new.restype = ctypes.c_void_p
        l.ref_new.argtypes = [ctypes.c_uint32]
        for f in ("ref_free", "ref_skip_norms", "ref_norms"):
            getattr(l, f).restype = None
        l.ref_u32.restype = ctypes.c_uint32
        l.ref_unif.restype = l.ref_unif_open.restype = l.ref_norm.restype = ctypes.c_double
        for f in ("ref_free", "ref_u32", "ref_unif", "ref_unif_open", "ref_norm"):
            getattr(l, f).argtypes = [ctypes.c_void_p]
        l.ref_norms.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
        l.ref_skip_norms.argtypes = [ctypes.c_void_p, ctypes.c_long]
        _lib = l
    return _lib


class Rng:
    def __init__(self, seed):
        self.l = lib()
        self.g = self.l.ref_new(int(seed) & 0xffffffff)

    def __del__(self):
        self.l.ref_free(self.g)

    def u32(self): return self.l.ref_u32(self.g)
    def unif(self): return self.l.ref_unif(self.g)
    def unif_open(self): return self.l.ref_unif_open(self.g)
    def norm(self): return self.l.ref_norm(self.g)

    def norms(self, n):
        a = np.empty(n)
        self.l.ref_norms(self.g, a.ctypes.data, n)
        return a

    def skip(self, pos):
        for seg in pos:
            if seg["k"] == "u":
                for _ in range(seg["n"]):
                    self.u32()
            else:
                self.l.ref_skip_norms(self.g, seg["n"])
        return self


def corr1d(t, d, power=1.5):
    d = np.asarray(d, float)
    if t == "constant": return np.ones_like(d)
    if t == "exponential": return np.exp(-3.0 * d)
    if t == "spherical": return np.where(d < 1.0, 1.0 - 1.5 * d + 0.5 * d ** 3, 0.0)
    if t == "gaussian": return np.exp(-3.0 * d * d)
    if t == "general_exponential": return np.exp(-3.0 * d ** power)
    if t == "matern32":
        s = 4.744 * d; return (1 + s) * np.exp(-s)
    if t == "matern52":
        s = 5.918 * d; return (1 + s + s * s / 3) * np.exp(-s)
    if t == "matern72":
        s = 6.877 * d; return (1 + s + 2 * s * s / 5 + s ** 3 / 15) * np.exp(-s)
    raise ValueError(t)


def axes(azi_deg, dip_deg):
    a, p = math.radians(azi_deg), math.radians(dip_deg)
    main = np.array([math.cos(p) * math.cos(a), math.cos(p) * math.sin(a), math.sin(p)])
    perp = np.array([-math.sin(a), math.cos(a), 0.0])
    deep = np.array([-math.sin(p) * math.cos(a), -math.sin(p) * math.sin(a), math.cos(p)])
    return main, perp, deep


def dist(v, x, y=0.0, z=0.0, unit=1.0):
    """Normalised distance: the lag in the principal axes, each divided by its range."""
    s = 0.0
    for ax, r in zip(axes(v["azi"], v["dip"]), (v["rx"], v["ry"], v["rz"])):
        s = s + ((ax[0] * x + ax[1] * y + ax[2] * z) / (r * unit)) ** 2
    return np.sqrt(s)


def corr(v, x, y=0.0, z=0.0, unit=1.0):
    return corr1d(v["t"], dist(v, np.asarray(x, float), y, z, unit), v["pow"] / 10.0)


def axis_ranges(v, unit=1.0, halfpi=math.pi / 2):
    """Longest projection of the three principal directions on each coordinate axis (smoothing scale)."""
    a, p = math.radians(v["azi"]), math.radians(v["dip"])
    rx, ry, rz = (v[k] * unit for k in ("rx", "ry", "rz"))
    m = [abs(rx * math.cos(p) * math.cos(a)), abs(rx * math.cos(p) * math.sin(a)), abs(rx * math.sin(p))]
    q = [abs(ry * math.cos(a + halfpi)), abs(ry * math.sin(a + halfpi)), 0.0]
    d = [abs(rz * math.cos(p + halfpi) * math.cos(a)), abs(rz * math.cos(p + halfpi) * math.sin(a)),
         abs(rz * math.sin(p + halfpi))]
    return [max(*t) for t in zip(m, q, d)]


def lags(n):
    return [i if i < (n + 1) // 2 else i - n for i in range(n)]


def cov_grid(cc, unit, halfpi=math.pi / 2, lagvecs=None):
    """The covariance grid of a normalised call, as an array indexed [i,j,k]."""
    d = cc["d"]
    xs = [np.array((lagvecs[a] if lagvecs else lags(cc["tot"][a])), float) * (cc["step"][a] * unit) for a in range(d)]
    X = np.meshgrid(*xs, indexing="ij")
    full = list(X) + [0.0] * (3 - d)
    c = corr(cc["v"], full[0], full[1], full[2], unit)
    rr = axis_ranges(cc["v"], unit, halfpi)
    for a in range(d):
        s = cc["smooth"][a] / 1000.0
        if s < 0.99999:
            c = c * s ** ((X[a] / rr[a]) ** 2)
    return c


def filter_of(c):
    F = np.fft.fftn(c).real
    return np.sqrt(np.maximum(F, 0.0))


def noise(seed, pos, cc):
    r = Rng(seed).skip(pos)
    if cc["d"] != 3:
        r = Rng(r.u32())
    n = 1
    for t in cc["tot"]:
        n *= t
    return r.norms(n).reshape(cc["tot"])        # last index fastest


def field(seed, pos, cc, unit, halfpi=math.pi / 2):
    S = filter_of(cov_grid(cc, unit, halfpi))
    z = np.fft.ifftn(S * np.fft.fftn(noise(seed, pos, cc))).real
    sl = tuple(slice(0, n) for n in cc["n"])
    return z[sl].flatten(order="F")
