"""P17: calibration covers the data range with zero exactly representable."""
from types import SimpleNamespace
import numpy as np
from harness import gen
from checks.p16 import data
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution

RULE = ("random finite tensors (see P16) plus one-sided, all-zero, constant, tiny and huge ranges, whole or value-sliced, calibrated for 8/16/32-bit "
        "signed and unsigned types, plain, symmetric, with forced zero point, forced scale or both; result compared with the type's code range and "
        "by quantizing and dequantizing the data; non-trivial = distinct data, type and options")
TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32"]
ODD = ["int2", "int4", "int5", "int12", "int24", "uint2", "uint4", "uint7", "uint10"]


def ranges(rng):
    k = int(rng.integers(0, 10))
    n = int(rng.choice([1, 2, 5, 40, 600]))
    if k == 0:
        return np.zeros(n, dtype=rng.choice([np.float64, np.float32, np.int64]))
    if k == 1:
        return np.full(n, float(rng.choice([1.0, -1.0, 0.3, -7.25, 1e-6, 1e5])))
    if k == 2:
        return np.abs(rng.normal(0, 2, n)) * rng.choice([-1, 1])
    if k == 3:
        return rng.uniform(3, 9, n) * rng.choice([-1, 1])
    if k == 4:
        return rng.normal(0, 1, n + 1) * 10.0 ** rng.uniform(-30, 30)
    if k == 5:
        return np.array([0.0, float(rng.normal())])
    if k == 6:
        return np.array([-1.0, 1.0]) * 10.0 ** rng.uniform(-4, 4) * np.array([1.0, 10.0 ** rng.uniform(-3, 3)])
    return data(rng)


def info_of(t):
    return SimpleNamespace(**dict(zip(("min", "max"), gen.limits(t))))


def pick(rng):
    return str(rng.choice(TYPES)) if rng.random() < 0.85 else str(rng.choice(ODD))


def options(rng, info):
    mode = str(rng.choice(["plain", "plain", "symmetric", "force_zp", "force_s", "both"]))
    kw = {}
    if mode == "symmetric":
        kw["symmetric"] = True
        if rng.random() < 0.7:
            kw["force_zp"] = 0
    elif mode in ("force_zp", "both"):
        kw["force_zp"] = int(rng.choice([0, 0, 1, -1, info.min, info.max, info.min + 1, info.min + 2, info.max - 1, info.max - 2, int(rng.integers(info.min, int(info.max) + 1)), info.max // 2]))
        kw["force_zp"] = min(max(kw["force_zp"], int(info.min)), int(info.max))
        kw["symmetric"] = bool(rng.random() < 0.2)
    if mode in ("force_s", "both"):
        kw["force_s"] = float(10.0 ** rng.uniform(-4, 2))
    return mode, kw


def calibrate(ctx, D, a, t, mode, kw, whole=False):
    Q = Quantization(t)
    qmin, qmax = int(Q.min_value()), int(Q.max_value())
    info = info_of(t)
    ctx.ok(qmin == info.min and qmax == info.max, "type-range", "the %s range is %d..%d" % (t, qmin, qmax))
    before = (list(D.get_histogram()), list(D.get_bin_edges()))
    s, zp = D.quantize(Q, **kw)
    ctx.ok((list(D.get_histogram()), list(D.get_bin_edges())) == before, "altered", "calibration changed the distribution")
    lo, hi = (float(np.min(a)), float(np.max(a))) if whole else (float(D.get_min()), float(D.get_max()))
    lo, hi = min(lo, 0.0), max(hi, 0.0)
    ctx.observe("type-" + t if t in TYPES else "type-odd")
    ctx.observe("mode-" + mode)
    ctx.observe("all-zero", lo == hi)
    ctx.observe("constant", D.get_min() == D.get_max())
    ctx.observe("one-sided", (lo == 0) != (hi == 0))
    ctx.ok(np.isfinite(s) and s > 0, "scale-positive", "scale %r for data %r..%r" % (s, lo, hi))
    ctx.ok(int(zp) == zp, "zp-integer", "zero point %r" % (zp,))
    zp = int(zp)
    ctx.ok(qmin <= zp <= qmax, "zp-range", "zero point %d outside %s for data %r..%r" % (zp, t, lo, hi))
    if "force_zp" in kw:
        ctx.ok(zp == kw["force_zp"], "zp-forced", "zero point %d, forced %d" % (zp, kw["force_zp"]))
    if "force_s" in kw:
        ctx.ok(s == kw["force_s"], "scale-forced", "scale %r, forced %r" % (s, kw["force_s"]))
        return
    zero = Q.dequantize(Q.quantize(np.array([0.0]), zp, s), zp, s)
    ctx.ok(float(np.asarray(zero)[0]) == 0.0, "zero-exact", "zero comes back as %r" % zero)
    tol = s * (1 + 1e-5) + 1e-6 * (hi - lo) * (a.dtype == np.float32)
    lowest = max(qmin, -qmax) if kw.get("symmetric") else qmin      # symmetric calibration has no use for the code without a counterpart
    below, above = zp - lowest, qmax - zp
    if kw.get("symmetric") and not (below < 0 or below == 0 and lo < 0):
        codes = np.asarray(Q.quantize(np.array([lo, hi]), zp, s))
        ctx.ok(codes.min() >= lowest, "symmetric", "symmetric %s calibration uses code %d (zero point %d, data %r..%r)" % (t, codes.min(), zp, lo, hi))
        ctx.observe("symmetric")
    check = [v for v, side in ((lo, below), (hi, above)) if side > 0 or not ("force_zp" in kw)]
    back = np.asarray(Q.dequantize(Q.quantize(np.array(check, dtype=float), zp, s), zp, s), float)
    for v, b in zip(check, back):
        ctx.ok(abs(v - b) <= tol, "covered", "%r comes back as %r with scale %r, zero point %d (%s, data %r..%r)" % (v, b, s, zp, t, lo, hi))
    vals = np.sort(np.asarray(a, float).ravel())
    if not whole:
        vals = vals[(vals >= D.get_min()) & (vals <= D.get_max())]
    if "force_zp" in kw:
        vals = vals[(vals >= 0 if below <= 0 else True) & (vals <= 0 if above <= 0 else True)] if below <= 0 or above <= 0 else vals
    err = np.abs(np.asarray(Q.dequantize(Q.quantize(vals, zp, s), zp, s), float) - vals)
    ctx.ok(not len(err) or float(err.max()) <= tol, "data-covered", lambda: "an element is off by %r with scale %r" % (err.max(), s))
    if lo < hi:
        if "force_zp" in kw:
            if (below <= 0 and hi == 0) or (above <= 0 and lo == 0):
                return      # no code for any of the data: any scale will do
            sides = [x for x in (below, above) if x > 0]
            need = max(-lo, hi) / min(sides)
        else:
            need = (hi - lo) / (qmax - lowest)
        ctx.ok(s <= need * 1.02 or need < 1e-300, "wasteful", "scale %r where the range needs %r (%s, data %r..%r)" % (s, need, t, lo, hi))


def sliced(rng, D, a):
    if np.abs(np.asarray(a, float)).max() > 1e6:
        return D        # a part may hold one value alone, which np.histogram cannot handle when half a unit is lost in it
    m = float(np.median(a)) if rng.random() < 0.5 else float(rng.choice(np.ravel(a)))
    S = D[m:] if rng.random() < 0.5 else D[:m]
    return S if sum(S.get_histogram()) else D


def run(ctx):
    rng = ctx.rng
    for t in TYPES:
        ctx.need("type-" + t, 30)
    for k in ("plain", "symmetric", "force_zp", "force_s", "both"):
        ctx.need("mode-" + k, 60)
    ctx.need("all-zero", 10)
    ctx.need("constant", 20)
    ctx.need("one-sided", 60)
    ctx.need("repeated", 100)
    ctx.need("type-odd", 100)
    ctx.need("symmetric", 100)
    for i in ctx.loop(3000, 60000):
        a = ranges(rng)
        t = pick(rng)
        mode, kw = options(rng, info_of(t))
        with ctx.case("calibrate", data=a, dtype=t, options=kw):
            W = D = Distribution(a)
            if a.size > 2 and rng.random() < 0.25:
                D = sliced(rng, D, a)
            calibrate(ctx, D, a, t, mode, kw, D is W)
            if i % 3 == 0:
                # the same distribution again, or a part of it, whatever it was calibrated for before
                for j in range(int(rng.integers(1, 5))):
                    E = sliced(rng, D, a) if a.size > 2 and rng.random() < 0.4 else D
                    t2 = t if rng.random() < 0.6 else pick(rng)
                    calibrate(ctx, E, a, t2, *options(rng, info_of(t2)), whole=E is W)
                    ctx.observe("repeated")
                calibrate(ctx, D, a, t, mode, kw, D is W)
