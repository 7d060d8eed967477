"""P01: nearest code, ties up, saturation; monotone; half-step reconstruction; purity."""
import warnings
from fractions import Fraction
import numpy as np
from harness import gen
from itcl_quantization import Quantization

RULE = ("random and boundary data (ties, saturation edges, huge, subnormal, scalars, lists, float32, "
        "0-3 dimensional and non-contiguous arrays) for named and odd-width types; non-trivial = distinct "
        "(type, scale, zero point, data)")


def exact_check(ctx, vals, out, zp, s, lo, hi):
    """Oracle in exact rationals: the code must be nearest, up to the roundoff of one division and one sum."""
    fs = Fraction(float(s))
    for x, q in zip(vals, out):
        v = Fraction(float(x)) / fs + zp
        eps = (abs(v) + abs(zp) + 1) * Fraction(1, 2 ** 50)
        q = int(q)
        ctx.ok(lo <= q <= hi, "nearest-code", "code outside the type", x=float(x), q=q)
        if v >= hi:
            good = q == hi or (q == hi - 1 and v - hi < eps)
        elif v <= lo:
            good = q == lo
        else:
            good = abs(q - v) <= Fraction(1, 2) + eps
        ctx.ok(good, "nearest-code", "value %r scale %r zp %r: code %d is not nearest to %s" % (float(x), s, zp, q, float(v)))


def vec_check(ctx, x, out, zp, s, lo, hi):
    with np.errstate(all="ignore"):
        v = x / s + zp
    eps = (np.abs(v) + abs(zp) + 1) * 2.0 ** -50
    c = np.clip(v, lo, hi)
    o = out.astype(np.float64)
    ctx.ok(np.all((out >= lo) & (out <= hi)), "in-range", "a code leaves the type's range")
    bad = np.abs(o - c) > 0.5 + np.where(np.isfinite(eps), eps, 0)
    ctx.ok(not bad.any(), "nearest-code", lambda: "not the nearest code: value/scale+zp=%s code=%s range=%s" % (
        v[bad][:4], out[bad][:4], (lo, hi)))


def run(ctx):
    rng = ctx.rng
    ctx.need("nearest-code", 500)
    ctx.need("saturated-elements", 100)
    ctx.need("ties-up", 50)
    for i in ctx.loop(10000, 40000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s = gen.scale(rng)
        zp = gen.zero_point(rng, lo, hi)
        shp = gen.shape(rng) if i % 50 else gen.big_shape(rng)
        span = (hi - lo) * s
        k = int(rng.integers(0, 5))
        base = (lo - zp) * s
        if k == 0:
            x = rng.uniform(base - 0.2 * span, base + 1.2 * span, shp)
        elif k == 1:
            x = rng.normal(0, 10.0 ** rng.uniform(-6, 6), shp)
        elif k == 2:   # around the edges of the range
            x = rng.choice([lo, hi], size=shp) + rng.uniform(-2, 2, shp)
            x = (x - zp) * s
        elif k == 3:   # near the ties
            x = (gen.codes(rng, lo, hi, shp) + 0.5 + rng.choice([-1e-3, 1e-3], size=shp) - zp) * s
        else:
            x = rng.choice([0.0, -0.0, 1e300, -1e300, 5e-324, 1e-300, s, -s, s * 0.499, -s * 0.501], size=shp)
        form = str(rng.choice(["f64", "f32", "list", "fortran", "strided", "scalar", "int", "readonly", "f16", "small-int", "reversed", "tuple"]))
        with ctx.case("quantize", dtype=name, scale=s, zp=zp, kind=k, form=form, x=x) as c:
            if form == "f32":
                with np.errstate(over="ignore"):
                    x = np.clip(x, -1e30, 1e30).astype(np.float32)
            elif form == "int":
                x = np.clip(np.round(x), -2 ** 40, 2 ** 40).astype(np.int64)
            elif form == "f16":
                x = np.clip(x, -6e4, 6e4).astype(np.float16)
            elif form == "small-int":
                t = str(rng.choice(["int8", "uint8", "int16", "uint16", "int32", "uint32"]))
                x = np.clip(np.round(x), np.iinfo(t).min, np.iinfo(t).max).astype(t)
            elif form == "reversed":
                x = x[..., ::-1].T
            elif form == "fortran":
                x = np.asfortranarray(x)
            elif form == "strided":
                x = np.repeat(x, 2, axis=-1)[..., ::2]
            elif form == "scalar":
                x = np.array(float(x.ravel()[0]))
            given = x.tolist() if form in ("list", "scalar") else x
            if form == "tuple":
                given = tuple(x.tolist())
            if form == "readonly":
                given.setflags(write=False)
            before = np.array(given, copy=True)
            nm = name if rng.random() < 0.6 or not hasattr(np, name) else getattr(np, name)
            if nm is name and rng.random() < 0.2:
                nm = name.upper()
            z = np.int64(zp) if rng.random() < 0.2 else zp
            if rng.random() < 0.1:
                s = np.float64(s)
            elif s == round(s) and rng.random() < 0.5:
                s = int(s)
            q = Quantization(nm)
            out = np.asarray(q.quantize(given, z, s))
            ctx.ok(out.shape == np.shape(given), "shape", "shape %s became %s" % (np.shape(given), out.shape))
            ctx.ok(out.dtype.kind in "iu", "integer", "result type %s is not an integer type" % out.dtype)
            ctx.same(given, before, "input-modified", "the data given was modified")
            xf = np.asarray(x, dtype=np.float64)
            vec_check(ctx, xf, out, zp, s, lo, hi)
            if i % 8 == 0:
                exact_check(ctx, xf.ravel()[:24], out.ravel()[:24], zp, s, lo, hi)
            ctx.observe("elements", out.size)
            ctx.observe("saturated-elements", int(((out == lo) | (out == hi)).sum()))
            order = np.argsort(xf.ravel(), kind="stable")
            ctx.ok(np.all(np.diff(out.ravel()[order].astype(np.float64)) >= 0), "monotone", "a larger value got a smaller code")
            # half-step reconstruction of what the range represents
            inside = (xf >= (lo - zp) * s) & (xf <= (hi - zp) * s)
            rec = (out.astype(np.float64) - zp) * s
            tol = 0.5 * s * (1 + 1e-9) + (np.abs(xf) + abs(zp) * s) * 1e-12
            ctx.ok(np.all((np.abs(rec - xf) <= tol) | ~inside), "half-step", "an in-range value is reconstructed more than half a step away")
            out2 = np.asarray(q.quantize(given, z, s))
            ctx.same(out, out2, "repeatable", "quantizing twice differs")
    # exact ties: scales of few bits make value and value/scale exact
    for i in ctx.loop(1500, 4000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s = float(2.0 ** rng.integers(-10, 8)) * (int(rng.integers(0, 500)) * 2 + 1 if rng.random() < 0.6 else 1)
        zp = gen.zero_point(rng, lo, hi)
        n = gen.codes(rng, lo, hi, (9,) if i % 20 else gen.big_shape(rng))
        with ctx.case("ties", dtype=name, scale=s, zp=zp, codes=n):
            x = (n - zp + 0.5) * s
            out = np.asarray(Quantization(name).quantize(x, zp, s)).astype(np.int64)
            ctx.same(out, np.minimum(n + 1, hi), "ties-up", "a tie did not go up")
            out = np.asarray(Quantization(name).quantize((n - zp) * s, zp, s)).astype(np.int64)
            ctx.same(out, n, "exact-code", "a representable value did not get its own code")
    # exhaustive: every code of the 8-bit types, three positions around it, extremes of the zero point
    for name in ("int8", "uint8", "int4", "uint16" if ctx.thorough else "uint4"):
        lo, hi = gen.limits(name)
        for zp in {lo, hi, (lo + hi) // 2, lo + 1}:
            for s in (0.5, 0.003, 7.0, 1e-5):
                with ctx.case("exhaustive", dtype=name, zp=zp, scale=s):
                    n = np.arange(lo, hi + 1)
                    for d, e in ((0, 0), (0.49, 0), (-0.49, 0), (0.51, 1), (-0.51, -1)):
                        out = np.asarray(Quantization(name).quantize((n + d - zp) * s, zp, s)).astype(np.int64)
                        ctx.same(out, np.clip(n + e, lo, hi), "nearest-code", "code at offset %s" % d)
    # saturation cannot wrap: far beyond the range
    for name in gen.NAMED + gen.ODD + ["int40", "uint48"]:
        lo, hi = gen.limits(name)
        for mag in (1.0, 1e3, 1e6, 1e12, 1e30, 1e300):
            with ctx.case("saturate", dtype=name, mag=mag):
                x = np.array([-1.0, 1.0]) * mag * max(abs(lo), hi) * 1.5
                out = np.asarray(Quantization(name).quantize(x, 0 if lo <= 0 <= hi else lo, 1.0))
                ctx.ok([int(v) for v in out] == [lo, hi], "saturate", "beyond the range gave %s, expected %s" % (out, (lo, hi)))
    # empty input keeps its shape
    with ctx.case("empty"):
        out = np.asarray(Quantization("int8").quantize(np.zeros((0, 3)), 0, 1.0))
        ctx.ok(out.shape == (0, 3), "shape", "empty array became %s" % (out.shape,))
