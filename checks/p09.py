"""P09: integer-only fixed-point rescaling."""
from fractions import Fraction
import numpy as np
from harness import gen
from itcl_inference_engine.util.floating import FloatingIntegerApprox

RULE = ("factors 0, 2^-80..2^20, next to powers of two, float32 values; integers of up to 31 bits as python ints, numpy scalars and "
        "arrays of every integer width and shape; oracle exact rationals; non-trivial = distinct (factor, values)")
WIDTHS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def factor(rng):
    k = rng.integers(0, 8)
    if k == 0:
        return float(2.0 ** rng.integers(-70, 21))
    if k == 1:
        return float(np.nextafter(2.0 ** rng.integers(-40, 20), rng.choice([0.0, 1e9])))
    if k == 2:
        return float(2.0 ** rng.integers(-40, 20) * (1 - 2.0 ** -rng.integers(28, 40)))
    if k == 3:
        return float(rng.choice([0.0, 1.0, 0.5, 1e-9, 1e-12, 4e-10, 2.3e-10, 0.1, 1 / 3, 1e6, 7.0]))
    if k == 4:
        return float(rng.uniform(0, 4))
    return float(2.0 ** rng.uniform(-36, 20))


def ints(rng, name, shp):
    lo, hi = gen.limits(name) if name[-2:] not in ("32", "64") else (0 if name[0] == "u" else -2 ** 31 + 1, 2 ** 31 - 1)
    k = rng.integers(0, 4)
    if k == 0:
        return rng.choice(np.array([lo, hi, 0, 1, max(lo, -1)]), size=shp).astype(np.int64)
    if k == 1:
        return rng.integers(max(lo, -20), min(hi, 20) + 1, size=shp).astype(np.int64)
    return rng.integers(lo, hi + 1, size=shp).astype(np.int64)


def run(ctx):
    rng = ctx.rng
    ctx.need("within", 2000)
    ctx.need("vanishing", 20)
    for i in ctx.loop(5000, 80000):
        f = factor(rng)
        w = str(rng.choice(WIDTHS))
        form = str(rng.choice(["int", "npscalar", "array", "array", "array"]))
        shp = () if form != "array" else gen.shape(rng, 4, 4) if i % 80 else (int(rng.choice([300, 1500])),)
        x = ints(rng, w, shp)
        arg = int(x) if form == "int" else (np.dtype(w).type(int(x)) if form == "npscalar" else x.astype(w))
        with ctx.case("fixed", factor=f, width=w, form=form, x=x):
            keep = np.array(arg, copy=True)
            a = FloatingIntegerApprox(f, integer_only=True)
            r = a * arg
            ctx.ok(np.shape(r) == shp, "shape", "shape %s expected %s" % (np.shape(r), shp))
            rr = np.ravel(np.asarray(r))
            ctx.ok(np.issubdtype(rr.dtype, np.integer) or rr.dtype == object, "integer", "result of dtype %s is not integer" % rr.dtype)
            F = Fraction(f)
            for xi, ri in zip(np.ravel(x), rr):
                e = F * int(xi)
                ctx.ok(abs(Fraction(int(ri)) - e) <= 1 + abs(e) / 2 ** 30, "within", lambda: "%r * %d gave %d, exact %s" % (f, xi, ri, float(e)))
            if f < 2.0 ** -33:
                ctx.observe("vanishing")
                ctx.ok(not rr.any(), "vanishing-is-zero", "a factor of %r gave %s" % (f, rr[:4]))
            ctx.same(arg, keep, "operand-modified", "operand modified")
            ctx.same(a * arg, r, "repeatable", "second multiplication differs")
            g = FloatingIntegerApprox(f, integer_only=False) * arg
            ctx.close(g, np.asarray(x, dtype=np.float64) * f, np.abs(np.asarray(x, dtype=np.float64) * f) * 1e-12 + 1e-300, "floating", "floating mode of %r" % f)
