"""P02: per-element floor/ceiling decisions."""
import numpy as np
from harness import gen
from itcl_quantization import Quantization

RULE = ("random data x per-element 0/1 decisions (all patterns of small arrays, random for larger), boundary "
        "codes, mismatched shapes; non-trivial = distinct (type, parameters, data, decisions)")


def oracle(x, r, zp, s, lo, hi):
    """-> (low, high) admissible codes, differing only where value/scale+zp is an integer up to roundoff."""
    v = np.asarray(x, dtype=np.float64) / s + zp
    eps = (np.abs(v) + abs(zp) + 1) * 2.0 ** -50
    a = np.floor(v - eps) + r
    b = np.floor(v + eps) + r
    return np.clip(a, lo, hi), np.clip(b, lo, hi)


def run(ctx):
    rng = ctx.rng
    ctx.need("decision", 500)
    ctx.need("fallback", 50)
    for i in ctx.loop(10000, 40000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s, zp = gen.scale(rng), 0
        zp = gen.zero_point(rng, lo, hi)
        shp = gen.shape(rng) if i % 50 else gen.big_shape(rng)
        x = rng.uniform((lo - zp) * s - 3 * s, (hi - zp) * s + 3 * s, shp)
        if rng.random() < 0.3:
            x = (gen.codes(rng, lo, hi, shp) + rng.choice([0, 0.25, 0.5, 0.75, 0.999], size=shp) - zp) * s
        r = rng.integers(0, 2, shp)
        kind = str(rng.choice(["int", "float", "bool", "uint8"]))
        with ctx.case("decision", dtype=name, scale=s, zp=zp, x=x, r=r, kind=kind):
            rp = r.astype({"int": np.int64, "float": np.float64, "bool": bool, "uint8": np.uint8}[kind])
            rb, xb = rp.copy(), x.copy()
            q = Quantization(name)
            out = np.asarray(q.quantize(x, zp, s, rounding_policy=rp))
            ctx.ok(out.shape == x.shape, "shape", "shape changed")
            ctx.ok(out.dtype.kind in "iu", "integer", "not integer codes")
            a, b = oracle(x, r, zp, s, lo, hi)
            o = out.astype(np.float64)
            ctx.ok(np.all((o >= a) & (o <= b)), "decision", lambda: "floor/ceil decision not honoured: %s not in %s..%s" % (
                o.ravel()[:8], a.ravel()[:8], b.ravel()[:8]))
            ctx.same(rp, rb, "input-modified", "decisions modified")
            ctx.same(x, xb, "input-modified", "data modified")
            # locality: flipping one decision changes at most that element
            j = tuple(int(rng.integers(0, d)) for d in shp)
            r2 = rp.copy()
            r2[j] = 1 - r2[j].astype(np.int64)
            out2 = np.asarray(q.quantize(x, zp, s, rounding_policy=r2)).astype(np.int64)
            diff = out2 - out.astype(np.int64)
            d = diff[j]
            diff[j] = 0
            ctx.ok(not diff.any(), "local", "one decision changed another element")
            ctx.ok(d in (0, 1 if not r[j] else -1), "local", "flipping a decision moved its code by %s" % d)
            # round-to-nearest decisions reproduce plain rounding
            v = x / s + zp
            near = np.round(rng.random() * 0) + (v - np.floor(v) >= 0.5)
            frac = v - np.floor(v)
            safe = np.abs(frac - 0.5) > 1e-6 * np.maximum(1, np.abs(v) * 1e-6)
            plain = np.asarray(q.quantize(x, zp, s)).astype(np.int64)
            viad = np.asarray(q.quantize(x, zp, s, rounding_policy=near)).astype(np.int64)
            ctx.ok(np.all((plain == viad) | ~safe), "nearest-decisions", "round-to-nearest decisions differ from nearest rounding")
            ctx.observe("elements", out.size)
    # representable values and exact fractions: scales of few bits make value/scale exact
    for i in ctx.loop(1000, 4000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s = float(2.0 ** rng.integers(-10, 8)) * (int(rng.integers(0, 500)) * 2 + 1 if rng.random() < 0.6 else 1)
        zp = gen.zero_point(rng, lo, hi)
        n = gen.codes(rng, lo, hi, (9,))
        r = rng.integers(0, 2, 9)
        f = rng.choice([0, 0, 0.25, 0.5], size=9)
        with ctx.case("exact", dtype=name, scale=s, zp=zp, codes=n, fractions=f, r=r):
            out = np.asarray(Quantization(name).quantize((n - zp + f) * s, zp, s, rounding_policy=r)).astype(np.int64)
            ctx.same(out, np.minimum(n + r, hi), "decision", "decisions at values exactly on a code")
    # every decision pattern of a small array
    for name in ("int8", "uint8", "int4"):
        lo, hi = gen.limits(name)
        x = np.array([[0.3, -0.7, 1.0], [126.6, -129.4, 0.5]]) * 0.1
        for zp in (lo, 0 if lo <= 0 else lo, hi):
            for m in range(64):
                r = np.array([(m >> k) & 1 for k in range(6)]).reshape(2, 3)
                with ctx.case("pattern", dtype=name, zp=zp, pattern=m):
                    out = np.asarray(Quantization(name).quantize(x, zp, 0.1, rounding_policy=r)).astype(np.float64)
                    a, b = oracle(x, r, zp, 0.1, lo, hi)
                    ctx.ok(np.all((out >= a) & (out <= b)), "decision", "pattern %d" % m)
    # a decision array that cannot be matched
    for i in ctx.loop(800, 2000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s, zp = gen.scale(rng), gen.zero_point(rng, lo, hi)
        n = int(rng.integers(2, 7))
        shp = (n,) if rng.random() < 0.5 else (int(rng.integers(2, 5)), n)
        bad = tuple(d + int(rng.integers(1, 4)) for d in shp)
        k = rng.random()
        if k < 0.2:
            shp, bad = (2, n + 1), (n + 1, 2)       # as many decisions, in another shape
        elif k < 0.3:
            shp, bad = (2, n), (2 * n,)
        elif k < 0.4:
            shp, bad = (n + 1,), (n,)
        with ctx.case("mismatch", dtype=name, shape=shp, bad=bad, scale=s, zp=zp):
            x = rng.uniform((lo - zp) * s, (hi - zp) * s, shp)
            q = Quantization(name)
            r = rng.integers(0, 2, bad)
            out = np.asarray(q.quantize(x, zp, s, rounding_policy=r))
            ctx.same(out, q.quantize(x, zp, s), "fallback", "an unmatched decision array did not fall back to nearest rounding")
