"""P03: dequantization is the exact affine inverse."""
import numpy as np
from harness import gen
from itcl_quantization import Quantization

RULE = ("every code of types up to 12 bits (16 in thorough) and random/boundary codes of wider ones, codes "
        "stored in every integer width that holds them; non-trivial = distinct (type, scale, zp, storage)")


def run(ctx):
    rng = ctx.rng
    ctx.need("affine", 300)
    ctx.need("round-trip", 300)
    storages = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64]
    for i in ctx.loop(6000, 20000):
        name = gen.dtype_name(rng)
        lo, hi = gen.limits(name)
        s, zp = gen.scale(rng, -5, 3), gen.zero_point(rng, lo, hi)
        if hi - lo < 4096 or (ctx.thorough and hi - lo < 70000 and i % 50 == 0):
            n = np.arange(lo, hi + 1)
        else:
            n = np.concatenate([[lo, lo + 1, hi - 1, hi, zp], rng.integers(lo, hi + 1, 40 if i % 50 else 70001 if i % 200 else 300001)])
        fits = [t for t in storages if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]
        st = fits[int(rng.integers(0, len(fits)))]
        shaped = rng.random() < 0.3
        zform = str(rng.choice(["int", "np32", "native"]))
        with ctx.case("inverse", dtype=name, scale=s, zp=zp, storage=st.__name__, zform=zform, shaped=shaped, n=len(n)):
            q = Quantization(name)
            data = n.astype(st)
            if shaped and len(data) >= 4:
                data = data[: len(data) // 4 * 4].reshape([(2, -1), (-1, 2), (1, 2, -1, 2), (2, 2, 1, 1, -1)][int(rng.integers(0, 4))])
                data = [data, np.asfortranarray(data), data[::-1]][int(rng.integers(0, 3))]
            z = {"int": zp, "np32": np.int64(zp), "native": st(zp)}[zform]
            before = data.copy()
            given = data.tolist() if rng.random() < 0.2 else data
            r = np.asarray(q.dequantize(given, z, s))
            ctx.ok(r.shape == data.shape, "shape", "shape changed")
            ctx.ok(r.dtype.kind == "f", "real", "result is not real: %s" % r.dtype)
            exp = (data.astype(np.float64) - float(zp)) * s
            ctx.close(r, exp, np.abs(exp) * 1e-6 * 1e-6 + 1e-300, "affine", "scale*(code-zp) of %s codes" % st.__name__)
            ctx.same(data, before, "input-modified", "codes modified")
            back = np.asarray(q.quantize(r, zp, s)).astype(np.int64)
            ctx.same(back, data.astype(np.int64), "round-trip", "quantize(dequantize(code)) != code")
            z0 = np.asarray(q.dequantize(np.array([zp]), z, s))
            ctx.ok(z0[0] == 0, "zero", "the zero point does not represent zero")
            ctx.ok(int(np.asarray(q.quantize([0.0], zp, s))[0]) == zp, "zero", "zero does not map to the zero point")
            sc = q.dequantize(int(hi), zp, s)
            ctx.close(sc, (float(hi) - zp) * s, abs((float(hi) - zp) * s) * 1e-12, "affine", "scalar code")
            ctx.observe("codes", data.size)
