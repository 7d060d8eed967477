"""P05: LUT creation."""
import math
import numpy as np
from harness import gen
from itcl_quantization import Quantization

RULE = "functions (monotone, even, unbounded, discontinuous, integer-valued) x types up to 12 bits x random parameters; every entry checked; non-trivial = distinct (function, type, parameters)"

FUNS = {
    "tanh": math.tanh, "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x)),
    "cos": math.cos, "relu": lambda x: max(0.0, x), "relu-int0": lambda x: max(0, x), "abs": abs, "id": lambda x: x, "square": lambda x: x * x,
    "step": lambda x: 1.0 if x >= 0 else 0.0, "step-int": lambda x: 1 if x >= 0 else 0, "leaky": lambda x: x if x > 0 else 0.1 * x,
    "const": lambda x: 0.37, "np.tanh": np.tanh, "neg": lambda x: -x, "sign-int-then-real": lambda x: -1 if x < -1 else x,
    "exp": lambda x: math.exp(x) if x < 700 else math.inf, "neg-exp": lambda x: -math.exp(x) if x < 700 else -math.inf,
}


def run(ctx):
    rng = ctx.rng
    ctx.need("entry", 100)
    names = list(FUNS)
    for i in ctx.loop(2000, 6000):
        fn = names[i % len(names)]
        f = FUNS[fn]
        name = str(rng.choice(["int8", "uint8", "int4", "uint4", "int5", "int10", "uint7", "int2", "uint1"] + (["int12", "uint16", "int16"] if i % 40 == 0 else [])))
        lo, hi = gen.limits(name)
        i_s, o_s = gen.scale(rng, -4, 1), gen.scale(rng, -4, 1)
        if fn.endswith("exp") and i % 2:
            i_s = float(rng.uniform(800, 3000)) / (hi - lo)      # infinite at one end
        if rng.random() < 0.4:
            i_s, o_s = 8.0 / (hi - lo + 1), 2.0 / (hi - lo + 1)
        i_zp, o_zp = gen.zero_point(rng, lo, hi), gen.zero_point(rng, lo, hi)
        with ctx.case("lut", fn=fn, dtype=name, i_s=i_s, i_zp=i_zp, o_s=o_s, o_zp=o_zp):
            q = Quantization(name if rng.random() < 0.7 or not hasattr(np, name) else getattr(np, name))
            lut = q.create_LUT(f, i_s, i_zp, o_s, o_zp)
            ctx.ok(isinstance(lut, list), "list", "the table is a %s" % type(lut))
            ctx.ok(len(lut) == hi - lo + 1, "length", "%d entries for %d codes" % (len(lut), hi - lo + 1))
            ctx.ok(all(float(v) == int(v) for v in lut), "integer", "non-integer entries")
            arr = np.array(lut, dtype=np.float64)
            ctx.ok(arr.min() >= lo and arr.max() <= hi, "in-range", "entries outside the type")
            real = np.array([float(f((c - i_zp) * i_s)) for c in range(lo, hi + 1)])
            v = real / o_s + o_zp
            exp = np.clip(v, lo, hi)
            ctx.observe("infinite-values", int(np.isinf(real).sum()))
            tol = 0.5 + np.where(np.isinf(v), 0, (np.abs(v) + abs(o_zp) + 1) * 1e-12)
            bad = np.abs(arr - exp) > tol
            ctx.ok(not bad.any(), "entry", lambda: "entry of code %s is %s, expected nearest of %s" % (
                (np.arange(lo, hi + 1)[bad][:4]).tolist(), arr[bad][:4], exp[bad][:4]))
            for c in (lo, hi, min(max(0, lo), hi), i_zp):
                off = c - int(q.min_value())
                ctx.ok(abs(lut[off] - exp[off]) <= tol[off], "offset-lookup", "lookup of code %d" % c)
            ctx.observe("entries", len(lut))
            # a rounding decision per entry applies entrywise
            r = rng.integers(0, 2, len(lut))
            l2 = np.array(q.create_LUT(f, i_s, i_zp, o_s, o_zp, rounding_policy=r), dtype=np.float64)
            eps = np.where(np.isinf(v), 0, (np.abs(v) + abs(o_zp) + 1) * 1e-12)
            a, b = np.clip(np.floor(v - eps) + r, lo, hi), np.clip(np.floor(v + eps) + r, lo, hi)
            ctx.ok(np.all((l2 >= a) & (l2 <= b)), "entry-decision", "rounding decisions of table entries not honoured")
            fa = np.asarray(q.float_activation(f, i_s, i_zp), dtype=np.float64)
            end = np.isinf(real)
            ctx.same(fa[end], real[end], "float-table", "infinite values")
            ctx.close(fa[~end], real[~end], np.abs(real[~end]) * 1e-12 + 1e-15, "float-table", "real activation of every code")
