"""P10: uint8 linear operators."""
import copy
import numpy as np
from harness import gen
from harness.opjson import node, op
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.onnx.dequantize_linear import DequantizeLinear
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
from itcl_inference_engine.layers.onnx.quantize_linear import QuantizeLinear

RULE = ("random scales, zero points 0..255, uint8 tensors of 1-4 dimensions, saturating and mid-range outputs, each operator built "
        "directly and from JSON; oracle float64 with a tie band; non-trivial = distinct operator description and input")
L = np.longdouble


def zp(rng):
    return gen.zero_point(rng, 0, 255)


def check(ctx, name, objs, x, v, exact_tie=1e-7, rows=True):
    """v: exact real value in output codes (zero point included)."""
    v = np.asarray(v, dtype=L)
    band = exact_tie * (1 + np.abs(v))
    lo = np.clip(np.ceil(v - L(0.5) - band), 0, 255).astype(np.float64)
    hi = np.clip(np.floor(v + L(0.5) + band), 0, 255).astype(np.float64)
    ctx.observe("saturated-low", int(np.sum(v < -0.5)))
    ctx.observe("saturated-high", int(np.sum(v > 255.5)))
    ctx.observe("inner", int(np.sum((v >= 0) & (v <= 255))))
    outs = []
    for nm, o in objs.items():
        keep = x.copy()
        y = np.asarray(o.infer(x))
        outs.append(y)
        ctx.ok(y.shape == v.shape, "shape", "%s %s: shape %s expected %s" % (name, nm, y.shape, v.shape))
        ctx.ok(np.issubdtype(y.dtype, np.integer), "integer", "%s returns %s" % (name, y.dtype))
        yf = y.astype(np.float64)
        bad = (yf < lo) | (yf > hi)
        ctx.ok(not bad.any(), "nearest-" + name, lambda: "%s %s: got %s expected %s at %s (real %s)" % (
            name, nm, yf[bad][:4], lo[bad][:4], np.argwhere(bad)[:2].tolist(), v[bad][:4]))
        ctx.same(x, keep, "input-modified", name)
        if rows and (x.ndim > 1 and name != "matmul" or (name == "matmul" and x.ndim == 2)):
            r = np.stack([np.asarray(o.infer(row)) for row in x])
            ctx.ok(np.all(np.abs(r.astype(int) - y) <= (hi - lo)), "batch-vs-vector", "%s rows alone differ from the batch" % name)
    ctx.same(outs[0], outs[-1], "direct-vs-json", name)


def uin(rng, shp):
    return gen.codes(rng, 0, 255, shp).astype(np.uint8)


def run(ctx):
    rng = ctx.rng
    for n in ("matmul", "add", "sigmoid", "quantize"):
        ctx.need("nearest-" + n, 300)
    for n in ("saturated-low", "saturated-high", "inner"):
        ctx.need(n, 200)
    for i in ctx.loop(1000, 15000):
        n_in, n_out = int(rng.integers(1, 12)), int(rng.integers(1, 7))
        if rng.random() < 0.03:
            n_in, n_out = int(rng.integers(100, 900)), int(rng.choice([n_out, 90, 300]))
        W = uin(rng, (n_out, n_in))
        si, sw = gen.scale(rng, -4, 0), gen.scale(rng, -4, 0)
        zi, zw, zo = zp(rng), zp(rng), zp(rng)
        so = si * sw * float(np.sqrt(n_in) * 100 * 2.0 ** rng.uniform(-3, 5))
        shp = [(n_in,), (int(rng.integers(1, 7)), n_in), (1, n_in), (2, 3, n_in)][int(rng.integers(0, 4))]
        x = uin(rng, shp)
        with ctx.case("matmul", W=W, si=si, sw=sw, so=so, zi=zi, zw=zw, zo=zo, x=x):
            d = op("QLinearMatMul", "mm", [node(si, zi, dtype="uint8"), node(sw, zw, W, "uint8"), node(so, zo, dtype="uint8")], [])
            keep = copy.deepcopy(d)
            acc = (x.astype(np.int64) - zi) @ (W.astype(np.int64) - zw).T
            v = acc.astype(L) * (L(si) * L(sw) / L(so)) + zo
            check(ctx, "matmul", {"direct": QLinearMatMul(si, zi, W, sw, zw, so, zo), "json": QLinearMatMul.from_model(d), "built": build_operator(d)}, x, v)
            ctx.ok(d == keep, "description-modified", "matmul")

        shp = gen.shape(rng, 4, 5) if i % 60 else (int(rng.integers(20, 200)), int(rng.integers(20, 100)))
        bshp = shp if rng.random() < 0.4 else shp[-1:]
        x, b = uin(rng, shp), uin(rng, bshp)
        sb = si * float(2.0 ** rng.uniform(-3, 3))
        so = (si + sb) * float(2.0 ** rng.uniform(-3, 2))
        zb = zp(rng)
        with ctx.case("add", si=si, sb=sb, so=so, zi=zi, zb=zb, zo=zo, b=b, x=x):
            d = op("QLinearAdd", "add", [node(si, zi, dtype="uint8"), node(sb, zb, b, "uint8"), node(so, zo, dtype="uint8")], [])
            v = ((x.astype(L) - zi) * L(si) + (b.astype(L) - zb) * L(sb)) / L(so) + zo
            check(ctx, "add", {"direct": QLinearAdd(si, zi, b, sb, zb, so, zo), "json": QLinearAdd.from_model(d), "built": build_operator(d)}, x, v, rows=bshp == shp[-1:])
            ctx.same(np.array(d["inputs"][1]["tensor"]["tensor"]), b, "description-modified", "bias tensor")

        s1, s2 = float(2.0 ** rng.uniform(-8, 3)), float(rng.choice([1 / 256, 1 / 255, 1 / 128, 0.002, 0.02]))
        x = uin(rng, shp)
        with ctx.case("sigmoid", s1=s1, s2=s2, zi=zi, zo=zo, x=x):
            d = op("QLinearSigmoid", "sig", [node(s1, zi, dtype="uint8"), node(s2, zo, dtype="uint8")], [])
            r = (x.astype(L) - zi) * L(s1)
            e = np.exp(-np.abs(r))
            v = np.where(r >= 0, 1 / (1 + e), e / (1 + e)) / L(s2) + zo
            check(ctx, "sigmoid", {"direct": QLinearSigmoid(s1, zi, s2, zo), "json": QLinearSigmoid.from_model(d), "built": build_operator(d)}, x, v)

        s = gen.scale(rng)
        r = gen.reals(rng, shp, -200, 200) * s
        if rng.random() < 0.2:
            r = r * float(10.0 ** rng.uniform(0, 8))
        if rng.random() < 0.3:
            r = r.astype(np.float32)
        with ctx.case("quantize", s=s, zo=zo, x=r):
            d = op("QuantizeLinear", "q", [node(s, zo, dtype="uint8")], [])
            v = r.astype(L) / L(s) + zo
            check(ctx, "quantize", {"direct": QuantizeLinear(s, zo), "json": QuantizeLinear.from_model(d), "built": build_operator(d)}, r, v,
                  exact_tie=1e-6 if r.dtype == np.float32 else 1e-9)
        x = uin(rng, shp)
        with ctx.case("dequantize", s=s, zi=zi, x=x):
            d = op("DequantizeLinear", "dq", [node(s, zi, dtype="uint8")], [])
            e = (x.astype(np.float64) - zi) * s
            for o in (DequantizeLinear(s, zi), DequantizeLinear.from_model(d), build_operator(d)):
                keep = x.copy()
                y = o.infer(x)
                ctx.close(y, e, np.abs(e) * 1e-6, "dequantize", "dequantized codes")
                ctx.same(x, keep, "input-modified", "dequantize")
                ctx.same(QuantizeLinear(s, zi).infer(np.asarray(y)), x, "roundtrip", "quantize(dequantize(codes))")
