"""P12: softmax."""
import numpy as np
from harness import gen
from harness.opjson import node, op
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.onnx.softmax import Softmax
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.tflite.softmax import SoftMax

RULE = ("float32/float64 tensors of 1-4 dimensions, 1..40 classes, magnitudes 1e-6..1e30, equal entries, one-hot logits; oracle: "
        "long-double log-sum-exp per sample plus sum, order, shift and batch-independence monitors; non-trivial = distinct tensors")


def oracle(x):
    x = x.astype(np.longdouble)
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def run(ctx):
    rng = ctx.rng
    ctx.need("definition", 500)
    ctx.need("over-700", 50)
    for i in ctx.loop(3000, 40000):
        shp = gen.shape(rng, 5, 4)[:-1] + (int(rng.integers(1, 41)) if i % 40 else int(rng.choice([128, 1000, 3000])),)
        mag = float(10.0 ** rng.uniform(-6, 4)) if rng.random() < 0.9 else float(10.0 ** rng.uniform(4, 30))
        x = gen.reals(rng, shp, -mag, mag)
        k = rng.integers(0, 6)
        if k == 0:
            x = np.full(shp, float(rng.uniform(-mag, mag)))
        elif k == 1 and len(shp) > 1:      # samples of very different magnitude in a batch
            x = x + rng.uniform(-mag, mag, shp[:-1] + (1,)) * 10
        dt = np.float32 if rng.random() < 0.5 else np.float64
        x = x.astype(dt)
        eps = float(np.finfo(dt).eps) * 64
        with ctx.case("softmax", x=x, dtype=str(x.dtype)):
            keep = x.copy()
            ops = [Softmax(), Softmax.from_model(op("Softmax", "s", [], [])), build_operator(op("Softmax", "s", [], []))]
            o = ops[i % 3]
            if i % 37 == 0 and mag < 1e4:
                n = np.round(x).astype(str(rng.choice(["int32", "int64"])))
                ctx.close(o.infer(n), oracle(n), 1e-6, "definition", "whole numbers given as integers")
            y = np.asarray(o.infer(x))
            ctx.same(x, keep, "input-modified", "softmax")
            ctx.ok(y.shape == x.shape, "shape", "%s expected %s" % (y.shape, x.shape))
            ctx.ok(np.isfinite(y).all() and (y >= 0).all(), "finite", lambda: "not finite and non-negative: %s for %s" % (y.ravel()[:5], x.ravel()[:5]))
            ctx.observe("over-700", int(np.abs(x).max() > 700))
            ctx.close(y.astype(np.float64).sum(axis=-1), np.ones(shp[:-1]), 1e-4 if dt == np.float32 else 1e-9, "sums-to-one", "sum of a sample")
            e = oracle(x)
            # rounding of x-max in the input type is allowed
            tol = e.astype(float) * (eps * (1 + np.abs(x - x.max(axis=-1, keepdims=True)).astype(float))) + 1e-12
            ctx.close(y, e, np.maximum(tol, 1e-6 if dt == np.float32 else 1e-10), "definition", "exp(x)/sum(exp(x))")
            big = e > 1e-30
            rel = (2e-5 if dt == np.float32 else 1e-10) + eps * np.abs(x - x.max(axis=-1, keepdims=True)).astype(float)
            ctx.close(np.asarray(y, float)[big], e[big], (e.astype(float) * rel)[big], "definition", "small probabilities")
            # order: a larger logit never gets a smaller probability
            o2 = np.argsort(x, axis=-1, kind="stable")
            ys = np.take_along_axis(y, o2, axis=-1).astype(float)
            ctx.ok((np.diff(ys, axis=-1) >= -1e-7 * ys.max()).all(), "order", "order of a sample not preserved")
            if mag < 1e4:
                c = float(rng.choice([1.0, -3.5, 1000.0, -1000.0, 64.0]))
                x2 = x.astype(np.float64)
                ctx.close(o.infer(x2 + c), o.infer(x2), 1e-8, "shift", "adding %s" % c)
            if x.ndim > 1:
                rows = x.reshape(-1, shp[-1])
                yr = np.stack([np.asarray(o.infer(r)) for r in rows]).reshape(y.shape)
                ctx.close(yr, y, 1e-6 if dt == np.float32 else 1e-10, "batch-independence", "a sample alone and in its batch")
        with ctx.case("passthrough", i=i):
            kind = str(rng.choice(["int8", "int8", "uint8", "int16", "uint16", "int32", "int64"]))
            lo, hi = gen.limits(kind) if kind != "int64" else (-2 ** 40, 2 ** 40)
            q = gen.codes(rng, lo, hi, gen.shape(rng)).astype(kind)
            keep = q.copy()
            s, z = gen.scale(rng), int(rng.integers(-128, 128))
            d = op(str(rng.choice(["SOFTMAX", "softmax"])), "s", [node(s, z)], [node(1 / 256, -128)])
            for o in (SoftMax(s, z), SoftMax.from_model(d), build_layer(d)):
                ctx.same(o.infer(q), keep, "passthrough", "integer softmax changes its input")
            ctx.same(q, keep, "input-modified", "softmax")
