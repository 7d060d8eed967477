"""P11: quantized activation layers."""
import copy
import numpy as np
from harness import gen
from harness.opjson import node, op, lut_json
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_inference_engine.layers.common.relu import RELU
from itcl_inference_engine.layers.common.sigmoid import SigmoidLUT
from itcl_inference_engine.layers.common.tanh import TanhLUT
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.tflite.logistic import Sigmoid
from itcl_inference_engine.layers.tflite.tanh import Tanh
from itcl_quantization.quantization.lut import ReducedLUT

RULE = ("every code of the type through every layer under random scales and zero points, tables full and reduced (depths 0..10, both "
        "modes, serialized), tensors of 1-4 dimensions and several integer dtypes; oracle float64 activation; non-trivial = distinct "
        "(layer, parameters)")


def tanh(x):
    return np.tanh(x)


def sigmoid(x):
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def real(c, s, z):
    return (np.asarray(c, dtype=np.float64) - z) * s


def within_one(ctx, y, v, lo, hi, mech, msg):
    y = np.asarray(y)
    ctx.ok(np.issubdtype(y.dtype, np.integer) or np.all(y == np.floor(y)), "integer", "%s: %s" % (msg, y.dtype))
    ctx.ok(y.size == 0 or (y.min() >= lo and y.max() <= hi), "saturate", "%s: codes %s..%s" % (msg, y.min() if y.size else 0, y.max() if y.size else 0))
    ctx.close(y.astype(np.float64), np.clip(np.floor(v + 0.5), lo, hi), 1, mech, msg)


def shaped(rng, codes):
    """All the codes in an array of some shape, then an integer dtype."""
    c = rng.permutation(codes) if rng.random() < 0.5 else codes.copy()
    n = len(c)
    shapes = [(n,), (1, n), (n, 1)] + ([(2, n // 2), (n // 4, 2, 2), (1, n // 2, 1, 2)] if n % 4 == 0 else [])
    return c.reshape(shapes[int(rng.integers(0, len(shapes)))])


def run(ctx):
    rng = ctx.rng
    for n in ("tanh", "logistic", "rectifier", "table", "onnx-tanh"):
        ctx.need(n, 40)
    ctx.need("rectifier-saturated", 20)
    int8 = np.arange(-128, 128, dtype=np.int64)
    for i in ctx.loop(300, 5000):
        s, z = float(10.0 ** rng.uniform(-5, 1)), int(gen.zero_point(rng, -128, 127))
        x = shaped(rng, int8).astype(str(rng.choice(["int8", "int16", "int32", "int64"])))
        for name, cls, f, so, zo in (("TANH", Tanh, tanh, 1 / 128, 0), ("LOGISTIC", Sigmoid, sigmoid, 1 / 256, -128)):
            with ctx.case(name, s=s, z=z, x=x):
                d = op(name, name, [node(s, z)], [node(so, zo)])
                keep, x0 = copy.deepcopy(d), x.copy()
                objs = [cls(s, z), cls.from_model(d), build_layer(d)] + ([Tanh.from_node(d["inputs"][0])] if cls is Tanh else [])
                for o in objs:
                    y = o.infer(x)
                    within_one(ctx, y, f(real(x, s, z)) / so + zo, -128, 127, name.lower(), name)
                    ctx.same(x, x0, "input-modified", name)
                ctx.ok(d == keep, "description-modified", name)

        so, zo = s * float(2.0 ** rng.choice([0, 0, -1, 1, -3, 3, rng.uniform(-4, 4)])), int(gen.zero_point(rng, -128, 127))
        if rng.random() < 0.3:
            so, zo = s, z
        with ctx.case("RELU", s=s, z=z, so=so, zo=zo, x=x):
            d = op(str(rng.choice(["RELU", "relu"])), "r", [node(s, z)], [node(so, zo)])
            x0 = x.copy()
            v = np.maximum(real(x, s, z), 0) / so + zo
            ctx.observe("rectifier-saturated", int(v.max() > 127))
            for o in (RELU(s, z, so, zo), RELU.from_model(d), build_layer(d)):
                y = np.asarray(o.infer(x))
                within_one(ctx, y, v, -128, 127, "rectifier", "rectifier k=%g" % (s / so))
                ctx.ok(y.min() >= zo, "rectifier-floor", "code %s below the zero code %s" % (y.min(), zo))
                ctx.ok(np.all(y[x <= z] == zo), "rectifier-floor", "a non-positive input is not the zero code")
                ctx.same(x, x0, "input-modified", "RELU")

        with ctx.case("onnx-tanh", i=i):
            r = gen.reals(rng, gen.shape(rng), -5, 5)
            ctx.close(build_operator(op("Tanh", "t", [], [])).infer(r), np.tanh(r), 1e-12, "onnx-tanh", "float tanh")

        # table layers: the table of an activation, of any integer content, full and reduced
        name = str(rng.choice(["int8", "uint8", "int8", "uint8", "int4", "uint6", "int9", "int10"] if i % 50 else ["int16", "uint16"]))
        lo, hi = gen.limits(name)
        codes = np.arange(lo, hi + 1)
        st = float(2.0 ** rng.uniform(-9, 0))
        zt = int(gen.zero_point(rng, lo, hi))
        f = [tanh, sigmoid][int(rng.integers(0, 2))]
        sto = (2.0 if f is tanh else 1.0) / (hi - lo)
        zto = (lo + hi + 1) // 2 if f is tanh else lo
        if rng.random() < 0.8:
            v = f(real(codes, st, zt)) / sto + zto
            table = np.clip(np.floor(v + 0.5), lo, hi).astype(int)
        else:
            wide = [(lo, hi), (-2 ** 15, 2 ** 15 - 1), (0, 2 ** 16 - 1), (-2 ** 31, 2 ** 31 - 1)][int(rng.integers(0, 4))]
            table = rng.integers(wide[0], wide[1] + 1, len(codes))      # the produced codes may be of another type
            v = None
        depth, asym = int(rng.integers(0 if len(codes) < 5000 else 1, 11)), bool(rng.integers(0, 2))     # depth 0 prunes everything: a search per lookup
        x = shaped(rng, codes)
        dts = ["int64", "int32"] + (["int16"] if hi < 2 ** 15 else []) + ([name] if name in ("int8", "uint8", "int16", "uint16") else [])
        x = x.astype(str(rng.choice(dts)))
        with ctx.case("table", type=name, s=st, z=zt, depth=depth, asymmetric=asym, table=table, x=x):
            red = ReducedLUT([int(t) for t in table], depth, int(rng.integers(0, 4)), asymmetric=asym).serialize()
            import json
            red = json.loads(json.dumps(red))
            nodes = {"full": node(st, zt, dtype=name, lut=lut_json(table, -lo)), "reduced": node(st, zt, dtype=name, lut=lut_json(table, -lo, red))}
            e = np.asarray(table)[x.astype(np.int64) - lo]
            x0 = x.copy()
            for nm, nd in nodes.items():
                kind = "TanhLUT" if f is tanh else "SigmoidLUT"
                d = op(kind, "t", [nd], [])
                keep = copy.deepcopy(d)
                objs = [LUTActivation.from_node(nd), (TanhLUT if f is tanh else SigmoidLUT).from_model(d), build_operator(d),
                        build_layer(op(str(rng.choice([kind, kind.upper()])), "t", [nd], []))]
                if nm == "full":
                    objs.append(LUTActivation(list(int(t) for t in table), -lo))
                for o in objs:
                    y = np.asarray(o.infer(x))
                    ctx.same(y, e, "table", "%s table lookup" % nm)
                    ctx.same(x, x0, "input-modified", "table")
                    if v is not None:
                        within_one(ctx, y, v[x.astype(np.int64) - lo], lo, hi, "table-activation", nm)
                    ctx.ok(np.asarray(o.infer(x[:0])).shape == x[:0].shape, "table-empty", "empty tensor")
                ctx.ok(d == keep, "description-modified", "table")
