"""Random operator descriptions of both engines, each with its reference computation.

Every builder returns an Item: the JSON operator, a reference function on the previous operator's
exact output giving (lo, hi) bounds of the admissible result, and the type of its result.
"""
import numpy as np

from harness import gen
from harness.opjson import node, op, lut_json


class Item:
    def __init__(self, kind, desc, ref, out):
        self.kind, self.desc, self.ref, self.out = kind, desc, ref, out


class Sig:
    """What flows between operators: real or integer codes with their parameters, and the width."""

    def __init__(self, real, n, scale=None, zp=None, dtype=None, rank=2, steps=None):
        self.real, self.n, self.scale, self.zp, self.dtype, self.rank, self.steps = real, n, scale, zp, dtype, rank, steps


def code_bounds(v, lo, hi, slack):
    v = np.asarray(v, dtype=np.float64)
    return np.clip(np.floor(v + 0.5 - 1e-7 * (1 + np.abs(v))) - slack, lo, hi), np.clip(np.floor(v + 0.5 + 1e-7 * (1 + np.abs(v))) + slack, lo, hi)


def sigmoid(x):
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def real_of(x, s):
    return (np.asarray(x, dtype=np.float64) - s.zp) * s.scale


def params(rng, name, span):
    lo, hi = gen.limits(name)
    return float(span / (hi - lo) * 2.0 ** rng.uniform(-0.7, 0.7)), int(gen.zero_point(rng, lo, hi))


def rcase(rng, s):
    return s.lower() if rng.random() < 0.25 else s


# ---- TFLite engine ---------------------------------------------------------------------------
def t_quantize(rng, s, k):
    t = str(rng.choice(["INT8", "int8", "INT8", "int16"]))
    sc, z = params(rng, t.lower(), 4.0)
    lo, hi = gen.limits(t.lower())
    o = Sig(False, s.n, sc, z, t.lower(), s.rank, s.steps)
    d = op(rcase(rng, "QUANTIZE"), "quantize_%d" % k, [node(dtype="FLOAT32")], [node(sc, z, dtype=t)])
    return Item("QUANTIZE", d, lambda x: code_bounds(np.asarray(x, float) / sc + z, lo, hi, 0), o)


def t_dequantize(rng, s, k):
    o = Sig(True, s.n, rank=s.rank, steps=s.steps)
    d = op(rcase(rng, "DEQUANTIZE"), "dequantize_%d" % k, [node(s.scale, s.zp, dtype=s.dtype.upper())], [node(dtype="FLOAT32")])
    return Item("DEQUANTIZE", d, lambda x: (real_of(x, s) * (1 - 1e-6 * np.sign(real_of(x, s))), real_of(x, s) * (1 + 1e-6 * np.sign(real_of(x, s)))), o)


def t_fc(rng, s, k):
    n = int(rng.integers(1, 7))
    t = s.dtype if rng.random() < 0.8 else "int8"
    W = rng.integers(-128, 128, (n, s.n))
    ws, wz = float(2.0 ** rng.uniform(-9, -5)), int(rng.choice([0, 0, -5, 9]))
    lo, hi = gen.limits(t)
    span = 3.0 * np.sqrt(s.n)
    so, zo = params(rng, t, span)
    b = rng.integers(-2000, 2000, n)
    bs = ws * s.scale
    d = op(str(rng.choice(["FULLY_CONNECTED", "fully_connected"])), "dense_%d" % k,
           [node(s.scale, s.zp, dtype=s.dtype.upper()), node(ws, wz, W, "INT8"), node(bs, 0, b, "INT32")], [node(so, zo, dtype=t.upper())])

    def ref(x):
        v = ((np.asarray(x, dtype=np.int64) - s.zp) @ (W - wz).T + b) * (ws * s.scale / so) + zo
        return code_bounds(v, lo, hi, 1)
    return Item("FULLY_CONNECTED", d, ref, Sig(False, n, so, zo, t, 2))


def t_tanh(rng, s, k):
    d = op(rcase(rng, "TANH"), "tanh_%d" % k, [node(s.scale, s.zp)], [node(1 / 128, 0)])
    return Item("TANH", d, lambda x: code_bounds(np.tanh(real_of(x, s)) * 128, -128, 127, 1), Sig(False, s.n, 1 / 128, 0, "int8", s.rank, s.steps))


def t_logistic(rng, s, k):
    d = op(rcase(rng, "LOGISTIC"), "logistic_%d" % k, [node(s.scale, s.zp)], [node(1 / 256, -128)])
    return Item("LOGISTIC", d, lambda x: code_bounds(sigmoid(real_of(x, s)) * 256 - 128, -128, 127, 1), Sig(False, s.n, 1 / 256, -128, "int8", s.rank, s.steps))


def t_relu(rng, s, k):
    so, zo = params(rng, "int8", 254 * s.scale)
    d = op(rcase(rng, "RELU"), "relu_%d" % k, [node(s.scale, s.zp)], [node(so, zo)])
    return Item("RELU", d, lambda x: code_bounds(np.maximum(real_of(x, s), 0) / so + zo, -128, 127, 1), Sig(False, s.n, so, zo, "int8", s.rank, s.steps))


def t_softmax(rng, s, k):
    d = op(rcase(rng, "SOFTMAX"), "softmax_%d" % k, [node(s.scale, s.zp)], [node(1 / 256, -128)])
    return Item("SOFTMAX", d, lambda x: (np.asarray(x, float), np.asarray(x, float)), s)


def lut(kind):
    def build(rng, s, k):
        f = np.tanh if kind == "TanhLUT" else sigmoid
        lo, hi = gen.limits(s.dtype)
        so, zo = params(rng, s.dtype, 2.0 if f is np.tanh else 1.0)
        codes = np.arange(lo, hi + 1)
        table = np.clip(np.floor(f((codes - s.zp) * s.scale) / so + zo + 0.5), lo, hi).astype(int)
        name = kind if rng.random() < 0.5 or s.dtype.startswith("u") else kind.upper()
        red = None
        if rng.random() < 0.5:
            from itcl_quantization.quantization.lut import ReducedLUT
            red = ReducedLUT([int(t) for t in table], int(rng.integers(0, 6)), 1, asymmetric=bool(rng.integers(0, 2))).serialize()
        d = op(name, "%s_%d" % (kind, k), [node(s.scale, s.zp, dtype=s.dtype, lut=lut_json(table, -lo, red))], [node(so, zo, dtype=s.dtype)])

        def ref(x):
            r = table[np.asarray(x, dtype=np.int64) - lo].astype(float)
            return r, r
        return Item(kind, d, ref, Sig(False, s.n, so, zo, s.dtype, s.rank, s.steps))
    return build


# ---- ONNX engine -----------------------------------------------------------------------------
def o_quantize(rng, s, k):
    sc, z = params(rng, "uint8", 4.0)
    d = op("QuantizeLinear", "quant_%d" % k, [node(sc, z, dtype="uint8")], [])
    return Item("QuantizeLinear", d, lambda x: code_bounds(np.asarray(x, float) / sc + z, 0, 255, 0), Sig(False, s.n, sc, z, "uint8", s.rank))


def o_dequantize(rng, s, k):
    d = op("DequantizeLinear", "dequant_%d" % k, [node(s.scale, s.zp, dtype="uint8")], [])
    return Item("DequantizeLinear", d, lambda x: (real_of(x, s) - 1e-6 * np.abs(real_of(x, s)), real_of(x, s) + 1e-6 * np.abs(real_of(x, s))), Sig(True, s.n, rank=s.rank))


def o_matmul(rng, s, k):
    n = int(rng.integers(1, 7))
    W = rng.integers(0, 256, (n, s.n))
    ws, wz = float(2.0 ** rng.uniform(-9, -5)), int(rng.integers(0, 256))
    so, zo = params(rng, "uint8", 3.0 * np.sqrt(s.n))
    d = op("QLinearMatMul", "mm_%d" % k, [node(s.scale, s.zp, dtype="uint8"), node(ws, wz, W, "uint8"), node(so, zo, dtype="uint8")], [])

    def ref(x):
        return code_bounds(((np.asarray(x, dtype=np.int64) - s.zp) @ (W - wz).T) * (s.scale * ws / so) + zo, 0, 255, 0)
    it = Item("QLinearMatMul", d, tie(ref), Sig(False, n, so, zo, "uint8", s.rank))
    return it


def tie(ref):
    """the result may be either neighbour at a tie"""
    def f(x):
        lo, hi = ref(x)
        return np.minimum(lo, hi), np.maximum(lo, hi)
    return f


def o_add(rng, s, k):
    b = rng.integers(0, 256, (s.n,))
    bs, bz = s.scale * float(2.0 ** rng.uniform(-1, 1)), int(rng.integers(0, 256))
    so, zo = params(rng, "uint8", 300 * s.scale)
    d = op("QLinearAdd", "add_%d" % k, [node(s.scale, s.zp, dtype="uint8"), node(bs, bz, b, "uint8"), node(so, zo, dtype="uint8")], [])

    def ref(x):
        v = (real_of(x, s) + (b - bz) * bs) / so + zo
        return np.clip(np.ceil(v - 0.5 - 1e-7), 0, 255), np.clip(np.floor(v + 0.5 + 1e-7), 0, 255)
    return Item("QLinearAdd", d, ref, Sig(False, s.n, so, zo, "uint8", s.rank))


def o_sigmoid(rng, s, k):
    so, zo = 1 / 256, 0
    if rng.random() < 0.5:
        so, zo = params(rng, "uint8", 1.0)
    d = op("QLinearSigmoid", "sigmoid_%d" % k, [node(s.scale, s.zp, dtype="uint8"), node(so, zo, dtype="uint8")], [])
    return Item("QLinearSigmoid", d, lambda x: code_bounds(sigmoid(real_of(x, s)) / so + zo, 0, 255, 0), Sig(False, s.n, so, zo, "uint8", s.rank))


def o_softmax(rng, s, k):
    def ref(x):
        x = np.asarray(x, float)
        e = np.exp(x - x.max(axis=-1, keepdims=True))
        r = e / e.sum(axis=-1, keepdims=True)
        return r * (1 - 1e-6), r * (1 + 1e-6) + 1e-30
    return Item("Softmax", op("Softmax", "softmax_%d" % k, [], []), ref, Sig(True, s.n, rank=s.rank))


def o_tanh(rng, s, k):
    return Item("Tanh", op("Tanh", "tanh_%d" % k, [], []), lambda x: (np.tanh(np.asarray(x, float)) - 1e-9, np.tanh(np.asarray(x, float)) + 1e-9), Sig(True, s.n, rank=s.rank))


def choices(engine, s):
    if engine == "tflite":
        if s.real:
            return [t_quantize] * 3
        c = [t_fc, t_fc, t_dequantize, t_softmax, lut("TanhLUT"), lut("SigmoidLUT")]
        if s.rank == 3:
            c = c[2:]
        if s.dtype == "int8":
            c += [t_tanh, t_logistic, t_relu]
        return c
    if s.real:
        return [o_quantize] * 3 + [o_softmax, o_tanh]
    return [o_matmul, o_matmul, o_add, o_dequantize, o_sigmoid, lut("TanhLUT"), lut("SigmoidLUT")]


def network(rng, engine, n_ops, n_in, rank=2):
    """A random network description and its items."""
    s = Sig(True, n_in, rank=rank)
    items = []
    for k in range(n_ops):
        c = choices(engine, s)
        it = c[int(rng.integers(0, len(c)))](rng, s, k)
        items.append(it)
        s = it.out
    return items
