"""Random Keras models, datasets and quantizer configurations, shared by the checks of the quantizer.

The float model is evaluated by the checks' own numpy code (float64), never by the layers given to the
repository."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
from tensorflow import keras

from itcl_quantizer.config.models.keras import KerasDenseCfg, QuantizerCfg
from itcl_quantizer.tensor_extractor.keras import keras_builder

L = keras.layers
CODES = {"int%d" % n: (-2 ** (n - 1), 2 ** (n - 1) - 1) for n in range(2, 33)}
CODES.update({"uint%d" % n: (0, 2 ** n - 1) for n in range(2, 33)})


def steps(t):
    lo, hi = CODES[t]
    return hi - lo


def sigmoid(x):
    x = np.asarray(x, float)
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


ACT = {"linear": lambda x: x, "softmax": lambda x: x, "tanh": np.tanh, "sigmoid": sigmoid,
       "relu": lambda x: np.maximum(x, 0), "relu6": lambda x: np.clip(x, 0, 6)}
LIP = {"linear": 1.0, "softmax": 1.0, "tanh": 1.0, "sigmoid": 0.25, "relu": 1.0, "relu6": 1.0}


class DenseSpec:
    def __init__(self, name, W, b, act, cfg):
        self.name, self.W, self.b, self.act, self.cfg = name, W, b, act, cfg

    def layer(self):
        kw = {"activation": keras.activations.relu6 if False else self.act} if self.act != "linear" else {}
        d = L.Dense(self.W.shape[1], use_bias=self.b is not None, name=self.name, **kw)
        d.set_weights([self.W.astype(np.float32)] + ([self.b.astype(np.float32)] if self.b is not None else []))
        return d

    @property
    def bias(self):
        return np.zeros(self.W.shape[1]) if self.b is None else self.b

    def pre(self, x):
        return np.asarray(x, float) @ self.W + self.bias

    def describe(self):
        return [self.name, list(self.W.shape), self.act, self.b is not None, dict(self.cfg)]


def dataset(rng, n, f, kind=None):
    kind = kind or str(rng.choice(["normal", "image", "skewed", "wide", "positive", "mixed", "onehot", "negative"]))
    if kind == "normal":
        x = rng.normal(0, 1, (n, f))
    elif kind == "image":
        x = np.where(rng.random((n, f)) < 0.6, 0.0, rng.uniform(0, 1, (n, f)))
    elif kind == "skewed":
        x = rng.exponential(1.0, (n, f)) - 0.1
    elif kind == "wide":
        x = rng.uniform(-50, 30, (n, f))
    elif kind == "positive":
        x = rng.uniform(2, 3, (n, f))
    elif kind == "negative":
        x = rng.uniform(-4, -1, (n, f))
    elif kind == "onehot":
        x = np.eye(f)[rng.integers(0, f, n)]
    else:
        x = rng.normal(0, 1, (n, f)) * (10.0 ** rng.uniform(-2, 1, f))
    return kind, x.astype(np.float32)


TYPES8 = {"kernel_dtype": "int8", "bias_dtype": "int32", "activation_dtype": "int8", "bias_add_dtype": "int8"}


def dense_types(rng, base=None):
    t = dict(TYPES8)
    k = rng.random()
    if k < 0.45:
        pass
    elif k < 0.7:
        t.update(kernel_dtype=str(rng.choice(["int8", "int10", "int12"])),
                 activation_dtype=str(rng.choice(["int8", "int10", "int12"])), bias_add_dtype=str(rng.choice(["int8", "int10", "int12"])))
    elif k < 0.85:
        t.update(kernel_dtype="int12", activation_dtype="int14", bias_add_dtype="int14")
    else:
        t.update(kernel_dtype="int6", activation_dtype="int8", bias_add_dtype="int12")
    if rng.random() < 0.3:
        t["bias_dtype"] = str(rng.choice(["int28", "int30", "int31"]))
    return t


def dense_net(rng, depth=None, width=12, acts=("linear", "tanh", "sigmoid", "relu", "relu6"), types=None, tag=""):
    depth = depth or int(rng.choice([1, 1, 2, 2, 3, 4, 5, 8]))
    n_in = int(rng.integers(1, width + 1))
    specs = []
    f = n_in
    # names as Keras gives them, or ones that begin, end or contain one another
    k = int(rng.integers(0, 3))
    names = [None, ["dense%s" % tag + ("_%d" % i if i else "") for i in (0, 1, 10, 2, 11, 3, 100, 12)],
             ["head" + tag, "my_head" + tag, "head%s_out" % tag, "Head" + tag, "head%s1" % tag, "out" + tag, "a/b%s:0" % tag, "head %s.1" % tag]][k]
    if names is not None:
        names = [names[i] for i in rng.permutation(len(names))]
    for i in range(depth):
        u = int(rng.integers(1, width + 1))
        W = rng.normal(0, 1, (f, u)) * (rng.choice([0.3, 1.0, 2.0]) / np.sqrt(f))
        k = int(rng.integers(0, 12))
        if k == 0:
            W = np.abs(W)
        elif k == 1:
            W = W * (rng.random((f, u)) < 0.5)
        elif k == 2:
            W = -np.abs(W)
        W = W.astype(np.float32).astype(float)
        b = None if rng.random() < 0.25 else (rng.normal(0, rng.choice([0.0, 0.1, 0.5, 2.0]), u)).astype(np.float32).astype(float)
        act = str(rng.choice(acts))
        if i == depth - 1 and rng.random() < 0.3 and "softmax" not in acts:
            act = "softmax"
        specs.append(DenseSpec("dense%s_%d" % (tag, i) if names is None else names[i], W, b, act, types(rng) if types else TYPES8))
        f = u
    return n_in, specs


def build_model(rng, specs, n_in, extras=True):
    layers = []
    if extras and rng.random() < 0.4:
        layers.append(L.InputLayer(input_shape=(n_in,)))
    for s in specs:
        if extras and rng.random() < 0.2:
            layers.append(L.Dropout(0.5))
        layers.append(s.layer())
    if extras and rng.random() < 0.1:
        layers.append(L.Dropout(0.3))
    return keras.models.Sequential(layers)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-q-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def quantize(model, data, cfg, folder, loss_fn=None):
    """The repository's own entry point; returns the network and the path of the file it wrote."""
    path, out = os.path.join(folder, "model"), os.path.join(folder, "net.json")
    model.save(path)
    with quiet():
        net = keras_builder.build(path, out, data, loss_fn, cfg)
    return net, out


def config(default, specific=None, qtype="int8", tflite=False):
    cfg = QuantizerCfg(dense=KerasDenseCfg(**default), quantize={"dtype": qtype},
                       specific_layers={k: KerasDenseCfg(**v) for k, v in (specific or {}).items()})
    if tflite:
        cfg.tflite()
    return cfg


class Propagated:
    """Error of the quantized network layer by layer: worst case and expected, from the quantization steps the
    float ranges and types allow (not from the parameters the repository chose)."""

    SLACK = 1.05

    def __init__(self, x, qtype):
        x = np.asarray(x, float)
        s = self.step(x, qtype)
        self.x, self.s = x, s
        self.worst = np.full(x.shape, 1.01 * s)
        self.var = np.full(x.shape, s * s / 12 * 1.3)

    @classmethod
    def step(cls, a, t, lo=0.0, hi=0.0):
        r = max(float(np.max(a)), hi, 0.0) - min(float(np.min(a)), lo, 0.0)
        return cls.SLACK * (r if r > 0 else 1.0) / steps(t)

    def dense(self, spec):
        c = spec.cfg
        kb = CODES[c["kernel_dtype"]][1]
        m = np.abs(spec.W).max() if spec.W.size else 0
        sk = self.SLACK * (m if m > 0 else 0.5) / kb
        sb = self.s * sk if spec.b is not None else 0.0
        pre = spec.pre(self.x)
        aW = np.abs(spec.W)
        worst = self.worst @ aW + (np.abs(self.x) + self.worst).sum(1, keepdims=True) * sk * (0.5 if m > 0 else 0) + sb
        var = self.var @ (aW ** 2) + ((self.x ** 2).sum(1, keepdims=True) * sk ** 2 / 12 if m > 0 else 0) + sb ** 2
        y = ACT[spec.act](pre)
        out = y if spec.act in ("relu", "relu6") else pre
        so = self.step(out, c["bias_add_dtype"])
        if spec.act in ("relu", "relu6") and float(np.max(out)) <= 0:
            so = self.SLACK * 1.0 / steps(c["bias_add_dtype"])
        worst, var = worst + 1.6 * so, var + so ** 2 / 4
        s = so
        if spec.act in ("tanh", "sigmoid"):
            sa = self.step(y, c["activation_dtype"])
            g = LIP[spec.act]
            worst = worst * g + 1.05 * sa
            # the local slope of the activation, for the expected error
            slope = (1 - np.tanh(pre) ** 2) if spec.act == "tanh" else sigmoid(pre) * (1 - sigmoid(pre))
            reach = np.minimum(worst, g)
            slope = np.minimum(slope + reach, g)
            var = var * slope ** 2 + sa ** 2 / 12 * 1.5
            s = sa
        self.x, self.s, self.worst, self.var = y, s, worst, var
        return self

    def rms(self):
        return float(np.sqrt(self.var.mean()))


FNS = {"tanh": np.tanh, "sigmoid": sigmoid}


def adjacent(ctx, codes, v, lo, hi, mech, what, zp=0):
    """Each code is next to (or at) the real number v (which includes the zero point) it stands for, inside the type."""
    codes, v = np.asarray(codes, float), np.asarray(v, float)
    ctx.ok(codes.shape == v.shape, mech, "%s: shape %s for %s" % (what, codes.shape, v.shape))
    eps = 1e-6 * np.maximum(1.0, np.maximum(np.abs(v), np.abs(v - zp)))
    a, b = np.clip(np.floor(v - eps), lo, hi), np.clip(np.floor(v + eps) + 1, lo, hi)
    bad = (codes < a) | (codes > b)
    ctx.ok(not bad.any(), mech, lambda: "%s: code %s for the value %s (codes %d..%d)" % (what, codes[bad][:3], v[bad][:3], lo, hi))


def dense_items(graph, specs):
    """(spec, FULLY_CONNECTED operator, activation operator or None) of an exported network's dense layers."""
    k = [i for i, o in enumerate(graph) if "FULLY_CONNECTED" in o["op_type"].upper()]
    out = []
    for s, i in zip([s for s in specs if isinstance(s, DenseSpec)], k):
        out.append((s, graph[i], graph[i + 1] if s.act in FNS else None))
    return out


def consistent(ctx, j, specs, what=""):
    """Codes, tables and scales of an exported network belong together, whatever its parameters are."""
    g = j["graph"]
    for a, b in zip(g, g[1:]):
        if a["outputs"]:
            o, i = a["outputs"][0], b["inputs"][0]
            ctx.ok((o["scale"], o["zero_point"]) == (i["scale"], i["zero_point"]), "chain", "%s%s hands over %r, %s takes %r" % (
                what, a["op_type"], (o["scale"], o["zero_point"]), b["op_type"], (i["scale"], i["zero_point"])))
            if o["tensor"] and i["tensor"]:
                ctx.ok(o["tensor"]["dtype"] == i["tensor"]["dtype"], "chain-type", "%s%s hands over %s, %s takes %s" % (
                    what, a["op_type"], o["tensor"]["dtype"], b["op_type"], i["tensor"]["dtype"]))
    for s, o, act in dense_items(g, specs):
        i, w, b = o["inputs"][:3]
        y = o["outputs"][0]
        nodes = [(w, s.cfg["kernel_dtype"], "kernel"), (y, s.cfg["bias_add_dtype"], "output"), (b, s.cfg["bias_dtype"], "bias")]
        if act is not None:
            nodes.append((act["outputs"][0], s.cfg["activation_dtype"], "activation"))
        for n, t, name in nodes:
            lo, hi = CODES[t]
            ctx.ok(np.isfinite(n["scale"]) and n["scale"] > 0, "scale-positive", "%slayer %s: %s scale %r" % (what, s.name, name, n["scale"]))
            ctx.ok(lo <= n["zero_point"] <= hi and n["zero_point"] == int(n["zero_point"]), "zero-point-range", "%slayer %s: %s zero point %r in %s" % (what, s.name, name, n["zero_point"], t))
        ctx.ok(abs(b["scale"] - i["scale"] * w["scale"]) <= 1e-6 * b["scale"], "bias-scale", "%slayer %s: bias scale %r, input %r times kernel %r" % (what, s.name, b["scale"], i["scale"], w["scale"]))
        ctx.ok(b["zero_point"] == 0, "bias-zero-point", "%slayer %s: bias zero point %r" % (what, s.name, b["zero_point"]))
        lo, hi = CODES[s.cfg["kernel_dtype"]]
        adjacent(ctx, w["tensor"]["tensor"], s.W.T / w["scale"] + w["zero_point"], lo, hi, "kernel-codes", "%slayer %s kernel" % (what, s.name), w["zero_point"])
        lo, hi = CODES[s.cfg["bias_dtype"]]
        adjacent(ctx, b["tensor"]["tensor"], s.bias / b["scale"], lo, hi, "bias-codes", "%slayer %s bias" % (what, s.name))
        if act is not None:
            n, m = act["inputs"][0], act["outputs"][0]
            lo, hi = CODES[s.cfg["bias_add_dtype"]]
            olo, ohi = CODES[s.cfg["activation_dtype"]]
            ctx.ok(n["LUT"] is not None and len(n["LUT"]["LUT"]) == hi - lo + 1 and n["LUT"]["offset"] == -lo, "table", "%slayer %s: table missing or of the wrong size" % (what, s.name))
            v = FNS[s.act]((np.arange(lo, hi + 1) - n["zero_point"]) * n["scale"]) / m["scale"] + m["zero_point"]
            adjacent(ctx, n["LUT"]["LUT"], v, olo, ohi, "table-codes", "%slayer %s %s table" % (what, s.name, s.act), m["zero_point"])
    ctx.observe("consistent-network")


def no_constants(x):
    raise ValueError("not a JSON value: %s" % x)
