"""P29: exporting a float model preserves every layer, weight and attribute."""
import json
import os
import runpy
import numpy as np
from tensorflow import keras
from harness import qnet
import keras2json

RULE = ("random sequences of 0..12 supported layers (dense, LSTM, convolution, pooling, flatten, input, dropout) with random weights, element types, biases, strides, "
        "padding, activations and flags, converted through convert() and through the command-line loop; every operator compared field by field with its layer; "
        "sequences with one unsupported layer must be rejected; non-trivial = distinct sequence")
L = keras.layers
ACTS = ["linear", "relu", "tanh", "sigmoid", "softmax", "elu", "relu6", "hard_sigmoid", "softplus", "exponential", "swish"]
UNSUPPORTED = ["GRU", "SimpleRNN", "BatchNormalization", "AveragePooling2D", "GlobalMaxPooling2D", "Conv1D", "Conv2DTranspose", "SeparableConv2D", "DepthwiseConv2D",
               "ConvLSTM2D", "MaxPooling1D", "Reshape", "Activation", "ReLU", "Softmax", "Add", "Concatenate", "Embedding", "Bidirectional", "TimeDistributed", "ZeroPadding2D",
               "UpSampling2D", "LayerNormalization", "DenseFeatures", "EinsumDense", "MyDense", "DenseV2", "SpatialDropout1D", "SpatialDropout2D", "AlphaDropout", "GaussianDropout",
               "GaussianNoise", "ConvLSTM1D", "LSTMCell", "CuDNNLSTM", "PeepholeLSTM", "StackedRNNCells", "MaxPooling3D", "GlobalAveragePooling2D", "Conv3D", "LocallyConnected2D",
               "Convolution2D1", "Masking", "Permute", "RepeatVector", "Lambda", "Multiply", "InputSpec", "OutputLayer2", "DropoutWrapper"]


def weights(rng, layer, *shapes):
    t = str(rng.choice(["float32", "float32", "float64", "float16"]))
    layer.set_weights([np.zeros(s) for s in shapes])
    layer._w = [(rng.normal(0, 10.0 ** rng.integers(-3, 3), s)).astype(t) for s in shapes]
    for w in layer._w:
        if w.ndim == 1 and rng.random() < 0.2:
            w[:] = rng.choice([0.0, 1.0])
        elif w.size and rng.random() < 0.2:
            w.ravel()[0] = rng.choice([0.0, -0.0, 1.0, 65504.0, 1e-7])
    return layer


def dims(rng, k, hi=7):
    if hi > 4 and rng.random() < 0.004:
        hi *= 8
    return tuple(int(v) for v in rng.integers(1, hi, k))


def make(rng, kind, n):
    name = "%s_%d" % (kind, n) if rng.random() < 0.8 else str(rng.choice(["block/%s:%d", "%s %d.w", "Capa_%s_ñ%d"])) % (kind, n)
    act = str(rng.choice(ACTS))
    bias = bool(rng.random() < 0.7)
    kw = {"name": name}
    if kind == "dense":
        i, o = dims(rng, 2, 12)
        if rng.random() < 0.2:
            o = i
        l = L.Dense(o, activation=None if rng.random() < 0.1 else act, use_bias=bias, **kw)
        return weights(rng, l, *([(i, o), (o,)] if bias else [(i, o)]))
    if kind == "lstm":
        s, f, u = dims(rng, 3, 9)
        if rng.random() < 0.15:
            s = None
        l = L.LSTM(u, return_sequences=bool(rng.random() < 0.5), use_bias=bias, batch_input_shape=(None if rng.random() < 0.7 else 4, s, f), **kw)
        return weights(rng, l, *([(f, 4 * u), (u, 4 * u)] + ([(4 * u,)] if bias else [])))
    if kind == "conv":
        h, w, c, o = dims(rng, 4, 6)
        l = L.Conv2D(o, (h, w), strides=dims(rng, 2, 4), padding=str(rng.choice(["valid", "same", "VALID", "SAME"])), activation=act if rng.random() < 0.85 else [LeakyReLU, PReLU][int(rng.integers(0, 2))](), use_bias=bias, **kw)
        return weights(rng, l, *([(h, w, c, o), (o,)] if bias else [(h, w, c, o)]))
    if kind == "pool":
        return L.MaxPooling2D(dims(rng, 2, 5), strides=None if rng.random() < 0.4 else dims(rng, 2, 4), padding=str(rng.choice(["valid", "same"])), **kw)
    if kind == "flatten":
        return L.Flatten(**kw)
    if kind == "input":
        return L.InputLayer(input_shape=dims(rng, 2), **kw)
    return L.Dropout(0.3, **kw)


class LeakyReLU:
    """An activation which is an object, as advanced activations are: its type names it."""

    def __call__(self, x):
        return np.where(x > 0, x, 0.3 * x)


class PReLU(LeakyReLU):
    pass


def named(a):
    return getattr(a, "__name__", None) or type(a).__name__


def unsupported(rng, n):
    cls = str(rng.choice(UNSUPPORTED))
    base = getattr(L, cls, None)
    k = rng.random()
    if base is not None and k < 0.3 and cls in ("GRU", "BatchNormalization", "ReLU"):
        return cls, base(name="odd_%d" % n)
    # a layer with the attributes and the weights of the layers its kind resembles, or of all of them
    like = "pool" if "Pooling" in cls or "Padding2D" in cls or "UpSampling" in cls else "conv" if "Conv" in cls else "flatten" if cls == "Reshape" else \
        "lstm" if cls in ("GRU", "SimpleRNN", "ConvLSTM2D", "Bidirectional", "TimeDistributed") else "dense"
    l = make(rng, like, n)
    if k < 0.6:
        full = make(rng, "lstm", n), make(rng, "pool", n), make(rng, "conv", n), make(rng, "dense", n), l
        for o in full:
            l.__dict__.update(o.__dict__)
    if cls in ("Conv2DTranspose", "SeparableConv2D", "DepthwiseConv2D"):
        weights(rng, l, (3, 3, 2, 4), (1, 1, 8, 5), (5,))
    elif cls == "DenseFeatures":
        weights(rng, l, (3, 4), (4,))
    if rng.random() < 0.5:
        l.name = l._name = "odd_%d" % n
    l.__class__ = type(cls, (L.Conv2D if cls == "Conv2DTranspose" else L.Layer,), {"get_weights": type(l).get_weights, "get_config": type(l).get_config})
    return cls, l


def tensor(ctx, node, w, what):
    t = node["tensor"]
    a = np.asarray(t["tensor"])
    ctx.ok(list(t["shape"]) == list(w.shape) and all(type(v) is int for v in t["shape"]), "shape", "%s: declares shape %r, has %r" % (what, t["shape"], w.shape))
    ctx.ok(a.shape == w.shape, "data-shape", "%s: values of shape %r for %r" % (what, a.shape, w.shape))
    ctx.same(np.asarray(t["tensor"], np.float64), w.astype(np.float64), "values", what)
    ctx.ok(np.array_equal(np.asarray(t["tensor"], t["dtype"]).astype(np.float64), w.astype(np.float64)), "type", "%s: type %s does not hold its %s values" % (what, t["dtype"], w.dtype))
    ctx.ok(node["scale"] is None and node["zero_point"] is None and node["LUT"] is None, "float-node", "%s: a float tensor with %r %r" % (what, node["scale"], node["zero_point"]))


def attr(ctx, op, name, want, what):
    a = (op["attributes"] or {}).get(name)
    ctx.ok(a is not None and a["value"] == want and [type(v) for v in a["value"]] == [type(v) for v in want], "attribute", "%s: %s is %r, the layer says %r" % (what, name, a, want))


def verify(ctx, j, layers):
    ctx.ok(j["operators"] == len(j["graph"]), "count", "declares %r operators, lists %d" % (j["operators"], len(j["graph"])))
    g = list(j["graph"])

    def take(want, what):
        ctx.ok(g and g[0]["op_type"].upper() == want.upper(), "order", "%s: expected operator %s, found %s" % (what, want, g[0]["op_type"] if g else None))
        return g.pop(0)
    for l in layers:
        kind = type(l).__name__
        what = "%s %s" % (kind, l.name)
        w = l.get_weights()
        if kind == "Dense":
            o = take("FULLY_CONNECTED_F", what)
            ctx.ok(len(o["inputs"]) == 2, "inputs", "%s has %d inputs" % (what, len(o["inputs"])))
            tensor(ctx, o["inputs"][0], w[0].T, what + " kernel")
            tensor(ctx, o["inputs"][1], w[1] if len(w) > 1 else np.zeros(w[0].shape[1], w[0].dtype), what + " bias")
            if len(w) > 1:
                ctx.ok(o["inputs"][1]["tensor"]["dtype"] == str(w[1].dtype), "type", "%s: bias type %s for %s" % (what, o["inputs"][1]["tensor"]["dtype"], w[1].dtype))
            else:
                ctx.observe("no-bias")
            ctx.ok(o["inputs"][0]["tensor"]["dtype"] == str(w[0].dtype), "type", "%s: kernel type %s for %s" % (what, o["inputs"][0]["tensor"]["dtype"], w[0].dtype))
            ctx.ok(l.name in o["name"], "name", "%s is called %s" % (what, o["name"]))
            ctx.ok(o["outputs"] == [], "outputs", what)
            take(l.activation.__name__, what + " activation")
        elif kind == "LSTM":
            o = take("LSTM_F", what)
            ctx.ok(len(o["inputs"]) == 15, "inputs", "%s has %d inputs" % (what, len(o["inputs"])))
            full = [w[0].T, w[1].T, w[2] if len(w) > 2 else np.zeros(4 * l.units)]
            if len(w) < 3:
                ctx.observe("no-bias")
            for k, name in enumerate(["kernel", "recurrent kernel", "bias"]):
                tensor(ctx, o["inputs"][12 + k], full[k], "%s %s" % (what, name))
                if k < len(w):
                    ctx.ok(o["inputs"][12 + k]["tensor"]["dtype"] == str(w[k].dtype), "type", "%s: %s type %s for %s" % (what, name, o["inputs"][12 + k]["tensor"]["dtype"], w[k].dtype))
            for n in o["inputs"][:12]:
                ctx.ok(list(np.asarray(n["tensor"]["tensor"]).shape) == n["tensor"]["shape"], "shape", what + ": gate node")
            attr(ctx, o, "units", [l.units], what)
            attr(ctx, o, "return_sequences", [l.return_sequences], what)
            attr(ctx, o, "steps", [l._batch_input_shape[1]], what)
        elif kind == "Conv2D":
            o = take("CONV_2D_F", what)
            ctx.ok(len(o["inputs"]) == 2, "inputs", "%s has %d inputs" % (what, len(o["inputs"])))
            tensor(ctx, o["inputs"][0], w[0], what + " kernel")
            tensor(ctx, o["inputs"][1], w[1] if len(w) > 1 else np.zeros(l.filters), what + " bias")
            if len(w) < 2:
                ctx.observe("no-bias")
            else:
                ctx.ok(o["inputs"][1]["tensor"]["dtype"] == str(w[1].dtype), "type", "%s: bias type %s for %s" % (what, o["inputs"][1]["tensor"]["dtype"], w[1].dtype))
            ctx.ok(o["inputs"][0]["tensor"]["dtype"] == str(w[0].dtype), "type", "%s: kernel type %s for %s" % (what, o["inputs"][0]["tensor"]["dtype"], w[0].dtype))
            attr(ctx, o, "strides", list(l.strides), what)
            attr(ctx, o, "padding", [0 if l.padding.lower() == "valid" else 1], what)
            take(named(l.activation) + "_F", what + " activation")
        elif kind == "MaxPooling2D":
            o = take("MAXPOOLING_2D_F", what)
            ctx.ok(o["inputs"] == [] and o["outputs"] == [], "inputs", what)
            attr(ctx, o, "strides", list(l.strides), what)
            attr(ctx, o, "pool_size", list(l.pool_size), what)
            attr(ctx, o, "padding", [0 if l.padding.lower() == "valid" else 1], what)
        elif kind == "Flatten":
            o = take("FLATTEN", what)
            ctx.ok(o["inputs"] == [], "inputs", what)
        ctx.observe(kind)
    ctx.ok(not g, "extra", "operators without a layer: %s" % [o["op_type"] for o in g])


def body(j):
    return {k: v for k, v in j.items() if k != "generated_at"}


KINDS = ["dense", "lstm", "conv", "pool", "flatten", "input", "dropout"]


def run(ctx):
    rng = ctx.rng
    for k in ("Dense", "LSTM", "Conv2D", "MaxPooling2D", "Flatten", "InputLayer", "Dropout"):
        ctx.need(k, 200)
    for k, n in (("no-bias", 100), ("rejected", 100), ("files", 20), ("json", 300)):
        ctx.need(k, n)
    for i in ctx.loop(1200, 30000, share=0.6):
        kinds = [str(rng.choice(KINDS)) for _ in range(int(rng.integers(0, 13)))]
        if rng.random() < 0.1:
            kinds = [kinds[0]] * len(kinds) if kinds else []
        ls = [make(rng, k, n) for n, k in enumerate(kinds)]
        with ctx.case("sequence", kinds=kinds, shapes=[[list(w.shape) for w in l.get_weights()] for l in ls], i=i):
            model = keras.models.Sequential()
            for l in ls:
                model.add(l)
            before = [[w.copy() for w in l.get_weights()] for l in ls]
            j = keras2json.convert(model)
            text = json.dumps(j, allow_nan=False)
            k = json.loads(text, parse_constant=qnet.no_constants)
            ctx.ok(json.dumps(k) == text, "json", "the description does not survive JSON")
            ctx.observe("json")
            verify(ctx, k, ls)
            ctx.ok(body(keras2json.convert(model)) == body(j), "again", "a second conversion differs")
            ctx.ok(all(np.array_equal(a, b) and a.dtype == b.dtype for l, ws in zip(ls, before) for a, b in zip(l.get_weights(), ws)), "model-altered", "converting changed the model's weights")
            ctx.ok(json.dumps(j) == text, "shared", "a later conversion changed an earlier result")
    for i in ctx.loop(300, 5000, share=0.2):
        kinds = [str(rng.choice(KINDS)) for _ in range(int(rng.integers(0, 5)))]
        cls, odd = unsupported(rng, 99)
        at = int(rng.integers(0, len(kinds) + 1))
        with ctx.case("unsupported", kinds=kinds, layer=cls, at=at):
            ls = [make(rng, k, n) for n, k in enumerate(kinds)]
            if rng.random() < 0.1:
                cls, odd = "LSTM of the wrong rank", make(rng, "lstm", 98)
                odd._batch_input_shape = (None, 3, 4, 5)
            ls.insert(at, odd)
            try:
                j = keras2json.convert(keras.models.Sequential(ls))
            except Exception as e:
                ctx.ok(not isinstance(e, (ImportError, NameError)), "rejection", "rejected with %r" % e)
                ctx.observe("rejected")
            else:
                ctx.fail("unsupported-accepted", "a %s layer was converted into %s" % (cls, [o["op_type"] for o in j["graph"]]))
    main(ctx)


def main(ctx):
    """The command-line loop converts every model of its folder into the file next to it."""
    rng = ctx.rng
    src = os.path.join(os.environ["VERIF_REPO"], "model_converters", "keras2json", "_main.py")
    entry = lambda: runpy.run_path(src, run_name="__main__")
    for i in ctx.loop(15, 200, share=0.15):
        with ctx.case("files", i=i), qnet.scratch() as folder:
            os.mkdir(os.path.join(folder, "models"))
            nets = {}
            for k in range(int(rng.integers(0, 5))):
                ls = [make(rng, str(rng.choice(KINDS)), n) for n in range(int(rng.integers(1, 5)))]
                m = keras.models.Sequential()
                for l in ls:
                    m.add(l)
                path = os.path.join("models", "net %d.v%d.h5" % (k, i))
                m.save(path)
                open(os.path.join(folder, path), "w").close()
                nets[path] = ls
            open(os.path.join(folder, "models", "notes.txt"), "w").close()
            old = os.getcwd()
            os.chdir(folder)
            try:
                with qnet.quiet():
                    entry()
                files = sorted(os.listdir("models"))
                got = {p: json.load(open(p.replace(".h5", ".json"))) for p in nets if os.path.exists(p.replace(".h5", ".json"))}
            finally:
                os.chdir(old)
            ctx.ok(set(got) == set(nets), "files", "models %s, files %s" % (sorted(nets), files))
            ctx.ok(len(files) == 2 * len(nets) + 1, "files", "unexpected files %s" % files)
            for p, ls in nets.items():
                verify(ctx, got[p], ls)
                ctx.observe("files")
