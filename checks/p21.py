"""P21: a quantized dense network approximates the float model."""
import json
import os
import numpy as np
from itcl_inference_engine.network.sequential import SequentialNetwork
from harness import qnet
from harness.core import Unmodelled
from harness.qnet import L

RULE = ("random stacks of 1..5 dense layers (with/without bias; linear, tanh, sigmoid, relu, relu6, final softmax; dropout and input layers in between; "
        "several weight and data shapes, one to hundreds of samples) quantized through build() with random global and per-layer types and symmetric/asymmetric "
        "kernels; every layer's parameters, codes and types and the dequantized output compared with an error propagation of the float model; non-trivial = distinct case")


def expected_ops(specs):
    ops = ["QUANTIZE"]
    for s in specs:
        ops.append("FULLY_CONNECTED")
        if s.act in ("tanh", "sigmoid"):
            ops.append(s.act.upper())
    return ops + ["DEQUANTIZE"]


def check_ranges(ctx, j, specs, x, qtype):
    """Outputs are calibrated on the float model's own values: their range with zero, no more and no less."""
    def covers(n, t, v, size, what):
        lo, hi = qnet.CODES[t]
        r = max(float(v.max()), 0.0) - min(float(v.min()), 0.0)
        if r > 1e-3 * size:
            tol = 1e-4 * r + 1e-5 * size
            ctx.ok(abs(n["scale"] * (hi - lo) - r) <= tol, "calibrated-step", lambda: "%s: step %r for values of range %r" % (what, n["scale"], r))
            a, b = (lo - n["zero_point"]) * n["scale"], (hi - n["zero_point"]) * n["scale"]
            m = 0.51 * n["scale"] + tol
            ctx.ok(a <= min(v.min(), 0) + m and b >= max(v.max(), 0) - m, "calibrated-range", lambda: "%s: codes cover %g..%g of values %g..%g" % (what, a, b, v.min(), v.max()))
            ctx.observe("range")
    v = np.asarray(x, float)
    covers(j["graph"][0]["outputs"][0], qtype, v, np.abs(v).max(), "input")
    k = 1
    for s in specs:
        size = float((np.abs(v) @ np.abs(s.W)).max() + np.abs(s.bias).max())
        pre = s.pre(v)
        v = qnet.ACT[s.act](pre)
        covers(j["graph"][k]["outputs"][0], s.cfg["bias_add_dtype"], v if s.act in ("relu", "relu6") else pre, size, "layer %s (%s)" % (s.name, s.act))
        k += 1
        if s.act in ("tanh", "sigmoid"):
            covers(j["graph"][k]["outputs"][0], s.cfg["activation_dtype"], v, 1.0 if s.act == "sigmoid" else min(size, 1.0), "layer %s after %s" % (s.name, s.act))
            k += 1


def check_structure(ctx, j, specs, qtype, n_in):
    got = [o["op_type"].upper() for o in j["graph"]]
    want = expected_ops(specs)
    ctx.ok(len(got) == len(want) and all(w in g for g, w in zip(got, want)), "operators", "operators %s for %s" % (got, want))
    ctx.ok(j["graph"][0]["outputs"][0]["tensor"]["dtype"].lower() == qtype, "type-input", "input type %s" % j["graph"][0]["outputs"][0]["tensor"]["dtype"])
    k = 1
    for s in specs:
        o = j["graph"][k]
        i, w, b = o["inputs"][:3]
        out = o["outputs"][0]
        for n, t in ((w, "kernel_dtype"), (b, "bias_dtype"), (out, "bias_add_dtype")):
            ctx.ok(n["tensor"]["dtype"].lower() == s.cfg[t], "type-" + t, "layer %s: %s is %s, configured %s" % (s.name, t, n["tensor"]["dtype"], s.cfg[t]))
            lo, hi = qnet.CODES[s.cfg[t]]
            ctx.ok(n["scale"] > 0 and lo <= n["zero_point"] <= hi, "params-" + t, "layer %s: %s parameters %r %r" % (s.name, t, n["scale"], n["zero_point"]))
            if n["tensor"]["tensor"] is not None:
                a = np.asarray(n["tensor"]["tensor"])
                ctx.ok((a == np.floor(a)).all() and a.min() >= lo and a.max() <= hi, "codes-" + t, "layer %s: %s codes out of %s" % (s.name, t, s.cfg[t]))
        W = s.W.T
        m = np.abs(W).max()
        sk = 1.05 * (m if m else 0.5) / qnet.CODES[s.cfg["kernel_dtype"]][1]
        ctx.ok(w["scale"] <= sk, "kernel-step", "layer %s: kernel step %r for weights up to %r" % (s.name, w["scale"], m))
        wq = (np.asarray(w["tensor"]["tensor"], float) - w["zero_point"]) * w["scale"]
        ctx.close(wq, W, sk * 0.51, "kernel", "layer %s: kernel codes" % s.name)
        bq = (np.asarray(b["tensor"]["tensor"], float) - b["zero_point"]) * b["scale"]
        ctx.close(bq, s.bias, 0.51 * i["scale"] * w["scale"] + 1e-6 * np.abs(s.bias).max(), "bias", "layer %s: bias codes" % s.name)
        ctx.ok(list(w["tensor"]["shape"]) == list(W.shape) and list(b["tensor"]["shape"]) == [W.shape[0]], "weight-shape",
               "layer %s: shapes %s %s" % (s.name, w["tensor"]["shape"], b["tensor"]["shape"]))
        ctx.ok(list(out["tensor"]["shape"]) == [W.shape[0]], "output-shape", "layer %s: output shape %s" % (s.name, out["tensor"]["shape"]))
        k += 1
        if s.act in ("tanh", "sigmoid"):
            n = j["graph"][k]["outputs"][0]
            lo, hi = qnet.CODES[s.cfg["activation_dtype"]]
            ctx.ok(n["tensor"]["dtype"].lower() == s.cfg["activation_dtype"], "type-activation_dtype",
                   "layer %s: activation is %s, configured %s" % (s.name, n["tensor"]["dtype"], s.cfg["activation_dtype"]))
            ctx.ok(n["scale"] > 0 and lo <= n["zero_point"] <= hi, "params-activation", "layer %s: activation parameters" % s.name)
            t = np.asarray(j["graph"][k]["inputs"][0]["LUT"]["LUT"])
            ctx.ok(t.min() >= lo and t.max() <= hi, "table-range", "layer %s: table entries out of %s" % (s.name, s.cfg["activation_dtype"]))
            k += 1
        ctx.observe("layer")


def representable(specs, x, qtype):
    """Whether the bias type can hold the biases next to the inputs (vanishing activations leave it
    no room), and no layer's terms cancel completely."""
    ref = qnet.Propagated(x, qtype)
    for s in specs:
        m = np.abs(s.W).max()
        room = qnet.CODES[s.cfg["bias_dtype"]][1] / 2 * ref.s / 1.05 * (m if m else 0.5) / qnet.CODES[s.cfg["kernel_dtype"]][1]
        size = float((np.abs(ref.x) @ np.abs(s.W)).max() + np.abs(s.bias).max())
        pre = s.pre(ref.x)
        if np.abs(s.bias).max() > room or np.abs(pre).max() < 1e-5 * size or (size > 0 and size < 1e-5):
            return False
        ref.dense(s)
    return True


def run_case(ctx, rng, specs, n_in, x, default, specific, qtype, tflite, group, **desc):
    if not representable(specs, x, qtype):
        ctx.observe("skipped-vanishing")
        return None
    with ctx.case(group, layers=[s.describe() for s in specs], samples=len(x), input=qtype, tflite=tflite, default=default, **desc), qnet.scratch() as d:
        keep = x.copy()
        model = qnet.build_model(rng, specs, n_in)
        weights = [w.copy() for w in model.get_weights()]
        net, path = qnet.quantize(model, x, qnet.config(default, specific, qtype, tflite), d)
        j = json.load(open(path))
        ctx.same(x, keep, "data-altered", "the dataset was changed")
        for a, b in zip(model.get_weights(), weights):
            ctx.same(a, b, "model-altered", "the float model was changed")
        for s, l in zip(specs, [l for l in model.layers if type(l).__name__ == "Dense"]):
            ctx.ok(l.activation is not None and l.activation.__name__ == s.act, "model-activation", "the model's activation was changed")
        check_structure(ctx, j, specs, qtype, n_in)
        check_ranges(ctx, j, specs, x, qtype)
        with qnet.quiet():
            y = np.asarray(SequentialNetwork(j).infer(x), float)
        ref = qnet.Propagated(x, qtype)
        for s in specs:
            ref.dense(s)
        ctx.ok(y.shape == ref.x.shape, "shape", "output shape %s, float %s" % (y.shape, ref.x.shape))
        err = np.abs(y - ref.x)
        ctx.ok((err <= ref.worst * 1.01 + 1e-6).all(), "worst-case", lambda: "output off by %g where the quantization steps allow %g (float %g)" % (
            err.ravel()[np.argmax(err / ref.worst)], ref.worst.ravel()[np.argmax(err / ref.worst)], ref.x.ravel()[np.argmax(err / ref.worst)]))
        rms = float(np.sqrt((err ** 2).mean()))
        r = rms / max(ref.rms(), 1e-12)
        ctx.maxima["rms-ratio"] = max(ctx.maxima.get("rms-ratio", 0), r)
        ctx.ok(r <= 3.0, "rms", lambda: "root mean square error %g, expected around %g" % (rms, ref.rms()))
        if any(s.act in ("relu", "relu6") for s in specs[-1:]):
            ctx.ok((y >= 0).all() and (specs[-1].act == "relu" or (y <= 6.0001).all()), "rectified", "a rectified output has values %g..%g" % (y.min(), y.max()))
            ctx.observe("rectified")
        # one sample at a time gives the same numbers
        k = int(rng.integers(0, len(x)))
        with qnet.quiet():
            one = np.asarray(SequentialNetwork(j).infer(x[k]), float)
        ctx.same(np.squeeze(one), np.squeeze(y[k]), "single", "a sample inferred alone")
        ctx.observe("network")
        ctx.observe("acts-" + "+".join(sorted({s.act for s in specs})))
        return rms, ref


NAMES = ["other", "batch_normalization", "batch_normalization_3", "dropout", "dropout_1", "dense", "dense_7", "input_1", "re_lu", "activation", "flatten", "gru_1", "conv2d_2"]
OTHERS = {"batchnorm": lambda name: L.BatchNormalization(name=name), "relu": lambda name: L.ReLU(name=name), "activation": lambda name: L.Activation("tanh", name=name), "flatten": lambda name: L.Flatten(name=name),
          "gru": lambda name: L.GRU(name=name), "maxpool": lambda name: L.MaxPooling2D(name=name), "conv": lambda name: L.Conv2D(2, 3, name=name)}


def refused(ctx, rng):
    """A layer that would change the result is not left out."""
    n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 3)), width=5)
    x = qnet.dataset(rng, 5, n_in)[1]
    kind = str(rng.choice(sorted(OTHERS)))
    layers = [s.layer() for s in specs]
    name = str(rng.choice(NAMES))
    if name in [l.name for l in layers]:
        name = "other"
    layers.insert(int(rng.integers(0, len(layers) + 1)), OTHERS[kind](name))
    with ctx.case("refused", layers=[s.describe() for s in specs], other=kind, name=name), qnet.scratch() as d:
        try:
            qnet.quantize(qnet.keras.models.Sequential(layers), x, qnet.config(qnet.TYPES8), d)
        except Unmodelled:
            raise
        except Exception:
            ctx.ok(not os.path.exists(os.path.join(d, "net.json")), "written", "a network was written for a model with a %s layer" % kind)
            ctx.observe("refused")
        else:
            ctx.fail("other-layer", "a model with a %s layer was quantized" % kind)


def softsign(x):
    x = np.asarray(x)
    return x / (1 + np.abs(x))


def gelu(x):
    x = np.asarray(x)
    return 0.5 * x * (1 + np.tanh(0.7978845608 * (x + 0.044715 * x ** 3)))


def hard_tanh(x):
    return np.clip(np.asarray(x), -1, 1)


ODD = ["elu", "softplus", "exponential", "swish", "hard_sigmoid", softsign, gelu, hard_tanh, "softmax", "softmax"]


def odd_activation(ctx, rng, act, pos):
    """An activation the integer network has no operator for (or a softmax that is not the last step) is
    refused or approximated, never left out."""
    sizes = [int(v) for v in rng.integers(2, 6, 3)]
    layers, n = [], 4
    for k in range(pos + 1 + (act == "softmax")):
        l = L.Dense(sizes[k], name="d%d" % k, **({"activation": act} if k == pos else {}))
        l.set_weights([(rng.normal(0, 1, (n, sizes[k])) * (1.5 if k == pos else 0.5)).astype(np.float32), rng.normal(0, 0.2, sizes[k]).astype(np.float32)])
        layers.append(l)
        n = sizes[k]
    x = rng.normal(0, 1, (60, 4)).astype(np.float32)
    model = qnet.keras.models.Sequential(layers)
    name = act if isinstance(act, str) else act.__name__
    with ctx.case("odd-activation", activation=name, layer=pos, sizes=[len(l.get_weights()[1]) for l in layers]), qnet.scratch() as d:
        ref = np.asarray(model(x), float)
        try:
            net, path = qnet.quantize(model, x, qnet.config(qnet.TYPES8), d)
            with qnet.quiet():
                y = np.asarray(SequentialNetwork(json.load(open(path))).infer(x), float)
        except Unmodelled:
            raise
        except Exception:
            ctx.observe("odd-refused")
        else:
            r = float(np.sqrt(((y - ref) ** 2).mean()) / np.ptp(ref)) if y.shape == ref.shape else 1.0
            ctx.ok(r <= 0.04, "odd-activation", "a model with %s in layer %d was quantized to a network whose output is off by %.3f of its range" % (name, pos, r))
        ctx.observe("odd-activation")


def run(ctx):
    rng = ctx.rng
    ctx.need("odd-activation", 16)
    ctx.need("network", 120)
    ctx.need("layer", 240)
    ctx.need("range", 200)
    ctx.need("rectified", 20)
    ctx.need("specific", 30)
    ctx.need("large-network", 4)
    ctx.need("more-bits", 15)
    ctx.need("refused", 20)
    for i in ctx.loop(220, 6000, share=0.7):
        default = qnet.dense_types(rng)
        big = rng.random() < 0.06
        n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=160) if big else qnet.dense_net(rng)
        specific = {}
        for s in specs:
            s.cfg = dict(default)
            if rng.random() < 0.3:
                s.cfg = qnet.dense_types(rng)
                specific[s.name] = {**s.cfg, "kernel_symmetric": bool(rng.random() < 0.5)}
                ctx.observe("specific")
        if rng.random() < 0.2:
            specific["no_such_layer"] = {"kernel_dtype": "int4", "activation_dtype": "int4", "bias_add_dtype": "int4"}
        qtype = str(rng.choice(["int8", "int8", "int12", "int16"])) if max(qnet.steps(s.cfg["bias_add_dtype"]) for s in specs) > 300 else "int8"
        kind, x = qnet.dataset(rng, int(rng.choice([300, 2000])) if big or rng.random() < 0.04 else int(rng.choice([1, 2, 20, 100])), n_in)
        k = int(rng.integers(0, 6))
        if k == 0:
            x = np.asfortranarray(x)
        elif k == 1:
            x = x[::-1]
        elif k == 2:
            x = x.astype(float)
        if big:
            ctx.observe("large-network")
        sym = bool(rng.random() < 0.5)
        run_case(ctx, rng, specs, n_in, x, {**default, "kernel_symmetric": sym}, specific, qtype, bool(rng.random() < 0.2), "network", data=kind)
    for i in ctx.loop(24, 400):
        refused(ctx, rng)
    for i in ctx.loop(20, 300):
        odd_activation(ctx, rng, ODD[i % len(ODD)], (i // len(ODD)) % 2)
    for i in ctx.loop(16, 400):
        n_in, specs = qnet.dense_net(rng)
        kind, x = qnet.dataset(rng, 60, n_in, str(rng.choice(["normal", "image", "skewed", "positive"])))
        res = []
        for bits in (8, 10, 12, 14):
            t = {"kernel_dtype": "int%d" % bits, "bias_dtype": "int32", "activation_dtype": "int%d" % bits, "bias_add_dtype": "int%d" % bits}
            for s in specs:
                s.cfg = t
            r = run_case(ctx, rng, specs, n_in, x, t, {}, "int%d" % bits, False, "bits", data=kind, bits=bits)
            res.append(r)
        with ctx.case("more-bits", layers=[s.describe() for s in specs], data=kind):
            if None not in res:
                for (a, ra), (b, rb) in zip(res, res[1:]):
                    ctx.ok(b <= 1.5 * a + 2 * rb.rms(), "more-bits", "error %g with fewer bits, %g with more" % (a, b))
                ctx.observe("more-bits")
