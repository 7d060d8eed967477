"""P22: a quantized LSTM network approximates the float model."""
import json
import numpy as np
from tensorflow import keras
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.keras.layers import Dequantize, KerasDense, KerasInput, KerasLSTM
from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import LSTM as FloatLSTM
from itcl_quantizer.util.network import Network
from harness import qnet

RULE = ("random networks of one or two LSTM layers (with/without bias, 1..7 units, windows of 1..10 steps, sequences or last step), followed by dense layers or "
        "dropout, on several data shapes; quantized through build() in 8 bits and layer by layer in 12 bits; float states, every gate's calibration, tables, weight "
        "codes and the dequantized output compared with an own float64 LSTM; non-trivial = distinct case")
L = keras.layers
GATES = ("input", "forget", "cell", "output")
ACTS = (qnet.sigmoid, qnet.sigmoid, np.tanh, qnet.sigmoid)


class LSpec:
    def __init__(self, rng, name, f, seq, units=8):
        n = int(rng.integers(1, units))
        g = rng.choice([0.3, 0.7, 1.2])
        self.name, self.n, self.seq = name, n, seq
        self.W = (rng.normal(0, 1, (f, 4 * n)) * g / np.sqrt(f)).astype(np.float32).astype(float)
        self.U = (rng.normal(0, 1, (n, 4 * n)) * g / np.sqrt(n)).astype(np.float32).astype(float)
        off = np.repeat(rng.normal(0, rng.choice([0.0, 1.0, 2.5]), 4), n)     # gates working in different ranges
        if rng.random() < 0.4:      # gates whose weights have different magnitudes
            self.W *= np.repeat(rng.choice([0.3, 0.6, 1.0], 4), n)
            self.U *= np.repeat(rng.choice([0.3, 0.6, 1.0], 4), n)
            self.W, self.U = (a.astype(np.float32).astype(float) for a in (self.W, self.U))
        self.b = None if rng.random() < 0.2 else (rng.normal(0, 0.3, 4 * n) + off).astype(np.float32).astype(float)
        self.unit_forget_bias = bool(rng.random() < 0.5)    # only how training starts

    def layer(self):
        l = L.LSTM(self.n, return_sequences=self.seq, use_bias=self.b is not None, unit_forget_bias=self.unit_forget_bias, name=self.name)
        l.set_weights([self.W, self.U] + ([self.b] if self.b is not None else []))
        return l

    def states(self, x):
        n = self.n
        b = self.b if self.b is not None else np.zeros(4 * n)
        h, c = np.zeros((len(x), n)), np.zeros((len(x), n))
        s = {k: [] for k in ("bias_add", "recurrent_add", "i", "f", "g", "o", "c", "ca", "h")}
        for t in range(x.shape[1]):
            y = x[:, t] @ self.W + b
            z = y + h @ self.U
            i, f, g, o = (a(z[:, k * n:(k + 1) * n]) for k, a in enumerate(ACTS))
            c = f * c + i * g
            ca = np.tanh(c)
            h = o * ca
            for k, v in (("bias_add", y), ("recurrent_add", z), ("i", i), ("f", f), ("g", g), ("o", o), ("c", c), ("ca", ca), ("h", h)):
                s[k].append(v)
        s = {k: np.array(v) for k, v in s.items()}
        s["out"] = s["h"].swapaxes(0, 1) if self.seq else s["h"][-1]
        return s

    def describe(self):
        return [self.name, list(self.W.shape), self.seq, self.b is not None]


def range_node(ctx, node, data, what, slack=1.06):
    """The node's codes span the data's range (with zero) and no more than a calibration would."""
    t = node["tensor"]["dtype"].lower()
    lo, hi = qnet.CODES[t]
    a, b = min(float(data.min()), 0.0), max(float(data.max()), 0.0)
    s, z = node["scale"], node["zero_point"]
    ctx.ok(s > 0 and lo <= z <= hi, "node-params", "%s: scale %r zero point %r" % (what, s, z))
    full = (b - a) if b > a else 1.0
    ctx.ok((lo - z) * s <= a + 1.05 * s + 1e-6 and (hi - z) * s >= b - 1.05 * s - 1e-6, "node-covers",
           "%s: codes stand for %g..%g, its values are %g..%g" % (what, (lo - z) * s, (hi - z) * s, a, b))
    ctx.ok(s <= slack * full / (hi - lo), "node-step", "%s: step %g for a range of %g (%g..%g) in %s" % (what, s, full, a, b, t))
    ctx.observe("calibrated-node")


def check_lstm(ctx, o, spec, st, x):
    ins = o["inputs"]
    n = spec.n
    ctx.ok(o["attributes"]["return_sequences"]["value"][0] == spec.seq, "sequences", "return_sequences recorded as %r" % (o["attributes"]["return_sequences"],))
    ctx.ok(o["attributes"]["n_cells"]["value"][0] == n, "units", "units recorded as %r" % (o["attributes"]["n_cells"],))
    b = spec.b if spec.b is not None else np.zeros(4 * n)
    for k, gate in enumerate(GATES):
        sl = slice(k * n, (k + 1) * n)
        for node, w, what in ((ins[1 + k], spec.W[:, sl], "kernel"), (ins[5 + k], spec.U[:, sl], "recurrent kernel")):
            got = (np.asarray(node["tensor"]["tensor"], float) - node["zero_point"]) * node["scale"]
            t = node["tensor"]["dtype"].lower()
            full = max(w.max(), 0) - min(w.min(), 0)
            ctx.ok(node["scale"] <= 1.06 * (full if full > 0 else 1.0) / qnet.steps(t), "weight-step", "%s gate's %s: step %g for a range of %g" % (gate, what, node["scale"], full))
            ctx.close(got, w, 1.05 * node["scale"] + 1e-6, "weights", "%s: %s gate's %s" % (spec.name, gate, what))
        node = ins[9 + k]
        s = ins[0]["scale"] * ins[1 + k]["scale"]
        ctx.close(node["scale"], s, 1e-6 * s, "bias-scale", "%s gate's bias scale" % gate)
        ctx.ok(node["zero_point"] == 0, "bias-zp", "%s gate's bias zero point %r" % (gate, node["zero_point"]))
        ctx.close(np.asarray(node["tensor"]["tensor"], float) * node["scale"], b[sl], 0.51 * s + 1e-6 * np.abs(b).max(), "bias", "%s gate's bias" % gate)
        node, s = ins[13 + k], o["outputs"][0]["scale"] * ins[5 + k]["scale"]
        ctx.close(node["scale"], s, 1e-6 * s, "sum-scale", "scale of the %s gate's bias sum, added to the recurrent products" % gate)
        ctx.ok(node["zero_point"] == 0, "sum-zp", "%s gate's bias sum has zero point %r" % (gate, node["zero_point"]))
        z = st["recurrent_add"][:, :, sl]
        range_node(ctx, ins[17 + k], z, "%s: %s gate sum" % (spec.name, gate))
        gin, gout = ins[22 + 2 * k], ins[23 + 2 * k]
        ctx.ok((gin["scale"], gin["zero_point"]) == (ins[17 + k]["scale"], ins[17 + k]["zero_point"]), "gate-input", "%s gate's table is for other parameters than the gate's sum" % gate)
        range_node(ctx, gout, ACTS[k](z), "%s: %s gate" % (spec.name, gate))
        check_table(ctx, gin, gout, ACTS[k], "%s: %s gate" % (spec.name, gate))
    c = ins[21]
    lo, hi = qnet.CODES[c["tensor"]["dtype"].lower()]
    m = float(np.abs(st["c"]).max())
    ctx.ok(c["zero_point"] == 0 and c["scale"] * hi >= m - 1.05 * c["scale"] and c["scale"] <= 1.06 * m / hi, "cell-state",
           "cell state parameters %r %r for magnitudes up to %g" % (c["scale"], c["zero_point"], m))
    ctx.ok((ins[30]["scale"], ins[30]["zero_point"]) == (c["scale"], c["zero_point"]), "cell-table-input", "the cell state's table is for other parameters than the cell state")
    range_node(ctx, ins[31], st["ca"], spec.name + ": activated cell state")
    check_table(ctx, ins[30], ins[31], np.tanh, spec.name + ": cell state")
    range_node(ctx, o["outputs"][0], st["h"], spec.name + ": output")
    ctx.observe("lstm-layer")


def check_table(ctx, gin, gout, fn, what):
    lo, hi = qnet.CODES[gin["tensor"]["dtype"].lower()]
    olo, ohi = qnet.CODES[gout["tensor"]["dtype"].lower()]
    lut = np.asarray(gin["LUT"]["LUT"], float)
    ctx.ok(len(lut) == hi - lo + 1 and gin["LUT"]["offset"] == -lo, "table-size", "%s: table of %d entries, offset %r" % (what, len(lut), gin["LUT"]["offset"]))
    v = fn((np.arange(lo, hi + 1) - gin["zero_point"]) * gin["scale"]) / gout["scale"] + gout["zero_point"]
    ctx.close(lut, np.clip(v, olo, ohi), 0.51 + 1e-6 * np.abs(v), "table", what + "'s table")


def float_states(ctx, spec, x, st):
    l = spec.layer()
    with qnet.quiet():
        r = FloatLSTM(l).call(x)
    for k, a, name in (("h", r.hidden_state, "hidden state"), ("c", r.cell_state, "cell state"), ("bias_add", r.bias_add, "bias add"), ("recurrent_add", r.recurrent_add, "gate sums"),
                       ("i", r.input_gate, "input gate"), ("f", r.forget_gate, "forget gate"), ("g", r.cell_gate, "cell gate"), ("o", r.output_gate, "output gate"),
                       ("ca", r.cell_state_activation, "activated cell state"), ("out", r.result, "result")):
        ctx.close(np.asarray(a), st[k], 2e-4 * (1 + np.abs(st[k]).max()), "float-" + k, "float LSTM's " + name)
    ctx.close(np.asarray(r.result), np.asarray(l(x)), 2e-4, "framework", "float LSTM's result against the framework's layer")
    # keeping only every step's extremes of the states changes neither them nor the result
    with qnet.quiet():
        m = FloatLSTM(l, min_max_mode=True)(x)
    ctx.close(np.asarray(m.result), np.asarray(r.result), 0, "min-max-result", "result when only the extremes of the states are kept")
    for k, a in (("c", m.cell_state), ("i", m.input_gate), ("f", m.forget_gate), ("g", m.cell_gate), ("o", m.output_gate), ("ca", m.cell_state_activation)):
        want = np.stack([st[k].reshape(len(st[k]), -1).min(1), st[k].reshape(len(st[k]), -1).max(1)], 1)
        ctx.close(np.asarray(a), want, 2e-4 * (1 + np.abs(st[k]).max()), "min-max-" + k, "extremes of the float states")
    ctx.observe("float-states")


def make(rng, large=0.06, many=False):
    big = not many and rng.random() < large
    f = int(rng.integers(1, 24 if big else 6))
    T = int(rng.choice([1, 2, 3, 5, 10, 24 if large else 4]))
    units = 33 if big else 8
    kind = str(rng.integers(0, 3))
    specs = []
    two = rng.random() < 0.35
    specs.append(LSpec(rng, "lstm_a", f, True if two else bool(rng.random() < 0.4), units))
    if two:
        specs.append(LSpec(rng, "lstm_b", specs[0].n, bool(rng.random() < 0.3), units))
    if not specs[-1].seq and rng.random() < 0.6:
        w = specs[-1].n
        for k in range(int(rng.integers(1, 3))):
            u = int(rng.integers(1, 6))
            W = (rng.normal(0, 1, (w, u)) / np.sqrt(w)).astype(np.float32).astype(float)
            specs.append(qnet.DenseSpec("dense_%d" % k, W, rng.normal(0, 0.3, u).astype(np.float32).astype(float), str(rng.choice(["linear", "tanh", "relu", "sigmoid"])), qnet.TYPES8))
            w = u
    B = int(rng.choice([1, 2, 8, 40, 200 if big else 4, 4]))
    if many:     # the extremes come late in a large dataset
        B, T = int(rng.choice([600, 1500])), min(T, 5)
    k = int(rng.integers(0, 4))
    x = rng.normal(0, 1, (B, T, f)) if k < 2 else rng.uniform(0, 1, (B, T, f)) if k == 2 else np.cumsum(rng.normal(0, 0.3, (B, T, f)), axis=1)
    if many:
        x[-2:] *= 3
    elif rng.random() < 0.3:
        x = x[np.argsort(np.abs(x).max(axis=(1, 2)))]
    return specs, x.astype(np.float32)


def sound(specs, x, sts):
    """No vanishing ranges: next to those a 32 bit bias saturates."""
    v = x
    for s, st in zip(specs, sts):
        if st is not None:
            for k in range(4):
                w = s.W[:, k * s.n:(k + 1) * s.n]
                step = np.abs(w).max() * np.abs(v).max() / 4095.0 ** 2
                if s.b is not None and np.abs(s.b).max() > 2.0 ** 30 * step or np.abs(w).max() < 1e-3:
                    return False
            if np.abs(st["h"]).max() < 0.02:
                return False
            v = st["out"]
        elif np.abs(s.W).max() < 0.05:
            return False
    return bool(np.abs(x).max() >= 0.02)


def draw(rng, large=0.06, many=False):
    while True:
        specs, x = make(rng, large, many)
        if sound(specs, x, run_float(specs, x)[0]):
            return specs, x


def run_float(specs, x):
    sts = []
    v = np.asarray(x, float)
    for s in specs:
        if isinstance(s, LSpec):
            sts.append(s.states(v))
            v = sts[-1]["out"]
        else:
            sts.append(None)
            v = qnet.ACT[s.act](s.pre(v))
    return sts, v


def compare(ctx, y, ref, last, limit, rms_limit, room=1.0, peak=None):
    ctx.ok(y.shape == ref.shape, "shape", "output shape %s, float %s" % (y.shape, ref.shape))
    full = max(max(ref.max(), 0) - min(ref.min(), 0), 0.2 if isinstance(last, LSpec) else 0.5 * float(np.abs(last.W).sum(0).max() + np.abs(last.bias).max()))
    err = np.abs(y - ref)
    r = float(np.sqrt((err ** 2).mean())) / full / room
    ctx.maxima["rms-%g" % rms_limit] = max(ctx.maxima.get("rms-%g" % rms_limit, 0), r)
    ctx.maxima["max-%g" % limit] = max(ctx.maxima.get("max-%g" % limit, 0), float(err.max()) / full / room)
    ctx.ok(r <= rms_limit, "rms", "root mean square error is %.4f of the output's range" % (r * room))
    ctx.ok(err.max() <= limit * full * (peak or room), "largest", "largest error is %.3f of the output's range" % (err.max() / full))


def run(ctx):
    rng = ctx.rng
    for k, n in (("lstm-layer", 60), ("float-states", 60), ("calibrated-node", 500), ("network-8", 40), ("network-12", 20), ("stacked", 10), ("followed-by-dense", 10), ("many-sequences", 1)):
        ctx.need(k, n)
    for i in ctx.loop(110, 2500, share=0.6):
        specs, x = draw(rng, many=i % 25 == 3)
        with ctx.case("network-8", layers=[s.describe() for s in specs], shape=x.shape), qnet.scratch() as d:
            sts, ref = run_float(specs, x)
            if len(x) >= 600:
                ctx.observe("many-sequences")
            layers = [L.InputLayer(input_shape=x.shape[1:])] if rng.random() < 0.3 else []
            for s in specs:
                layers.append(s.layer())
                if rng.random() < 0.2:
                    layers.append(L.Dropout(0.4))
            v = x
            for s, st in zip(specs, sts):
                if st is not None:
                    float_states(ctx, s, v, st)
                    v = st["out"].astype(np.float32)
            keep = x.copy()
            net, path = qnet.quantize(keras.models.Sequential(layers), x, qnet.config(qnet.TYPES8), d)
            ctx.same(x, keep, "data-altered", "the dataset was changed")
            j = json.load(open(path))
            ops = [o for o in j["graph"] if "LSTM" in o["op_type"].upper()]
            ctx.ok(len(ops) == sum(st is not None for st in sts), "operators", "operators %s" % [o["op_type"] for o in j["graph"]])
            range_node(ctx, j["graph"][0]["outputs"][0], x, "network input")
            v = x
            k = 0
            for s, st in zip(specs, sts):
                if st is not None:
                    check_lstm(ctx, ops[k], s, st, v)
                    v = st["out"]
                    k += 1
            with qnet.quiet():
                y = np.asarray(SequentialNetwork(j).infer(x), float)
            compare(ctx, y, ref, specs[-1], 0.3, 0.1, peak=max(1.0, x.shape[1] / 8))
            ctx.observe("network-8")
            if k > 1:
                ctx.observe("stacked")
            if sts[-1] is None:
                ctx.observe("followed-by-dense")
    ctx.need("long-memory", 6)
    for i in ctx.loop(10, 150):     # long windows and cells that keep what they add up
        n, f, T = int(rng.integers(1, 6)), int(rng.integers(1, 4)), [12, 33, 50, 80, 130][i % 5]
        s = LSpec(rng, "lstm_long", f, i % 2 == 1, 6)
        s.b = np.repeat(rng.normal([4, 5, 2, 2], 0.3), s.n).astype(np.float32).astype(float)
        s.W[:, s.n:2 * s.n] *= 0.3
        x = (rng.normal(0, 1, (int(rng.integers(1, 5)), T, f)) * rng.choice([0.3, 1.0])).astype(np.float32)
        x[-1] = np.abs(x[-1])
        if i % 3 == 2:
            s.b *= np.repeat([1, 1, -1, 1], s.n)
        s.W, s.U = (a.astype(np.float32).astype(float) for a in (s.W, s.U))
        st = s.states(x)
        with ctx.case("long-memory", layer=s.describe(), shape=x.shape, peak=float(np.abs(st["c"]).max())):
            float_states(ctx, s, x, st)
            ki = KerasInput(Quantization("int8"))
            r0 = ki.quantize(QuantizationResult(x, None, None, ki))
            with qnet.quiet():
                r = KerasLSTM(s.layer()).quantize(r0)
                j = json.loads(json.dumps(Network([r0, r, Dequantize().quantize(r)]).as_json()))
            ctx.close(np.asarray(r.input_data), st["out"], 2e-4 * (1 + np.abs(st["out"]).max()), "next-input", "data handed to the next layer")
            check_lstm(ctx, [o for o in j["graph"] if "LSTM" in o["op_type"].upper()][0], s, st, x)
            if np.abs(st["c"]).max() > 9:
                ctx.observe("long-memory")
    for i in ctx.loop(40, 600):
        specs, x = draw(rng)
        t = "int12"
        with ctx.case("network-12", layers=[s.describe() for s in specs], shape=x.shape):
            sts, ref = run_float(specs, x)
            ki = KerasInput(Quantization(t))
            res = [ki.quantize(QuantizationResult(x, None, None, ki))]
            with qnet.quiet():
                for s in specs:
                    if isinstance(s, LSpec):
                        q = KerasLSTM(s.layer(), kernel_dtype=t, recurrent_kernel_dtype=t, recurrent_add_dtype=t, activation_dtype=t, output_dtype=t, cell_state_dtype=t, hidden_state_dtype=t)
                    else:
                        q = KerasDense(s.layer(), kernel_dtype=t, activation_dtype=t, bias_add_dtype=t)
                    res.append(q.quantize(res[-1]))
                    ctx.ok(res[-1].layer is q, "result-layer", "the quantization result does not name the layer that made it")
                res.append(Dequantize().quantize(res[-1]))
                for s, st, r in zip(specs, sts, res[1:]):
                    if st is not None:
                        ctx.close(np.asarray(r.input_data), st["out"], 2e-4 * (1 + np.abs(st["out"]).max()), "next-input", "data handed to the next layer")
                j = json.loads(json.dumps(Network(res).as_json()))
                y = np.asarray(SequentialNetwork(j).infer(x), float)
            k = 0
            v = x
            for s, st in zip(specs, sts):
                if st is not None:
                    check_lstm(ctx, [o for o in j["graph"] if "LSTM" in o["op_type"].upper()][k], s, st, v)
                    v = st["out"]
                    k += 1
            k = max(1.0, x.shape[1] / 8)     # errors of the state add up along the window
            compare(ctx, y, ref, specs[-1], 0.02, 0.008, k)
            ctx.observe("network-12")
