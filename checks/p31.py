"""P31: converting an ONNX model preserves computation under operator fusion."""
import contextlib
import importlib
import io
import json
import os
import numpy as np
import onnx
from onnx import numpy_helper
from harness import qnet
from harness.layers import code_bounds
from harness.onnxfile import FLOAT, INT8, UINT8, Init, Op, encode
from itcl_inference_engine.network.sequential import SequentialNetwork

RULE = ("generated ONNX files: operator sequences of 7 kinds over real and uint8 values, with complete, adjacent, repeated and partial dequantize-tanh-quantize runs, shuffled, shared and unused "
        "initializers in both encodings, signed and unsigned weights; the conversion is loaded into the engine and every operator's result compared with the evaluation of its graph nodes; "
        "the quantized ONNX files of the repository; non-trivial = distinct graph")
convert = importlib.import_module("2json")
TABLE = {"QLinearSigmoid": ("SigmoidLUT", "QLinearSigmoid")}
RUN = ["DequantizeLinear", "Tanh", "QuantizeLinear"]


def f32(x):
    return float(np.float32(x))


class Graph:
    def __init__(self, rng):
        self.rng, self.ops, self.inits, self.values, self.inputs, self.outputs = rng, [], {}, [], [], []

    def put(self, name, dtype, value):
        assert name not in self.inits
        self.inits[name] = Init(name, dtype, value, bool(self.rng.random() < 0.4))
        return name

    def params(self, tag, s, z):
        return self.put(tag + "_scale", FLOAT, s), self.put(tag + "_zero_point", UINT8, z)

    def get(self, name):
        return self.inits[name].value

    def s(self, name):
        return float(self.get(name))

    def z(self, name):
        return int(self.get(name))


def params(rng, span):
    return f32(span / 255 * 2.0 ** rng.uniform(-1, 1)), int(rng.choice([0, 255, 128, int(rng.integers(0, 256))]))


def generate(rng, ops=None):
    g = Graph(rng)
    big = rng.random() < 0.04
    width = 130 if big else 9
    n = int(rng.integers(1, width))
    cur = str(rng.choice(["dense_input", "x:0", "input \u00e9"]))
    real = rng.random() < 0.9
    g.inputs.append((cur, FLOAT if real else UINT8, ["unk__6", n]))
    p = None if real else g.params("in", *params(rng, 4))
    bias = rng.random()           # how fond of complete runs this graph is
    force, wide = [], rng.random() < 0.15
    for k in range(ops or int(rng.integers(1, 48 if big else 16))):
        if force:
            kind = force.pop(0)
        elif real:
            kind = str(rng.choice(["QuantizeLinear", "QuantizeLinear", "Tanh", "Softmax"])) if k or rng.random() < 0.15 else "QuantizeLinear"
        else:
            if rng.random() < bias:
                force = RUN[1:]
                kind = RUN[0]
            else:
                kind = str(rng.choice(["DequantizeLinear", "QLinearMatMul", "QLinearMatMul", "QLinearAdd", "QLinearSigmoid"]))
        out = "%s_%d:0" % (kind if rng.random() < 0.5 else "node", k)
        tag = "%s_%d" % (kind, k)
        if kind == "QuantizeLinear":
            s, z = params(rng, 2)
            p, real = g.params(tag, s, z), False
            ins = [cur, *p]
        elif kind == "DequantizeLinear":
            ins, real = [cur, *p], True
        elif kind in ("Tanh", "Softmax"):
            ins = [cur]
        elif kind == "QLinearSigmoid":
            q = g.params(tag, f32(rng.choice([1 / 256, 1 / 200, 1 / 400, 0.02])), int(rng.choice([0, 0, 128, 40])))
            ins, p = [cur, *p, *q], q
        elif kind == "QLinearMatMul":
            m = int(rng.integers(1, width))
            t = UINT8 if rng.random() < 0.7 else INT8
            W = rng.integers(*((0, 256) if t == UINT8 else (-128, 128)), (n, m))
            ws, wz = f32(2.0 ** rng.uniform(-9, -5)), int(rng.integers(0, 256) if t == UINT8 else rng.choice([0, 0, -7]))
            w = g.put(tag + "_quantized", t, W)
            wp = g.put(tag + "_w_scale", FLOAT, ws), g.put(tag + "_w_zero_point", t, wz)
            q = g.params(tag, f32(g.s(p[0]) * ws * 80 * np.sqrt(n) * 2.0 ** rng.uniform(-1, 1) * (30 if wide else 1)), int(rng.integers(0, 256)))
            ins, p, n = [cur, *p, w, *wp, *q], q, m
        else:
            t = UINT8
            B = rng.integers(0, 256, n)
            b = g.put(tag + "_quantized", t, B)
            bp = g.params(tag + "_b", f32(g.s(p[0]) * 2.0 ** rng.uniform(-2, 1)), int(rng.integers(0, 256)))
            q = g.params(tag, f32(g.s(p[0]) * 2.0 ** rng.uniform(-1, 1.5)), int(rng.integers(0, 256)))
            ins, p = [cur, *p, b, *bp, *q], q
        g.ops.append(Op(kind, ins, [out], name=str(rng.choice(["", "n%d" % k]))))
        cur = out
        g.values.append((out, FLOAT if real else UINT8, ["unk__6", n]))
    g.outputs.append(g.values.pop())
    if rng.random() < 0.15:
        g.inputs.append(("aux", FLOAT, ["unk__7", 3]))
    if rng.random() < 0.15:
        g.outputs.append(("aux_out", FLOAT, ["unk__7", 5]))
    if rng.random() < 0.3:
        g.put("unused", FLOAT, [1.5, 2.5])
        g.put("unused_zero_point", UINT8, 9)
    if rng.random() < 0.5:
        g.values = [g.values[i] for i in rng.permutation(len(g.values))]
    return g


def groups(ops):
    """The graph's nodes as operators of the converted network: complete runs are one."""
    out, k = [], 0
    while k < len(ops):
        n = 3 if [o.kind for o in ops[k:k + 3]] == RUN else 1
        out.append(ops[k:k + n])
        k += n
    return out


def evaluate(g, group, x):
    """Bounds of the graph's own evaluation of some nodes."""
    x = np.asarray(x, float)
    o = group[0]
    if len(group) == 3:
        v = np.tanh((x - g.z(o.inputs[2])) * g.s(o.inputs[1]))
        i = group[2].inputs
        return code_bounds(v / g.s(i[1]) + g.z(i[2]), 0, 255, 0)
    i = o.inputs
    if o.kind == "QuantizeLinear":
        return code_bounds(x / g.s(i[1]) + g.z(i[2]), 0, 255, 0)
    if o.kind == "DequantizeLinear":
        v = (x - g.z(i[2])) * g.s(i[1])
    elif o.kind == "Tanh":
        v = np.tanh(x)
    elif o.kind == "Softmax":
        e = np.exp(x - x.max(axis=-1, keepdims=True))
        v = e / e.sum(axis=-1, keepdims=True)
    elif o.kind == "QLinearSigmoid":
        return code_bounds(qnet.sigmoid((x - g.z(i[2])) * g.s(i[1])) / g.s(i[3]) + g.z(i[4]), 0, 255, 0)
    elif o.kind == "QLinearMatMul":
        acc = (x - g.z(i[2])) @ (g.get(i[3]).astype(float) - g.z(i[5]))
        return code_bounds(acc * (g.s(i[1]) * g.s(i[4]) / g.s(i[6])) + g.z(i[7]), 0, 255, 0)
    else:
        r = (x - g.z(i[2])) * g.s(i[1]) + (g.get(i[3]).astype(float) - g.z(i[5])) * g.s(i[4])
        return code_bounds(r / g.s(i[6]) + g.z(i[7]), 0, 255, 0)
    t = 1e-5 * np.abs(v) + 1e-9
    return v - t, v + t


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def structure(ctx, j, g, version):
    G = groups(g.ops)
    ctx.ok(j["engine"].upper() == "ONNX" and j["ir_version"] == version, "header", "engine %r, version %r for %r" % (j["engine"], j["ir_version"], version))
    names = [o["op_type"] for o in j["graph"]]
    ctx.ok(len(names) == len(G), "count", "%s for %s" % (names, [o.kind for o in g.ops]))
    for o, group in zip(j["graph"], G):
        kind = "TanhLUT" if len(group) == 3 else group[0].kind
        what = "%s of %s" % (o["op_type"], [m.kind for m in group])
        ctx.ok(o["op_type"] == kind or o["op_type"] in TABLE.get(kind, ()), "operator", what)
        ctx.observe("fused" if len(group) == 3 else "single")
        i = group[0].inputs
        if kind in ("QLinearMatMul", "QLinearAdd"):
            ctx.ok(len(o["inputs"]) == 3, "arity", what)
            for n, (s, z) in zip(o["inputs"], ((i[1], i[2]), (i[4], i[5]), (i[6], i[7]))):
                ctx.ok(n["scale"] == g.s(s) and n["zero_point"] == g.z(z), "parameters", "%s: (%r, %r) for %s (%r, %r)" % (what, n["scale"], n["zero_point"], s, g.s(s), g.z(z)))
            t = o["inputs"][1]["tensor"]
            w = g.get(i[3])
            w = w.T if kind == "QLinearMatMul" else w
            ctx.same(np.asarray(t["tensor"]), w, "weights", what)
            ctx.ok(list(t["shape"]) == list(w.shape) and np.dtype(t["dtype"].lower()) == w.dtype, "weights", "%s: declared %r %r" % (what, t["shape"], t["dtype"]))
        elif kind in ("QuantizeLinear", "DequantizeLinear"):
            n = o["inputs"][0]
            ctx.ok(n["scale"] == g.s(i[1]) and n["zero_point"] == g.z(i[2]), "parameters", "%s: (%r, %r) for (%r, %r)" % (what, n["scale"], n["zero_point"], g.s(i[1]), g.z(i[2])))
        elif kind in ("Tanh", "Softmax"):
            ctx.ok(o["inputs"][0]["tensor"]["name"] == i[0] and o["outputs"][0]["tensor"]["name"] == group[0].outputs[0], "tensors", what)
        if len(group) == 3 or o["op_type"] == "SigmoidLUT":
            lut = o["inputs"][0]["LUT"]
            v = np.asarray(lut["LUT"], float)
            ctx.ok(v.shape == (256,), "table-size", "%s: %s" % (what, v.shape))
            lo, hi = evaluate(g, group, np.arange(256))
            bad = (v < lo) | (v > hi)
            ctx.ok(not bad.any(), "table", lambda: "%s: codes %s give %s, the nodes %s..%s" % (what, np.flatnonzero(bad)[:5], v[bad][:5], lo[bad][:5], hi[bad][:5]))
            ctx.observe("table")
    for key, vals in (("input", g.inputs), ("output", g.outputs)):
        ctx.ok([n["tensor"]["name"] for n in j[key]] == [v[0] for v in vals], "graph-" + key, "%s are %s, the graph's %s" % (key, [n["tensor"]["name"] for n in j[key]], [v[0] for v in vals]))
        for n, v in zip(j[key], vals):
            s = n["tensor"]["shape"]
            ctx.ok((s[-1] if isinstance(s, list) else s) == v[2][-1], "graph-" + key, "%s %r: width %r, the graph's %r" % (key, v[0], s, v[2]))


def infer(ctx, rng, j, g, reps=2):
    with qnet.quiet(), quiet():
        N = SequentialNetwork(json.loads(json.dumps(j)))
    G = groups(g.ops)
    ctx.ok(len(N.layers) == len(G), "inference-count", "%d layers for %d operators" % (len(N.layers), len(G)))
    for _ in range(reps):
        b, n = int(rng.integers(1, 5)) if rng.random() < 0.97 else 200, g.inputs[0][2][1]
        x = rng.normal(0, 1.5, (b, n)) if g.inputs[0][1] == FLOAT else rng.integers(0, 256, (b, n)).astype(np.uint8)
        v = x
        for k, (layer, group) in enumerate(zip(N.layers, G)):
            with qnet.quiet(), quiet():
                y = np.asarray(layer.infer(v))
            lo, hi = evaluate(g, group, v)
            what = "operator %d %s" % (k, [o.kind for o in group])
            ctx.ok(y.shape == lo.shape, "inference-shape", lambda: "%s: %s, the nodes give %s" % (what, y.shape, lo.shape))
            bad = ~((y.astype(float) >= lo) & (y.astype(float) <= hi))
            ctx.ok(not bad.any(), "inference", lambda: "%s: %s, the nodes give %s..%s" % (what, y[bad][:4], lo[bad][:4], hi[bad][:4]))
            ctx.observe("inferred")
            v = y
        if g.ops[0].kind == "QuantizeLinear":
            with qnet.quiet(), quiet():
                r = np.asarray(N.infer(x))
            ctx.same(r, v, "inference-result", "the network's result")
            ctx.observe("inferred-network")


def run_convert(path):
    with quiet():
        j = convert.model2json(onnx.load(path))
    return json.loads(json.dumps(j), parse_constant=qnet.no_constants)


def run(ctx):
    rng = ctx.rng
    for k, n in (("fused", 300), ("single", 1000), ("table", 300), ("inferred", 2000), ("inferred-network", 200), ("adjacent", 30), ("partial", 60), ("shipped", 2), ("folder", 3), ("unsupported", 10)):
        ctx.need(k, n)
    with qnet.scratch() as folder:
        path = os.path.join(folder, "model.onnx")
        for i in ctx.loop(600, 12000, share=0.8):
            g = generate(rng, int(rng.integers(80, 160)) if i % 40 == 7 else None)
            version = int(rng.choice([3, 4, 4, 7]))
            order = rng.permutation(len(g.inits))
            data = encode(g.ops, [list(g.inits.values())[k] for k in order], g.inputs, g.outputs, g.values, version)
            with ctx.case("graph", ops=[o.kind for o in g.ops], params={k: float(t.value) for k, t in g.inits.items() if t.value.ndim == 0}, width=g.inputs[0][2], order=order.tolist()):
                with open(path, "wb") as f:
                    f.write(data)
                j = run_convert(path)
                structure(ctx, j, g, version)
                infer(ctx, rng, j, g)
                ctx.ok(run_convert(path) == j, "again", "a second conversion differs")
                G = [len(x) for x in groups(g.ops)]
                if [3, 3] in [G[k:k + 2] for k in range(len(G))]:
                    ctx.observe("adjacent")
                if any(o.kind in RUN[:2] and len(x) == 1 for x in groups(g.ops) for o in x):
                    ctx.observe("partial")
        for i in ctx.loop(15, 200):
            g = generate(rng)
            k = int(rng.integers(0, len(g.ops)))
            g.ops[k].kind = str(rng.choice(["Relu", "MatMul", "LSTM", "QLinearMul", "Add"]))
            with open(path, "wb") as f:
                f.write(encode(g.ops, list(g.inits.values()), g.inputs, g.outputs, g.values, 4))
            with ctx.case("unsupported", ops=[o.kind for o in g.ops]):
                try:
                    j = run_convert(path)
                except Exception:
                    j = None
                ctx.ok(j is None, "dropped", lambda: "a graph with an unsupported %s became %s" % (g.ops[k].kind, [o["op_type"] for o in j["graph"]]))
                ctx.observe("unsupported")
        for i in ctx.loop(3, 20):
            directory(ctx, rng, folder, i)
        shipped(ctx, rng)


def directory(ctx, rng, folder, i):
    """Converting a folder of models, again after the first time."""
    d = os.path.join(folder, "w%d" % i, "models", "mnist", "uint8")
    work = os.path.join(folder, "w%d" % i, "a", "b")
    os.makedirs(d)
    os.makedirs(work)
    names = ["mnist_tanh_uint8"] + ["m%d" % k for k in range(int(rng.integers(0, 4)))]
    for n in names:
        g = generate(rng)
        with open(os.path.join(d, n + ".onnx"), "wb") as f:
            f.write(encode(g.ops, list(g.inits.values()), g.inputs, g.outputs, g.values, 4))
    here = os.getcwd()
    with ctx.case("folder", models=names, trial=i):
        raw = {n: open(os.path.join(d, n + ".onnx"), "rb").read() for n in names}
        want = {n: run_convert(os.path.join(d, n + ".onnx")) for n in names}
        for time in range(2):
            os.chdir(work)
            try:
                with quiet():
                    convert.main()
            finally:
                os.chdir(here)
            for n in names:
                ctx.ok(open(os.path.join(d, n + ".onnx"), "rb").read() == raw[n], "model-altered", n)
                ctx.ok(json.load(open(os.path.join(d, n + ".json"))) == want[n], "folder", "%s.json after conversion %d" % (n, time + 1))
            ctx.observe("folder")


class Read(Graph):
    """The graph of an ONNX file."""

    def __init__(self, path):
        g = onnx.load(path).graph
        value = lambda v: (v.name, v.type.tensor_type.elem_type, [d.dim_param or d.dim_value for d in v.type.tensor_type.shape.dim])
        self.ops = [Op(n.op_type, n.input, n.output) for n in g.node]
        self.inits = {t.name: Init(t.name, t.data_type, numpy_helper.to_array(t), True) for t in g.initializer}
        self.inputs, self.outputs = [value(v) for v in g.input], [value(v) for v in g.output]

    def s(self, name):
        return float(self.get(name).ravel()[0])

    def z(self, name):
        return int(self.get(name).ravel()[0])


def shipped(ctx, rng):
    d = os.path.join(os.environ["VERIF_REPO"], "models", "mnist", "uint8")
    for f in sorted(os.listdir(d)):
        if f.endswith(".onnx"):
            with ctx.case("shipped", file=f):
                path = os.path.join(d, f)
                g = Read(path)
                j = run_convert(path)
                structure(ctx, j, g, onnx.load(path).ir_version)
                infer(ctx, rng, j, g, 3)
                ctx.observe("shipped")
