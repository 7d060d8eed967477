"""P30: converting a TFLite model preserves structure, parameters and values."""
import importlib
import json
import os
import warnings
import numpy as np
import tflite
from harness import qnet
from harness.tflitefile import CODES, O, T, TYPES, listed, write
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_tflite2json import convert

RULE = ("generated TFLite files: arbitrary operator lists (21 kinds, repeated, optional inputs) over tensors of nine types with and without stored values and with present, "
        "absent, zero and per-channel parameters, compared field by field; quantized sequential models additionally loaded into the inference engine and each operator's "
        "result compared with the model's own parameters; the TFLite files of the repository; non-trivial = distinct file")
F = {"TANH": np.tanh, "LOGISTIC": qnet.sigmoid}
TABLE = {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}
NAMES = ["conv/kernel", "StatefulPartitionedCall:0", "dense \u00e9/BiasAdd;x", "arith.constant", "serving_default_input:0", "1", "Relu", "?x"]


def f32(x):
    return float(np.float32(x))


def run_convert(ctx, path, out):
    with warnings.catch_warnings(), qnet.quiet():
        warnings.simplefilter("ignore")
        convert(path, out)
    text = open(out).read()
    return json.loads(text, parse_constant=qnet.no_constants)


def same_node(ctx, n, t, what):
    if t is None:
        ctx.ok(n["scale"] is None and n["zero_point"] is None and (n["tensor"] is None or n["tensor"]["tensor"] is None), "absent-input", "%s: an absent input became %r" % (what, str(n)[:100]))
        ctx.observe("absent-input")
        return
    k = n["tensor"]
    what = "%s tensor %r" % (what, t.name)
    ctx.ok(k["name"] == t.name, "name", "%s is called %r" % (what, k["name"]))
    ctx.ok(list(k["shape"]) == t.shape, "shape", "%s: shape %r, model %r" % (what, k["shape"], t.shape))
    ctx.ok(k["dtype"].upper() == t.dtype, "type", "%s: type %r, model %r" % (what, k["dtype"], t.dtype))
    if t.data is None:
        ctx.ok(k["tensor"] is None, "values-invented", "%s: has values, the model stores none" % what)
    else:
        ctx.ok(k["tensor"] is not None, "values-lost", "%s: no values" % what)
        ctx.same(np.asarray(k["tensor"], TYPES[t.dtype][1]).reshape(t.shape) if t.data.size == 0 else np.asarray(k["tensor"], TYPES[t.dtype][1]), t.data, "values", what)
        ctx.observe("values")
    if not t.quant or t.scale is None:
        ctx.ok(n["scale"] is None and n["zero_point"] is None, "parameters-invented", "%s: scale %r, zero point %r, the model has none" % (what, n["scale"], n["zero_point"]))
        ctx.observe("no-parameters")
        return
    s = [f32(v) for v in listed(t.scale)]
    if len(s) == 1:
        ctx.ok(n["scale"] == s[0], "scale", "%s: scale %r, model %r" % (what, n["scale"], s[0]))
        ctx.ok(n["zero_point"] == listed(t.zp)[0] if t.zp is not None else n["zero_point"] in (0, None), "zero-point", "%s: zero point %r, model %r" % (what, n["zero_point"], t.zp))
        if t.zp == 0:
            ctx.observe("zero-zero-point")
    else:
        ctx.ok(n["scale"] == s, "scale", "%s: scales %r, model %r" % (what, n["scale"], s))
        ctx.ok(n["zero_point"] == list(t.zp), "zero-point", "%s: zero points %r, model %r" % (what, n["zero_point"], t.zp))
        ctx.observe("per-channel")


def table(ctx, o, ti, to, what):
    lut = o["inputs"][0].get("LUT")
    ctx.ok(lut is not None, "table-missing", what)
    codes = np.asarray(lut["LUT"])
    ctx.ok(codes.shape == (256,), "table-size", "%s: %d entries" % (what, codes.size))
    ctx.ok(lut["offset"] == 128, "table-offset", "%s: offset %r" % (what, lut["offset"]))
    s, z, u, y = f32(ti.scale), ti.zp, f32(to.scale), to.zp
    v = F[o["description"] if o["description"] in F else {"TANHLUT": "TANH", "SIGMOIDLUT": "LOGISTIC"}[o["op_type"].upper()]]((np.arange(-128, 128) - z) * s) / u + y
    qnet.adjacent(ctx, codes, v, -128, 127, "table", what, y)
    near = np.clip(v, -128, 127)
    ctx.ok(np.all(np.abs(codes - near) <= 0.5 + 1e-6 * (1 + np.abs(v - y))), "table", lambda: "%s: entries %s for %s" % (what, codes[np.abs(codes - near) > 0.5][:4], near[np.abs(codes - near) > 0.5][:4]))
    ctx.observe("table")


def verify(ctx, j, tensors, ops, inputs, outputs, version):
    ctx.ok(j["operators"] == len(ops) and len(j["graph"]) == len(ops), "count", "declares %r, lists %d, model %d" % (j["operators"], len(j["graph"]), len(ops)))
    ctx.ok(j["engine"].upper() == "TFLITE" and j["ir_version"] in (version, str(version)), "header", "engine %r version %r, model %d" % (j["engine"], j["ir_version"], version))
    for k, (o, m) in enumerate(zip(j["graph"], ops)):
        what = "operator %d %s" % (k, m.code)
        ctx.ok(o["op_type"].upper() == TABLE.get(m.code, m.code), "operator", "%s became %s" % (what, o["op_type"]))
        ctx.ok(len(o["inputs"]) == len(m.inputs) and len(o["outputs"]) == len(m.outputs), "arity", "%s: %d inputs, %d outputs" % (what, len(o["inputs"]), len(o["outputs"])))
        for n, i in zip(o["inputs"] + o["outputs"], m.inputs + m.outputs):
            same_node(ctx, n, tensors[i] if i >= 0 else None, what)
        if m.code in F:
            ti, to = tensors[m.inputs[0]], tensors[m.outputs[0]]
            ctx.ok(len(o["inputs"][0]["LUT"]["LUT"]) == 256, "table-size", what)
            if ti.quant and to.quant and None not in (ti.scale, to.scale, ti.zp, to.zp) and ti.dtype == to.dtype == "INT8" and not isinstance(ti.scale, list) and not isinstance(to.scale, list):
                table(ctx, o, ti, to, what)
        else:
            ctx.ok(not any(n.get("LUT") for n in o["inputs"] + o["outputs"]), "table-invented", what)
        ctx.observe("operator")
    for key, ids in (("input", inputs), ("output", outputs)):
        ctx.ok(len(j[key]) == len(ids), "graph-io", "%d graph %ss, model %d" % (len(j[key]), key, len(ids)))
        for n, i in zip(j[key], ids):
            same_node(ctx, n, tensors[i], "graph " + key)


def parameters(rng, channels=0):
    k = rng.random()
    if channels and k < 0.5:
        return [f32(v) for v in 2.0 ** rng.uniform(-12, 2, channels)], [int(v) for v in (np.zeros(channels) if rng.random() < 0.6 else rng.integers(-128, 128, channels))]
    return f32(10.0 ** rng.uniform(-6, 1)), int(rng.choice([0, 0, -128, 127, 3, -7, 32767]))


def random_tensor(rng, k, act=False):
    shape = [int(v) for v in rng.integers(1, 6, int(rng.integers(0, 5)))] if rng.random() < 0.99 else [[40, 130], [2000], [3, 3, 32, 16]][int(rng.integers(0, 3))]
    t = str(rng.choice(list(TYPES) if not act else ["INT8", "INT8", "FLOAT32", "INT16", "UINT8"]))
    data = None
    if not act and rng.random() < 0.6:
        n = int(np.prod(shape)) if shape else 1
        d = TYPES[t][1]
        if t == "BOOL":
            data = rng.random(n) < 0.5
        elif t.startswith("FLOAT"):
            data = rng.normal(0, 10, n).astype(d)
        else:
            i = np.iinfo(d)
            data = np.append(rng.integers(max(i.min, -2 ** 62), min(i.max, 2 ** 62), n, dtype=np.int64)[1:], [i.max if rng.random() < 0.5 else i.min][:1]).astype(d)
            data = data[:n]
        data = data.reshape(shape)
    s = z = None
    quant, mm = True, bool(rng.random() < 0.2)
    kind = rng.random()
    if kind < 0.2:
        quant = False
    elif kind < 0.4:
        pass
    elif kind < 0.5:
        s = f32(rng.uniform(0.001, 1))
    else:
        s, z = parameters(rng, shape[0] if not act and shape and shape[0] > 1 and rng.random() < 0.5 else 0)
    return T("%s_%d" % (rng.choice(NAMES), k), shape, t, data, s, z, quant, mm)


def arbitrary(rng):
    many = rng.random() < 0.03
    tensors = [random_tensor(rng, k, rng.random() < 0.4) for k in range(int(rng.integers(1, 14)) if not many else int(rng.integers(100, 320)))]
    ops = []
    n = len(tensors)
    for k, t in enumerate(tensors):      # fused tensors are named after several others
        if n > 1 and rng.random() < 0.25:
            a, b = rng.integers(0, k, 2) if k else (n - 1, n - 1)
            t.name = "%s;%s;f%d" % (tensors[a].name.split(";")[0], tensors[b].name.split(";")[-1], k) if rng.random() < 0.7 else "%s%s" % (tensors[a].name, "/x%d" % k)
    for _ in range(int(rng.integers(0, 10)) if not many else int(rng.integers(40, 150))):
        code = str(rng.choice(list(CODES)))
        if code in F:      # a valid activation operator: int8 or float tensors of the same kind
            i = len(tensors)
            si, zi = parameters(rng)
            q = rng.random() < 0.8
            for m in range(2):
                tensors.append(T("act_%d" % (i + m), [1, 4], "INT8" if q else "FLOAT32", None, *((max(si, 1e-4) if m == 0 else [1 / 128, 1 / 256, 0.01][int(rng.integers(0, 3))],
                                                                                               int(np.clip(zi, -128, 127)) if m == 0 else int(rng.choice([0, -128, 5]))) if q else (None, None))))
            ops.append(O(code, [i], [i + 1]))
            continue
        ins = [int(v) for v in rng.integers(0, n, int(rng.integers(1, 5)))]
        if rng.random() < 0.25:
            ins[int(rng.integers(0, len(ins)))] = -1
        ops.append(O(code, ins, [int(v) for v in rng.integers(0, n, int(rng.integers(1, 3)))]))
    io = [[int(v) for v in rng.integers(0, n, int(rng.integers(1, 4)))] for _ in range(2)]
    return tensors, ops, io[0], io[1]


def chain(rng):
    """A sequential quantized model of the operators the engine runs."""
    big = rng.random() < 0.05
    width = 120 if big else 9
    n, nb = int(rng.integers(1, width)), 1
    tensors, ops = [], []

    def add(t):
        tensors.append(t)
        return len(tensors) - 1
    name = lambda s: "%s_%d" % (s, len(tensors))
    s, z = f32(2.0 ** rng.uniform(-8, -4)), int(rng.integers(-128, 128))
    first = rng.random() < 0.8
    if first:
        a = add(T(name("input"), [nb, n], "FLOAT32", None, quant=bool(rng.random() < 0.5)))
        b = add(T(name("tfl.quantize"), [nb, n], "INT8", None, s, z))
        ops.append(O("QUANTIZE", [a], [b]))
        inputs, cur = [a], b
    else:
        cur = add(T(name("input"), [nb, n], "INT8", None, s, z))
        inputs = [cur]
    for _ in range(int(rng.integers(1, 24 if big else 8))):
        t = tensors[cur]
        m = t.shape[1]
        code = str(rng.choice(["FULLY_CONNECTED", "FULLY_CONNECTED", "FULLY_CONNECTED", "TANH", "LOGISTIC", "RELU", "SOFTMAX"]))
        if code == "FULLY_CONNECTED":
            u = int(rng.integers(1, width))
            ws = f32(2.0 ** rng.uniform(-9, -5))
            w = add(T(name("MatMul"), [u, m], "INT8", rng.integers(-127, 128, (u, m)), ws, 0))
            ins = [cur, w]
            k = rng.random()
            if k < 0.7:
                ins.append(add(T(name("BiasAdd"), [u], "INT32", rng.integers(-3000, 3000, u), f32(np.float32(ws) * np.float32(t.scale)), 0)))
            elif k < 0.9:
                ins.append(-1)
            y = add(T(name("dense"), [nb, u], "INT8", None, f32(t.scale * ws * 127 * np.sqrt(m) * 2.0 ** rng.uniform(-0.5, 1.5)), int(rng.integers(-128, 128))))
            ops.append(O(code, ins, [y]))
        else:
            o = {"TANH": (1 / 128, 0), "LOGISTIC": (1 / 256, -128), "SOFTMAX": (t.scale, t.zp), "RELU": (f32(t.scale * rng.uniform(0.5, 2)), -128)}[code]
            y = add(T(name(code.lower()), [nb, m], "INT8", None, *o))
            ops.append(O(code, [cur], [y]))
        cur = y
    if rng.random() < 0.7:
        y = add(T(name("output"), tensors[cur].shape, "FLOAT32", None, quant=bool(rng.random() < 0.5)))
        ops.append(O("DEQUANTIZE", [cur], [y]))
        cur = y
    return tensors, ops, inputs, [cur]


def expected(op, tensors, x):
    """Bounds of an operator's exact result on the codes it was given."""
    ti, to = tensors[op.inputs[0]], tensors[op.outputs[0]]
    x = np.asarray(x, float)
    if op.code == "QUANTIZE":
        v, tol = x / f32(to.scale) + to.zp, 0
    elif op.code == "DEQUANTIZE":
        r = (x - ti.zp) * f32(ti.scale)
        return r - 1e-6 * np.abs(r), r + 1e-6 * np.abs(r)
    elif op.code == "SOFTMAX":
        return x, x
    elif op.code == "FULLY_CONNECTED":
        w = tensors[op.inputs[1]]
        b = tensors[op.inputs[2]].data if len(op.inputs) > 2 and op.inputs[2] >= 0 else 0
        acc = (x - ti.zp) @ w.data.astype(float).T + b
        v, tol = acc * (f32(ti.scale) * f32(w.scale) / f32(to.scale)) + to.zp, 1
    else:
        r = (x - ti.zp) * f32(ti.scale)
        v = {"TANH": np.tanh, "LOGISTIC": qnet.sigmoid, "RELU": lambda a: np.maximum(a, 0)}[op.code](r) / f32(to.scale) + to.zp
        tol = 1 if op.code == "RELU" else 0
    e = 1e-6 * (1 + np.abs(v - to.zp))
    return np.clip(np.ceil(v - 0.5 - e) - tol, -128, 127), np.clip(np.floor(v + 0.5 + e) + tol, -128, 127)


def infer(ctx, rng, out, tensors, ops, inputs, reps=2):
    with qnet.quiet():
        N = SequentialNetwork.from_json_file(out)
    t = tensors[inputs[0]]
    for _ in range(reps):
        x = rng.normal(0, 2, (int(rng.integers(1, 5)), t.shape[-1]))
        if t.dtype == "INT8":
            x = x * f32(t.scale) * 60
        with qnet.quiet():
            y = np.asarray(N.infer(x))
        inter = [np.asarray(v) for v in N._intermediate_results]
        ctx.ok(len(inter) == len(ops), "inference-count", "%d results for %d operators" % (len(inter), len(ops)))
        v = x
        if t.dtype == "INT8":
            q = np.asarray(x) / f32(t.scale) + t.zp
            if (np.abs(q - np.floor(q) - 0.5) < 1e-3).any():
                continue
            v = np.clip(np.floor(q + 0.5), -128, 127)
        for k, o in enumerate(ops):
            lo, hi = expected(o, tensors, v)
            g = inter[k].astype(float)
            ctx.ok(g.shape == lo.shape, "inference", "operator %d %s: shape %s expected %s" % (k, o.code, g.shape, lo.shape))
            bad = ~((g >= lo) & (g <= hi))
            ctx.ok(not bad.any(), "inference", lambda: "operator %d %s: %s, the model prescribes %s..%s" % (k, o.code, g[bad][:4], lo[bad][:4], hi[bad][:4]))
            v = inter[k]
            ctx.observe("inferred")
            ctx.observe("inferred-" + o.code)
        ctx.same(inter[-1], y, "inference-result", "result")


def run(ctx):
    rng = ctx.rng
    for k, n in (("operator", 1500), ("values", 500), ("table", 200), ("no-parameters", 300), ("zero-zero-point", 200), ("per-channel", 50), ("absent-input", 50), ("inferred", 500), ("folder", 3),
                 ("shipped", 3)):
        ctx.need(k, n)
    for c in ("QUANTIZE", "FULLY_CONNECTED", "TANH", "LOGISTIC", "RELU", "DEQUANTIZE"):
        ctx.need("inferred-" + c, 30)
    with qnet.scratch() as folder:
        path, out = os.path.join(folder, "model.tflite"), os.path.join(folder, "tflite.json")
        for i in ctx.loop(400, 8000, share=0.45):
            tensors, ops, inputs, outputs = arbitrary(rng)
            version = int(rng.choice([3, 3, 1, 7]))
            with ctx.case("arbitrary", ops=[(o.code, o.inputs, o.outputs) for o in ops], tensors=[(t.name, t.shape, t.dtype, t.scale, t.zp, t.quant, t.data is not None) for t in tensors], io=[inputs, outputs]):
                write(path, tensors, ops, inputs, outputs, version, rng, share=bool(rng.random() < 0.3))
                raw = open(path, "rb").read()
                j = run_convert(ctx, path, out)
                verify(ctx, j, tensors, ops, inputs, outputs, version)
                ctx.ok(open(path, "rb").read() == raw, "model-altered", "the model file changed")
                ctx.ok(run_convert(ctx, path, out) == j, "again", "a second conversion differs")
        for i in ctx.loop(300, 6000, share=0.45):
            tensors, ops, inputs, outputs = chain(rng)
            with ctx.case("chain", ops=[(o.code, o.inputs, o.outputs) for o in ops], tensors=[(t.shape, t.dtype, t.scale, t.zp) for t in tensors]):
                write(path, tensors, ops, inputs, outputs, 3, rng)
                j = run_convert(ctx, path, out)
                verify(ctx, j, tensors, ops, inputs, outputs, 3)
                infer(ctx, rng, out, tensors, ops, inputs)
        for i in ctx.loop(4, 30, share=0.05):
            folder_of_models(ctx, rng, folder, i)
        shipped(ctx, rng, out)


def folder_of_models(ctx, rng, folder, i):
    """The command-line loop: every model of the folder next to the one it runs in."""
    work, d = os.path.join(folder, "w%d" % i, "src"), os.path.join(folder, "w%d" % i, "models")
    os.makedirs(work)
    os.makedirs(d)
    nets = {}
    for k in range(int(rng.integers(0, 5))):
        tensors, ops, inputs, outputs = arbitrary(rng) if rng.random() < 0.5 else chain(rng)
        version = int(rng.choice([3, 3, 1, 7]))
        nets["net %d.v2" % k] = tensors, ops, inputs, outputs, version
        write(os.path.join(d, "net %d.v2.tflite" % k), tensors, ops, inputs, outputs, version, rng)
    with open(os.path.join(d, "notes.txt"), "w"):
        pass
    here = os.getcwd()
    with ctx.case("folder", trial=i, models=len(nets)):
        entry = importlib.import_module("itcl_tflite2json._tflite2json").main
        os.chdir(work)
        try:
            with warnings.catch_warnings(), qnet.quiet():
                warnings.simplefilter("ignore")
                entry()
        finally:
            os.chdir(here)
        got = {}
        for f in sorted(os.listdir(d)):
            if f not in ("notes.txt",) and not f.endswith(".tflite"):
                with open(os.path.join(d, f)) as fh:
                    got[f] = json.load(fh, parse_constant=qnet.no_constants)
        ctx.ok(sorted(got) == sorted(n + ".json" for n in nets), "folder-files", "models %s, files %s" % (sorted(nets), sorted(got)))
        for n, net in nets.items():
            verify(ctx, got[n + ".json"], *net)
        ctx.observe("folder")


def read(path):
    """The tensors and operators of a TFLite file."""
    m = tflite.Model.GetRootAsModel(bytearray(open(path, "rb").read()), 0)
    g = m.Subgraphs(0)
    types = {v[0]: k for k, v in TYPES.items()}
    codes = {v: k for k, v in CODES.items()}
    one = lambda v: None if not isinstance(v, np.ndarray) or not v.size else v.tolist() if v.size > 1 else v.tolist()[0]
    tensors = []
    for i in range(g.TensorsLength()):
        t = g.Tensors(i)
        q = t.Quantization()
        d = m.Buffers(t.Buffer()).DataAsNumpy()
        dt = types[t.Type()]
        tensors.append(T(t.Name().decode(), t.ShapeAsNumpy().tolist(), dt, np.frombuffer(d.tobytes(), TYPES[dt][1]) if isinstance(d, np.ndarray) else None,
                         one(q.ScaleAsNumpy()) if q is not None else None, one(q.ZeroPointAsNumpy()) if q is not None else None, q is not None))
    ops = [O(codes[m.OperatorCodes(g.Operators(i).OpcodeIndex()).BuiltinCode()], g.Operators(i).InputsAsNumpy().tolist(), g.Operators(i).OutputsAsNumpy().tolist()) for i in range(g.OperatorsLength())]
    return tensors, ops, g.InputsAsNumpy().tolist(), g.OutputsAsNumpy().tolist(), m.Version()


def shipped(ctx, rng, out):
    """The models kept in the repository."""
    for d, dirs, files in os.walk(os.environ["VERIF_REPO"]):
        dirs[:] = sorted(x for x in dirs if not x.startswith("."))
        for f in sorted(files):
            if not f.endswith(".tflite"):
                continue
            path = os.path.join(d, f)
            with ctx.case("shipped", file=os.path.relpath(path, os.environ["VERIF_REPO"])):
                tensors, ops, inputs, outputs, version = read(path)
                j = run_convert(ctx, path, out)
                verify(ctx, j, tensors, ops, inputs, outputs, version)
                infer(ctx, rng, out, tensors, ops, inputs, 3)
                ctx.observe("shipped")
