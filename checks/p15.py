"""P15: a network runs exactly its listed operators."""
import copy
import json
import os
import numpy as np
from harness import gen, layers
from harness.layers import Sig, network
from harness.opjson import net, node, op
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.network.sequential import SequentialNetwork
from checks import p13

RULE = ("random operator sequences of both engines (1-14 operators, repeated and adjacent similar kinds, misleading names, engine names in "
        "any letter case), from dictionaries and files; each recorded intermediate result compared with a reference interpreter of the "
        "description fed with the recorded predecessor; corpus of invalid descriptions; non-trivial = distinct sequence and input")
NAMES = ["TANH", "layer", "RELU", "FULLY_CONNECTED", "softmax", "dequantize", "LSTM", "QUANTIZE", "", "LOGISTIC", "QLinearAdd"]


def rcase(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def rejected(ctx, mech, d, msg):
    with ctx.case("reject", what=msg):
        try:
            SequentialNetwork(d)
        except Exception:
            ctx.ok(True, mech)
        else:
            ctx.fail(mech, "%s was accepted" % msg)


def run(ctx):
    rng = ctx.rng
    ctx.need("operator", 1000)
    for k in ("QUANTIZE", "DEQUANTIZE", "FULLY_CONNECTED", "TANH", "LOGISTIC", "RELU", "SOFTMAX", "TanhLUT", "SigmoidLUT",
              "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "QuantizeLinear", "DequantizeLinear", "Softmax", "Tanh", "LSTM"):
        ctx.need("kind-" + k, 5)
    ctx.need("codes-in", 5)
    for i in ctx.loop(500, 7000):
        engine = ["tflite", "onnx"][i % 2]
        n_in = int(rng.integers(1, 7))
        x = rng.normal(0, 1.5, (int(rng.integers(1, 5)) if i % 25 else int(rng.integers(30, 300)), n_in))
        pre = None
        if engine == "tflite" and rng.random() < 0.15:
            s, z = float(rng.uniform(0.005, 0.05)), int(rng.integers(-20, 20))
            sig = Sig(False, n_in, s, z, "int8")
            items = []
            for k in range(int(rng.integers(1, 5))):
                c = [b for b in layers.choices("tflite", sig) if b is not layers.t_quantize]
                if sig.real:
                    break
                items.append(c[int(rng.integers(0, len(c)))](rng, sig, k))
                sig = items[-1].out
            if items[0].kind == "DEQUANTIZE":
                continue
            pre = lambda v: np.clip(np.floor(v / s + z + 0.5), -128, 127)
            inode = node(s, z)
        elif rng.random() < 0.12:
            # codes go in: the first operator dequantizes them
            t = "uint8" if engine == "onnx" else str(rng.choice(["int8", "int16"]))
            lo, hi = gen.limits(t)
            s, z = float(rng.uniform(0.005, 0.05)), int(rng.integers(max(lo, 0), 40))
            first = (layers.o_dequantize if engine == "onnx" else layers.t_dequantize)(rng, Sig(False, n_in, s, z, t), 0)
            items, sig = [first], first.out
            for k in range(1, int(rng.integers(1, 6))):
                c = layers.choices(engine, sig)
                items.append(c[int(rng.integers(0, len(c)))](rng, sig, k))
                sig = items[-1].out
            x = rng.integers(lo, hi + 1, x.shape).astype(t if rng.random() < 0.5 else "int64")
            inode = node(s, z)
            ctx.observe("codes-in")
        else:
            items = network(rng, engine, int(rng.integers(1, 15)) if i % 40 else int(rng.integers(20, 60)), n_in)
            inode = node(0.013, 7)
            if engine == "onnx" and items[0].kind != "QuantizeLinear":
                continue
        for it in items:
            if rng.random() < 0.3:
                it.desc["name"] = str(rng.choice(NAMES))
        d = net(rcase(rng, engine), [it.desc for it in items], inode, node(1.0, 0))
        with ctx.case("sequence", engine=d["engine"], ops=[it.desc["op_type"] for it in items], names=[it.desc["name"] for it in items], x=x):
            keep = copy.deepcopy(d)
            if rng.random() < 0.5:
                with open("net.json", "w", encoding="utf-8") as f:
                    json.dump(d, f)
                N = SequentialNetwork.from_json_file("net.json")
            else:
                N = SequentialNetwork(d)
            kw = {} if rng.random() < 0.7 else {"verbose": True}
            y = np.asarray(N.infer(x, **kw))
            inter = [np.asarray(v) for v in N._intermediate_results]
            ctx.ok(len(inter) == len(items), "intermediate-count", "%d intermediate results for %d operators" % (len(inter), len(items)))
            ctx.ok(len(N.layers) == len(items), "layer-count", "%d layers for %d operators" % (len(N.layers), len(items)))
            ctx.same(inter[-1], y, "last-result", "the result is not the last operator's output")
            v = x if pre is None else pre(x)
            for k, it in enumerate(items):
                lo, hi = it.ref(v)
                g = inter[k].astype(np.float64)
                lo, hi = np.asarray(lo, float), np.asarray(hi, float)
                ctx.ok(g.shape == lo.shape, "operator", "operator %d %s: shape %s expected %s" % (k, it.desc["op_type"], g.shape, lo.shape))
                bad = ~((g >= np.minimum(lo, hi)) & (g <= np.maximum(lo, hi)))
                ctx.ok(not bad.any(), "operator", lambda: "operator %d %s (name %r): got %s expected %s..%s" % (
                    k, it.desc["op_type"], it.desc["name"], g[bad][:4], lo[bad][:4], hi[bad][:4]))
                ctx.observe("kind-" + it.kind)
                v = inter[k]
            # the listed layers, applied by hand, are the network
            if pre is None:
                v = x
                for l, g in zip(N.layers, inter):
                    v = l.infer(np.array(v))
                    ctx.same(v, g, "layers-by-hand", "layer applied by hand")
            # a second inference replaces the intermediates, it does not append to them
            N.infer(x[:1])
            ctx.ok(len(N._intermediate_results) == len(items) and len(np.asarray(N._intermediate_results[0])) == 1,
                   "intermediate-count", "intermediate results of the second inference")
            ctx.ok(d == keep, "description-modified", "description")
    # codes of any declared type: into them and back
    for i in ctx.loop(200, 2000):
        t = str(rng.choice(["int8", "uint8", "int16", "uint16", "int32", "int4", "uint4", "int12", "int10", "uint10", "int24", "int2", "int6", "int17"]))
        lo, hi = gen.limits(t)
        sc, z = layers.params(rng, t, 4.0)
        spell = str(rng.choice([t, t.upper()]))
        x = rng.normal(0, 2, (6, 3)) * rng.choice([1, 1, 5, 100])
        with ctx.case("codes", type=spell, scale=sc, zero_point=z, x=x):
            N = SequentialNetwork(net("TFLITE", [op("QUANTIZE", "q", [node(dtype="FLOAT32")], [node(sc, z, dtype=spell)]),
                                                 op("DEQUANTIZE", "d", [node(sc, z, dtype=spell)], [node(dtype="FLOAT32")])], node(sc, z, dtype=spell), node(1.0, 0)))
            y = np.asarray(N.infer(x))
            q = np.asarray(N._intermediate_results[0])
            a, b = layers.code_bounds(x / sc + z, lo, hi, 0)
            ctx.ok(np.all((q >= a) & (q <= b)), "operator", lambda: "%s codes %s for %s" % (spell, q.ravel()[:6], x.ravel()[:6]))
            want = (q.astype(np.float64) - z) * sc
            ctx.close(y, want, np.abs(want) * 1e-6 + 1e-300, "operator", "dequantized %s" % spell)
            ctx.observe("codes")
    # the same operator, listed several times in a row, runs as many times
    for i in ctx.loop(24, 200):
        engine = ["tflite", "onnx"][i % 2]
        s, z = float(rng.uniform(0.008, 0.02)), int(rng.integers(-20, 20)) if engine == "tflite" else int(rng.integers(90, 150))
        t = "int8" if engine == "tflite" else "uint8"
        lo, hi = gen.limits(t)
        first = op("QUANTIZE", "q", [node(dtype="FLOAT32")], [node(s, z, dtype=t)]) if engine == "tflite" else None
        n = int(rng.integers(2, 6))
        if engine == "tflite":
            kind = ["TANH", "RELU", "LOGISTIC", "FULLY_CONNECTED", "TanhLUT", "SigmoidLUT"][i // 2 % 6]
            if kind in ("TANH", "LOGISTIC"):
                s, z = (1 / 128, 0) if kind == "TANH" else (1 / 256, -128)      # its output is its input
            elif kind == "RELU" and rng.random() < 0.5:
                s = 0.05
            if kind == "FULLY_CONNECTED":
                W = rng.integers(-127, 128, (3, 3))
                one = op(kind, "same", [node(s, z, dtype=t, shape=[1, 3]), node(0.01, 0, W, t), node(s * 0.01, 0, [40, -900, 7], "int32")],
                         [node(s, z, dtype=t, shape=[1, 3])])
                f = lambda v: ((v - z) @ W.T + np.array([40, -900, 7])) * 0.01 + z
            else:
                one = op(kind, "same", [node(s, z, dtype=t)], [node(s, z, dtype=t)])
                if kind.endswith("LUT"):
                    table = rng.permutation(256) - 128
                    one["inputs"][0]["LUT"] = {"LUT": table.tolist(), "offset": 128}
                    f = lambda v: table[v + 128]
                elif kind == "TANH":
                    f = lambda v: np.tanh(v * s) / s
                elif kind == "LOGISTIC":
                    f = lambda v: 1 / (1 + np.exp(-(v - z) * s)) / s + z
                else:
                    f = lambda v: np.maximum(v, z)
            ops = [first] + [copy.deepcopy(one) if rng.random() < 0.5 else one for _ in range(n)]
            skip = 1
        else:
            one = op("Tanh", "same", [], [])
            f = np.tanh
            a = layers.o_quantize(rng, Sig(True, 3), 0)
            ops = [a.desc, layers.o_dequantize(rng, a.out, 1).desc] + [copy.deepcopy(one) for _ in range(n)]
            skip = 2
        x = rng.normal(0, 1, (4, 3))
        with ctx.case("repeated", engine=engine, n=n, kind=one["op_type"], x=x):
            N = SequentialNetwork(net(engine, ops, node(s, z, dtype=t), node(s, z, dtype=t)))
            N.infer(x)
            inter = [np.asarray(v) for v in N._intermediate_results]
            ctx.ok(len(inter) == len(ops) and len(N.layers) == len(ops), "intermediate-count", "%d results of %d repeated operators" % (len(inter), len(ops)))
            v = inter[skip - 1]
            for k in range(skip, len(ops)):
                w = np.asarray(f(v if engine == "onnx" else v.astype(np.int64)), dtype=np.float64)
                if engine == "tflite":
                    w = np.clip(w, lo, hi)
                ctx.close(inter[k], w, 1.001 if one["op_type"] in ("FULLY_CONNECTED", "TANH", "LOGISTIC") else 1e-6, "operator", "repeat %d of %s" % (k, one["op_type"]))
                v = inter[k]
            ctx.observe("repeated")
    # LSTM inside a network
    for i in ctx.loop(40, 500):
        D = p13.make(rng)
        D.ti = "int8"
        D.zi = int(rng.integers(-128, 128))
        D.b = [(D.k[g][0] * D.si, b) for g, (_, b) in enumerate(D.b)]
        seq = bool(rng.integers(0, 2))
        dl = p13.describe(D, seq)
        dl["op_type"] = str(rng.choice(["LSTM", "lstm"]))
        o = Sig(False, D.nu, D.sh, D.zh, D.th, 3 if seq else 2)
        ops = [op("QUANTIZE", "QUANTIZE", [node(dtype="FLOAT32")], [node(D.si, D.zi, dtype="INT8")]), dl]
        tail = layers.t_fc(rng, o, 2) if not seq and D.th in ("int8", "uint8", "int16") else layers.t_dequantize(rng, o, 2)
        ops.append(tail.desc)
        x = rng.normal(0, 1, (D.nb, D.nt, D.nf)) * D.si * 100
        with ctx.case("lstm", i=i, seq=seq, x=x):
            N = SequentialNetwork(net("tflite", ops, node(D.si, D.zi), node(1.0, 0)))
            y = np.asarray(N.infer(x))
            it = N._intermediate_results
            ctx.ok(len(it) == 3, "intermediate-count", "LSTM network")
            ctx.same(it[1], LSTM.from_model(dl).infer(np.asarray(it[0])), "operator", "LSTM operator in a network")
            lo, hi = tail.ref(it[1])
            ctx.ok(np.all((y >= np.minimum(lo, hi)) & (y <= np.maximum(lo, hi))), "operator", "operator after the LSTM")
            ctx.observe("kind-LSTM")
    # rejections
    good = {e: [it.desc for it in network(rng, e, 1, 3)] for e in ("tflite", "onnx")}
    for e in ("", " ", "keras", "TFLITE2", "onnxx", "tf lite", "pytorch", "tensorflow", "TFL", "ON", "onnxruntime", "ONNX-ML", "TFLITE ", " onnx", "tflite\n", "tflite_micro", "my-tflite", "NNX", "LITE", "tflite,onnx"):
        for k in ("tflite", "onnx"):
            rejected(ctx, "reject-engine", net(e, good[k], node(1.0, 0), node(1.0, 0)), "engine %r" % e)
    for k in ("tflite", "onnx"):
        with ctx.case("accept", engine=k):
            SequentialNetwork(net(k, good[k], node(1.0, 0), node(1.0, 0)))
            ctx.ok(True, "accept")
    # complete, valid descriptions whose kind alone is changed
    whole = {}
    for e in ("tflite", "onnx"):
        for _ in range(60):
            for it in network(rng, e, 8, 3):
                whole.setdefault((e, it.kind), it.desc)
    D = p13.make(rng)
    whole["tflite", "LSTM"] = dict(p13.describe(D, True), op_type="LSTM")
    known = {e: {k.upper() for x, k in whole if x == e} for e in ("tflite", "onnx")}
    for (e, k), desc in sorted(whole.items()):
        with ctx.case("accept-kind", engine=e, kind=k):
            SequentialNetwork(net(e, [desc], node(1.0, 0), node(1.0, 0)))
            ctx.ok(True, "accept")
        for t in ("X" + k, k + "X", "MY_" + k, k + "_F", k + "2", "BI" + k, k[:-1], k[1:], k + " ", " " + k, k + "Grad", "Q" + k, k + k, k + "LUT", k.replace("_", ""), k + "\n"):
            if t.upper() not in known[e]:
                rejected(ctx, "reject-operator", net(e, [dict(desc, op_type=t)], node(1.0, 0), node(1.0, 0)), "%s operator %r in place of %r" % (e, t, k))
    s8 = node(0.1, 0)
    for t in ("RELU6", "PRELU", "LEAKY_RELU", "TANH_GRAD", "TANHH", "ADD", "CONV_2D", "", "LSTM2", "UNIDIRECTIONAL_SEQUENCE_LSTM", "MAX_POOL_2D",
              "QLinearMatMul", "Tan", "RESHAPE", "REQUANTIZE", "FULLY", "GELU", "SIGMOID_LUT", "TANH_LUT",
              "LOG_SOFTMAX", "SOFTMAX_F", "FULLY_CONNECTED_F", "FULLY_CONNECTED_INT4", "DEQUANTIZE_F", "FAKE_DEQUANTIZE", "HARD_LOGISTIC", "LOGISTIC_F", "MY_SIGMOIDLUT",
              "QUANTIZE_F", "LSTM_F", "RELU_F", "TANHLUT2", "STABLEHLO_LOGISTIC"):
        w = node(0.1, 0, [[1, 2]], "int8")
        o = node(0.1, 0, dtype="int8")
        for p in (0, 1):
            # complete nodes, so that only the unknown kind can be the reason
            ins = [dict(node(0.1, 0, dtype="int8"), LUT={"LUT": list(range(256)), "offset": 128}), w, node(0.01, 0, [3], "int32")]
            g = [op("TANH", "t", [s8], [s8])] * p + [op(t, "x", ins, [o])]
            rejected(ctx, "reject-operator", net("TFLITE", g, s8, s8), "tflite operator %r" % t)
    u8 = node(0.1, 0, dtype="uint8")
    for t in ("QLinearMul", "MatMul", "", "Relu", "Conv", "QLinearConv", "FULLY_CONNECTED", "LSTM", "LogSoftmax", "QLinearLeakyRelu", "Add", "TanhL", "QuantizeLinear2",
              "QLinearAdd2", "MyQLinearMatMul", "com.microsoft.QLinearSigmoid", "DynamicQuantizeLinear", "LogSoftmax", "Tanhshrink", "SigmoidLUT2", "MatMulInteger"):
        w = node(0.1, 3, [[1, 2]], "uint8")
        for p in (0, 1):
            full = [dict(u8, LUT={"LUT": list(range(256)), "offset": 0}), w, u8]
            g = [op("QuantizeLinear", "t", [u8], [])] * p + [op(t, "x", full, [u8])]
            rejected(ctx, "reject-operator", net("ONNX", g, u8, u8), "onnx operator %r" % t)
    for e in ("tflite", "onnx"):
        for key in ("input", "output"):
            for bad in ([None], [], None):
                d = net(e, good[e], node(1.0, 0), node(1.0, 0))
                d[key] = bad
                rejected(ctx, "reject-nodes", d, "%s = %r" % (key, bad))
            d = net(e, good[e], node(1.0, 0), node(1.0, 0))
            del d[key]
            rejected(ctx, "reject-nodes", d, "no %s" % key)
