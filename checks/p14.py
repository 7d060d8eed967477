"""P14: purity of inference."""
import copy
import json
import threading
import numpy as np
from harness import gen
from harness.layers import network
from harness.opjson import net, node
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_inference_engine.layers.itclq.lstm import LSTM
from checks import p13

RULE = ("random networks of both engines (1-9 operators, every operator kind incl. LSTM), histories of 6-14 inference calls mixing "
        "whole batches, rows, permutations, splits, repeats, other inputs, failed calls, twin networks of the same description and "
        "threads; every result compared with the sample's reference result; non-trivial = distinct network and history")


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if np.issubdtype(a.dtype, np.floating):
        return np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
    return np.array_equal(a, b)


def freeze(d):
    return json.dumps(d, sort_keys=True, default=repr)


def history(ctx, rng, make_net, d, x, other):
    """make_net builds a fresh object with infer from the shared description d."""
    frozen = freeze(d)
    a, b = make_net(d), make_net(d)
    x0 = x.copy()
    base = np.array(a.infer(x), copy=True)
    ctx.ok(len(base) == len(x), "batch-length", "%d results for %d samples" % (len(base), len(x)))
    ctx.same(x, x0, "input-modified", "first inference")
    held = a.infer(x)
    held0 = np.array(held, copy=True)
    for step in range(int(rng.integers(6, 15))):
        who = a if rng.random() < 0.6 else b
        k = int(rng.integers(0, 12))
        if k == 9:
            # the same array object with other contents
            n = max(len(x), len(other))
            buf = np.concatenate([other, x])[:n].copy() if n > len(x) else x[::-1].copy()
            who.infer(buf)
            buf = buf[:len(x)]
            who.infer(buf)
            buf[...] = x
            r, e, m = who.infer(buf), base, "array-reused"
        elif k == 10:
            lay = int(rng.integers(0, 4))
            v = [np.asfortranarray(x), np.repeat(x, 2, axis=-1)[..., ::2], x[::-1].copy()[::-1],
                 np.concatenate([x, x + 1], axis=-1)[..., :x.shape[-1]]][lay]
            r, e, m = who.infer(v), base, "layout"
        elif k == 11:
            v = x.copy()
            v.setflags(write=False)
            r, e, m = who.infer(v), base, "read-only"
        elif k == 0:
            r, e, m = who.infer(x), base, "repeat"
        elif k == 1:
            p = rng.permutation(len(x))
            r, e, m = who.infer(x[p]), base[p], "permuted"
        elif k == 2:
            i = int(rng.integers(0, len(x)))
            r, e, m = who.infer(x[i:i + 1]), base[i:i + 1], "row"
        elif k == 3:
            c = int(rng.integers(0, len(x) + 1))
            parts = [who.infer(p) for p in (x[:c], x[c:]) if len(p)]
            r, e, m = np.concatenate(parts), base, "split"
        elif k == 4:
            who.infer(other)
            r, e, m = who.infer(x), base, "after-other-input"
        elif k == 5:
            i = rng.integers(0, len(x), int(rng.integers(1, 2 * len(x) + 1)))
            r, e, m = who.infer(x[i]), base[i], "duplicated"
        elif k == 6:
            mixed = np.concatenate([other[:1], x, other[1:]])
            r, e, m = np.asarray(who.infer(mixed))[1:1 + len(x)], base, "among-others"
        elif k == 7:
            r, e, m = make_net(d).infer(x), base, "fresh-network"
        else:
            # the caller owns what it was given back and what it handed over
            xi = x.copy()
            y = who.infer(xi)
            e2 = np.array(y, copy=True)
            try:
                y[...] = 0
            except ValueError:
                pass
            if hasattr(who, "layers"):
                ctx.same(xi, x, "input-modified", "the result of a network shares the memory of its input")
            xi[...] = 0
            r, e, m = who.infer(x), e2, "result-overwritten-by-caller"
            ctx.ok(eq(e2, base), m, "result differs")
        ctx.ok(eq(r, e), m, lambda: "step %d: got %s expected %s" % (step, np.asarray(r).ravel()[:6], np.asarray(e).ravel()[:6]))
        ctx.observe("history-steps")
    ctx.same(x, x0, "input-modified", "after the history")
    ctx.ok(eq(held, held0), "earlier-result-changed", "a result returned earlier changed later")
    ctx.ok(freeze(d) == frozen, "description-modified", "the description was modified")
    return base


def layerwise(ctx, rng, N, x):
    """Each layer on its own: its input stays as it was, whatever its integer type, and it answers the same twice."""
    v = x
    for l in N.layers:
        keep = np.array(v, copy=True)
        r = np.array(l.infer(v), copy=True)
        ctx.same(v, keep, "layer-input-modified", type(l).__name__)
        ctx.ok(eq(l.infer(keep.copy()), r), "layer-repeat", type(l).__name__)
        if np.issubdtype(keep.dtype, np.number) and np.all(keep == np.round(keep)) and np.abs(keep).max(initial=0) < 100:
            for t in (np.int64, np.int32, np.int16, np.int8):
                w = keep.astype(t)
                try:
                    l.infer(w)
                except Exception:
                    continue        # the layer does not take this type
                ctx.ok(np.array_equal(w, keep), "layer-input-modified", lambda: "%s changed its %s input" % (type(l).__name__, np.dtype(t)))
        ctx.observe("layers-alone")
        v = r


def recorded(ctx, D, seq, other):
    """The states recorded of an inference are that inference's alone."""
    fresh, used = LSTM.from_model(p13.describe(D, seq)), LSTM.from_model(p13.describe(D, seq))
    used.infer(other)
    used.infer(D.x)
    fresh.infer(D.x)
    a, b = (getattr(getattr(n, "intermediate_tensors", None), "cell_state", None) for n in (fresh, used))
    if a is not None and b is not None:
        ctx.ok(len(a) == len(b) and all(np.array_equal(u, v) for u, v in zip(a, b)), "recorded-states", lambda: "%d steps recorded, %d on a fresh layer" % (len(b), len(a)))
        ctx.observe("recorded-states")


def threads(ctx, rng, nets, x, base):
    out, err = [None] * len(nets), []

    def work(i):
        try:
            out[i] = [np.array(nets[i].infer(x), copy=True) for _ in range(6)]
        except Exception as e:      # reported by the oracle below
            err.append(e)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(nets))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    for o in out:
        for r in o:
            ctx.ok(eq(r, base), "threads", "concurrent inference gave another result")
            ctx.observe("concurrent-inferences")


def run(ctx):
    rng = ctx.rng
    import sys
    sys.setswitchinterval(1e-5)
    ctx.need("history-steps", 2000)
    ctx.need("concurrent-inferences", 200)
    ctx.need("layers-alone", 300)
    kinds = {}
    for i in ctx.loop(350, 4500):
        engine = ["tflite", "onnx"][i % 2]
        n_in = int(rng.integers(1, 7))
        items = network(rng, engine, int(rng.integers(1, 10)), n_in)
        quant_first = True
        d = net(str(rng.choice([engine, engine.upper()])), [it.desc for it in items], node(0.02, 0), node(1.0, 0))
        if rng.random() < 0.1:
            # a network whose first operator is not a quantization: its input is quantized to int8 on the way in
            quant_first = False
            s = __import__("harness.layers", fromlist=["Sig"]).Sig(False, n_in, 0.02, 3, "int8")
            if engine == "tflite":
                from harness.layers import choices
                from harness import layers
                it = layers.t_fc(rng, s, 0)
                d = net(engine, [it.desc], node(0.02, 3), node(1.0, 0))
                items = [it]
        for it in items:
            kinds[it.kind] = kinds.get(it.kind, 0) + 1
        x = rng.normal(0, 1.5, (int(rng.integers(1, 7)) if i % 12 else int(rng.integers(30, 300)), n_in))
        if rng.random() < 0.3:
            x = np.round(x).astype(np.float32)
        other = rng.normal(0, 30, (int(rng.integers(1, 4)), n_in)).astype(x.dtype)
        with ctx.case("network", engine=engine, ops=[it.kind for it in items], x=x, i=i):
            base = history(ctx, rng, SequentialNetwork, d, x, other)
            if quant_first:
                layerwise(ctx, rng, SequentialNetwork(d), x)
            if i % 10 == 0:
                shared = SequentialNetwork(d)
                threads(ctx, rng, [shared, shared, SequentialNetwork(d), SequentialNetwork(d)], x, base)
    for i in ctx.loop(150, 1200):
        D = p13.make(rng)
        seq = bool(rng.integers(0, 2))
        il, ih = gen.limits(D.ti)
        D.x = gen.codes(rng, il, ih, (int(rng.choice([1, 1, 2, 3, 5])), D.nt, D.nf))
        other = gen.codes(rng, il, ih, (int(rng.integers(1, 4)), D.nt, D.nf))
        with ctx.case("lstm", i=i, nf=D.nf, nu=D.nu, nt=D.nt, x=D.x):
            base = history(ctx, rng, LSTM.from_model, p13.describe(D, seq), D.x, other)
            L = LSTM.from_model(p13.describe(D, seq))
            recorded(ctx, D, seq, other)
            if i % 5 == 0:
                threads(ctx, rng, [L, L, LSTM.from_model(p13.describe(D, seq))], D.x, base)
            kinds["LSTM"] = kinds.get("LSTM", 0) + 1
    for k, n in kinds.items():
        ctx.observe("operators-" + k, n)
    for k in ("QUANTIZE", "DEQUANTIZE", "FULLY_CONNECTED", "TANH", "LOGISTIC", "RELU", "SOFTMAX", "TanhLUT", "SigmoidLUT",
              "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "QuantizeLinear", "DequantizeLinear", "Softmax", "Tanh", "LSTM"):
        ctx.need("operators-" + k, 5)
