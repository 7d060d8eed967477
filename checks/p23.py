"""P23: the exported network description is self-contained and consistent."""
import json
import os
import random
import numpy as np
from tensorflow import keras
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantization import Quantization
from itcl_quantizer.config.models.keras import ParamEqualizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerNet
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from harness import qnet
from checks import p22

RULE = ("random dense and LSTM networks quantized through build(), with and without equalization and rounding optimisation inside it, then further parameter "
        "updates, rounding changes, equalizations, exports and inferences in random order; after every step the export compared with the file, the in-memory network, "
        "the float weights and itself; non-trivial = distinct case")


def export(ctx, net):
    d = net.as_json()
    text = json.dumps(d)
    j = json.loads(text, parse_constant=qnet.no_constants)
    ctx.ok(j["operators"] == len(j["graph"]), "count", "declares %r operators, lists %d" % (j["operators"], len(j["graph"])))
    ctx.ok("QUANTIZE" == j["graph"][0]["op_type"].upper(), "first", "starts with %s" % j["graph"][0]["op_type"])
    ctx.ok("DEQUANTIZE" == j["graph"][-1]["op_type"].upper(), "last", "ends with %s" % j["graph"][-1]["op_type"])
    return j


def body(j):
    return {k: v for k, v in j.items() if k != "generated_at"}


def verify(ctx, net, specs, x, shapes, what):
    j = export(ctx, net)
    ctx.ok(body(j) == body(export(ctx, net)), "export-twice", what + ": two exports differ")
    ctx.ok(list(j["input"][0]["tensor"]["shape"]) == [1, *shapes[0]], "input-shape", "%s: declared input shape %s for samples of %s" % (what, j["input"][0]["tensor"]["shape"], shapes[0]))
    ctx.ok(list(j["output"][0]["tensor"]["shape"]) == [1, *shapes[1]], "output-shape", "%s: declared output shape %s for samples of %s" % (what, j["output"][0]["tensor"]["shape"], shapes[1]))
    qnet.consistent(ctx, j, specs, what + ": ")
    for l in specs:
        if isinstance(l, p22.LSpec):
            o = [o for o in j["graph"] if "LSTM" in o["op_type"].upper() and l.name in o["name"]][0]
            for k in range(4):
                s = o["inputs"][0]["scale"] * o["inputs"][1 + k]["scale"]
                ctx.close(o["inputs"][9 + k]["scale"], s, 1e-6 * s, "lstm-bias-scale", what + ": LSTM bias scale")
    with qnet.quiet():
        mem = net.as_sequential_network()
        a = np.asarray(mem.infer(x))
        b = np.asarray(SequentialNetwork(j).infer(x))
        path = os.path.join(os.environ["VERIF_SCRATCH"], "net23.json")
        json.dump(j, open(path, "w"))
        c = np.asarray(SequentialNetwork.from_json_file(path).infer(x))
        os.unlink(path)
    ctx.same(a, b, "round-trip", what + ": exported against in-memory network")
    ctx.same(a, c, "file-round-trip", what + ": network loaded from a file against in-memory network")
    ctx.ok(a.shape == (len(x), *shapes[1]), "result-shape", "%s: result shape %s" % (what, a.shape))
    ctx.ok(body(export(ctx, net)) == body(j), "export-after-infer", what + ": inferring changed the export")
    with qnet.quiet():
        ctx.same(np.asarray(mem.infer(x)), a, "infer-twice", what + ": a second inference")
    ctx.observe("verified")
    return j, a


def nodes_of(net):
    out, seen = [], set()
    for op in net.as_operators():
        if "FULLY" in str(op.as_json()["op_type"]).upper():
            out += [op.inputs[1], op.outputs[0]]
        elif "LUT" in str(op.as_json()["op_type"]).upper():
            out.append(op.outputs[0])
    return out


def node_export(ctx, rng):
    """A tensor node's export: type, per-sample shape, and codes only when they belong to the description."""
    t = str(rng.choice(["int8", "uint8", "int4", "int12", "int16", "int32"]))
    Q = Quantization(t)
    shape = tuple(int(k) for k in rng.integers(1, 6, int(rng.integers(1, 5))))
    fp = rng.normal(0, 1, shape).astype(rng.choice([np.float32, np.float64]))
    s, zp = float(10 ** rng.uniform(-2, 0)), int(rng.integers(0, 8))
    order = list(rng.permutation(["batch", "tensor"])[:int(rng.integers(0, 3))])
    with ctx.case("node", dtype=t, shape=shape, scale=s, zero_point=zp, excluded=order):
        n = NodeTensorBase(s, zp, "a node", Q).with_tensor(fp)
        for o in order:
            n = n.exclude_batch_dimension() if o == "batch" else n.exclude_tensor()
        if rng.random() < 0.5:
            n.update_quant_parameters(s * 1.5, zp + 1 if zp + 1 <= int(Q.max_value()) else zp)
        j = json.loads(json.dumps(n.as_json()), parse_constant=qnet.no_constants)
        ctx.ok(j["scale"] == n.scale and j["zero_point"] == n.zero_point, "node-parameters", "node exports %r %r, has %r %r" % (j["scale"], j["zero_point"], n.scale, n.zero_point))
        a = j["tensor"]
        ctx.ok(a["dtype"].lower() == t and a["name"] == "a node", "node-type", "node of type %s exports %s, %s" % (t, a["dtype"], a["name"]))
        ctx.ok(list(a["shape"]) == list(shape[1 if "batch" in order else 0:]), "node-shape", "node of shape %s exports %s, without %s" % (shape, a["shape"], order))
        if "tensor" in order:
            ctx.ok(a["tensor"] is None, "node-codes", "an excluded tensor is exported")
        else:
            ctx.same(np.asarray(a["tensor"]), np.asarray(n.quantized), "node-codes", "exported codes")
        ctx.observe("node-" + "+".join(sorted(order)))


def run(ctx):
    rng = ctx.rng
    for k in ("node-", "node-batch", "node-tensor", "node-batch+tensor"):
        ctx.need(k, 20)
    for i in ctx.loop(200, 2000, share=0.1):
        node_export(ctx, rng)
    for k, n in (("verified", 150), ("lstm", 10), ("optimised-build", 15), ("step-update", 10), ("step-rounding", 10), ("step-equalize", 4)):
        ctx.need(k, n)
    for i in ctx.loop(140, 2500):
        mode = str(rng.choice(["plain", "plain", "equalize", "round", "both"]))
        lstm = rng.random() < 0.25
        random.seed(int(rng.integers(0, 2 ** 31)))
        if lstm:
            specs, x = p22.draw(rng, 0)
            x = x[:8]
            model = keras.models.Sequential([s.layer() for s in specs])
            out = p22.run_float(specs, x)[1].shape[1:]
            types, specific = qnet.TYPES8, {}
        else:
            def draw_types():
                t = qnet.dense_types(rng)
                # an optimisation rebuilds every table in every step: keep those small
                return t if mode == "plain" else {k: v if v in ("int32", "int6") else min(v, "int10", key=lambda t: int(t[3:])) for k, v in t.items()}
            types = draw_types()
            n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=6)
            specific = {}
            for s in specs:
                s.cfg = dict(types)
                if rng.random() < 0.3:
                    s.cfg = draw_types()
                    specific[s.name] = s.cfg
            x = qnet.dataset(rng, int(rng.choice([2, 5, 12])), n_in)[1]
            model = qnet.build_model(rng, specs, n_in)
            out = (specs[-1].W.shape[1],)
        shapes = (x.shape[1:], out)
        cfg = qnet.config(types, specific)
        hist = []
        with ctx.case("network", layers=[s.describe() for s in specs], mode=mode, samples=len(x), steps=hist), qnet.scratch() as d:
            target = np.zeros((len(x), *out)) + rng.normal(0, 1)
            seen = []

            def loss(net):
                seen.append(float(np.abs(np.asarray(net.infer(x), float) - target).mean()))
                return seen[-1]

            if mode in ("equalize", "both"):
                cfg.param_equalizer = ParamEqualizerCfg(max_retries=4)
            if mode in ("round", "both"):
                cfg.ada_round_net = RoundingMinimaCfg(max_retries=4) if rng.random() < 0.5 else RoundingAnnealerCfg(t_min=0.001, t_max=0.1, updates=0, steps=6, max_retries=3)
            net, path = qnet.quantize(model, x, cfg, d, loss if mode != "plain" else None)
            if mode != "plain":
                ctx.ok(len(seen) > 0, "loss-used", "the loss was never evaluated")
                ctx.observe("optimised-build")
            j, y = verify(ctx, net, specs, x, shapes, "built")
            f = json.load(open(path), parse_constant=qnet.no_constants)
            ctx.ok(body(f) == body(j), "file", "the file written is not the network's export")
            if mode != "plain":
                ctx.ok(loss(SequentialNetwork(f)) <= seen[0] + 1e-12, "file-loss", "the written network has a loss of %r, the first one evaluated was %r" % (seen[-1], seen[0]))
            if lstm:
                ctx.observe("lstm")
            nodes = nodes_of(net)
            for step in range(int(rng.integers(0, 4))):
                op = str(rng.choice(["update", "rounding", "equalize", "reset", "infer"]))
                hist.append(op)
                if op == "update" and nodes:
                    n = nodes[int(rng.integers(0, len(nodes)))]
                    lo, hi = int(n.quant.min_value()), int(n.quant.max_value())
                    n.update_quant_parameters(n.scale * float(2 ** rng.uniform(-1, 1)), int(np.clip(n.zero_point + rng.integers(-9, 10), lo, hi)))
                    ctx.observe("step-update")
                elif op == "rounding":
                    ops = [o for o in net.as_operators() if len(o.inputs) >= 3]
                    o = ops[int(rng.integers(0, len(ops)))]
                    t = o.inputs[int(rng.integers(1, 3))]
                    t.rounding_policy = rng.integers(0, 2, t.rounding_policy.shape)
                    ctx.observe("step-rounding")
                elif op == "equalize" and nodes:
                    with qnet.quiet():
                        ParamEqualizerNet(net, loss, lambda: BFSEqualizer(2)).equalize()
                    ctx.observe("step-equalize")
                elif op == "reset" and nodes:
                    n = nodes[int(rng.integers(0, len(nodes)))]
                    n.reset_scale()
                    n.reset_zp()
                elif op == "infer":
                    with qnet.quiet():
                        net.as_sequential_network().infer(x)
                verify(ctx, net, specs, x, shapes, "after %s" % hist)
