"""P24: parameter equalization never worsens the loss and stays consistent."""
import json
import random
import zlib
import numpy as np
from tensorflow import keras
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantization import Quantization
from itcl_quantizer.config.models.keras import ParamEqualizerCfg
from itcl_quantizer.equalizers.param_equalizer.annealer import ParamEqAnnealer
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet, ParamEqualizerNet
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from harness import qnet
from checks import p22
from checks.p23 import nodes_of

RULE = ("random dense (and LSTM+dense) networks equalized by the layer-by-layer and whole-network orchestrators, by the optimizers alone over a list of nodes of a network or of any type, scale and zero point, and inside build(), "
        "with best-first and annealing search and random budgets, against the distance to the float output, flat, hash-noisy, inverted, scale-seeking and zero-point-seeking losses; "
        "the whole network inspected at every loss evaluation; non-trivial = distinct case")
FAMILIES = ["distance", "flat", "noise", "worse", "small-scales", "large-scales", "low-zp", "high-zp", "coarse"]


def small_types(rng):
    """Types with short tables: every evaluation looks at all of them."""
    while True:
        t = qnet.dense_types(rng)
        if qnet.steps(t["bias_add_dtype"]) < 2000 or rng.random() < 0.05:
            return t


def params(j):
    out = []
    for o in j["graph"]:
        for n in list(o["inputs"]) + list(o["outputs"]):
            out.append((n["scale"], n["zero_point"]))
    return np.array(out, float)


def snapshot(j):
    return {k: v for k, v in j.items() if k != "generated_at"}


class Watch:
    """The loss given to the equalizer; looks at the whole network whenever it is evaluated."""

    def __init__(self, ctx, family, specs, x, target, rng):
        self.ctx, self.family, self.specs, self.x, self.target = ctx, family, specs, x, target
        self.salt, self.seen, self.states, self.net = int(rng.integers(0, 2 ** 31)), [], set(), None
        self.every = 1

    def value(self, j, net):
        p = params(j)
        f = self.family
        if f == "flat":
            return 3.25
        if f == "noise":
            return zlib.crc32(p.tobytes(), self.salt) / 2.0 ** 32 - 0.5
        if f == "small-scales":
            return float(np.log(p[:, 0]).sum())
        if f == "large-scales":
            return -float(np.log(p[:, 0]).sum())
        if f == "low-zp":
            return float(p[:, 1].sum())
        if f == "high-zp":
            return -float(p[:, 1].sum())
        with qnet.quiet():
            y = np.asarray(net.infer(self.x), float)
        d = float(np.abs(y - self.target).mean())
        return {"distance": d, "worse": -d, "coarse": round(d, 2)}[f]

    def __call__(self, net=None):
        if len(self.seen) > 400:
            raise Enough()
        if self.net is not None:
            j = json.loads(json.dumps(self.net.as_json()), parse_constant=qnet.no_constants)
            if net is None:
                net = SequentialNetwork(j)
        else:
            j = None
        if j is None:                       # inside build(): only the inference network is visible
            with qnet.quiet():
                y = np.asarray(net.infer(self.x), float)
            d = float(np.abs(y - self.target).mean())
            v = {"flat": 3.25, "noise": zlib.crc32(y.tobytes(), self.salt) / 2.0 ** 32}.get(self.family, d)
        else:
            if len(self.seen) % self.every == 0 or len(self.seen) < 4:
                qnet.consistent(self.ctx, j, self.specs, "evaluation %d: " % len(self.seen))
                if net is not None and len(self.seen) % 4 == 0:
                    with qnet.quiet():
                        self.ctx.same(np.asarray(net.infer(self.x)), np.asarray(SequentialNetwork(j).infer(self.x)), "evaluated-network",
                                      "evaluation %d: the network given to the loss and the network's own description" % len(self.seen))
            v = self.value(j, net)
            self.states.add(params(j).tobytes())
        self.seen.append(v)
        self.ctx.observe("evaluations")
        return v


def judge(ctx, w, before, what):
    """Nothing changed the network since the equalizer returned: its own loss is the best seen."""
    n = len(w.seen)
    last = w()
    best = min(w.seen[:n])
    tol = 1e-12 * max(1.0, abs(best))
    ctx.ok(last <= w.seen[0] + tol, "worse", "%s: loss %r, %r before" % (what, last, w.seen[0]))
    ctx.ok(abs(last - best) <= tol, "not-best", "%s: the network left has loss %r, the best of the %d evaluations was %r" % (what, last, n, best))
    ctx.observe("family-" + w.family)
    if best < w.seen[0]:
        ctx.observe("improved")


class Enough(Exception):
    """The search keeps improving; it is stopped from inside the loss and nothing is judged."""


def optimizer(rng, kind, big, seeking):
    if kind == "bfs":
        r = int(rng.integers(0, 4)) if seeking else int(rng.integers(0, 12 if big else 6))
        return [kind, r], lambda: BFSEqualizer(max_retries=r)
    st, t = int(rng.integers(1, 40 if big else 15)), float(10 ** rng.uniform(-3, 3))
    return [kind, st, t], lambda: ParamEqAnnealer(t_min=t / 10 ** rng.uniform(0.0, 3), t_max=t, updates=int(rng.choice([0, 0, 5])), steps=st)


TYPES = ["int8", "uint8", "int4", "uint4", "int12", "uint12", "int16", "uint16", "int32"]


def alone(ctx, rng, i):
    """Nodes of any type, scale and zero point, with and without a tensor, away from any network."""
    random.seed(int(rng.integers(0, 2 ** 31)))
    items = []
    count = int(rng.integers(70, 140)) if i % 17 == 3 else int(rng.integers(1, 20 if rng.random() < 0.2 else 4))
    for k in range(count):
        t = str(rng.choice(TYPES))
        Q = Quantization(t)
        lo, hi = int(Q.min_value()), int(Q.max_value())
        zp = [lo, hi, lo + 1, hi - 1, int(rng.integers(lo, hi + 1)), int(np.clip(0, lo, hi))][int(rng.integers(0, 6))]
        s = float(10.0 ** rng.uniform(-8, 4))
        if rng.random() < 0.2:
            s = float(10.0 ** rng.integers(-8, 5))
        node, fp = NodeTensorBase(s, zp, "n%d" % k, Q), None
        if rng.random() < 0.7:
            fp = (s * rng.uniform(1.2 * lo - zp, 1.2 * hi - zp, (int(rng.integers(1, 5)), int(rng.integers(1, 4))))).astype(rng.choice([np.float32, np.float64]))
            node = node.with_tensor(fp)
        items.append((node, fp, lo, hi, t, s, zp))
    family = str(rng.choice(["flat", "noise", "small-scales", "large-scales", "low-zp", "high-zp", "error"])) if i % 4 else "to-zero"
    kind = str(rng.choice(["bfs", "annealer"]))
    desc, factory = optimizer(rng, kind, True, False)
    salt = int(rng.integers(0, 2 ** 31))
    floor = float(sum(x[6] for x in items)) - 2
    with ctx.case("alone", nodes=[[x[4], x[5], x[6], x[1]] for x in items], loss=family, search=desc):
        seen = []
        before = [None if x[1] is None else x[1].copy() for x in items]

        def look(what):
            for n, fp, lo, hi, t, s, zp in items:
                ctx.ok(float(n.zero_point) == int(n.zero_point) and lo <= n.zero_point <= hi, "zero-point", "%s: zero point %r of a %s node" % (what, n.zero_point, t))
                ctx.ok(np.isfinite(n.scale) and n.scale > 0, "scale", "%s: scale %r" % (what, n.scale))
                if fp is not None:
                    qnet.adjacent(ctx, n.quantized, np.asarray(fp, float) / n.scale + n.zero_point, lo, hi, "codes", what, n.zero_point)
            ctx.observe("nodes-alone", len(items))

        def value():
            p = np.array([(n[0].scale, n[0].zero_point) for n in items], float)
            if family == "error":
                return sum(float((np.abs(np.asarray(n[0].dequantized, float) - n[1]) / n[5]).sum()) for n in items if n[1] is not None)
            return {"flat": -2.0, "noise": zlib.crc32(p.tobytes(), salt) / 2.0 ** 32 - 0.5, "small-scales": float(np.log(p[:, 0]).sum()), "large-scales": -float(np.log(p[:, 0]).sum()),
                    "low-zp": float(p[:, 1].sum()), "high-zp": -float(p[:, 1].sum()),
                    "to-zero": max(0.0, float(p[:, 1].sum()) - floor)}[family]

        def loss():
            look("evaluation %d" % len(seen))
            if len(seen) > 150:
                raise Enough()
            seen.append(value())
            ctx.observe("evaluations")
            return seen[-1]

        opt = factory()
        opt.set_cost_fn(loss)
        opt.set_initial_neigh([x[0] for x in items])
        try:
            with qnet.quiet():
                got, cost = opt.optimize()
        except Enough:
            ctx.observe("stopped")
            return
        look("final")
        v, best = value(), min(seen)
        tol = 1e-9 * max(1.0, abs(best))
        ctx.ok(abs(v - best) <= tol and v <= seen[0] + tol, "not-best", "the nodes are left with loss %r, the best of the %d evaluations was %r, the first %r" % (v, len(seen), best, seen[0]))
        ctx.ok(abs(cost - best) <= tol, "cost", "reported cost %r, best %r" % (cost, best))
        for x, b in zip(items, before):
            if b is not None:
                ctx.same(np.asarray(x[0].fp_tensor), b, "float-tensor", "float tensor")
        ctx.observe("alone")
        if v < seen[0]:
            ctx.observe("alone-improved")


def run(ctx):
    rng = ctx.rng
    ctx.need("alone", 40)
    ctx.need("nodes-alone", 1500)
    for k, n in (("evaluations", 900), ("improved", 12), ("consistent-network", 600), ("layerwise", 20), ("fullnet", 20), ("nodes", 20), ("build", 8), ("annealer", 20), ("distinct-states", 400)):
        ctx.need(k, n)
    for f in FAMILIES:
        ctx.need("family-" + f, 5)
    for i in ctx.loop(170, 3000):
        alone(ctx, rng, i)
        lstm = rng.random() < 0.1
        random.seed(int(rng.integers(0, 2 ** 31)))
        if lstm:
            specs, x = p22.draw(rng)
            x = x[:4]
            model = keras.models.Sequential([s.layer() for s in specs])
            y = p22.run_float(specs, x)[1]
            cfg = qnet.config(qnet.TYPES8)
        else:
            types = small_types(rng)
            n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=6)
            specific = {}
            for s in specs:
                s.cfg = dict(types)
                if rng.random() < 0.3:
                    s.cfg = specific[s.name] = small_types(rng)
            x = qnet.dataset(rng, int(rng.choice([2, 4, 8])), n_in)[1]
            model = qnet.build_model(rng, specs, n_in)
            y = x.astype(float)
            for s in specs:
                y = qnet.ACT[s.act](s.pre(y))
            cfg = qnet.config(types, specific)
        mode = ["layerwise", "fullnet", "nodes", "nodes", "build"][i % 5]
        family = FAMILIES[i % len(FAMILIES)]
        kind = "annealer" if rng.random() < 0.4 else "bfs"
        desc, factory = optimizer(rng, kind, mode == "nodes", family not in ("distance", "flat", "noise", "coarse"))
        if mode == "build":
            desc = ["build", int(rng.integers(0, 8))]
        weights = [np.array(w) for w in model.get_weights()] if hasattr(model, "get_weights") else []
        with ctx.case(mode, layers=[s.describe() for s in specs], loss=family, search=desc, samples=len(x)), qnet.scratch() as d:
            w = Watch(ctx, family, specs, x, y, rng)
            if mode == "build":
                cfg.param_equalizer = ParamEqualizerCfg(max_retries=desc[1])
                net, path = qnet.quantize(model, x, cfg, d, w)
                n = len(w.seen)
                ctx.ok(n > 0, "loss-unused", "equalization configured and a loss given: it was never evaluated")
                with open(path) as fh:
                    j = json.load(fh, parse_constant=qnet.no_constants)
                qnet.consistent(ctx, j, specs, "written: ")
                last = w(SequentialNetwork(j))
                ctx.close(last, min(w.seen[:n]), 1e-12 * max(1, abs(last)), "not-best", "build: loss of the written network against the best of %d evaluations" % n)
                ctx.ok(last <= w.seen[0] + 1e-12 * max(1, abs(last)), "worse", "build: loss %r, %r before" % (last, w.seen[0]))
                ctx.observe("family-" + family)
            else:
                net, path = qnet.quantize(model, x, cfg, d)
                w.net = net
                before = w()
                nodes = nodes_of(net)
                try:
                    with qnet.quiet():
                        if mode == "layerwise":
                            ParamEqualizerNet(net, w, factory).equalize()
                        elif mode == "fullnet":
                            ParamEqualizerFullNet(net, w, factory).equalize()
                        elif nodes:
                            k = int(rng.integers(1, len(nodes) + 1))
                            pick = [nodes[a] for a in sorted(rng.choice(len(nodes), k, replace=False))]
                            rest = [(a, a.scale, a.zero_point) for a in nodes if not any(a is b for b in pick)]
                            opt = factory()
                            opt.set_cost_fn(w)
                            opt.set_initial_neigh(pick)
                            got, cost = opt.optimize()
                            n = len(w.seen)
                            ctx.ok(len(got) == len(pick), "returned-nodes", "%d nodes for %d" % (len(got), len(pick)))
                            for a, b in zip(got, pick):
                                ctx.ok(a.scale == b.scale and a.zero_point == b.zero_point, "returned-nodes", "returned (%r, %r), the node has (%r, %r)" % (a.scale, a.zero_point, b.scale, b.zero_point))
                            ctx.close(cost, min(w.seen), 1e-12 * max(1, abs(cost)), "cost", "reported cost against the best of %d evaluations" % n)
                            for a, s, z in rest:
                                ctx.ok(a.scale == s and a.zero_point == z, "other-node", "a node that was not given changed")
                except Enough:
                    ctx.observe("stopped")
                    continue
                ctx.observe(mode)
                if mode != "nodes" or nodes:
                    judge(ctx, w, before, mode)
                ctx.observe("distinct-states", len(w.states))
                j1 = snapshot(net.as_json())
                with qnet.quiet():
                    a = np.asarray(net.as_sequential_network().infer(x))
                    b = np.asarray(SequentialNetwork(json.loads(json.dumps(j1))).infer(x))
                ctx.same(a, b, "export", "equalized network against its export")
            for a, b in zip(weights, model.get_weights() if weights else []):
                ctx.same(np.asarray(b), a, "float-weights", "float weights of the model")
            ctx.observe("build" if mode == "build" else kind)
