"""P25: rounding optimisation applies the best decisions it has seen."""
import json
import random
import zlib
import numpy as np
from tensorflow import keras
from itcl_quantization import Quantization
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantizer.config.models.keras import RoundingAnnealerCfg, RoundingMinimaCfg
from itcl_quantizer.equalizers.adaround.adaround import AdaRound, AdaroundNet
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from harness import qnet
from checks import p22
from checks.p24 import small_types

RULE = ("the annealer alone, AdaRound over stand-in and real tensors, AdaroundNet over quantized dense and LSTM networks, and build() with both configurations, on random shapes, "
        "budgets and temperatures, against losses that are separable, flat, zero at the start, zero elsewhere, hash-noisy, negative, worst at the optimum's neighbours, or the "
        "network's distance to the float output; every evaluated state recorded and checked; non-trivial = distinct case")
FAMILIES = ["hidden", "flat", "zero-start", "noise", "negative", "single", "away"]


class Tensor:
    """Anything with rounding decisions; records what it is given."""

    def __init__(self, policy):
        self._p = policy
        self.given = 0

    @property
    def rounding_policy(self):
        return self._p

    @rounding_policy.setter
    def rounding_policy(self, p):
        self.given += 1
        self._p = p


def binary(ctx, policies, shapes, what):
    ctx.ok(len(policies) == len(shapes), "count", "%s: decisions for %d tensors, not %d" % (what, len(policies), len(shapes)))
    for p, s in zip(policies, shapes):
        p = np.asarray(p)
        ctx.ok(p.shape == tuple(s), "shape", "%s: decisions of shape %s for a tensor of shape %s" % (what, p.shape, s))
        ctx.ok(np.isin(p, (0, 1)).all(), "binary", "%s: decisions %s" % (what, np.unique(p)[:5]))


class Loss:
    def __init__(self, ctx, rng, family, start):
        self.ctx, self.family, self.shapes = ctx, family, [p.shape for p in start]
        self.start = [np.array(p) for p in start]
        self.target = [rng.integers(0, 2, p.shape) for p in start]
        self.salt = int(rng.integers(0, 2 ** 31))
        self.seen, self.touched, self.states = [], [np.zeros(p.shape, bool) for p in start], set()

    def value(self, ps):
        f = self.family
        d = sum(int((np.asarray(p) != t).sum()) for p, t in zip(ps, self.target))
        away = sum(int((np.asarray(p) != t).sum()) for p, t in zip(ps, self.start))
        key = b"".join(np.asarray(p).astype(np.uint8).tobytes() for p in ps)
        return {"hidden": d * 0.25, "flat": 1.5, "zero-start": 0.0 if away == 0 else 1.0 + away, "noise": zlib.crc32(key, self.salt) / 2.0 ** 32,
                "negative": -1000.0 + d, "single": 0.0 if zlib.crc32(key, self.salt) % 7 == 0 else 2.0, "away": -float(away)}[f]

    def __call__(self, ps):
        binary(self.ctx, ps, self.shapes, "evaluation %d" % len(self.seen))
        for t, p, s in zip(self.touched, ps, self.start):
            t |= np.asarray(p) != s
        v = self.value(ps)
        self.seen.append(v)
        self.states.add(b"".join(np.asarray(p).astype(np.uint8).tobytes() for p in ps))
        self.ctx.observe("evaluations")
        return v


def shape(rng):
    return [(1,), (2,), (5,), (3, 2), (2, 4), (1, 3), (4, 1), (2, 2, 2), (7,)][int(rng.integers(0, 9))]


def optimizer(rng, budget):
    k = int(rng.integers(0, 4))
    if k == 0:
        r = int(rng.integers(0, budget))
        return ["minima cfg", r], lambda: RoundingMinimaCfg(max_retries=r).build()
    t = float(10 ** rng.uniform(-3, 3))
    a = dict(t_min=t / 10 ** rng.uniform(0, 3), t_max=t, updates=int(rng.choice([0, 5])), steps=int(rng.integers(0, budget)), max_retries=int(rng.integers(0, budget)))
    if k == 1:
        return ["annealer cfg", a], lambda: RoundingAnnealerCfg(**a).build()
    return ["annealer", a], lambda: RoundingAnnealer(**a)


def alone(ctx, rng, i):
    family = str(rng.choice(FAMILIES))
    many = i % 10 == 4
    start = [rng.integers(0, 2, shape(rng)) for _ in range(int(rng.integers(10, 30)) if many else int(rng.integers(1, 4)))]
    desc, factory = optimizer(rng, 40)
    reach = i % 50 != 3 and rng.random() < 0.15
    huge = i % 50 == 3
    if huge:                            # every region of a large tensor is searched
        start.insert(int(rng.integers(0, len(start) + 1)), rng.integers(0, 2, [(6000,), (70, 100), (3, 5000), (20000, 1)][int(rng.integers(0, 4))]))
        k = {"steps": 500, "max_retries": 0} if rng.random() < 0.5 else {"steps": 0, "max_retries": 500}
        desc, factory = ["huge", k], lambda: RoundingAnnealer(t_min=0.01, t_max=1.0, updates=0, **k)
        family = str(rng.choice(["flat", "noise"]))
    if reach:
        n = 400
        if rng.random() < 0.5:      # tensors of many decisions
            start = [rng.integers(0, 2, [(70,), (9, 9), (100,), (2, 33)][int(rng.integers(0, 4))]) for _ in range(int(rng.integers(1, 3)))]
            n = 2500
        k = {"steps": n, "max_retries": 0} if rng.random() < 0.5 else {"steps": 0, "max_retries": n}
        desc, factory = ["reach", k], lambda: RoundingAnnealer(t_min=0.01, t_max=1.0, updates=0, **k)
        family = str(rng.choice(["flat", "noise"]))
    how = str(rng.choice(["optimize", "adaround"]))
    with ctx.case("alone", shapes=[p.shape for p in start], loss=family, optimizer=desc, through=how):
        opt = factory()
        if rng.random() < 0.25:         # the object has optimised another problem before
            other = [rng.integers(0, 2, p.shape) for p in start] if rng.random() < 0.5 else [rng.integers(0, 2, shape(rng)) for _ in range(int(rng.integers(1, 4)))]
            first = Loss(ctx, rng, str(rng.choice(["negative", "hidden", "noise", "zero-start"])), other)
            with qnet.quiet():
                got, cost = opt.set_cost_fn(first).set_initial_neigh([p.copy() for p in other]).optimize() if not huge else (other, first(other))
            binary(ctx, got, first.shapes, "first problem")
            ctx.ok(first.value(got) == cost == min(first.seen), "first-problem", "reported cost %r, the decisions have %r, best %r" % (cost, first.value(got), min(first.seen)))
            ctx.observe("reused")
        loss = Loss(ctx, rng, family, start)
        given = [p.copy() for p in start]
        with qnet.quiet():
            if how == "optimize":
                opt.set_cost_fn(loss)
                opt.set_initial_neigh(given)
                got, cost = opt.optimize()
                final = got
                for a, b in zip(given, start):
                    ctx.same(a, b, "input-changed", "the initial decisions given")
            else:
                tensors = [Tensor(p) for p in given]
                out = AdaRound(opt, lambda: loss([t.rounding_policy for t in tensors]), None, None, None).round(tensors)
                ctx.ok(len(out) == len(tensors) and all(a is b for a, b in zip(out, tensors)), "returned", "round() does not return the tensors it was given")
                final, cost = [t.rounding_policy for t in tensors], None
        binary(ctx, final, loss.shapes, "final")
        v, best, first = loss.value(final), min(loss.seen), loss.value(start)
        ctx.ok(len(loss.seen) > 0 and v == min(best, first), "not-best", "decisions left have loss %r, best of %d evaluations %r, start %r" % (v, len(loss.seen), best, first))
        ctx.ok(v <= first, "worse", "loss %r, %r before" % (v, first))
        if cost is not None:
            ctx.ok(cost == v, "cost", "reported cost %r, the reported decisions have %r" % (cost, v))
        if reach:
            for t in loss.touched:
                ctx.ok(t.all(), "reach", "%d of %d decisions were never changed in %d evaluations" % ((~t).sum(), t.size, len(loss.seen)))
            ctx.observe("reach")
        if huge:
            for t in loss.touched:
                if t.size > 4000:
                    parts = [int(q.sum()) for q in np.array_split(t.ravel(), 8)]
                    ctx.ok(min(parts) > 0, "reach", "decisions of %s changed by eighths %s in %d evaluations" % (t.shape, parts, len(loss.seen)))
            ctx.observe("huge")
        if many:
            ctx.observe("many")
        ctx.observe("family-" + family)
        ctx.observe("distinct-states", len(loss.states))
        if v < first:
            ctx.observe("improved")


def nodes(ctx, rng):
    """Real tensors under AdaRound: codes follow the decisions, nothing else moves."""
    items = []
    for k in range(int(rng.integers(1, 4))):
        t = str(rng.choice(["int8", "uint8", "int4", "int12", "int32"]))
        Q = Quantization(t)
        fp = rng.normal(0, 10.0 ** rng.uniform(-2, 1), shape(rng)).astype(rng.choice([np.float32, np.float64]))
        s = float(10 ** rng.uniform(-2, 0))
        zp = int(rng.integers(max(Q.min_value(), -50), min(Q.max_value(), 50) + 1))
        items.append((NodeTensorBase(s, zp, "n%d" % k, Q).with_tensor(fp), fp, s, zp, t, int(Q.min_value()), int(Q.max_value())))
    desc, factory = optimizer(rng, 30)
    family = str(rng.choice(["reconstruction", "bias", "flat", "zero"]))
    with ctx.case("nodes", tensors=[[x[1], x[2], x[3], x[4]] for x in items], optimizer=desc, loss=family):
        ns = [x[0] for x in items]
        seen = []
        start = [np.array(n.rounding_policy) for n in ns]

        def value():
            e = [np.asarray(n.dequantized, float) - np.asarray(x[1], float) for n, x in zip(ns, items)]
            return {"reconstruction": sum(float((d ** 2).sum()) for d in e), "bias": abs(sum(float(d.sum()) for d in e)), "flat": 2.0, "zero": 0.0}[family]

        def codes(what):
            for n, fp, s, zp, t, lo, hi in items:
                ctx.ok(n.scale == s and n.zero_point == zp, "parameters", "%s: parameters %r" % (what, (n.scale, n.zero_point)))
                ctx.same(np.asarray(n.fp_tensor), fp, "float-tensor", what + ": float tensor")
                v = fp.astype(float) / s + zp
                qnet.adjacent(ctx, n.quantized, v, lo, hi, "codes", what)
                r = np.asarray(n.rounding_policy)
                binary(ctx, [r], [fp.shape], what)
                eps = 1e-6 * np.maximum(1, np.abs(v))
                a, b = np.clip(np.floor(v - eps) + r, lo, hi), np.clip(np.floor(v + eps) + r, lo, hi)
                q = np.asarray(n.quantized)
                ctx.ok(((q >= a) & (q <= b)).all(), "codes-decisions", "%s: codes %s do not follow the decisions %s" % (what, q.ravel()[:5], r.ravel()[:5]))

        def cost():
            if len(seen):          # the nodes carry the decisions being evaluated
                codes("evaluation %d" % len(seen))
            seen.append(value())
            ctx.observe("evaluations")
            return seen[-1]

        first = value()
        with qnet.quiet():
            AdaRound(factory(), cost, None, None, None).round(ns)
        codes("final")
        v = value()
        tol = 1e-9 * max(1.0, abs(v))
        ctx.ok(v <= min(seen + [first]) + tol, "not-best", "left at loss %r, best of %d evaluations %r, start %r" % (v, len(seen), min(seen), first))
        ctx.observe("nodes")
        for n, r in zip(ns, start):
            n.reset_rounding()
            ctx.same(np.asarray(n.rounding_policy), r, "reset", "decisions after a reset")


def params(j):
    return [(n["scale"], n["zero_point"]) for o in j["graph"] for n in list(o["inputs"]) + list(o["outputs"])]


def network(ctx, rng):
    lstm = rng.random() < 0.2
    if lstm:
        specs, x = p22.draw(rng)
        x = x[:4]
        model = keras.models.Sequential([s.layer() for s in specs])
        y = p22.run_float(specs, x)[1]
        cfg = qnet.config(qnet.TYPES8)
    else:
        types = small_types(rng)
        n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=6)
        for s in specs:
            s.cfg = dict(types)
        x = qnet.dataset(rng, int(rng.choice([2, 4, 8])), n_in)[1]
        model = qnet.build_model(rng, specs, n_in)
        y = x.astype(float)
        for s in specs:
            y = qnet.ACT[s.act](s.pre(y))
        cfg = qnet.config(types)
    desc, factory = optimizer(rng, 8)
    through = str(rng.choice(["net", "net", "build"]))
    family = str(rng.choice(["distance", "distance", "noise", "flat", "worse"]))
    salt = int(rng.integers(0, 2 ** 31))
    weights = [np.array(w) for w in model.get_weights()]
    with ctx.case("network", layers=[s.describe() for s in specs], optimizer=desc, loss=family, through=through), qnet.scratch() as d:
        seen, ref = [], [None]
        hold = [None]

        def value(net):
            with qnet.quiet():
                out = np.asarray(net.infer(x), float)
            dist = float(np.abs(out - y).mean())
            return {"distance": dist, "worse": -dist, "flat": 0.0, "noise": zlib.crc32(out.tobytes(), salt) / 2.0 ** 32}[family]

        def watch(what):
            j = json.loads(json.dumps(hold[0].as_json()), parse_constant=qnet.no_constants)
            qnet.consistent(ctx, j, specs, what)
            ctx.ok(params(j) == ref[0], "parameters", what + "a scale or zero point changed")
            return j

        def loss(net):
            if hold[0] is not None:
                j = watch("evaluation %d: " % len(seen))
                if len(seen) % 4 == 0:
                    with qnet.quiet():
                        ctx.same(np.asarray(net.infer(x)), np.asarray(SequentialNetwork(j).infer(x)), "evaluated-network", "the network given to the loss and the network's own description")
            seen.append(value(net))
            ctx.observe("evaluations")
            return seen[-1]

        if through == "build":
            cfg.ada_round_net = RoundingMinimaCfg(max_retries=int(rng.integers(0, 6))) if rng.random() < 0.5 else \
                RoundingAnnealerCfg(t_min=0.001, t_max=1.0, updates=0, steps=int(rng.integers(0, 6)), max_retries=int(rng.integers(0, 6)))
            net, path = qnet.quantize(model, x, cfg, d, loss)
            with open(path) as fh:
                j = json.load(fh, parse_constant=qnet.no_constants)
            qnet.consistent(ctx, j, specs, "written: ")
            final, first = value(SequentialNetwork(j)), seen[0]
        else:
            net, path = qnet.quantize(model, x, cfg, d)
            j = json.loads(json.dumps(net.as_json()))
            ref[0] = params(j)
            first = value(SequentialNetwork(j))
            hold[0] = net
            with qnet.quiet():
                AdaroundNet(net, loss, factory).round()
            j = watch("final: ")
            with qnet.quiet():
                ctx.same(np.asarray(net.as_sequential_network().infer(x)), np.asarray(SequentialNetwork(j).infer(x)), "export", "optimised network against its export")
            final = value(SequentialNetwork(j))
            for o in net.as_operators():
                for t in (o.inputs[1:] if len(o.inputs) >= 3 else []):
                    if hasattr(t, "rounding_policy"):
                        binary(ctx, [t.rounding_policy], [np.asarray(t.quantized).shape], "final")
        tol = 1e-12 * max(1.0, abs(final))
        ctx.ok(len(seen) > 0, "loss-unused", "the loss was never evaluated")
        ctx.ok(final <= first + tol, "worse", "loss %r, %r before" % (final, first))
        ctx.ok(abs(final - min(seen)) <= tol, "not-best", "network left with loss %r, best of %d evaluations %r" % (final, len(seen), min(seen)))
        for a, b in zip(weights, model.get_weights()):
            ctx.same(np.asarray(b), a, "float-weights", "float weights of the model")
        ctx.observe("network-" + through)
        if lstm:
            ctx.observe("lstm")
        if final < first - tol:
            ctx.observe("network-improved")


def tensors_of(j):
    """Every tensor of codes that depends on rounding decisions: weights, biases and tables of an exported network."""
    out = {}
    for k, o in enumerate(j["graph"]):
        for i, n in enumerate(o["inputs"]):
            if i and n["tensor"] and n["tensor"]["tensor"] is not None:
                out["%d %s input %d" % (k, o["op_type"], i)] = np.array(n["tensor"]["tensor"])
            if n["LUT"] and "LSTM" not in o["op_type"]:      # the gates' tables are not rounding-optimised
                out["%d %s table" % (k, o["op_type"])] = np.array(n["LUT"]["LUT"])
    return out


def reach(ctx, rng):
    """Every tensor of every layer takes part in the search."""
    lstm = rng.random() < 0.3
    if lstm:
        specs, x = p22.draw(rng)
        x = x[:2]
        model = keras.models.Sequential([s.layer() for s in specs])
        cfg = qnet.config(qnet.TYPES8)
    else:
        deep = rng.random() < 0.25
        n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(7, 9)) if deep else int(rng.integers(1, 3)), width=2 if deep else 4)
        x = qnet.dataset(rng, 3, n_in)[1]
        model = qnet.build_model(rng, specs, n_in)
        cfg = qnet.config(qnet.TYPES8)
    steps = 40
    with ctx.case("network-reach", layers=[s.describe() for s in specs], steps=steps), qnet.scratch() as d:
        net, path = qnet.quantize(model, x, cfg, d)
        first = tensors_of(net.as_json())
        changed = {k: False for k in first}
        count = [0]

        def loss(_):
            for k, t in tensors_of(net.as_json()).items():
                changed[k] |= bool((t != first[k]).any())
            count[0] += 1
            return 1.0

        with qnet.quiet():
            AdaroundNet(net, loss, lambda: RoundingAnnealer(t_min=0.1, t_max=1.0, updates=0, steps=steps, max_retries=0)).round()
        # a code on the edge of its type may be the same for both decisions
        stuck = [k for k, c in changed.items() if not c and first[k].size > 1 and not fixed(first[k])]
        ctx.ok(not stuck, "tensor-reach", "%s never changed in %d evaluations" % (stuck, count[0]))
        ctx.observe("network-reach", sum(changed.values()))


def fixed(t):
    """Most codes lie on the edge of the type, where both decisions may saturate to the same code."""
    return (np.abs(t.ravel() + 0.5) < 127).mean() < 0.3


def run(ctx):
    rng = ctx.rng
    for k, n in (("evaluations", 1500), ("improved", 60), ("reach", 15), ("nodes", 40), ("network-net", 15), ("network-build", 6), ("network-reach", 20), ("many", 10), ("huge", 2), ("reused", 25), ("lstm", 3), ("network-improved", 5), ("distinct-states", 500)):
        ctx.need(k, n)
    for f in FAMILIES:
        ctx.need("family-" + f, 10)
    for i in ctx.loop(400, 6000):
        random.seed(int(rng.integers(0, 2 ** 31)))
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        k = i % 10
        if i % 40 == 9:
            reach(ctx, rng)
        if k < 6:
            alone(ctx, rng, i)
        elif k < 8:
            nodes(ctx, rng)
        else:
            network(ctx, rng)
