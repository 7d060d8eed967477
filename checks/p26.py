"""P26: the QUBO's energy is the layer's reconstruction error."""
import itertools
import json
import random
import dimod
import numpy as np
import qiskit_optimization
from tensorflow import keras
from itcl_quantizer.config.models.keras import RoundingQUBOCfg
from itcl_quantizer.equalizers.adaround import qubocalculation as F
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from harness import qnet
from checks import p22

RULE = ("random small dense layers (1-5 inputs, 1-4 units), datasets (including constant and zero columns, single samples, sparse ones) and scales: the objective of each unit, from both "
        "formulations and from every model the optimiser hands to a sampler, evaluated on all bit assignments against the reconstruction error computed from the definition; "
        "the decisions left in networks optimised through AdaroundNet and build() compared with the exhaustive minimum; non-trivial = distinct case")


def all_bits(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=float).reshape(-1, n)


class Layer:
    """W is (units, inputs)."""

    def __init__(self, x, W, b, xs, ks, bs, target=None):
        self.x, self.W, self.b, self.xs, self.ks, self.bs = x, W, b, xs, ks, bs
        x, W, b = np.asarray(x, float), np.asarray(W, float), np.asarray(b, float)
        self.q = np.round(x / xs) * xs
        self.target = x @ W.T + b if target is None else np.asarray(target, float)
        self.w0, self.b0 = np.floor(W / ks), np.floor(b / bs)
        self.units, self.inputs = W.shape

    def errors(self, l, bits=None):
        """Mean squared error of unit l for all (or the given) assignments of (weights..., bias)."""
        bits = all_bits(self.inputs + 1) if bits is None else bits
        w = (self.w0[l] + bits[:, :-1]) * self.ks
        b = (self.b0[l] + bits[:, -1]) * self.bs
        y = self.q @ w.T + b
        return bits, ((self.target[:, l][:, None] - y) ** 2).mean(0)

    def ids(self, l):
        return [l * self.inputs + i + 1 for i in range(self.inputs)] + [self.units * self.inputs + 1 + l]

    def scale(self, l):
        """Magnitude of the terms that cancel in the objective."""
        q, t = np.abs(self.q), np.abs(self.target[:, l])[:, None]
        ref = np.abs(self.w0[l] * self.ks).sum() + abs(self.b0[l] * self.bs)
        return float((q.sum(1) * self.ks + self.bs) @ (q.sum(1) * self.ks + self.bs + 2 * (t[:, 0] + q.max(1) * ref + ref))) / len(q)


def energies(d, ids, bits=None):
    bits = all_bits(len(ids)) if bits is None else bits
    idx = {v: k for k, v in enumerate(ids)}
    e = np.zeros(len(bits))
    for (u, v), c in d.items():
        e += c * bits[:, idx[u]] * bits[:, idx[v]]
    return e


def equal_up_to_constant(ctx, got, want, tol, mech, what):
    d = got - want
    ctx.ok(np.ptp(d) <= tol, mech, lambda: "%s: energy minus reconstruction error varies between %r and %r over the assignments (tolerance %.3g, errors %r..%r)" % (
        what, d.min(), d.max(), tol, want.min(), want.max()))
    ctx.observe("assignments", len(got))


def draw(rng, wide=False):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    s = int(rng.choice([1, 2, 5, 10]))
    if wide:
        n, m, s = [(int(rng.integers(8, 20)), int(rng.integers(1, 4)), 6), (int(rng.integers(1, 4)), int(rng.integers(8, 30)), 3),
                   (int(rng.integers(3, 8)), int(rng.integers(3, 8)), int(rng.integers(20, 80)))][int(rng.integers(0, 3))]
    W = rng.normal(0, 10.0 ** rng.uniform(-1, 1), (m, n))
    b = rng.normal(0, 10.0 ** rng.uniform(-1, 1), m)
    x = rng.normal(rng.choice([0, 0, 2]), 10.0 ** rng.uniform(-1, 1), (s, n))
    k = int(rng.integers(0, 6))
    if k == 0:
        x[:, int(rng.integers(0, n))] = 0
    elif k == 1:
        x = x * (rng.random((s, n)) < 0.4)
    elif k == 2:
        x[:, int(rng.integers(0, n))] = 1.5
    elif k == 3 and s > 1:
        x[1:] = -x[:-1]
    if rng.random() < 0.2:
        b[:] = 0
    xs = float(np.ptp(np.append(x, 0)) or 1.0) / rng.choice([15, 255, 4095])
    ks = float(np.abs(W).max()) / rng.choice([1, 7, 127])
    target = None if rng.random() < 0.7 else rng.normal(0, 1, (s, m))
    bs = xs * ks
    if rng.random() < 0.3:
        bs *= float(10.0 ** rng.uniform(-1, 2))
    return Layer(x, W, b, xs, ks, bs, target)


def methods(L):
    """ADAInt: {unit: dictionary}."""
    a = ADAInt(L.x, L.W, L.b, L.target, L.xs, L.ks, L.bs)
    out = []
    for l in range(L.units):
        d1 = a.bterm1_calculation_subespacio({}, l)
        d2, t2 = a.bterm2_calculation_subespacio({}, l)
        d2 = a.bterm2_calculation_repeticion(t2, d2, l)
        d3 = a.bterm3_calculation_subespacio({}, l)
        d4, t4 = a.bterm4_calculation_subespacio({}, l)
        d4 = a.bterm4_calculation_repeticion(d4, t4, l)
        out.append((a.unir_diccionarios(d1, d2, d3, d4, {}), (d1, d2, d3, d4)))
    return a, out


def functions(L):
    """qubocalculation, in the order the optimiser uses it: the pair terms of the first unit are reused."""
    n, m, s = L.inputs, L.units, len(L.x)
    q = F.Input_Round_Calculation(L.x, L.xs)
    t = F.dterm_Calculation(L.b, L.W, q, L.target, L.ks, L.xs, L.bs)
    out, d2 = [], {}
    for l in range(m):
        d1 = F.Bterm1_Calculation_Subespacio({}, np.zeros((s, n)), q, t, l, n, s, L.ks, L.xs)
        if l == 0:
            d2, t2 = F.Bterm2_Calculation_Subespacio({}, np.zeros((s, n * n)), q, l, n, s, L.ks, L.xs)
        else:
            d2 = F.Bterm_Calculation_Vuelta(t2, {}, n, l)
        d3 = F.Bterm3_Calculation_Subespacio({}, np.zeros((s, 1)), t, l, n, m, L.bs, L.xs, L.ks, s)
        if l == 0:
            d4, t4 = F.Bterm4_Calculation_Subespacio({}, np.zeros((s, n)), q, l, n, m, L.bs, L.xs, L.ks, s)
        else:
            d4 = F.Bterm_Calculation_Vuelta4({}, t4, n, m, l)
        out.append((F.Unir_Diccionarios(d1, d2, d3, d4, {}), (d1, d2, d3, d4)))
    return out


def objective(ctx, rng):
    L = draw(rng)
    with ctx.case("objective", inputs=L.inputs, units=L.units, samples=len(L.x), x=L.x, W=L.W, b=L.b, scales=[L.xs, L.ks, L.bs]):
        ada, A = methods(L)
        B = functions(L)
        redondeo, sesgo = np.zeros((L.units, L.inputs)), np.zeros(L.units)
        for l in range(L.units):
            bits, err = L.errors(l)
            ids, tol = L.ids(l), 1e-10 * L.scale(l) + 1e-13 * (1 + err.max())
            for name, (d, parts) in (("methods", A[l]), ("functions", B[l])):
                ctx.ok(set(v for k in d for v in k) <= set(ids), "foreign-bit", "%s: unit %d's objective contains bits %s, its own are %s" % (name, l, sorted(set(v for k in d for v in k)), ids))
                e = energies(d, ids)
                equal_up_to_constant(ctx, e, err, tol, "energy", "%s, unit %d of %d" % (name, l, L.units))
                ctx.observe(name)
                if rng.random() < 0.5:
                    if name == "functions":
                        r = F.Quantum_annealing_simulator(d, l)
                        got = F.Tensor_Redondeo(r, np.zeros((L.units, L.inputs)), np.zeros(L.units), l, L.inputs)
                    else:
                        with qnet.quiet():
                            r = ada.quantum_annealing(d)
                        got = ada.tensor_redondeo(r, np.zeros((L.units, L.inputs)), np.zeros(L.units), l)
                    chosen(ctx, np.append(got[0], got[1]), bits, err, tol, "%s: annealed unit %d" % (name, l))
                else:
                    with qnet.quiet():
                        x = ada.qaoa_solution(d) if name == "methods" else F.QAOA_Solution2(d)
                    pair = ada.tensor_redondeo2(x, np.zeros((L.units, L.inputs)), np.zeros(L.units), l) if name == "methods" else \
                        F.Tensor_Redondeo2(x, np.zeros((L.units, L.inputs)), np.zeros(L.units), l, L.inputs)
                    chosen(ctx, np.append(pair[0], pair[1]), bits, err, tol, "%s: gate-model solution of unit %d" % (name, l))
                    ctx.observe("qaoa")
            ea, eb = energies(A[l][0], ids), energies(B[l][0], ids)
            ctx.close(ea, eb, tol, "formulations", "the two formulations of unit %d" % l)
        if rng.random() < 0.3:
            total = L.units * (L.inputs + 1)
            M = np.zeros((total, total))
            for l in range(L.units):
                F.Matrix_Calculation(M, *B[l][1], L.units, L.inputs)
            want = np.zeros((total, total))
            for l in range(L.units):
                for (u, v), c in B[l][0].items():
                    want[u - 1, v - 1] += c
            ctx.close(M, want, 1e-12 * (1 + np.abs(want).max()), "matrix", "the exported matrix against the objectives of all units")
            ctx.observe("matrix")


def wide(ctx, rng):
    """Layers too large to enumerate: random assignments, and every single change of one of them."""
    L = draw(rng, True)
    with ctx.case("wide", inputs=L.inputs, units=L.units, samples=len(L.x), x=L.x, W=L.W, b=L.b, scales=[L.xs, L.ks, L.bs]):
        _, A = methods(L)
        B = functions(L)
        n = L.inputs + 1
        for l in range(L.units):
            one = rng.integers(0, 2, n)
            bits = np.concatenate([rng.integers(0, 2, (60, n)), one ^ np.eye(n, dtype=int), [one, np.zeros(n, int), np.ones(n, int)]]).astype(float)
            _, err = L.errors(l, bits)
            ids, tol = L.ids(l), 1e-10 * L.scale(l) + 1e-13 * (1 + err.max())
            for name, (d, parts) in (("methods", A[l]), ("functions", B[l])):
                ctx.ok(set(v for k in d for v in k) <= set(ids), "foreign-bit", "%s: unit %d's objective contains bits of others" % (name, l))
                equal_up_to_constant(ctx, energies(d, ids, bits), err, tol, "energy", "%s, unit %d of %d, %d inputs, %d samples" % (name, l, L.units, L.inputs, len(L.x)))
                ctx.observe("wide")


def chosen(ctx, got, bits, err, tol, what):
    got = np.asarray(got, float)
    ctx.ok(np.isin(got, (0, 1)).all() and got.shape == (bits.shape[1],), "bits", "%s: decisions %s" % (what, got))
    k = int((bits @ (2 ** np.arange(bits.shape[1])[::-1])).tolist().index(float(got @ (2 ** np.arange(len(got))[::-1]))))
    ctx.ok(err[k] <= err.min() + tol, "minimum", "%s: decisions %s have error %r, the best have %r" % (what, got, err[k], err.min()))
    ctx.observe("chosen")


def optimiser(ctx, rng, through):
    """Networks: every model handed to a sampler, and the codes left behind."""
    lstm = through == "net" and rng.random() < 0.1
    if lstm:
        specs, x = p22.draw(rng, 0)      # every assignment of a unit is tried: at most 8 inputs
        x = x[:3]
        model = keras.models.Sequential([s.layer() for s in specs])
    else:
        n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=4)
        x = qnet.dataset(rng, int(rng.choice([1, 3, 8, 8, 50, 140])), n_in, str(rng.choice(["normal", "image", "skewed", "positive", "mixed"])))[1]
        model = qnet.build_model(rng, specs, n_in)
    with ctx.case("optimiser", layers=[s.describe() for s in specs], x=x, through=through), qnet.scratch() as d:
        del dimod.MODELS[:]
        cfg = qnet.config(qnet.TYPES8)
        calls = []

        def loss(net):
            calls.append(1)
            return 1.0
        if through == "build":
            cfg.ada_round_net = RoundingQUBOCfg()
            net, path = qnet.quantize(model, x, cfg, d, loss)
            plain = None
        else:
            net, path = qnet.quantize(model, x, cfg, d)
            plain = json.loads(json.dumps(net.as_json()))
            with qnet.quiet():
                AdaroundNet(net, loss, QUBOAnnealer if rng.random() < 0.5 else RoundingQUBOCfg().build).round()
        j = json.loads(json.dumps(net.as_json()))
        qnet.consistent(ctx, j, specs, "optimised: ")
        if plain is not None:
            for a, b in zip(plain["graph"], j["graph"]):
                for p, q in zip(a["inputs"] + a["outputs"], b["inputs"] + b["outputs"]):
                    ctx.ok((p["scale"], p["zero_point"]) == (q["scale"], q["zero_point"]), "parameters", "a scale or zero point changed")
        models = list(dimod.MODELS)
        wanted, unsure = {}, set()      # the bits of a unit -> its errors and tolerance; several layers may use the same bits
        data = x.astype(float)
        slip = np.zeros_like(data)      # what single precision may change of the layer's input
        layers = [s for s in specs]
        k = -1
        for s in layers:
            if not isinstance(s, qnet.DenseSpec):
                data = None
                continue
            k += 1
            if data is None:
                continue
            _, o, act = qnet.dense_items(j["graph"], specs)[k]
            i, w, b = o["inputs"][:3]
            L = Layer(data, s.W.T, s.bias, i["scale"], w["scale"], i["scale"] * w["scale"])
            tie = np.abs(np.abs(data / L.xs - np.floor(data / L.xs)) - 0.5)
            tie = (tie < 1e-6 + 2 * slip / L.xs).any()
            blur = slip @ np.abs(s.W)
            slip = qnet.LIP[s.act] * (blur + 3e-7 * (np.abs(data) @ np.abs(s.W) + np.abs(s.bias)))
            data = qnet.ACT[s.act](s.pre(data))
            if tie:          # single precision may round such an input to the other code
                ctx.observe("input-tie")
                unsure.update(tuple(L.ids(l)) for l in range(L.units))
                continue
            for l in range(L.units):
                bits, err = L.errors(l)
                tol = 1e-7 * L.scale(l) + 4 * float((np.abs(L.q).sum(1) * L.ks + L.bs) @ blur[:, l]) / len(L.q) + 1e-12
                ids = L.ids(l)
                wq = np.array(w["tensor"]["tensor"])[l] - w["zero_point"]
                bq = np.array(b["tensor"]["tensor"])[l] - b["zero_point"]
                r = np.append(wq - L.w0[l], bq - L.b0[l])
                near = np.append(L.W[l] / L.ks - np.round(L.W[l] / L.ks), (L.b[l] / L.bs) - np.round(L.b[l] / L.bs))
                clipped = (np.append(np.abs(L.w0[l]), 0) >= 127) | (np.abs(near) < 1e-6)
                # a weight on a code or on the last one may have been floored or saturated differently: compare the outputs
                y = L.q @ (wq * L.ks) + bq * L.bs
                e = ((L.target[:, l] - y) ** 2).mean()
                if not clipped.any():
                    ctx.ok(np.isin(r, (0, 1)).all(), "bits", "layer %s unit %d: codes are %s away from the floor" % (s.name, l, r))
                    ctx.ok(e <= err.min() + tol, "minimum-left", "layer %s (%s) unit %d: error %r left, the best rounding has %r, tolerance %.3g" % (s.name, s.act, l, e, err.min(), tol))
                    ctx.observe("unit-minimised")
                    if s.act in ("tanh", "sigmoid", "relu", "relu6"):
                        ctx.observe("activated-unit")
                if (np.abs(near) < 1e-6).any():
                    unsure.add(tuple(ids))
                else:
                    wanted.setdefault(tuple(ids), []).append((err, tol, "layer %s (%s) unit %d" % (s.name, s.act, l)))
        for ids, units in wanted.items():
            got = []
            for m in models:
                if sorted(m.variables) == sorted(ids):
                    J = {(u, u): c for u, c in m.linear.items()}
                    J.update(m.quadratic)
                    got.append(energies(J, ids))
            off = np.array([[np.ptp(e - err) / tol for err, tol, _ in units] for e in got])
            ctx.ok(len(got) > 0, "model", "%s: no model over its bits was sampled" % units[0][2])
            ctx.observe("models", len(got))
            for k, (err, tol, name) in enumerate(units):
                ctx.maxima["model/tolerance"] = max(ctx.maxima.get("model/tolerance", 0.0), float(off[:, k].min()))
                ctx.ok(off[:, k].min() <= 1, "model", lambda: "%s: of the %d models over its bits none has its reconstruction error, they differ by %s times the tolerance" % (name, len(got), np.sort(off[:, k])[:3]))
            if ids not in unsure:
                ctx.ok((off.min(1) <= 1).all(), "model", lambda: "a model sampled over the bits of %s has none of their reconstruction errors (off by %s tolerances)" % ([u[2] for u in units], off.min(1).max()))
                ctx.observe("model-owned", len(got))
        ctx.observe("optimiser-" + through)


def run(ctx):
    rng = ctx.rng
    for k, n in (("assignments", 5000), ("methods", 150), ("functions", 150), ("chosen", 150), ("qaoa", 50), ("matrix", 10), ("wide", 20), ("unit-minimised", 60), ("activated-unit", 25), ("models", 60), ("model-owned", 40), ("optimiser-net", 20), ("optimiser-build", 8)):
        ctx.need(k, n)
    for i in ctx.loop(1200, 20000):
        random.seed(int(rng.integers(0, 2 ** 31)))
        if i % 30 == 7:
            wide(ctx, rng)
        elif i % 4:
            objective(ctx, rng)
        else:
            optimiser(ctx, rng, "build" if i % 12 == 0 else "net")
