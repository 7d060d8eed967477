"""P28: quantization-quality metrics measure what they claim."""
from collections import defaultdict
import math
import numpy as np
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.quantizer.metrics.noise import cross_entropy, kl_divergence, mse
from itcl_quantizer.util.collisions import calc_collisions
from harness import qnet

RULE = ("random histograms (counts and probabilities, integer and float, 1..600 bins, sparse, degenerate, permuted, compared with themselves) against exact summation; "
        "random tensors quantized by many-to-one maps against a recount of the distinct values behind each code; non-trivial = distinct pair")
FLOOR = 1e-10


def histogram(rng, n, kind):
    if kind == "int":
        h = rng.integers(0, int(rng.choice([2, 5, 100, 10000])), n)
        if rng.random() < 0.5:
            h[rng.random(n) < rng.choice([0.1, 0.5, 0.9])] = 0
        if h.sum() == 0:
            h[int(rng.integers(0, n))] = 3
        return h.astype(np.int64)
    h = rng.random(n) ** float(rng.choice([0.3, 1, 6]))
    if kind == "dense":
        h = h + 1e-3
    elif kind == "sparse":
        h[rng.random(n) < rng.choice([0.1, 0.5, 0.95])] = 0
    else:                      # one bin only
        h[:] = 0
        h[int(rng.integers(0, n))] = 1.0
    if h.sum() == 0:
        h[0] = 1.0
    h = h / h.sum()
    return h.astype(np.float32) if rng.random() < 0.15 else h


def kl_ref(p, q):
    p = [float(x) if x != 0 else FLOOR for x in p]
    q = [float(x) if x != 0 else FLOOR for x in q]
    return math.fsum(a * math.log(a / b) - a + b for a, b in zip(p, q))


def ce_bounds(p, q):
    """-sum p log q over the bins that have a logarithm; bins of q that are empty: only a bound."""
    exact = math.fsum(-float(a) * math.log(float(b)) for a, b in zip(p, q) if b != 0)
    empty = any(b == 0 and a != 0 for a, b in zip(p, q))
    return exact, empty


def collisions(fp, q, eps):
    groups = defaultdict(set)
    f = np.around(fp, decimals=eps) if eps > 0 else fp
    for a, b in zip(np.ravel(f).tolist(), np.ravel(q).tolist()):
        groups[b].add(a + 0.0)
    return sum(len(g) for g in groups.values() if len(g) > 1)


def run(ctx):
    rng = ctx.rng
    for k, n in (("kl", 300), ("kl-empty", 60), ("mse", 300), ("ce", 300), ("ce-empty", 30), ("identical", 100), ("minimum", 100), ("compare", 60),
                 ("collisions", 300), ("merged", 200), ("self", 150), ("layer", 10)):
        ctx.need(k, n)
    for i in ctx.loop(4000, 40000, share=0.4):
        n = int(rng.choice([1, 2, 7, 64, 128, 600])) if rng.random() < 0.98 else int(rng.choice([2048, 9001]))
        kp, kq = (str(rng.choice(["int", "dense", "sparse", "one"])) for _ in range(2))
        p, q = histogram(rng, n, kp), histogram(rng, n, kq)
        if rng.random() < 0.2:
            q = p.copy()
            kq = "identical"
        elif rng.random() < 0.2:
            q = rng.permutation(p)
            kq = "permuted"
        with ctx.case("metrics", n=n, kinds=[kp, kq], p=p, q=q):
            same = np.array_equal(p, q)
            P0, Q0 = p.copy(), q.copy()
            single = p.dtype == np.float32 or q.dtype == np.float32
            eps = 1e-5 if single else 1e-11
            big = max(float(np.sum(p)), float(np.sum(q)), 1.0) * 40

            def intact(what):
                ctx.ok(np.array_equal(p, P0) and np.array_equal(q, Q0) and p.dtype == P0.dtype, "input-altered", "%s changed a histogram it was given" % what)
            d = float(kl_divergence(p, q))
            intact("kl_divergence")
            ctx.ok(np.isfinite(d), "kl-finite", "divergence %r" % d)
            ctx.close(d, kl_ref(P0, Q0), eps * big, "kl-value", "divergence")
            ctx.ok(d >= -eps * big, "kl-negative", "divergence %r" % d)
            ctx.observe("kl")
            if (P0 == 0).any() or (Q0 == 0).any():
                ctx.observe("kl-empty")
            m = float(mse(p, q))
            intact("mse")
            sq = [(float(a) - float(b)) ** 2 for a, b in zip(P0, Q0)]
            ctx.close(m, math.fsum(sq) / n, (1e-5 if single else 1e-12) * max(max(sq), 1e-12), "mse-value", "mean squared error")
            ctx.ok(m >= 0 and (m == 0) == same, "mse-zero", "mean squared error %r of %s histograms" % (m, "equal" if same else "different"))
            ctx.close(float(mse(q, p)), m, 1e-6 * m if single else 1e-12 * m, "mse-symmetric", "mse both ways")
            ctx.observe("mse")
            c = float(cross_entropy(p, q))
            intact("cross_entropy")
            exact, empty = ce_bounds(P0, Q0)
            ctx.ok(np.isfinite(c), "ce-finite", "cross entropy %r" % c)
            if empty:
                lost = math.fsum(float(a) for a, b in zip(P0, Q0) if b == 0)
                ctx.ok(c > exact + 5 * lost - eps * big, "ce-empty-bins", "cross entropy %r, bins without logarithm (weight %g) aside %r" % (c, lost, exact))
                ctx.observe("ce-empty")
            else:
                ctx.close(c, exact, eps * big, "ce-value", "cross entropy")
            ctx.observe("ce")
            if same:
                ctx.ok(abs(d) <= eps * big, "kl-zero", "divergence of identical histograms %r" % d)
                ctx.observe("identical")
            elif kp != "int" and kq != "int":
                # probabilities: the divergence vanishes, and the cross entropy is minimal, only for identical ones
                gap = float(np.abs(P0.astype(float) - Q0.astype(float)).sum())
                ctx.ok(d >= gap ** 2 / 2 - 1e-6, "kl-positive", "divergence %r of histograms %g apart" % (d, gap))       # Pinsker
                ctx.ok(c >= float(cross_entropy(p, p)) - (1e-4 if single else 1e-6), "ce-minimal", "cross entropy %r below that of identical histograms" % c)
                ctx.observe("minimum")
            k = rng.permutation(n)
            ctx.close([kl_divergence(p[k], q[k]), mse(p[k], q[k]), cross_entropy(p[k], q[k])], [d, m, c], eps * big, "permutation", "bins in another order")
            v = p[::-1]          # views and read-only inputs
            w = q[::-1]
            v.flags.writeable = w.flags.writeable = False
            ctx.close([kl_divergence(v, w), mse(v, w), cross_entropy(v, w)], [d, m, c], eps * big, "read-only", "read-only histograms")
    # --- through the distribution objects ------------------------------------------------------
    for i in ctx.loop(500, 6000, share=0.2):
        a = rng.normal(0, float(rng.choice([0.1, 1, 40])), int(rng.integers(3, 900))) ** int(rng.choice([1, 1, 3]))
        bins = int(rng.choice([2, 16, 100, 512]))
        T = str(rng.choice(["int4", "int8", "uint8"]))
        with ctx.case("compare", data=a, bins=bins, dtype=T):
            D = Distribution(a, bins=bins)
            if (np.diff(np.asarray(D.get_bin_edges(), float)) <= 0).any():
                continue
            Q = Quantization(T)
            s, zp = D.quantize(Q)
            E = Distribution(np.asarray(Q.dequantize(Q.quantize(a, zp, s), zp, s)), bins=D.get_bin_edges())
            if sum(E.get_histogram()) == 0:
                continue
            h, g = list(D.get_histogram()), list(E.get_histogram())
            for norm in (True, False):
                x, y = np.asarray(h, float), np.asarray(g, float)
                if norm:
                    x, y = x / x.sum(), y / y.sum()
                tol = 1e-9 * (1 if norm else 40 * a.size)
                for _ in range(2):
                    ctx.close(D.compare(E, kl_divergence, norm), kl_ref(x, y), tol, "compare-kl", "divergence of the distributions")
                    ctx.close(D.compare(E, mse, norm), float(np.mean((x - y) ** 2)), tol * 40 * a.size, "compare-mse", "mse of the distributions")
                    ctx.ok(np.isfinite(D.compare(E, cross_entropy, norm)), "compare-ce", "cross entropy of the distributions")
                ctx.close(D.compare(D, kl_divergence, norm), 0, tol, "compare-self", "divergence of a distribution with itself")
                ctx.close(D.compare(D, mse, norm), 0, 0, "compare-self", "mse of a distribution with itself")
            ctx.ok(list(D.get_histogram()) == h and list(E.get_histogram()) == g, "compare-altered", "comparing changed a distribution")
            ctx.observe("compare")
    # --- collisions ----------------------------------------------------------------------------
    for i in ctx.loop(3000, 30000, share=0.25):
        shape = tuple(int(x) for x in rng.integers(1, 9, int(rng.integers(1, 4)))) if rng.random() < 0.98 else [(70, 90), (5000,), (1,), (20, 1, 30, 5)][int(rng.integers(0, 4))]
        kind = str(rng.choice(["normal", "rounded", "repeated", "integers", "float32", "neighbours", "large"]))
        fp = rng.normal(0, float(rng.choice([0.1, 1, 30])), shape)
        if kind == "rounded":
            fp = np.around(fp, 1)
        elif kind == "repeated":
            fp = rng.choice(np.append(fp.ravel()[:4], 0.0), shape)
        elif kind == "integers":
            fp = rng.integers(-5, 6, shape).astype(float)
        elif kind == "float32":
            fp = fp.astype(np.float32)
        elif kind == "neighbours":      # differ in the last digits of a double only
            fp = rng.choice(fp.ravel()[:5], shape) * (1 + rng.integers(-3, 4, shape) * 2.0 ** -int(rng.integers(40, 51)))
        elif kind == "large":
            fp = fp * 1e6 + rng.choice([0.0, 1e7])
        T = str(rng.choice(["int4", "int8", "uint8", "int16"]))
        eps = int(rng.choice([0, 0, 1, 2, 7]))
        with ctx.case("collisions", fp=fp, kind=kind, dtype=T, eps=eps):
            Q = Quantization(T)
            lo, hi = min(fp.min(), 0), max(fp.max(), 0)
            s = float((hi - lo) / (Q.max_value() - Q.min_value())) or 1.0
            zp = int(np.clip(round(Q.min_value() - lo / s), Q.min_value(), Q.max_value()))
            q = np.asarray(Q.quantize(fp, zp, s))
            f0, q0 = fp.copy(), q.copy()
            got = int(calc_collisions(fp, q, eps))
            want = collisions(fp, q, eps)
            ctx.ok(np.array_equal(fp, f0) and np.array_equal(q, q0), "collisions-altered", "counting collisions changed a tensor")
            ctx.ok(got == want, "collisions-count", "%d collisions, a recount says %d" % (got, want))
            ctx.observe("collisions")
            ctx.ok(int(calc_collisions(fp, fp, eps)) == collisions(fp, fp, eps), "collisions-self", "a tensor collides with itself %r times" % calc_collisions(fp, fp, eps))
            if eps == 0:
                ctx.ok(int(calc_collisions(fp, fp, 0)) == 0, "collisions-self", "a tensor collides with itself")
                ctx.ok(int(calc_collisions(q, q, 0)) == 0, "collisions-self", "a quantized tensor collides with itself")
                ctx.observe("self")
            k = rng.permutation(fp.size)
            ctx.ok(int(calc_collisions(fp.ravel()[k], q.ravel()[k], eps)) == got, "collisions-permutation", "another order gives another count")
            ctx.ok(int(calc_collisions(fp, q * 3 - 7.0, eps)) == got, "collisions-relabelled", "renaming the codes changes the count")
            # merge one more distinct value into a code already used
            target = int(rng.integers(0, fp.size))
            new = float(np.max(np.abs(fp)) * 2 + 3)
            more = int(calc_collisions(np.append(fp.ravel(), new).astype(fp.dtype), np.append(q.ravel(), q.ravel()[target]), eps))
            ctx.ok(more > got, "collisions-grow", "%d collisions after merging a new value into a used code, %d before" % (more, got))
            ctx.ok(int(calc_collisions(np.append(fp.ravel(), new).astype(fp.dtype), np.append(q.ravel(), 10 ** 6), eps)) == got, "collisions-new-code", "a new value with its own code collides")
            ctx.ok(int(calc_collisions(np.append(fp.ravel(), fp.ravel()[target]).astype(fp.dtype), np.append(q.ravel(), q.ravel()[target]), eps)) == got,
                   "collisions-repeat", "repeating an element changes the count")
            ctx.observe("merged")
    layers(ctx)


def layers(ctx):
    """The per-layer report of a quantized network applies the count to the layer's own tensors."""
    rng = ctx.rng
    for i in ctx.loop(50, 400, share=0.15):
        n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), acts=("linear", "tanh", "sigmoid", "relu"))
        kind, x = qnet.dataset(rng, 30, n_in)
        eps = int(rng.choice([0, 3, 7]))
        with ctx.case("layer", specs=[s.describe() for s in specs], data=kind, eps=eps, i=i), qnet.scratch() as folder:
            net, _ = qnet.quantize(qnet.build_model(rng, specs, n_in), x, qnet.config(qnet.TYPES8), folder)
            graph = net.as_json()["graph"]
            kernels = {s.name: np.asarray(o["inputs"][1]["tensor"]["tensor"]) for s, o, _ in qnet.dense_items(graph, specs)}
            seen, flow = 0, np.asarray(x, float)
            for r in net.as_quant_results():
                with qnet.quiet():
                    report = r.layer.calc_collisions(r, lambda f, q: calc_collisions(f, q, eps))
                    total = r.layer.sum_collisions(r, lambda f, q: calc_collisions(f, q, eps))
                ctx.ok(total == sum(report.values()), "layer-sum", "total %r of %r" % (total, report))
                ctx.ok(all(v >= 0 for v in report.values()), "layer-negative", "report %r" % report)
                if not report:
                    continue
                s = specs[seen]
                seen += 1
                q = kernels[s.name]
                W = s.W if q.shape == s.W.shape and not np.array_equal(s.W.shape, s.W.T.shape) else s.W.T
                want = collisions(W.astype(np.float32), q, eps)
                ctx.ok(want in report.values(), "layer-kernel", "kernel of %s collides %d times, reported %r" % (s.name, want, report))
                rest = [want]
                for n, v in zip([o.outputs[0] for o in r.operators], (s.pre(flow), qnet.ACT[s.act](s.pre(flow)))):
                    f = np.asarray(n.fp_tensor)
                    if s.act != "relu":         # applied by the dense operator, before or after its node's floats
                        ctx.close(f, v, 1e-4 * (1 + np.abs(v).max()), "layer-floats", "float output the report of %s is about" % s.name)
                    rest.append(math.ceil(collisions(f, np.asarray(n.quantized), eps) / len(f)))       # per sample
                ctx.ok(sorted(rest) == sorted(report.values()), "layer-outputs", "%s: the layer's tensors collide %s times, reported %r" % (s.name, rest, report))
                flow = qnet.ACT[s.act](s.pre(flow))
                ctx.observe("layer")
            ctx.ok(seen == len(specs), "layer-missing", "%d layers report collisions, the network has %d dense layers" % (seen, len(specs)))
