"""P18: range optimizers only narrow a distribution, symmetrically and in place."""
import numpy as np
from scipy.optimize import OptimizeResult
from checks.p16 import data, items_of, snapshot
from harness import qnet
from itcl_quantization import Quantization
from itcl_quantizer.optimizers.IOptimizer import IOptimizer
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput
from itcl_quantizer.optimizers import FixedPercentOptimizer, MinMaxOptimizer, ScipyOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.quantizer.metrics.noise import kl_divergence, mse

RULE = ("random finite tensors (see P16; skewed, heavy-tailed, duplicated, mirrored), percentages 0..50, bin counts 1..512, whole and sliced "
        "distributions; percentile results compared with a recount, noise-minimised ranges (mean squared error and divergence over several "
        "search methods and types) re-quantized and compared with the untrimmed range; dense layers with an optimizer of their own for kernel, output and activation; non-trivial = distinct data and option")


def noise(D, T, Q, metric):
    s, zp = T.quantize(Q)
    flat = np.concatenate([np.asarray(D.get_bin(i).items_in_bin, float) for i in range(len(D))])
    back = np.asarray(Q.dequantize(Q.quantize(flat, zp, s), zp, s))
    return float(D.compare(Distribution(back, bins=D.get_bin_edges()), lambda p, q: metric(np.array(p), np.array(q))))


class Recorder(IOptimizer):
    """An optimizer that keeps what it was given and what it gave back."""

    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def trim(self, distribution):
        flat = np.concatenate([np.asarray(distribution.get_bin(i).items_in_bin, float) for i in range(len(distribution))])
        out = self.inner.trim(distribution)
        self.calls.append((np.sort(flat), out))
        return out


def asked(o, flat):
    """The call an optimizer had for these values."""
    def off(c):
        return abs(c[0] - flat).max() if c[0].shape == flat.shape else np.inf
    return min(reversed(o.calls), key=off)


def layers(ctx):
    """dense layers given an optimizer each for the kernel, the output and the activation."""
    rng = ctx.rng
    ctx.need("layer", 40)
    ctx.need("layer-shared", 10)
    for i in ctx.loop(90, 1200):
        nf, nu, n = int(rng.integers(2, 12)), int(rng.integers(1, 10)), int(rng.integers(20, 80))
        W = rng.standard_t(3, (nf, nu)).astype(np.float32)
        b = rng.normal(0, 1, nu).astype(np.float32) if rng.random() < 0.7 else None
        act = str(rng.choice(["linear", "tanh", "sigmoid", "softmax", "tanh"]))
        x = qnet.dataset(rng, n, nf, "normal")[1]
        sym = bool(rng.random() < 0.5)
        kt, ot, at = (str(rng.choice(["int8", "int8", "int10", "int6"])) for _ in "koa")
        pc = [float(rng.choice([0.0, 1.0, 5.0, 20.0])) for _ in range(3)]
        spec = qnet.DenseSpec("d", W, b, act, {})
        with ctx.case("layer", kernel=W, bias=b, activation=act, percent=pc, symmetric=sym, types=[kt, ot, at]):
            opts = [Recorder(FixedPercentOptimizer(p) if p else MinMaxOptimizer()) for p in pc]
            if rng.random() < 0.3:         # one object for two of them or all
                k = int(rng.integers(0, 3))
                opts = [opts[k] if j == k or rng.random() < 0.6 else o for j, o in enumerate(opts)]
                ctx.observe("layer-shared", len({id(o) for o in opts}) < 3)
            layer = spec.layer()
            layer(x)
            before = [np.array(w) for w in layer.get_weights()]
            ki = KerasInput(Quantization("int8"))
            first = ki.quantize(QuantizationResult(x, None, None, ki))
            res = KerasDense(layer, kernel_optimizer=opts[0], bias_add_optimizer=opts[1], activation_optimizer=opts[2],
                             kernel_dtype=kt, bias_add_dtype=ot, activation_dtype=at, kernel_symmetric=sym).quantize(first)
            for u, v in zip(before, layer.get_weights()):
                ctx.same(np.array(v), u, "layer-weights", "the layer's weights were changed")
            tabulated = act in ("tanh", "sigmoid")
            pre = spec.pre(x)
            kernel, out = res.operators[0].inputs[1], res.operators[0].outputs[0]
            wants = [(opts[0], W, kernel), (opts[1], pre, out)] + ([(opts[2], qnet.ACT[act](pre), res.operators[1].outputs[0])] if tabulated else [])
            for o, values, node in wants:
                ctx.ok(len(o.calls) >= 1, "layer-optimizer", "an optimizer was not asked")
                flat = np.sort(np.asarray(values, float).ravel())
                given, T = asked(o, flat)
                ctx.close(given, flat, 1e-4 * (1 + abs(flat).max()), "layer-distribution", "the optimizer was given other data than its tensor's")
                lo, hi = min(float(T.get_min()), 0), max(float(T.get_max()), 0)
                ql, qh = int(node.quant.min_value()), int(node.quant.max_value())
                if node is kernel:
                    ctx.ok(node.zero_point == 0, "layer-zero-point", "kernel zero point %r" % node.zero_point)
                    step = max(hi / qh, -lo / (qh if sym else -ql))
                else:
                    step = (hi - lo) / (qh - ql)
                ctx.close(node.scale, step, 1e-3 * step, "layer-scale", "scale of a tensor whose optimizer kept %r..%r" % (lo, hi))
            # the kernel's codes stand for the kernel clipped to the range its optimizer kept
            T = asked(opts[0], np.sort(np.asarray(W, float).ravel()))[1]
            want = np.clip(W.T.astype(float), float(T.get_min()), float(T.get_max()))
            ctx.close(kernel.dequantized, want, kernel.scale * 0.5001 + 1e-6, "layer-kernel", "codes of a kernel narrowed to %r..%r" % (T.get_min(), T.get_max()))
            ctx.observe("layer")
            ctx.observe("layer-narrowed", any(pc))


def run(ctx):
    layers(ctx)
    rng = ctx.rng
    ctx.need("percentile", 300)
    ctx.need("clipped-both", 100)
    ctx.need("minmax", 100)
    ctx.need("scipy", 20)
    ctx.need("scipy-narrowed", 4)
    for i in ctx.loop(900, 15000, share=0.5):
        a = data(rng)
        bins = int(rng.choice([1, 4, 30, 128, 512]))
        p = float(rng.choice([0.0, 0.01, 1.0, 5.0, 10.0, 25.0, 50.0, rng.uniform(0, 50)]))
        with ctx.case("percentile", data=a, dtype=str(a.dtype), bins=bins, percent=p):
            keep = a.copy()
            D = Distribution(a, bins=bins)
            if (np.diff(np.asarray(D.get_bin_edges(), float)) <= 0).any():
                continue
            if rng.random() < 0.2 and a.size > 4:
                S = D[float(np.quantile(a, 0.1)):float(np.quantile(a, 0.95))]
                if sum(S.get_histogram()):
                    D = S
            before = snapshot(D)
            flat = items_of(ctx, D, "before")
            R = MinMaxOptimizer().trim(D)
            ctx.ok(snapshot(R) == before, "minmax-changed", "min/max calibration changed the distribution")
            ctx.observe("minmax")
            R = FixedPercentOptimizer(p).trim(D)
            ctx.ok(snapshot(D) == before and np.array_equal(items_of(ctx, D, "original"), flat), "altered", "the distribution passed in was changed")
            ctx.same(a, keep, "data-altered", "the data was changed")
            ctx.ok(int(np.sum(R.get_histogram())) == len(flat), "count", "%d elements after clipping %d" % (np.sum(R.get_histogram()), len(flat)))
            lo, hi = np.percentile(flat, p), np.percentile(flat, 100 - p)
            tol = 1e-6 * max(abs(flat[0]), abs(flat[-1])) if D.get_min() != D.get_max() or True else 0
            tol = max(tol if a.dtype == np.float32 else 1e-9 * max(abs(flat[0]), abs(flat[-1])), 1e-300)
            want = np.clip(flat, lo, hi)
            if (np.diff(np.asarray(R.get_bin_edges(), float)) > 0).all():
                got = items_of(ctx, R, "clipped")
                ctx.close(got, want, tol, "clip", "percentile %g of both tails" % p)
            ctx.close(R.get_min(), want[0], tol, "clip-min", "minimum after clipping %g percent" % p)
            ctx.close(R.get_max(), want[-1], tol, "clip-max", "maximum after clipping %g percent" % p)
            ctx.observe("percentile")
            ctx.observe("clipped-both", want[0] > flat[0] and want[-1] < flat[-1])
            # mirrored data is clipped to the mirror image
            M = FixedPercentOptimizer(p).trim(Distribution(-flat, bins=bins))
            ctx.close([-M.get_max(), -M.get_min()], [R.get_min(), R.get_max()], 2 * tol + 1e-12 * abs(flat).max(), "mirror", "clipping is not symmetric")
    for i in ctx.loop(60, 900):
        n = int(rng.choice([50, 400, 1500]))
        k = int(rng.integers(0, 4))
        a = [lambda: rng.normal(0, 1, n) * rng.choice([0.05, 1, 4]), lambda: rng.exponential(2, n) * rng.choice([-1, 1]),
             lambda: np.concatenate([rng.normal(0, 0.5, n), [20.0, -9.0]]), lambda: rng.standard_t(2, n)][k]()
        t = str(rng.choice(["int8", "int8", "uint8", "int16"]))
        Q = Quantization(t)
        metric = [mse, kl_divergence][i % 2]
        mode = int(rng.integers(0, 4))
        tried = []

        def search(fun, x0, args=(), **kw):      # a search method of our own: random candidates, worst-case endings
            best = (fun(x0), tuple(float(v) for v in x0))
            lo, hi = best[1]
            for _ in range(12):
                u = float(lo + (hi - lo) * rng.uniform(0, 0.4)), float(hi - (hi - lo) * rng.uniform(0, 0.4))
                if u[1] - u[0] < 1.0:
                    continue
                f = float(fun(np.array(u)))
                tried.append((f, u))
                if f < best[0]:
                    best = (f, u)
            x = best[1] if mode == 0 or not tried else max(tried)[1]
            return OptimizeResult(x=np.array(x), fun=fun(np.array(x)), success=True, message="", nit=1, nfev=1)
        method = search if mode < 2 else str(rng.choice(["Nelder-Mead", "Powell", "COBYLA", "SLSQP"]))
        bins = int(rng.choice([32, 128, 512]))
        with ctx.case("scipy", data=a, dtype=t, metric=metric.__name__, method=str(method) if mode > 1 else "candidates", bins=bins):
            D = Distribution(a, bins=bins)
            before = snapshot(D)
            keep = a.copy()
            R = ScipyOptimizer(Q, metric, method).trim(D)
            ctx.ok(snapshot(D) == before, "altered", "the distribution passed in was changed")
            ctx.same(a, keep, "data-altered", "the data was changed")
            got = items_of(ctx, R, "trimmed")
            flat = np.sort(a)
            ctx.ok(R.get_min() >= flat[0] and R.get_max() <= flat[-1], "sub-range",
                   "trimmed range %r..%r of %r..%r" % (R.get_min(), R.get_max(), flat[0], flat[-1]))
            ctx.observe("range-without-data", len(got) == 0)
            ctx.ok(not len(got) or np.array_equal(got, flat[(flat >= got[0]) & (flat <= got[-1])]), "sub-range-elements", "the trimmed range does not hold exactly its elements")
            n0, n1 = noise(D, D, Q, metric), noise(D, R, Q, metric)
            ctx.ok(n1 <= n0 * (1 + 1e-9) + 1e-15, "noisier", "noise %r after trimming, %r before" % (n1, n0))
            for f, (lo, hi) in tried[:4]:
                want = noise(D, D[lo:hi], Q, metric)
                ctx.ok(np.isnan(want) or abs(f - want) <= 1e-9 * max(1e-12, abs(want)) + 1e-15, "objective",
                       "noise of %r..%r taken as %r, is %r" % (lo, hi, f, want))
            if mode == 0 and tried and min(tried)[0] < n0 * (1 - 1e-9):
                ctx.ok(n1 <= min(tried)[0] * (1 + 1e-9) + 1e-15, "best-range", "noise %r, the best range tried has %r" % (n1, min(tried)[0]))
            ctx.observe("scipy")
            ctx.observe("scipy-narrowed", R.get_min() > flat[0] or R.get_max() < flat[-1])
