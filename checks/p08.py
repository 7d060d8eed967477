"""P08: integer fully-connected layers."""
import copy
import numpy as np
from harness import gen
from harness.opjson import node, op
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
from itcl_inference_engine.layers.tflite.build_layer import build_layer

RULE = ("random layers: dims 1..300, int8/int16/odd input, weight and output types, weight zero points, biases from 0 to full "
        "int32, rescaling factors 2^-31..2^30 chosen so outputs range from constant to saturated, batches 1..9 and vectors, "
        "built directly and from JSON; oracle exact integers + long double; non-trivial = distinct layer description")


def oracle(L, x):
    acc = (x.astype(object) - int(L["zi"])) @ (L["W"].astype(object) - int(L["zw"])).T + L["b"].astype(object)
    m = np.longdouble(L["si"]) * np.longdouble(L["sw"]) / np.longdouble(L["so"])
    v = np.vectorize(lambda a: np.longdouble(int(a)) * m, otypes=[np.longdouble])(acc) + L["zo"]
    lo, hi = gen.limits(L["to"])
    q = np.clip(np.floor(v + np.longdouble(0.5)), lo, hi).astype(np.int64)
    return q, v, acc


def make(rng):
    big = rng.random() < 0.1
    n_in = int(rng.integers(1, 301 if big else 13))
    n_out = int(rng.integers(1, 8)) if rng.random() < 0.98 else int(rng.choice([17, 65, 130, 257]))
    ti = str(rng.choice(["int8", "int8", "int16", "int5", "int12", "uint8", "uint16"]))
    tw = str(rng.choice(["int8", "int8", "int16", "int4", "int11", "uint8", "uint16"]))
    to = str(rng.choice(["int8", "int8", "int16", "int16", "int6", "int13", "uint8", "uint16", "int20"]))
    il, ih = gen.limits(ti)
    wl, wh = gen.limits(tw)
    ol, oh = gen.limits(to)
    W = gen.codes(rng, wl, wh, (n_out, n_in))
    zi, zo = gen.zero_point(rng, il, ih), gen.zero_point(rng, ol, oh)
    zw = 0 if rng.random() < 0.5 else gen.zero_point(rng, wl, wh)
    k = rng.integers(0, 5)
    span = float(max(1, np.abs(W - zw).max()) * max(abs(ih - zi), abs(il - zi)) * np.sqrt(n_in))
    bare = False
    if k == 0:
        b = np.zeros(n_out, dtype=np.int64)
        bare = bool(rng.random() < 0.4)      # described without a bias
    elif k == 1:
        b = rng.integers(-2 ** 31, 2 ** 31, n_out)
        span = max(span, 2.0 ** 31)
    else:
        w = int(min(max(4, span), 2 ** 31 - 1))
        b = rng.integers(-w, w, n_out)
    # factor that spreads the accumulator over the output type, times a disturbance
    M = (oh - ol) / span * float(2.0 ** rng.uniform(-4, 3))
    M = max(M, 2.0 ** -31)      # smaller factors are zero by design
    if rng.random() < 0.08:
        M = float(rng.choice([2.0 ** -20, 2.0 ** -8, 1.0, 2.0 ** 8, 0.5, 1 - 2.0 ** -34, 1e-6, 9e-7]))
    elif rng.random() < 0.08:
        M = float(2.0 ** rng.uniform(5, 29.9))      # any accumulated value but zero saturates most types
    si, sw = gen.scale(rng, -4, 0), gen.scale(rng, -4, 0)
    return dict(W=W, zw=int(zw), b=np.asarray(b, dtype=np.int64), zi=int(zi), zo=int(zo), si=si, sw=sw, so=si * sw / M,
                bare=bare, ti=ti, tw=tw, to=to, n_in=n_in, n_out=n_out)


def npint(name):
    bits = int(name.strip("uint"))
    w = next(x for x in (8, 16, 32, 64) if x >= bits)
    return np.dtype(("u" if name.startswith("u") else "") + "int%d" % w)


def direct(L, narrow):
    W = L["W"].astype(npint(L["tw"])) if narrow else L["W"]
    b = L["b"].astype(np.int32) if narrow else L["b"]
    return FullyConnected.build(L["si"], L["zi"], L["sw"], L["zw"], W, L["si"] * L["sw"], 0, b, L["so"], L["zo"], output_dtype=L["to"])


def describe(L, upper):
    f = (lambda s: s.upper()) if upper else (lambda s: s)
    return op("FULLY_CONNECTED", "dense", [
        node(L["si"], L["zi"], dtype=f(L["ti"]), shape=[1, L["n_in"]]),
        node(L["sw"], L["zw"], L["W"], f(L["tw"]))] + ([] if L["bare"] else [
        node(L["si"] * L["sw"], 0, L["b"], f("int32"))]),
        [node(L["so"], L["zo"], dtype=f(L["to"]), shape=[1, L["n_out"]])])


def run(ctx):
    rng = ctx.rng
    ctx.need("one-code", 500)
    ctx.need("saturated-codes", 50)
    ctx.need("inner-codes", 2000)
    ctx.assume("the bias is in the documented scale (input scale times weight scale) with zero point 0")
    for i in ctx.loop(1500, 20000):
        L = make(rng)
        il, ih = gen.limits(L["ti"])
        x = gen.codes(rng, il, ih, (int(rng.integers(1, 10)) if i % 60 else int(rng.choice([33, 100, 260])), L["n_in"]))
        if rng.random() < 0.15:
            # aligned with a unit: extreme accumulators
            u = int(rng.integers(0, L["n_out"]))
            x[0] = np.where(L["W"][u] - L["zw"] > 0, ih, il)
            x[-1] = np.where(L["W"][u] - L["zw"] > 0, il, ih)
        narrow = rng.random() < 0.5
        with ctx.case("layer", narrow=narrow, x=x, **L) as c:
            e, v, acc = oracle(L, x)
            lo, hi = gen.limits(L["to"])
            d = describe(L, rng.random() < 0.5)
            keep = copy.deepcopy(d)
            W0, b0 = L["W"].copy(), L["b"].copy()
            layers = {"direct": direct(L, narrow), "again": direct(L, narrow), "json": FullyConnected.from_model(d), "built": build_layer(d)}
            ctx.same(L["W"], W0, "weights-modified", "the weights given to the layer")
            ctx.same(L["b"], b0, "weights-modified", "the bias given to the layer")
            outs = {}
            for nm, lay in layers.items():
                xi = x.astype(npint(L["ti"])) if narrow else x
                x0 = xi.copy()
                y = np.asarray(lay.infer(xi))
                outs[nm] = y
                ctx.ok(y.shape == e.shape, "shape", "%s: shape %s expected %s" % (nm, y.shape, e.shape))
                ctx.ok(np.issubdtype(y.dtype, np.integer) or np.all(y == np.floor(y)), "integer", "%s: output is not integer" % nm)
                yi = y.astype(np.int64)
                ctx.ok(yi.min() >= lo and yi.max() <= hi, "saturate", "%s: output leaves %s: %s..%s" % (nm, L["to"], yi.min(), yi.max()))
                ctx.close(yi, e, 1, "one-code", "%s M=%g" % (nm, L["si"] * L["sw"] / L["so"]))
                r = np.stack([np.asarray(lay.infer(row)).astype(np.int64) for row in xi])
                ctx.same(r, yi, "batch-vs-vector", nm)
                ctx.same(xi, x0, "input-modified", nm)
            ctx.same(outs["direct"], outs["again"], "built-twice", "two layers of the same arrays disagree")
            ctx.same(outs["direct"], outs["json"], "direct-vs-json", "direct and JSON-built layers disagree")
            ctx.ok(d == keep, "description-modified", "operator description modified")
            ctx.observe("saturated-codes", int(np.sum((v < lo) | (v > hi))))
            ctx.observe("inner-codes", int(np.sum((v >= lo) & (v <= hi))))
            ctx.observe("accumulators-over-32-bit", int(sum(abs(int(a)) >= 2 ** 32 for a in acc.ravel())))
            ctx.observe("factor-below-1e-6", int(L["si"] * L["sw"] / L["so"] < 1e-6))
