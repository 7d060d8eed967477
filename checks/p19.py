"""P19: a tensor node's codes always reflect its current parameters."""
import json
import numpy as np
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

RULE = ("random tensors (0-4 dims, empty, float32/float64/int, ties, out-of-range values) in nodes of 8/16/32/4-bit types, driven through random "
        "histories of parameter updates (with and without requantization), rounding changes (valid, wrong shape), resets, renames and JSON "
        "exports; after every step codes, dequantized values, JSON and observer counts are compared with a model of the node; non-trivial = distinct step")
TYPES = ["int8", "int8", "uint8", "int16", "int32", "int4", "uint16", "uint32"]


def bounds(fp, s, zp, r, lo, hi):
    v = fp / s + zp
    eps = 1e-9 * np.maximum(1.0, np.abs(v)) + 4e-16 * (np.abs(fp / s) + abs(zp))
    if r is None:
        a, b = np.ceil(v - 0.5 - eps), np.floor(v + 0.5 + eps)
    else:
        a, b = np.floor(v - eps) + r, np.floor(v + eps) + r
    return np.clip(a, lo, hi), np.clip(b, lo, hi)


def new_scale(rng):
    return float(rng.choice([1.0, 0.5, 0.25, 0.1, 10.0 ** rng.uniform(-4, 2)]))


def verify(ctx, node, m, what):
    fp = m["fp"]
    ctx.ok(node.scale == m["s"] and node.zero_point == m["zp"], "params", "%s: scale %r zero point %r, expected %r %r" % (what, node.scale, node.zero_point, m["s"], m["zp"]))
    ctx.same(node.fp_tensor, fp, "float-changed", what + ": the float tensor changed")
    q = np.asarray(node.quantized)
    ctx.ok(q.shape == fp.shape and q.dtype.kind in "iu", "codes-type", "%s: codes %s %s for a tensor %s" % (what, q.dtype, q.shape, fp.shape))
    r = np.asarray(node.rounding_policy)
    ctx.ok(r.shape == fp.shape and np.isin(r, (0, 1)).all(), "rounding-type", what + ": rounding decisions are not 0/1 of the tensor's shape")
    if m["r"] is not None:
        ctx.same(r, m["r"], "rounding-kept", what + ": rounding decisions")
    a, b = bounds(fp.astype(float), m["s"], m["zp"], r if m["decided"] else None, m["lo"], m["hi"])
    bad = (q < a) | (q > b)
    ctx.ok(not bad.any(), "codes", lambda: "%s: codes %s for %s with scale %r, zero point %r, rounding %s (expected %s..%s)" % (
        what, q[bad][:3], fp[bad][:3], m["s"], m["zp"], r[bad][:3], a[bad][:3], b[bad][:3]))
    d = np.asarray(node.dequantized, float)
    want = (q.astype(float) - m["zp"]) * m["s"]
    ctx.close(d, want, 1e-9 * np.maximum(np.abs(want), m["s"]), "dequantized", what + ": dequantized tensor")
    ctx.observe("step-verified")


def verify_json(ctx, node, m, what):
    j = node.as_json()
    text = json.dumps(j)
    j = json.loads(text)
    ctx.ok(j["scale"] == (None if m["xp"] else m["s"]) and j["zero_point"] == (None if m["xp"] else m["zp"]), "json-params", "%s: JSON %r" % (what, (j["scale"], j["zero_point"])))
    t = j["tensor"]
    shape = list(m["fp"].shape)[1:] if m["xb"] else list(m["fp"].shape)
    ctx.ok(t["name"] == m["name"] and t["dtype"] == m["t"] and t["shape"] == shape, "json-meta", "%s: JSON tensor %r" % (what, {k: t[k] for k in ("name", "dtype", "shape")}))
    if m["xt"]:
        ctx.ok(t["tensor"] is None, "json-excluded", what + ": an excluded tensor was exported")
    else:
        ctx.ok(t["tensor"] == np.asarray(node.quantized).tolist(), "json-codes", what + ": JSON codes differ from the node's")
    ctx.ok(j["LUT"] is None, "json-lut", what + ": unexpected table")
    ctx.ok(node["scale"] == (None if m["xp"] else m["s"]), "item-access", what + ": item access")
    ctx.observe("json")


def run(ctx):
    rng = ctx.rng
    for k in ("update", "unchanged-twin", "update-deferred", "rounding", "rounding-edit", "rounding-buffer", "rounding-rejected", "reset-scale", "reset-zp", "reset-rounding", "json", "late-tensor", "sibling"):
        ctx.need(k, 100)
    for i in ctx.loop(4000, 60000):
        t = str(rng.choice(TYPES))
        Q = Quantization(t)
        lo, hi = int(Q.min_value()), int(Q.max_value())
        shape = [(), (1,), (5,), (3, 4), (4, 4), (2, 3, 2), (1, 2, 2, 3), (0, 3), (7, 1)][int(rng.integers(0, 9))]
        fp = rng.normal(0, 10.0 ** rng.uniform(-2, 2), shape)
        if rng.random() < 0.3:
            fp = np.round(fp * 4) / 4 + 0.125 * rng.integers(0, 2)
        fp = np.asarray(fp).astype(rng.choice([np.float64, np.float64, np.float32]))
        s = new_scale(rng)
        if fp.size and rng.random() < 0.3 and np.abs(fp).max() > 0:
            s = float(np.abs(fp).max()) / hi if hi > 0 else s          # the largest value is the last code

        def new_zp():
            return int(rng.choice([0, lo, hi, int(rng.integers(max(lo, -300), min(hi, 300) + 1)), int(rng.integers(lo, hi + 1))]))
        zp = min(max(new_zp(), lo), hi)
        name = "n%d" % i
        m = {"fp": fp.copy(), "s": s, "zp": zp, "r": None, "decided": False, "lo": lo, "hi": hi, "t": t, "name": name, "xp": False, "xt": False, "xb": False}
        hist = []
        with ctx.case("history", tensor=fp, dtype=t, scale=s, zero_point=zp, steps=hist):
            base = NodeTensorBase(s, zp, name, Q)
            stranger = NodeTensorBase(s, zp, "other", Q)
            calls = {"a": 0, "b": 0, "rq": 0, "stranger": 0}
            order = []
            stranger.on_quant_param_update.append(lambda n: calls.__setitem__("stranger", calls["stranger"] + 1))
            stranger.on_requantize.append(lambda n: calls.__setitem__("stranger", calls["stranger"] + 1))
            s0, zp0 = s, zp
            if rng.random() < 0.3:
                # the node gets its tensor after its parameters have changed
                s, zp = m["s"], m["zp"] = new_scale(rng), min(max(new_zp(), lo), hi)
                hist.append(("before", s, zp))
                base.update_quant_parameters(s, zp)
                ctx.observe("late-tensor")
            node = base.with_tensor(fp)
            sibling = base.with_tensor(-2 * fp) if rng.random() < 0.4 else None
            if sibling is not None:
                twins = (sibling.scale, sibling.zero_point, np.array(sibling.quantized), np.array(sibling.rounding_policy))
            more = [0, 0, 0, 0]

            def count(k):
                def fn(n):
                    more[k] += 1
                return fn

            def seen(tag):
                def fn(n):
                    calls[tag] += 1
                    order.append((tag, n.scale, n.zero_point, n is node))
                return fn
            node.on_quant_param_update.append(seen("a"))
            for k in range(4):
                node.on_quant_param_update.append(count(k))
            node.on_quant_param_update.append(seen("b"))
            node.on_requantize.append(seen("rq"))

            def requantized(n):
                # whoever is told of a requantization finds it done
                f = m["fp"].astype(float) / n.scale + n.zero_point
                q = np.asarray(n.quantized, float)
                ctx.ok(q.shape == f.shape and (np.abs(q - np.clip(f, lo, hi)) <= 1 + 1e-6 * (1 + np.abs(f))).all(), "observed-codes",
                       lambda: "codes %s when requantization is announced, real values %s" % (q.ravel()[:4], f.ravel()[:4]))
            node.on_requantize.append(requantized)
            verify(ctx, node, m, "new")
            r0 = np.array(node.rounding_policy)
            # the reported initial decisions are the ones behind the codes
            a, b = bounds(fp.astype(float), s, zp, r0, lo, hi)
            v = fp.astype(float) / s + zp
            tie = np.abs(v - np.floor(v) - 0.5) < 1e-6
            q0 = np.asarray(node.quantized)
            ctx.ok((((q0 >= a) & (q0 <= b)) | tie | (np.abs(v - np.round(v)) < 1e-6)).all(), "initial-rounding", "initial decisions do not give the initial codes")
            if rng.random() < 0.4:
                # neither the same parameters nor the same decisions change anything
                twin = NodeTensorBase(s, zp, name, Q).with_tensor(fp)
                twin.update_quant_parameters(s, zp)
                ctx.same(np.asarray(twin.quantized), q0, "requantized-alike", "codes after an update to the same parameters")
                twin.rounding_policy = np.array(twin.rounding_policy)
                ctx.same(np.asarray(twin.quantized), q0, "requantized-alike", "codes after setting the same decisions")
                twin.reset_rounding()
                twin.reset_scale()
                ctx.same(np.asarray(twin.quantized), q0, "requantized-alike", "codes after resets of an unchanged node")
                ctx.observe("unchanged-twin")
            for step in range(int(rng.integers(1, 9))):
                op = str(rng.choice(["update", "update", "deferred", "rounding", "rounding", "edit", "buffer", "reject", "rscale", "rzp", "rround", "json", "flags", "name"]))
                hist.append(op)
                before = dict(calls)
                order.clear()
                updates = 0
                if op == "update":
                    m["s"], m["zp"] = new_scale(rng), min(max(new_zp(), lo), hi)
                    hist[-1] = (op, m["s"], m["zp"])
                    node.update_quant_parameters(m["s"], m["zp"])
                    m["decided"] = True
                    m["r"] = np.array(node.rounding_policy) if m["r"] is None else m["r"]
                    updates = 1
                    ctx.observe("update")
                elif op == "deferred":
                    q = np.array(node.quantized)
                    s2, z2 = s0 if rng.random() < 0.3 else new_scale(rng), zp0 if rng.random() < 0.3 else min(max(new_zp(), lo), hi)
                    node.update_quant_parameters(s2, z2, requantize=False)
                    ctx.ok(node.scale == s2 and node.zero_point == z2, "params", "deferred update ignored")
                    ctx.same(node.quantized, q, "deferred", "a deferred update changed the codes")
                    ctx.ok(calls["a"] == before["a"] + 1 and calls["rq"] == before["rq"], "observers", "deferred update ran observers %r" % calls)
                    by = int(rng.integers(0, 4))
                    if by == 0:
                        node.reset_scale()
                        s2 = s0
                    elif by == 1:
                        node.reset_zp()
                        z2 = zp0
                    else:
                        node.update_quant_parameters(s2, z2)
                    m["s"], m["zp"], m["decided"] = s2, z2, True
                    m["r"] = np.array(node.rounding_policy) if m["r"] is None else m["r"]
                    before = {**before, "a": before["a"] + 1, "b": before["b"] + 1}
                    order.clear()
                    order.extend([("a", s2, z2, True), ("b", s2, z2, True)])
                    updates = 1
                    ctx.observe("update-deferred")
                elif op == "rounding":
                    m["r"], m["decided"] = rng.integers(0, 2, shape), True
                    m["r"] = np.asarray(m["r"])
                    node.rounding_policy = m["r"].copy()
                    ctx.observe("rounding")
                elif op == "edit":
                    # decisions read from the node, some flipped in place, and set again
                    r = node.rounding_policy
                    flips = rng.integers(0, 2, shape)
                    if fp.size:
                        r[flips == 1] ^= 1
                    node.rounding_policy = r
                    m["r"], m["decided"] = np.array(r), True
                    ctx.observe("rounding-edit")
                elif op == "buffer":
                    # decisions from an array that is used for something else afterwards
                    m["r"], m["decided"] = np.asarray(rng.integers(0, 2, shape)), True
                    r = m["r"].copy()
                    node.rounding_policy = r
                    r[...] = 1 - r
                    ctx.observe("rounding-buffer")
                elif op == "reject":
                    bad = np.zeros([shape + (2,), (shape[0] + 1,) + shape[1:] if shape else (3,), (fp.size + 1,)][int(rng.integers(0, 3))], dtype=int)
                    q = np.array(node.quantized)
                    r = np.array(node.rounding_policy)
                    try:
                        node.rounding_policy = bad
                    except Exception:
                        pass
                    else:
                        ctx.fail("rounding-rejected", "rounding decisions of shape %s accepted for %s" % (bad.shape, shape))
                    ctx.same(node.quantized, q, "rejected-effect", "a rejected rounding changed the codes")
                    ctx.same(node.rounding_policy, r, "rejected-effect", "a rejected rounding changed the decisions")
                    ctx.observe("rounding-rejected")
                elif op == "rscale":
                    node.reset_scale()
                    m["s"] = s0
                    ctx.observe("reset-scale")
                elif op == "rzp":
                    node.reset_zp()
                    m["zp"] = zp0
                    ctx.observe("reset-zp")
                elif op == "rround":
                    node.reset_rounding()
                    m["r"], m["decided"] = r0, True
                    ctx.observe("reset-rounding")
                elif op == "flags":
                    m["xp"], m["xt"], m["xb"] = [bool(x) for x in rng.integers(0, 2, 3)]
                    if not shape:
                        m["xb"] = False
                    node.exclude_quant_params(m["xp"])
                    out = node.exclude_tensor(m["xt"])
                    ctx.ok(out is node and node.exclude_batch_dimension(m["xb"]) is node, "chained", "the setters do not return the node")
                elif op == "name":
                    m["name"] = "renamed%d" % step
                    node.name = m["name"]
                    ctx.ok(node.name == m["name"], "name", "the node was not renamed")
                if op in ("rscale", "rzp"):
                    m["decided"] = m["decided"] or calls["rq"] > before["rq"] or True
                    m["r"] = np.array(node.rounding_policy) if m["r"] is None else m["r"]
                    ctx.ok(calls["a"] - before["a"] <= 1 and calls["rq"] - before["rq"] <= 1, "observers", "a reset ran observers %r -> %r" % (before, calls))
                else:
                    got = (calls["a"] - before["a"], calls["b"] - before["b"], calls["rq"] - before["rq"])
                    ctx.ok(got[:2] == (updates, updates) and (got[2] == updates or op in ("rounding", "edit", "buffer", "rround", "reject") and got[2] <= 1), "observers",
                           "%s ran observers %s times" % (op, got))
                    ctx.ok(all(x[1:] == (m["s"], m["zp"], True) for x in order), "observer-sees", "an observer saw %s, parameters are %s" % (order, (m["s"], m["zp"])))
                ctx.ok(calls["stranger"] == 0, "observers-shared", "another node's observers ran")
                if op in ("rscale", "rzp") and m["decided"]:
                    # codes of the initial nearest rounding and of the decisions may differ on exact ties
                    a, b = bounds(fp.astype(float), m["s"], m["zp"], m["r"], lo, hi)
                    a2, b2 = bounds(fp.astype(float), m["s"], m["zp"], None, lo, hi)
                    q = np.asarray(node.quantized)
                    if not ((q >= a) & (q <= b)).all() and ((q >= a2) & (q <= b2)).all() and not any(h != "json" and h[0] != "f" for h in hist[:-1]):
                        m["decided"] = False
                verify(ctx, node, m, "after %s" % (hist[-1],))
                if op in ("json", "flags", "name") or rng.random() < 0.3:
                    verify_json(ctx, node, m, "after %s" % (hist[-1],))
            if sibling is not None:
                # another tensor of the same node: it may be told of updates, but its parameters and codes are its own
                ctx.ok((sibling.scale, sibling.zero_point) == twins[:2], "sibling", "another tensor of the same node changed its parameters")
                ctx.same(np.asarray(sibling.quantized), twins[2], "sibling", "another tensor's codes changed")
                ctx.same(np.asarray(sibling.rounding_policy), twins[3], "sibling", "another tensor's decisions changed")
                ctx.same(np.asarray(sibling.fp_tensor), -2 * fp, "sibling", "another tensor's values changed")
                ctx.observe("sibling")
            ctx.ok(more == [calls["a"]] * 4, "observers", "observers ran %r times, the first %d times" % (more, calls["a"]))
            ctx.ok(stranger.scale == s0 and stranger.zero_point == zp0, "stranger", "another node changed")
            ctx.same(fp, m["fp"], "input-changed", "the caller's tensor changed")
