"""P20: an activation node's table follows its node's parameters."""
import json
import numpy as np
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.keras.layers.activations import quantize_activation_node
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

RULE = ("nodes of 4/8/16-bit types carrying a tanh, sigmoid or other scalar function table, with random input and output parameters, driven through random histories "
        "of parameter updates, table rounding changes, resets and exports; every entry compared with the function of the value its code stands for; "
        "non-trivial = distinct step")
FNS = {
    "tanh": np.tanh,
    "sigmoid": lambda x: 1.0 / (1.0 + np.exp(-x)),
    "abs": np.abs,
    "hardtanh": lambda x: np.clip(x, -1, 1),
}


def params(rng, lo, hi):
    return float(10.0 ** rng.uniform(-3, 0.7)), int(rng.choice([0, lo, hi, int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))]))


def out_params(rng, name, lo, hi):
    k = int(rng.integers(0, 4))
    if k == 0:
        return 2.0 / (hi - lo), int(round((lo + hi) / 2))
    if k == 1:
        return 1.0 / (hi - lo), lo
    return params(rng, lo, hi)


def verify(ctx, node, fn, m, what, deep=True):
    lut = node.LUT
    lo, hi = m["lo"], m["hi"]
    n = hi - lo + 1
    ctx.ok(lut is not None and len(lut) == n, "entries", "%s: %s entries for %d codes" % (what, lut and len(lut), n))
    ctx.ok(lut.offset == -lo, "offset", "%s: offset %r for codes from %d" % (what, lut.offset, lo))
    j = json.loads(json.dumps(node.as_json()["LUT"]))
    ctx.ok(j["offset"] == lut.offset and len(j["LUT"]) == n, "json", "%s: JSON offset %r, %d entries" % (what, j["offset"], len(j["LUT"])))
    table = np.array([lut[i] for i in range(n)] if n < 5000 else j["LUT"], dtype=float)
    ctx.same(np.array(j["LUT"], dtype=float), table, "json-table", what + ": the exported table is not the node's")
    for c in (lo, hi, 0 if lo <= 0 <= hi else lo, (lo + hi) // 2):
        ctx.ok(float(lut(c)) == table[c - lo], "call", "%s: calling with code %d gives %r, entry is %r" % (what, c, lut(c), table[c - lo]))
    r = np.asarray(lut.rounding_policy)
    ctx.ok(r.shape == (n,) and np.isin(r, (0, 1)).all(), "rounding-type", what + ": table rounding is not one 0/1 per code")
    if m["r"] is not None:
        ctx.same(r, m["r"], "rounding-kept", what + ": table rounding")
    codes = np.arange(lo, hi + 1)
    with np.errstate(all="ignore"):
        y = np.asarray(fn((codes - m["zp"]) * m["s"]), float)
        v = y / m["os"] + m["ozp"]
    eps = 1e-7 * np.maximum(1.0, np.abs(v))
    if m["r"] is None and not m["updated"]:
        a, b = np.ceil(v - 0.5 - eps), np.floor(v + 0.5 + eps)
    else:
        a, b = np.floor(v - eps) + r, np.floor(v + eps) + r
    ol, oh = m.get("olo", lo), m.get("ohi", hi)
    a, b = np.clip(a, ol, oh), np.clip(b, ol, oh)
    bad = (table < a) | (table > b)
    ctx.ok(not bad.any(), "entry", lambda: "%s: code %s holds %s, expected %s..%s (input scale %r zero point %r, output %r %r, rounding %s)" % (
        what, codes[bad][:3], table[bad][:3], a[bad][:3], b[bad][:3], m["s"], m["zp"], m["os"], m["ozp"], r[bad][:3]))
    ctx.observe("entry-verified", n)
    ctx.observe("table-verified")


def run(ctx):
    rng = ctx.rng
    for k in ("update", "rounding", "reset"):
        ctx.need(k, 60)
    ctx.need("table-verified", 600)
    for i in ctx.loop(350, 6000):
        t = str(rng.choice(["int8", "int8", "int8", "uint8", "int4", "uint4", "int6"])) if i % 60 else str(rng.choice(["int16", "uint16"]))
        Q = Quantization(t)
        lo, hi = int(Q.min_value()), int(Q.max_value())
        name = str(rng.choice(["tanh", "tanh", "sigmoid", "sigmoid", "abs", "hardtanh"]))
        s, zp = params(rng, lo, hi)
        os_, ozp = out_params(rng, name, lo, hi)
        m = {"s": s, "zp": zp, "os": os_, "ozp": ozp, "lo": lo, "hi": hi, "r": None, "updated": False}
        hist = []
        with ctx.case("history", dtype=t, fn=name, scale=s, zero_point=zp, out=(os_, ozp), steps=hist):
            node = NodeTensorBase(s, zp, "act", Q)
            tensor = rng.normal(0, 1, (3, 4))
            order = int(rng.integers(0, 3))
            if order == 0:
                node = node.with_tensor(tensor)
            ctx.ok(node.LUT is None and node.as_json()["LUT"] is None, "no-table", "a new node already has a table")
            ctx.ok(node.with_lut(FNS[name], os_, ozp) is node, "chained", "with_lut does not return the node")
            if order == 1:
                node = node.with_tensor(tensor)
            verify(ctx, node, FNS[name], m, "new")
            other = NodeTensorBase(s, zp, "other", Q)
            ctx.ok(other.LUT is None, "shared", "another node has the table")
            for step in range(int(rng.integers(1, 6))):
                op = str(rng.choice(["update", "update", "rounding", "rounding", "reset", "replace", "tensor-rounding"]))
                hist.append(op)
                if op == "update":
                    m["s"], m["zp"] = params(rng, lo, hi)
                    hist[-1] = (op, m["s"], m["zp"])
                    if m["r"] is None:
                        m["r"] = np.array(node.LUT.rounding_policy)
                    node.update_quant_parameters(m["s"], m["zp"])
                    m["updated"] = True
                    ctx.observe("update")
                elif op == "rounding":
                    m["r"] = rng.integers(0, 2, hi - lo + 1) if rng.random() < 0.8 else np.array(node.LUT.rounding_policy)
                    r = m["r"].copy()
                    if rng.random() < 0.3:
                        # decisions read from the table, changed in place and set again
                        r = node.LUT.rounding_policy
                        r[...] = m["r"]
                    node.LUT.rounding_policy = r
                    if rng.random() < 0.3:
                        r[...] = 1 - r            # the caller's array is used for something else
                        ctx.observe("rounding-buffer")
                    ctx.observe("rounding")
                elif op == "reset":
                    if m["r"] is None:
                        m["r"] = np.array(node.LUT.rounding_policy)
                    node.reset_scale()
                    node.reset_zp()
                    m["s"], m["zp"], m["updated"] = s, zp, True
                    ctx.observe("reset")
                elif op == "replace":
                    name = str(rng.choice(list(FNS)))
                    m["os"], m["ozp"] = out_params(rng, name, lo, hi)
                    hist[-1] = (op, name, m["os"], m["ozp"])
                    node.with_lut(FNS[name], m["os"], m["ozp"])
                    m["r"], m["updated"] = None, False
                elif order < 2:
                    node.rounding_policy = rng.integers(0, 2, (3, 4))
                ctx.ok(node.scale == m["s"] and node.zero_point == m["zp"], "params", "node parameters %r %r" % (node.scale, node.zero_point))
                if m["r"] is not None and op != "replace" and not m["updated"] and op != "rounding":
                    pass
                verify(ctx, node, FNS[name], m, "after %s" % (hist[-1],))

    # a table between two nodes: it follows the parameters of both
    ctx.need("consumer-update", 60)
    for i in ctx.loop(150, 2500):
        ti = str(rng.choice(["int8", "int8", "uint8", "int4", "int6", "uint4"]))
        to = str(rng.choice(["int8", "int8", "uint8", "int4", "int6", "uint4", "int16", "uint16", "int12"]))
        Qi, Qo = Quantization(ti), Quantization(to)
        lo, hi = int(Qi.min_value()), int(Qi.max_value())
        ol, oh = int(Qo.min_value()), int(Qo.max_value())
        name = str(rng.choice(["tanh", "sigmoid"]))
        s, zp = params(rng, lo, hi)
        given = out_params(rng, name, ol, oh) if rng.random() < 0.5 else None
        hist = []
        with ctx.case("between", dtype=ti, out=to, fn=name, scale=s, zero_point=zp, given=given, steps=hist):
            node = NodeTensorBase(s, zp, "act", Qi)
            op, _ = quantize_activation_node(FNS[name], name, rng.normal(0, 2, (int(rng.integers(2, 30)), 2)), Qo, node, out_params=given)
            out = op.outputs[0]
            ctx.ok(op.inputs[0] is node and node.LUT is not None, "between-table", "the activation's input has no table")
            r, updated = None, False
            if given is not None:
                ctx.ok((out.scale, out.zero_point) == given, "between-params", "output parameters %r" % ((out.scale, out.zero_point),))
            m = {"s": s, "zp": zp, "os": out.scale, "ozp": out.zero_point, "lo": lo, "hi": hi, "r": None, "updated": False, "olo": ol, "ohi": oh}
            verify(ctx, node, FNS[name], m, "between new")
            for step in range(int(rng.integers(1, 5))):
                if m["r"] is None:
                    m["r"] = np.array(node.LUT.rounding_policy)
                m["updated"] = True
                k = int(rng.integers(0, 3))
                if k < 2:
                    m["os"], m["ozp"] = out_params(rng, name, ol, oh) if rng.random() < 0.7 else (m["os"], int(rng.choice([0, ol, oh])) if ol else 0)
                    out.update_quant_parameters(m["os"], m["ozp"])
                    ctx.observe("consumer-update")
                else:
                    m["s"], m["zp"] = params(rng, lo, hi)
                    node.update_quant_parameters(m["s"], m["zp"])
                hist.append((k, m["s"], m["zp"], m["os"], m["ozp"]))
                verify(ctx, node, FNS[name], m, "between after %s" % (hist[-1],))
