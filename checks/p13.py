"""P13: the integer LSTM layer."""
import copy
import itertools
import numpy as np
from harness import gen
from harness.opjson import node, op, lut_json
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.tflite.build_layer import build_layer

RULE = ("random descriptions: 1-5 features/units, 1-7 steps, 1-5 samples, int6..int12 state types, every zero point incl. extremes, "
        "gate tables of sigmoid/tanh full range, saturating and resolving scales; oracle: per time step the real LSTM equations on "
        "the decoded codes with an error interval of one code per truncation; non-trivial = distinct description and input")
EPS = 1e-6


def sigmoid(x):
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def q(v, s, z, name):
    lo, hi = gen.limits(name)
    return np.clip(np.floor(np.asarray(v, dtype=np.float64) / s + z + 0.5), lo, hi).astype(np.int64)


def pick_type(rng, wide=False):
    return str(rng.choice(["int8", "int8", "int8", "uint8", "int6", "int10"] + (["int16"] if wide else [])))


def fit(rng, lo, hi, name, jitter=True):
    """scale, zero point covering lo..hi, sometimes too small (saturating) or shifted."""
    a, b = gen.limits(name)
    lo, hi = min(lo, 0.0), max(hi, 0.0)
    s = max(hi - lo, 1e-3) / (b - a)
    if jitter and rng.random() < 0.3:
        s *= float(2.0 ** rng.uniform(-1.5, 1))
    z = int(np.clip(round(a - lo / s), a, b))
    return float(s), z


class Desc:
    pass


def make(rng):
    D = Desc()
    D.nf, D.nu, D.nt, D.nb = (int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 6)))
    if rng.random() < 0.03:     # longer, wider, or more of them
        k = int(rng.integers(0, 3))
        D.nt = int(rng.integers(30, 130)) if k == 0 else D.nt
        D.nu, D.nf = (int(rng.integers(10, 33)), int(rng.integers(10, 40))) if k == 1 else (D.nu, D.nf)
        D.nb = int(rng.integers(30, 150)) if k == 2 else D.nb
    D.ti, D.tk, D.tr, D.tra, D.tc, D.th = (pick_type(rng, True), pick_type(rng), pick_type(rng), pick_type(rng), pick_type(rng), pick_type(rng))
    D.tg = [pick_type(rng) for _ in range(4)]
    D.tca = pick_type(rng)
    amp = float(10.0 ** rng.uniform(-1, 0.7))
    D.si, D.zi = fit(rng, -amp if rng.random() < 0.7 else 0, amp, D.ti)
    kl, kh = gen.limits(D.tk)
    rl, rh = gen.limits(D.tr)
    D.k, D.r, D.b = [], [], []
    for g in range(4):
        w = float(10.0 ** rng.uniform(-1, 0.3))
        s, z = fit(rng, -w, w * rng.uniform(0, 1), D.tk, False)
        D.k.append((s, z, rng.integers(kl, kh + 1, (D.nf, D.nu))))
        w = float(10.0 ** rng.uniform(-1, 0.3))
        s, z = fit(rng, -w * rng.uniform(0, 1), w, D.tr, False)
        D.r.append((s, z, rng.integers(rl, rh + 1, (D.nu, D.nu))))
        bs = D.k[g][0] * D.si
        D.b.append((bs, q(rng.normal(0, 0.7, D.nu), bs, 0, "int32")))
    D.sh, D.zh = fit(rng, -rng.uniform(0.2, 1), rng.uniform(0.2, 1), D.th)
    if rng.random() < 0.25:
        D.zh = int(rng.choice(gen.limits(D.th)))
    cm = float(rng.uniform(0.3, 3))
    D.sc, D.zc = fit(rng, -cm, cm, D.tc)
    if rng.random() < 0.4:
        D.zc = 0 if not D.tc.startswith("u") else D.zc
    D.ra = [fit(rng, -rng.uniform(1, 6), rng.uniform(1, 6), D.tra) for _ in range(4)]
    D.go, D.glut = [], []
    al, ah = gen.limits(D.tra)
    for g in range(4):
        f = np.tanh if g == 2 else sigmoid
        s, z = fit(rng, -1 if g == 2 else 0, 1, D.tg[g])
        D.go.append((s, z))
        D.glut.append(q(f((np.arange(al, ah + 1) - D.ra[g][1]) * D.ra[g][0]), s, z, D.tg[g]))
    D.co = fit(rng, -1, 1, D.tca)
    cl, ch = gen.limits(D.tc)
    D.clut = q(np.tanh((np.arange(cl, ch + 1) - D.zc) * D.sc), D.co[0], D.co[1], D.tca)
    il, ih = gen.limits(D.ti)
    D.x = gen.codes(rng, il, ih, (D.nb, D.nt, D.nf))
    return D


def describe(D, seq):
    al, cl = gen.limits(D.tra)[0], gen.limits(D.tc)[0]
    ins = [node(D.si, D.zi, dtype=D.ti)]
    ins += [node(s, z, w, D.tk) for s, z, w in D.k]
    ins += [node(s, z, w, D.tr) for s, z, w in D.r]
    ins += [node(s, 0, b, "int32") for s, b in D.b]
    ins += [node(D.r[g][0] * D.sh, 0, dtype="int32") for g in range(4)]
    ins += [node(s, z, dtype=D.tra) for s, z in D.ra]
    ins += [node(D.sc, D.zc, dtype=D.tc)]
    for g in range(4):
        ins += [node(*D.ra[g], dtype=D.tra, lut=lut_json(D.glut[g], -al)), node(*D.go[g], dtype=D.tg[g])]
    ins += [node(D.sc, D.zc, dtype=D.tc, lut=lut_json(D.clut, -cl)), node(*D.co, dtype=D.tca)]
    return op("LSTM", "lstm", ins, [node(D.sh, D.zh, dtype=D.th)],
              {"return_sequences": {"value": [seq], "dtype": "bool"}, "n_cells": {"value": [D.nu], "dtype": "int"}})


def direct(D, seq, integer_only):
    """the layer built from arrays and rescaling factors instead of a description."""
    al, cl = gen.limits(D.tra)[0], gen.limits(D.tc)[0]
    luts = [LUTActivation(D.glut[g].tolist(), -al) for g in range(4)]
    return LSTM(
        kernel=[w - z for _, z, w in D.k], recurrent_kernel=[w - z for _, z, w in D.r], bias=[np.array(b) for _, b in D.b],
        M1=[D.k[g][0] * D.si / (D.sh * D.r[g][0]) for g in range(4)], M2=[D.r[g][0] * D.sh / D.ra[g][0] for g in range(4)],
        M3=D.go[1][0], M4=D.go[0][0] * D.go[2][0] / D.sc, M5=D.go[3][0] * D.co[0] / D.sh,
        input_gate_lut=luts[0], forget_gate_lut=luts[1], cell_gate_lut=luts[2], output_gate_lut=luts[3],
        cell_state_lut=LUTActivation(D.clut.tolist(), -cl),
        input_zp=D.zi, bias_add_zp=0, recurrent_add_zp=[z for _, z in D.ra], hidden_state_zp=D.zh,
        input_gate_zp=D.go[0][1], forget_gate_zp=D.go[1][1], cell_gate_zp=D.go[2][1], output_gate_zp=D.go[3][1],
        cell_state_zp=D.zc, cell_state_activation_zp=D.co[1],
        bias_add_dtype="int32", recurrent_add_dtype=D.tra, cell_state_dtype=D.tc, hidden_state_dtype=D.th,
        return_sequences=seq, fp_integer_only=integer_only)


def corners(a, b):
    p = [x * y for x, y in itertools.product(a, b)]
    return np.minimum.reduce(p), np.maximum.reduce(p)


def window(lut, base, lo, hi):
    """min and max of the table between two code arrays."""
    a, b = np.zeros(lo.shape, dtype=np.int64), np.zeros(lo.shape, dtype=np.int64)
    for i in np.ndindex(lo.shape):
        w = lut[lo[i] - base:hi[i] - base + 1]
        a[i], b[i] = w.min(), w.max()
    return a, b


def shadow(ctx, D, hs, cs):
    """hs (T,B,U) observed hidden codes; cs observed cell codes or None."""
    al, ah = gen.limits(D.tra)
    hl, hh = gen.limits(D.th)
    cl, ch = gen.limits(D.tc)
    h = np.zeros((D.nb, D.nu))
    c_lo = c_hi = np.zeros((D.nb, D.nu))
    x = (D.x - D.zi) * D.si
    for t in range(D.nt):
        gl, gh = [], []
        for g in range(4):
            ks, kz, kw = D.k[g]
            rs, rz, rw = D.r[g]
            y = x[:, t] @ ((kw - kz) * ks) + D.b[g][0] * D.b[g][1] + h @ ((rw - rz) * rs)
            v = y / D.ra[g][0] + D.ra[g][1]
            slack = 1 + rs * D.sh / D.ra[g][0] + EPS * (1 + np.abs(v))
            lo = np.clip(np.ceil(v - slack), al, ah).astype(np.int64)
            hi = np.clip(np.floor(v + slack), al, ah).astype(np.int64)
            ctx.observe("gate-saturated", int(np.sum((v < al) | (v > ah))))
            ctx.observe("gate-resolved", int(np.sum((v >= al) & (v <= ah))))
            a, b = window(D.glut[g], al, np.minimum(lo, hi), np.maximum(lo, hi))
            gl.append((a - D.go[g][1]) * D.go[g][0])
            gh.append((b - D.go[g][1]) * D.go[g][0])
        p = corners((gl[1], gh[1]), (c_lo, c_hi))
        r = corners((gl[0], gh[0]), (gl[2], gh[2]))
        v_lo, v_hi = (p[0] + r[0]) / D.sc + D.zc, (p[1] + r[1]) / D.sc + D.zc
        k_lo = np.clip(np.ceil(v_lo - 1 - EPS * (1 + np.abs(v_lo))), cl, ch).astype(np.int64)
        k_hi = np.clip(np.floor(v_hi + 1 + EPS * (1 + np.abs(v_hi))), cl, ch).astype(np.int64)
        if cs is not None:
            got = np.broadcast_to(np.asarray(cs[t]), k_lo.shape)
            ctx.ok(((got >= k_lo) & (got <= k_hi)).all(), "cell-state", lambda: "step %d: cell %s outside %s..%s (type %s)" % (t, got.tolist(), k_lo.tolist(), k_hi.tolist(), D.tc))
            k_lo = k_hi = got.astype(np.int64)
        c_lo, c_hi = (k_lo - D.zc) * D.sc, (k_hi - D.zc) * D.sc
        a, b = window(D.clut, cl, k_lo, k_hi)
        act = ((a - D.co[1]) * D.co[0], (b - D.co[1]) * D.co[0])
        o = corners((gl[3], gh[3]), act)
        v_lo, v_hi = o[0] / D.sh + D.zh, o[1] / D.sh + D.zh
        e_lo = np.clip(np.ceil(v_lo - 1 - EPS * (1 + np.abs(v_lo))), hl, hh)
        e_hi = np.clip(np.floor(v_hi + 1 + EPS * (1 + np.abs(v_hi))), hl, hh)
        ctx.ok(((hs[t] >= e_lo) & (hs[t] <= e_hi)).all(), "hidden-state", lambda: "step %d: hidden %s outside %s..%s (%s)" % (t, hs[t].tolist(), e_lo.tolist(), e_hi.tolist(), D.th))
        ctx.observe("hidden-interval-width", int((e_hi - e_lo).sum()))
        ctx.observe("hidden-codes", int(e_hi.size))
        h = (hs[t] - D.zh) * D.sh


def run(ctx):
    rng = ctx.rng
    ctx.need("hidden-state", 300)
    ctx.need("gate-resolved", 2000)
    for i in ctx.loop(600, 9000):
        D = make(rng)
        st = rng.random() < 0.5 and D.ti in ("int8", "uint8", "int16")
        x = D.x.astype(D.ti) if st else D.x
        with ctx.case("lstm", **{k: v for k, v in vars(D).items() if k not in ("glut", "clut")}, narrow=bool(st)):
            d = describe(D, True)
            d2 = describe(D, False)
            keep = copy.deepcopy(d)
            L = LSTM.from_model(d) if i % 2 else build_layer(d)
            x0 = x.copy()
            y = np.asarray(L.infer(x))
            ctx.ok(y.shape == (D.nb, D.nt, D.nu), "shape", "sequence output %s expected %s" % (y.shape, (D.nb, D.nt, D.nu)))
            ctx.same(x, x0, "input-modified", "lstm")
            ctx.ok(d == keep, "description-modified", "lstm")
            hl, hh = gen.limits(D.th)
            ctx.ok(np.all((y >= hl) & (y <= hh) & (y == np.floor(y))), "hidden-type", "hidden codes leave %s" % D.th)
            inter = getattr(L, "intermediate_tensors", None)
            cs = getattr(inter, "cell_state", None)
            if cs is not None and len(cs) == D.nt:
                cl, ch = gen.limits(D.tc)
                ctx.ok(all(np.all((np.asarray(c) >= cl) & (np.asarray(c) <= ch)) for c in cs), "cell-type", "cell codes leave %s" % D.tc)
                ctx.observe("cell-states-recorded", D.nt)
            else:
                cs = None
            shadow(ctx, D, y.swapaxes(0, 1), cs)
            L2 = LSTM.from_model(d2)
            y2 = np.asarray(L2.infer(x))
            ctx.ok(y2.shape == (D.nb, D.nu), "shape", "last-step output %s expected %s" % (y2.shape, (D.nb, D.nu)))
            ctx.same(y2, y[:, -1], "last-step", "last step of the sequence and last-step output differ")
            ctx.same(L.infer(x), y, "repeat", "second inference differs")
            # causality: a prefix of the window gives a prefix of the states
            if D.nt > 1:
                t = int(rng.integers(1, D.nt))
                ctx.same(L.infer(x[:, :t]), y[:, :t], "prefix", "shorter window")
            # the batch rows are independent
            b = int(rng.integers(0, D.nb))
            ctx.same(L.infer(x[b:b + 1]), y[b:b + 1], "row", "sample alone")
    # built from arrays and factors, the state products floating or integer-only
    ctx.need("integer-only", 60)
    for i in ctx.loop(160, 2500):
        D = make(rng)
        only = bool(rng.random() < 0.7)
        with ctx.case("direct", **{k: v for k, v in vars(D).items() if k not in ("glut", "clut")}, integer_only=only):
            L = direct(D, True, only)
            y = np.asarray(L.infer(D.x))
            hl, hh = gen.limits(D.th)
            ctx.ok(y.shape == (D.nb, D.nt, D.nu) and np.all((y >= hl) & (y <= hh) & (y == np.floor(y))), "hidden-type", "hidden codes %s leave %s" % (y.shape, D.th))
            cs = getattr(getattr(L, "intermediate_tensors", None), "cell_state", None)
            shadow(ctx, D, y.swapaxes(0, 1), cs if cs is not None and len(cs) == D.nt else None)
            ctx.same(np.asarray(direct(D, False, only).infer(D.x)), y[:, -1], "last-step", "last step of the sequence and last-step output differ")
            ctx.same(np.asarray(L.infer(D.x)), y, "repeat", "second inference differs")
            ctx.observe("integer-only" if only else "floating")
    # an input of real zero with zero biases keeps a zero hidden state
    for i in ctx.loop(60, 500):
        D = make(rng)
        D.x = np.full_like(D.x, D.zi)
        D.b = [(s, np.zeros_like(b)) for s, b in D.b]
        hl, hh = gen.limits(D.th)
        # make the tables exact at zero
        for g in range(4):
            D.ra[g] = (D.ra[g][0], int(np.clip(D.ra[g][1], *gen.limits(D.tra))))
        al, _ = gen.limits(D.tra)
        z = D.go[2][1]
        with ctx.case("zero-input", sh=D.sh, zh=D.zh, zc=D.zc, types=[D.tra, D.tc, D.th]):
            D.glut[2][D.ra[2][1] - al] = z
            D.clut[D.zc - gen.limits(D.tc)[0]] = D.co[1]
            y = np.asarray(LSTM.from_model(describe(D, True)).infer(D.x))
            ctx.close(y, np.full(y.shape, D.zh), 0, "zero-fixpoint", "zero input and bias, hidden zero point %d" % D.zh)
