"""P27: a quantizer configuration means what it says."""
import copy
import json
import os
import random
import numpy as np
import yaml
from itcl_quantizer.config.models.keras import (KerasDenseCfg, ParamEqualizerCfg, QuantizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg, RoundingQUBOCfg)
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet
from harness import qnet

RULE = ("random configuration contents given as keywords, dictionaries, JSON and YAML files; histories of creating, loading, editing, presetting (TFLite) and rebuilding several "
        "configurations with every one compared with its own model after each step; optimizers built compared with directly constructed ones over seeded searches; networks "
        "quantized under a configuration compared with the types it names; non-trivial = distinct step")
TYPES = ["int4", "int8", "int12", "int16", "uint8", "int32"]
DENSE = {"activation_dtype": "int8", "bias_add_dtype": "int8", "bias_dtype": "int32", "kernel_dtype": "int8", "kernel_symmetric": False}
ROUND = {"annealer": (RoundingAnnealerCfg, {"t_min": 0.1, "t_max": 25000.0, "updates": 100, "steps": 5000, "max_retries": 100}),
         "base": (RoundingMinimaCfg, {"max_retries": 100}), "qubo": (RoundingQUBOCfg, {})}


def rounding(rng):
    k = str(rng.choice(list(ROUND)))
    d = {"optimizer": k}
    for f in ROUND[k][1]:
        if rng.random() < 0.6:
            d[f] = int(rng.integers(1, 500)) if f in ("updates", "steps", "max_retries") else float(round(10 ** rng.uniform(-4, 3), 5)) if rng.random() < 0.7 else int(rng.integers(1, 100))
    return d


def dense(rng, must=False):
    d = {}
    for f in ("activation_dtype", "bias_add_dtype", "bias_dtype", "kernel_dtype"):
        if rng.random() < (0.7 if must else 0.4):
            d[f] = str(rng.choice(TYPES))
    if rng.random() < 0.4:
        d["kernel_symmetric"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        d["adaround_optimizer"] = rounding(rng)
    if rng.random() < 0.3:
        d["lut_cfg"] = {"reduced_depth": int(rng.integers(0, 9))}
    if must and not d:
        d["kernel_dtype"] = "int4"
    return d


def content(rng):
    c = {}
    if rng.random() < 0.7:
        c["dense"] = dense(rng)
    if rng.random() < 0.4:
        c["quantize"] = {"dtype": str(rng.choice(TYPES))} if rng.random() < 0.8 else {}
    if rng.random() < 0.2:
        c["dequantize"] = {}
    if rng.random() < 0.6:
        c["ada_round_net"] = rounding(rng) if rng.random() < 0.8 else None
    if rng.random() < 0.5:
        c["param_equalizer"] = {"max_retries": int(rng.integers(1, 300))} if rng.random() < 0.7 else {"optimizer": "base"} if rng.random() < 0.5 else None
    if rng.random() < 0.5:
        c["specific_layers"] = {"layer_%d" % k: dense(rng, True) for k in range(int(rng.integers(0, 4)) if rng.random() < 0.85 else int(rng.integers(8, 30)))}
    return c


def full_rounding(d):
    return None if d is None else {**{k: v for k, v in ROUND[d["optimizer"]][1].items()}, **d}


def full_dense(d):
    out = {**DENSE, "adaround_optimizer": None, **d}
    out["adaround_optimizer"] = full_rounding(out["adaround_optimizer"])
    out["lut_cfg"] = {"reduced_depth": d.get("lut_cfg", {}).get("reduced_depth", 3)}
    return out


def model_of(c):
    """What a configuration with this content is."""
    p = c.get("param_equalizer")
    return {"dense": full_dense(c.get("dense", {})), "quantize": {"dtype": c.get("quantize", {}).get("dtype", "int8")}, "dequantize": {},
            "ada_round_net": full_rounding(c.get("ada_round_net")), "param_equalizer": None if p is None else {"optimizer": "base", "max_retries": p.get("max_retries", 100)},
            "specific_layers": {k: full_dense(v) for k, v in c.get("specific_layers", {}).items()}}


def preset(m):
    m = copy.deepcopy(m)
    m["ada_round_net"] = m["param_equalizer"] = None
    for d in [m["dense"]] + list(m["specific_layers"].values()):
        d["kernel_symmetric"] = True
    return m


def rounding_of(c):
    if c is None:
        return None
    out = {"optimizer": c.optimizer}
    for f in ROUND[c.optimizer][1]:
        out[f] = getattr(c, f)
    return out


def dense_of(c):
    return {**{f: getattr(c, f) for f in DENSE}, "adaround_optimizer": rounding_of(c.adaround_optimizer), "lut_cfg": {"reduced_depth": c.lut_cfg.reduced_depth}}


def read(c):
    p = c.param_equalizer
    return {"dense": dense_of(c.dense), "quantize": {"dtype": c.quantize.dtype}, "dequantize": {} if c.dequantize is not None else None, "ada_round_net": rounding_of(c.ada_round_net),
            "param_equalizer": None if p is None else {"optimizer": p.optimizer, "max_retries": p.max_retries},
            "specific_layers": {k: dense_of(v) for k, v in c.specific_layers.items()}}


def kinds(c):
    out = [c.ada_round_net, c.dense.adaround_optimizer] + [v.adaround_optimizer for v in c.specific_layers.values()]
    return [o for o in out if o is not None]


def make(ctx, how, c):
    if how == "keywords":
        def r(d):
            return None if d is None else ROUND[d["optimizer"]][0](**{k: v for k, v in d.items() if k != "optimizer"})

        def dn(d):
            d = copy.deepcopy(d)
            if d.get("adaround_optimizer"):
                d["adaround_optimizer"] = r(d["adaround_optimizer"])
            return KerasDenseCfg(**d)
        kw = copy.deepcopy(c)
        if "dense" in kw:
            kw["dense"] = dn(kw["dense"])
        if "ada_round_net" in kw:
            kw["ada_round_net"] = r(kw["ada_round_net"])
        if kw.get("param_equalizer") is not None:
            kw["param_equalizer"] = ParamEqualizerCfg(**kw["param_equalizer"])
        if "specific_layers" in kw:
            kw["specific_layers"] = {k: dn(v) for k, v in kw["specific_layers"].items()}
        return QuantizerCfg(**kw)
    if how == "dictionary":
        return QuantizerCfg(**copy.deepcopy(c))
    path = os.path.join(os.environ["VERIF_SCRATCH"], "cfg.%s" % how)
    with open(path, "w", encoding="utf-8") as f:
        f.write(json.dumps(c) if how == "json" else yaml.safe_dump(c, default_flow_style=None if len(c) % 2 else False))
    out = QuantizerCfg.from_json(path) if how == "json" else QuantizerCfg.from_yml(path)
    os.unlink(path)
    return out


def trace(opt, start, salt):
    """The states a rounding optimizer evaluates on a fixed loss from a fixed seed."""
    out = []

    def fn(ps):
        out.append(tuple(int(b) for p in ps for b in np.asarray(p).ravel()))
        return (hash((out[-1], salt)) % 1000) / 1000.0
    random.seed(salt)
    np.random.seed(salt % 2 ** 31)
    opt.set_cost_fn(fn)
    opt.set_initial_neigh([p.copy() for p in start])
    with qnet.quiet():
        got, cost = opt.optimize()
    return out, [np.asarray(p).tolist() for p in got], cost


def built(ctx, rng, d):
    """The optimizer a configuration builds against one constructed with its parameters."""
    cls, defaults = ROUND[d["optimizer"]]
    opt = cls(**{k: v for k, v in d.items() if k != "optimizer"}).build()
    if d["optimizer"] == "qubo":
        ctx.ok(isinstance(opt, QUBOAnnealer), "optimizer-type", "qubo builds a %s" % type(opt).__name__)
        ctx.observe("built-qubo")
        return
    ctx.ok(isinstance(opt, RoundingAnnealer), "optimizer-type", "%s builds a %s" % (d["optimizer"], type(opt).__name__))
    p = {**defaults, **d}
    if d["optimizer"] == "base":
        ref = RoundingAnnealer(t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=p["max_retries"])
    else:
        ref = RoundingAnnealer(t_min=p["t_min"], t_max=p["t_max"], updates=p["updates"], steps=p["steps"], max_retries=p["max_retries"])
        for a, b in (("Tmin", "t_min"), ("Tmax", "t_max"), ("steps", "steps"), ("updates", "updates")):
            ctx.ok(getattr(opt, a) == p[b], "optimizer-parameter", "configured %s=%r, the annealer has %s=%r" % (b, p[b], a, getattr(opt, a)))
    start = [rng.integers(0, 2, (3, 2)), rng.integers(0, 2, (4,))]
    salt = int(rng.integers(1, 2 ** 31))
    a, b = trace(opt, start, salt), trace(ref, start, salt)
    ctx.ok(len(a[0]) == len(b[0]), "budget", "%s evaluates %d states, an optimizer with its parameters %d" % (d, len(a[0]), len(b[0])))
    ctx.ok(a == b, "search", "%s searches differently from an optimizer with its parameters" % d)
    ctx.observe("built-" + d["optimizer"])
    other = cls(**{k: v for k, v in d.items() if k != "optimizer"})
    ctx.ok(other.build() is not other.build(), "shared-optimizer", "two builds give the same optimizer")


def histories(ctx, rng):
    hist, live = [], []
    with ctx.case("history", draw=int(rng.integers(0, 2 ** 31)), steps=hist):
        for _ in range(int(rng.integers(3, 14))):
            op = str(rng.choice(["new", "new", "new", "same", "tflite", "edit", "edit", "layer"]))
            if op in ("new", "same") or not live:
                c = content(rng)
                if rng.random() < 0.15:
                    c = {}
                hows = ["keywords", "dictionary", "json", "yaml"]
                how = hows if op == "same" else [str(rng.choice(hows))]
                hist.append(["new", how, c])
                given = copy.deepcopy(c)
                made = [make(ctx, h, c) for h in how]
                ctx.ok(c == given, "content-changed", "the content given changed")
                for m in made:
                    live.append([m, model_of(c)])
                if op == "same":
                    for m in made[1:]:
                        ctx.ok(read(m) == read(made[0]), "load-path", "the same content differs between %s: %s" % (hows, c))
                        ctx.ok(m == made[0], "equality", "configurations of the same content are not equal")
                    ctx.observe("same-content")
                ctx.observe("created")
            else:
                item = live[int(rng.integers(0, len(live)))]
                c, m = item
                hist.append([op, [i for i, l in enumerate(live) if l is item][0]])
                if op == "tflite":
                    c.tflite()
                    item[1] = preset(m)
                    ctx.observe("preset")
                    if m["specific_layers"]:
                        ctx.observe("preset-specific")
                elif op == "edit":
                    k = int(rng.integers(0, 6))
                    if k == 0:
                        c.dense.kernel_dtype = m["dense"]["kernel_dtype"] = str(rng.choice(TYPES))
                    elif k == 1:
                        c.quantize.dtype = m["quantize"]["dtype"] = str(rng.choice(TYPES))
                    elif k == 2:
                        c.dense.lut_cfg.reduced_depth = m["dense"]["lut_cfg"]["reduced_depth"] = int(rng.integers(0, 99))
                    elif k == 3 and m["param_equalizer"]:
                        c.param_equalizer.max_retries = m["param_equalizer"]["max_retries"] = int(rng.integers(0, 999))
                    elif k == 4 and m["ada_round_net"] and "max_retries" in m["ada_round_net"]:
                        c.ada_round_net.max_retries = m["ada_round_net"]["max_retries"] = int(rng.integers(0, 999))
                    else:
                        c.dense.kernel_symmetric = m["dense"]["kernel_symmetric"] = not m["dense"]["kernel_symmetric"]
                    ctx.observe("edited")
                elif op == "layer":
                    d = dense(rng, True)
                    name = "added_%d" % int(rng.integers(0, 3))
                    c.specific_layers[name] = KerasDenseCfg(**copy.deepcopy(d))
                    m["specific_layers"][name] = full_dense(d)
                    ctx.observe("layer-added")
            for n, (c, m) in enumerate(live):
                got = read(c)
                ctx.ok(got == m, "content" if len(live) == 1 else "content-or-sharing", lambda: "configuration %d after %s: %s" % (n, hist[-1], [(k, got[k], m[k]) for k in m if got[k] != m[k]]))
                for o in kinds(c):
                    ctx.ok(type(o) is ROUND[o.optimizer][0], "optimizer-kind", "optimizer %r is a %s" % (o.optimizer, type(o).__name__))
            ctx.observe("inspected", len(live))


def rejected(ctx, rng):
    bad = [{"ada_round_net": {"optimizer": "gradient"}}, {"param_equalizer": {"optimizer": "annealer"}}, {"dense": {"adaround_optimizer": {"optimizer": "", "steps": 4}}},
           {"ada_round_net": "annealer"}, {"dense": 3}, {"ada_round_net": {"optimizer": "annealer", "steps": "many"}}]
    c = bad[int(rng.integers(0, len(bad)))]
    with ctx.case("rejected", content=c):
        for how in ("dictionary", "json", "yaml"):
            try:
                m = make(ctx, how, c)
            except Exception:
                ctx.observe("rejected")
            else:
                ctx.fail("accepted", "%s from %s gives %r" % (c, how, read(m)))


def empty(ctx, rng):
    """A section left empty means the same wherever it comes from."""
    c = content(rng)
    for k in rng.permutation(["dense", "quantize", "dequantize", "specific_layers"])[:int(rng.integers(1, 3))]:
        c[str(k)] = None
    with ctx.case("empty", content=c):
        got = {}
        for how in ("dictionary", "json", "yaml"):
            try:
                got[how] = read(make(ctx, how, c))
            except Exception as e:
                got[how] = "rejected"
        ctx.ok(got["dictionary"] == got["json"] == got["yaml"], "empty-section", lambda: "empty sections give %s" % got)
        ctx.observe("empty")


def network(ctx, rng):
    """What a configuration says is what the quantized network is made of."""
    n_in, specs = qnet.dense_net(rng, depth=int(rng.integers(1, 4)), width=5)
    x = qnet.dataset(rng, 6, n_in)[1]
    model = qnet.build_model(rng, specs, n_in)
    c = {"dense": {f: str(rng.choice(["int8", "int10", "int6"])) for f in ("activation_dtype", "bias_add_dtype", "kernel_dtype") if rng.random() < 0.7}, "specific_layers": {}}
    if rng.random() < 0.4:
        c["dense"]["kernel_symmetric"] = True
    if rng.random() < 0.5:
        c["dense"]["bias_dtype"] = "int24"
    for s in specs:
        if rng.random() < 0.4:
            c["specific_layers"][s.name] = {"kernel_dtype": str(rng.choice(["int8", "int7", "int12"])), "activation_dtype": "int9", "kernel_symmetric": bool(rng.random() < 0.5)}
    if rng.random() < 0.5:
        c["quantize"] = {"dtype": str(rng.choice(["int8", "int10", "int7"]))}
    retries, rounds = int(rng.integers(0, 5)), None
    mode = str(rng.choice(["plain", "equalize", "round", "both", "off"]))
    if mode in ("equalize", "both"):
        c["param_equalizer"] = {"max_retries": retries}
    if mode in ("round", "both"):
        rounds = {"optimizer": "base", "max_retries": retries} if rng.random() < 0.5 else {"optimizer": "annealer", "steps": int(rng.integers(0, 5)), "max_retries": retries, "t_max": 1.0, "updates": 0}
        c["ada_round_net"] = rounds
    tflite = rng.random() < 0.3
    how = str(rng.choice(["keywords", "dictionary", "json", "yaml"]))
    with ctx.case("network", layers=[s.describe() for s in specs], cfg=c, through=how, tflite=tflite, mode=mode), qnet.scratch() as d:
        cfg, m = make(ctx, how, c), model_of(c)
        if tflite:
            cfg.tflite()
            m = preset(m)
        seen = []

        def loss(net):
            with qnet.quiet():
                seen.append(float(np.abs(np.asarray(net.infer(x), float)).sum() % 1.0))
            return seen[-1]
        seed = int(rng.integers(0, 2 ** 31))
        random.seed(seed)
        net, path = qnet.quantize(model, x, cfg, d, loss)
        ctx.ok(read(cfg) == m, "configuration-used-up", "quantizing changed the configuration")
        with open(path) as fh:
            j = json.load(fh)
        ctx.ok(j["graph"][0]["outputs"][0]["tensor"]["dtype"] == m["quantize"]["dtype"], "quantize-type", "input codes %s, configured %s" % (j["graph"][0]["outputs"][0]["tensor"]["dtype"], m["quantize"]["dtype"]))
        for s, o, act in qnet.dense_items(j["graph"], specs):
            e = m["specific_layers"].get(s.name, m["dense"])
            for node, f in ((o["inputs"][1], "kernel_dtype"), (o["inputs"][2], "bias_dtype"), (o["outputs"][0], "bias_add_dtype")):
                ctx.ok(node["tensor"]["dtype"] == e[f], "layer-type", "layer %s: %s %s, configured %s" % (s.name, f, node["tensor"]["dtype"], e[f]))
            if act is not None:
                ctx.ok(act["outputs"][0]["tensor"]["dtype"] == e["activation_dtype"], "layer-type", "layer %s: activation %s, configured %s" % (s.name, act["outputs"][0]["tensor"]["dtype"], e["activation_dtype"]))
            w = o["inputs"][1]
            if e["kernel_symmetric"] and mode in ("plain", "off", "round"):
                lo, hi = qnet.CODES[e["kernel_dtype"]]
                ctx.ok(w["zero_point"] == 0, "symmetric", "layer %s: symmetric kernel with zero point %r" % (s.name, w["zero_point"]))
                ctx.ok(mode == "round" or np.abs(np.array(w["tensor"]["tensor"])).max(initial=0) <= hi, "symmetric", "layer %s: symmetric kernel uses code %d of %s" % (s.name, np.abs(np.array(w["tensor"]["tensor"])).max(), e["kernel_dtype"]))
                ctx.observe("symmetric-kernel")
        ctx.observe("network")
        if m["param_equalizer"] is None and m["ada_round_net"] is None:
            ctx.ok(not seen, "optimised-unasked", "no optimisation configured, the loss was evaluated %d times" % len(seen))
            ctx.observe("unoptimised")
            return
        # the same network without optimisation, then the configured optimisation by hand
        ref_cfg = make(ctx, how, {k: v for k, v in c.items() if k not in ("ada_round_net", "param_equalizer")})
        ref, _ = qnet.quantize(model, x, ref_cfg, d)
        first, seen[:] = list(seen), []
        random.seed(seed)
        with qnet.quiet():
            if mode in ("equalize", "both"):
                ParamEqualizerFullNet(ref, loss, lambda: BFSEqualizer(retries)).equalize()
            if mode in ("round", "both"):
                from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
                kw = dict(t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=retries) if rounds["optimizer"] == "base" else \
                    dict(t_min=0.1, t_max=1.0, updates=0, steps=rounds["steps"], max_retries=retries)
                AdaroundNet(ref, loss, lambda: RoundingAnnealer(**kw)).round()
        ctx.ok(first == seen, "configured-search", "%s evaluated %d networks, the optimisation it names %d" % (mode, len(first), len(seen)))
        a, b = json.loads(json.dumps(ref.as_json())), j
        a.pop("generated_at", None), b.pop("generated_at", None)
        ctx.ok(a == b, "configured-result", "%s leaves another network than the optimisation it names" % mode)
        ctx.observe("optimised-" + mode)


def run(ctx):
    rng = ctx.rng
    for k, n in (("created", 500), ("same-content", 80), ("preset", 150), ("preset-specific", 60), ("edited", 200), ("layer-added", 100), ("built-annealer", 40), ("built-base", 40), ("built-qubo", 40),
                 ("rejected", 60), ("empty", 60), ("network", 60), ("symmetric-kernel", 20), ("unoptimised", 15), ("optimised-equalize", 5), ("optimised-round", 5), ("optimised-both", 5)):
        ctx.need(k, n)
    for i in ctx.loop(2500, 40000):
        k = i % 7
        if k < 3:
            histories(ctx, rng)
        elif k < 5:
            d = rounding(rng)
            for f in ("steps", "max_retries"):
                if f in d:
                    d[f] = d[f] % 60
            if d["optimizer"] == "annealer":
                d.setdefault("steps", int(rng.integers(0, 60)))
                lo, hi = sorted((d.get("t_min", 0.1), d.get("t_max", 25000.0)))
                d.update({k: v for k, v in (("t_min", lo), ("t_max", hi)) if k in d})
            with ctx.case("built", optimizer=d):
                built(ctx, rng, d)
        elif k == 5:
            rejected(ctx, rng)
            empty(ctx, rng)
        else:
            network(ctx, rng)
