"""P06: reduced LUT losslessness, also through JSON."""
import itertools
import json
import math
import numpy as np
from harness import gen
from itcl_quantization import Quantization
from itcl_quantization.quantization.lut import ReducedLUT

RULE = ("every table over a 3-letter alphabet up to length 6 (7 thorough) x depth 0-4 x mode, random run-structured tables, and real "
        "activation tables; each read by index, by iteration, and again after JSON; non-trivial = distinct (table, depth, mode)")


def judge(ctx, r, table, what):
    got = [r[i] for i in range(len(table))]
    ctx.ok(got == list(table), "index/" + what, lambda: "%s: by index %s" % (what, [(i, a, b) for i, (a, b) in enumerate(zip(got, table)) if a != b][:5]))
    it = list(itertools.islice(iter(r), len(table) + 5))
    ctx.ok(it == list(table), "iterate/" + what, lambda: "%s: iteration gave %d items for %d (%s)" % (what, len(it), len(table), it[:8]))
    for past in (len(table), len(table) + 1, len(table) + 1000):
        try:
            v = r[past]
        except IndexError:
            ctx.ok(True, "past-end/" + what)
        else:
            ctx.fail("past-end/" + what, "%s: index %d of a %d-entry table returned %r" % (what, past, len(table), v))
    ctx.observe("entries", len(table))


def one(ctx, group, table, depth, asym, mr=0):
    with ctx.case(group, table=table, depth=depth, asymmetric=asym, min_reduce=mr):
        keep = list(table)
        r = ReducedLUT(table, depth, mr, asymmetric=asym)
        judge(ctx, r, table, "built")
        ctx.ok(list(table) == keep, "input-modified", "the original table was modified")
        text = json.dumps(r.serialize())
        r2 = ReducedLUT.deserialize(json.loads(text))
        judge(ctx, r2, table, "loaded")
        ctx.ok(json.loads(json.dumps(r2.serialize())) == json.loads(text), "reserialize", "serializing the loaded table differs")
        ctx.ok(json.loads(text)["reduced_lut_len"] == len(json.loads(text)["reduced_lut"]), "counts", "declared length of the reduced table")
        for side in ("head", "tail"):
            j = json.loads(text)[side]
            ctx.ok(j["tuples_len"] == len(j["tuples"]), "counts", "declared number of intervals")
        judge(ctx, r, table, "built")


def run(ctx):
    rng = ctx.rng
    ctx.need("index/built", 1000)
    ctx.need("index/loaded", 1000)
    for n in range(1, ctx.n(6, 8)):
        for t in itertools.product(range(3), repeat=n):
            if t[0] != 0 and n > 4 and not ctx.thorough:
                continue
            for depth in range(0, 4):
                for asym in (False, True):
                    one(ctx, "exhaustive", list(t), depth, asym)
            if ctx.time_left() < 30:
                break
    for i in ctx.loop(2000, 8000):
        t = []
        while len(t) < rng.integers(1, 260):
            t += [int(rng.integers(-5, 6))] * int(rng.integers(1, 60) if rng.random() < 0.4 else 1)
        one(ctx, "runs", t, int(rng.integers(0, 8)), bool(rng.integers(0, 2)), int(rng.integers(0, 4)))
    for i in ctx.loop(1200, 3000):
        name = str(rng.choice(["int8", "uint8", "int4", "int10"]))
        lo, hi = gen.limits(name)
        f = [math.tanh, math.cos, lambda x: 1 / (1 + math.exp(-max(min(x, 50), -50))), lambda x: max(0.0, x)][i % 4]
        t = Quantization(name).create_LUT(f, float(10 ** rng.uniform(-3, 1)), gen.zero_point(rng, lo, hi), float(10 ** rng.uniform(-3, 0.5)), gen.zero_point(rng, lo, hi))
        one(ctx, "activation", t, int(rng.integers(0, 6)), bool(rng.integers(0, 2)))
    for t in ([5], [5] * 256, list(range(256)), [1, 2], [0] * 128 + [1] * 128):
        for depth in (0, 1, 2, 3, 100):
            for asym in (False, True):
                one(ctx, "degenerate", list(t), depth, asym)
