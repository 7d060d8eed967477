"""P07: widening fixed-width arithmetic."""
import numpy as np
from harness import gen
from itcl_quantization.quantization.operators import Dtype

RULE = "all type pairs of equal signedness up to 32 bits x {+,-,*} x scalars, 1-D, 2-D, 3-D and broadcast arrays, boundary-heavy; oracle is exact integer arithmetic; non-trivial = distinct (types, op, values)"

OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


def values(rng, name, shp):
    lo, hi = gen.limits(name)
    k = rng.integers(0, 4)
    if k == 0:
        a = rng.choice(np.array([lo, hi, lo + 1, hi - 1, 0, 1], dtype=np.int64), size=shp)
    elif k == 1:
        a = rng.integers(max(lo, -11), min(hi, 11) + 1, size=shp)
    else:
        a = rng.integers(lo, hi + 1, size=shp)
    return np.asarray(a, dtype=np.int64)


def spell(rng, n):
    """A type as its name, numpy type or numpy type object."""
    return [n, n, n.upper(), getattr(np, n), np.dtype(n)][int(rng.integers(0, 5))]


def one(ctx, op, na, va, nb, vb, form, lit=False):
    ea, eb = np.asarray(va).astype(object), np.asarray(vb).astype(object)
    exact = OPS[op](ea, eb)
    bits = 2 * max(int(na.strip("uint")), int(nb.strip("uint")))
    dlo, dhi = gen.limits(("uint" if na.startswith("u") else "int") + str(bits))
    flat = [int(v) for v in np.ravel(exact)]
    if any(v < dlo or v > dhi for v in flat):
        ctx.observe("not-representable-skipped")
        return
    with ctx.case("op" + op, a=na, b=nb, form=form, literal=lit, va=va, vb=vb):
        A = Dtype(va, spell(ctx.rng, na))
        B = vb if lit else Dtype(vb, spell(ctx.rng, nb))
        ka, kb = np.array(va, copy=True), np.array(vb, copy=True)
        R = OPS[op](A, B)
        got = np.asarray(R.value)
        ctx.ok(got.shape == np.shape(exact), "shape", "result shape %s, expected %s" % (got.shape, np.shape(exact)))
        ctx.ok([int(v) for v in np.ravel(got)] == flat, "exact", lambda: "%s %s %s: got %s expected %s" % (na, op, nb, np.ravel(got)[:6], flat[:6]))
        rn = str(R)
        rlo, rhi = gen.limits(rn)
        rb = int(rn.strip("uint"))
        ctx.ok(rn.startswith("u") == na.startswith("u"), "type", "signedness changed: %s" % rn)
        ctx.ok((int(R.min()), int(R.max())) == (rlo, rhi), "type", "reported limits of %s" % rn)
        ctx.ok(rb >= bits // 2, "type", "result type %s narrower than the operands'" % rn)
        ctx.ok(all(rlo <= v <= rhi for v in flat), "type-holds", "%s cannot hold the result %s" % (rn, flat[:6]))
        alo, ahi = gen.limits(na)
        if all(alo <= v <= ahi for v in flat):
            ctx.ok(rb == bits // 2, "type-unchanged", "the result fits %s but the type became %s" % (na, rn))
        ctx.ok(R.bits == rb and R.type == rn.rstrip("0123456789"), "type", "bits/type attributes")
        ctx.same(A.value, ka, "operand-modified", "first operand modified")
        ctx.ok(str(A) == na, "operand-modified", "first operand's type changed")
        if not lit:
            ctx.same(B.value, kb, "operand-modified", "second operand modified")
            ctx.ok(str(B) == nb, "operand-modified", "second operand's type changed")
        ctx.observe("elements", len(flat))


def run(ctx):
    rng = ctx.rng
    ctx.need("exact", 500)
    pairs = [(s + str(a), s + str(b)) for s in ("int", "uint") for a in (8, 16, 32) for b in (8, 16, 32)]
    for i in ctx.loop(16000, 60000):
        na, nb = pairs[i % len(pairs)]
        op = "+-*"[int(rng.integers(0, 3))]
        form = "huge" if i % 485 == 0 else "long" if i % 97 == 0 else str(rng.choice(["scalar", "1d", "2d", "3d", "array-scalar", "scalar-array", "broadcast", "npscalar"]))
        sa, sb = {"scalar": ((), ()), "npscalar": ((), ()), "1d": ((5,), (5,)), "2d": ((2, 3), (2, 3)), "3d": ((2, 2, 2),) * 2,
                  "long": ((1500,),) * 2, "huge": ((9000,),) * 2, "array-scalar": ((4,), ()), "scalar-array": ((), (4,)), "broadcast": ((2, 3), (3,))}[form]
        va, vb = values(rng, na, sa), values(rng, nb, sb)
        st = rng.random() < 0.5

        def wrap(v, n):
            if v.shape == ():
                return int(v) if form != "npscalar" else getattr(np, n)(int(v))
            return v.astype(n) if st else v
        va, vb = wrap(va, na), wrap(vb, nb)
        one(ctx, op, na, va, nb, vb, form)
        if op == "+" and na == nb and np.ndim(vb) == 0:
            one(ctx, "+", na, va, na, int(vb), form, lit=True)
    # the fixed-width helpers of both packages: the result has room for every pair of operands
    from itcl_quantization.quantization import operators
    from itcl_inference_engine.util import quantization as engine
    for mod in (operators, engine):
        for bits in (8, 16, 32):
            for kind, f in (("multiplication", lambda a, b: a * b), ("addition", lambda a, b: a + b)):
                fn = getattr(mod, "int%d_%s" % (bits, kind), None)
                if fn is None:
                    continue
                for i in range(60):
                    a, b = (values(rng, "int%d" % bits, () if i % 3 else (6,)) for _ in range(2))
                    with ctx.case("helper", bits=bits, kind=kind, a=a, b=b):
                        given = [v.astype("int%d" % bits) if i % 2 else (int(v) if v.ndim == 0 else v) for v in (a, b)]
                        got = fn(*given)
                        e = f(a.astype(object), b.astype(object))
                        ctx.ok([int(v) for v in np.ravel(got)] == [int(v) for v in np.ravel(e)], "helper-exact",
                               lambda: "int%d %s of %s and %s gave %s" % (bits, kind, a, b, got))
                        ctx.observe("helper-calls")
    # every boundary pair of 8-bit operands
    for s in ("int8", "uint8"):
        lo, hi = gen.limits(s)
        e = [lo, lo + 1, -1 if lo < 0 else 1, 0, 1, hi - 1, hi]
        for a in e:
            for b in e:
                for op in "+-*":
                    one(ctx, op, s, a, s, b, "boundary")
    # chains: repeated widening stays exact up to 64 bits
    for i in ctx.loop(800, 2000):
        with ctx.case("chain", i=i):
            n = int(rng.integers(2, 8))
            vals = [int(v) for v in rng.integers(-128, 128, n)]
            acc, ex = Dtype(vals[0], "int8"), vals[0]
            for v in vals[1:]:
                if int(str(acc).strip("uint")) > 32:
                    break
                acc, ex = acc + Dtype(v, "int8"), ex + v
                ctx.ok(int(acc.value) == ex, "chain", "running sum %s, expected %d" % (acc.value, ex))
                lo, hi = gen.limits(str(acc))
                ctx.ok(lo <= ex <= hi, "type-holds", "running sum leaves its type")
