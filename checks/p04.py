"""P04: integer type names."""
import numpy as np
from harness import gen
from itcl_quantization import Quantization
from itcl_quantization.quantization.operators import GenericDtype, Dtype

RULE = "every intN/uintN for N=1..64 (128 in thorough), all letter-case variants, numpy types, and a catalogue plus random mutations of malformed names; non-trivial = distinct name"


def run(ctx):
    rng = ctx.rng
    ctx.need("range", 200)
    ctx.need("reject", 100)
    for n in list(range(1, 129 if ctx.thorough else 66)) + ([200, 256, 1000] if ctx.thorough else [80, 100, 127, 128, 256]):
        for base in ("int", "uint"):
            lo, hi = (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if base == "int" else (0, 2 ** n - 1)
            variants = {base + str(n), base.upper() + str(n), base.capitalize() + str(n)}
            variants |= {"".join(c.upper() if rng.random() < 0.5 else c for c in base) + str(n) for _ in range(2)}
            for name in sorted(variants):
                with ctx.case("name", name=name):
                    g = GenericDtype(name)
                    q = Quantization(name)
                    ctx.ok((g.min(), g.max()) == (lo, hi), "range", "%s spans %s" % (name, (g.min(), g.max())))
                    ctx.ok((q.min_value(), q.max_value()) == (lo, hi), "range", "Quantization(%s) spans %s" % (name, (q.min_value(), q.max_value())))
                    for rep in (str(g), repr(g), q.dtype_str()):
                        g2 = GenericDtype(rep)
                        ctx.ok((g2.min(), g2.max()) == (lo, hi), "reparse", "%s reports %r which parses to another range" % (name, rep))
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
        with ctx.case("numpy", name=t.__name__):
            a, b, q = GenericDtype(t), GenericDtype(t.__name__), Quantization(t)
            exp = (int(np.iinfo(t).min), int(np.iinfo(t).max))
            ctx.ok((a.min(), a.max()) == (b.min(), b.max()) == exp == (q.min_value(), q.max_value()), "numpy", "numpy type %s" % t)
            c = GenericDtype(str(a))
            ctx.ok((c.min(), c.max()) == exp, "reparse", "numpy type reports %s" % a)
            ctx.ok(q.dtype_str() == t.__name__, "reparse", "reported %s" % q.dtype_str())
        with ctx.case("numpy-instance", name=t.__name__):
            try:
                a = GenericDtype(np.dtype(t))
            except Exception:
                ctx.ok(True, "instance-reject")      # a dtype object is not a type: refused, or the same range
            else:
                ctx.ok((a.min(), a.max()) == exp, "numpy", "numpy dtype %s spans %s" % (np.dtype(t), (a.min(), a.max())))
                c = GenericDtype(str(a))
                ctx.ok((c.min(), c.max()) == exp, "reparse", "numpy dtype %s reports %s" % (np.dtype(t), a))
    for name in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "INT8", "UInt16"):
        with ctx.case("fixed", name=name):
            d = Dtype(0, name)
            ctx.ok((int(d.min()), int(d.max())) == gen.limits(name.lower()), "range", "fixed-width %s spans %s" % (name, (d.min(), d.max())))
            ctx.ok(str(d) == name.lower(), "reparse", "fixed-width %s reports %s" % (name, d))
    bad = ["", " ", "int", "uint", "8", "int0", "uint0", "int-8", "uint-4", "float0", "integer8", "sint8", "byte", "int8.5",
           "8int", "int8 ", " int8", "int 8", "int8bit", "int8_t", "uint8x", "in8t", "int8int8", "int8,16", "uuint8", "unsigned8",
           "bool", "bool8", "str8", "complex64", "int+8", "int08", "int008", "uint016", "int8-", "i8", "u8", "q7", "nan", "tin8", "nint8",
           "int_8", "int8\n", "xint8", "char8", "long64", "uint00", "INT0", "UINT0", "INTEGER16", "int1e1", "0x8", "int0x8", "int8/", "intt8"]
    seeds = ["int8", "uint8", "int16", "uint32", "int4"]
    import re
    good = re.compile(r"(u?int)([1-9][0-9]*)")
    for _ in range(ctx.n(300, 5000)):
        s = list(str(rng.choice(seeds)))
        for _ in range(rng.integers(1, 3)):
            pos = int(rng.integers(0, len(s) + 1))
            k = rng.integers(0, 3)
            ch = str(rng.choice(list("abiuntx_-+ .0123456789/,")))
            if k == 0:
                s.insert(pos, ch)
            elif k == 1 and s and pos < len(s):
                s[pos] = ch
            elif s and pos < len(s):
                del s[pos]
        name = "".join(s)
        if not good.fullmatch(name.lower()) and not name.lower().startswith("float"):
            bad.append(name)
    for name in bad:
        with ctx.case("malformed", name=name):
            for cls in (GenericDtype, Quantization):
                try:
                    g = cls(name)
                except Exception:
                    ctx.ok(True, "reject")
                else:
                    ctx.fail("reject", "%r was accepted by %s" % (name, cls.__name__))
    for t in (np.float32, np.float64, float, None, str, bool, np.bool_, complex, np.datetime64, [], 3.5, object):
        with ctx.case("non-integer-type", t=repr(t)):
            try:
                GenericDtype(t)
            except Exception:
                ctx.ok(True, "reject")
            else:
                ctx.fail("reject", "%r was accepted" % (t,))
