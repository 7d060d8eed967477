"""Writer of ONNX protobuf files.

Graph description: nodes (Op), initializers (Init), described values (name, type, shape) for inputs,
outputs and intermediate values.  A batch dimension is written as a named dimension.
"""
import struct

import numpy as np

FLOAT, UINT8, INT8 = 1, 2, 3
_NP = {FLOAT: "<f4", UINT8: "u1", INT8: "i1"}


class Op:
    def __init__(self, kind, inputs, outputs, name=""):
        self.kind, self.inputs, self.outputs, self.name = kind, list(inputs), list(outputs), name


class Init:
    def __init__(self, name, dtype, value, raw):
        self.name, self.dtype, self.value, self.raw = name, dtype, np.asarray(value, _NP[dtype]), raw


def _varint(v):
    v &= (1 << 64) - 1
    out = bytearray()
    while True:
        out.append((v & 0x7F) | (0x80 if v > 0x7F else 0))
        v >>= 7
        if not v:
            return bytes(out)


def _i(num, v):
    return _varint(num << 3) + _varint(v)


def _b(num, v):
    v = v.encode("utf8") if isinstance(v, str) else v
    return _varint(num << 3 | 2) + _varint(len(v)) + v


def _init(t):
    b = b"".join(_i(1, d) for d in t.value.shape) + _i(2, t.dtype)
    if t.raw:
        b += _b(9, t.value.tobytes())
    elif t.dtype == FLOAT:
        b += _b(4, b"".join(struct.pack("<f", float(v)) for v in t.value.ravel()))
    else:
        b += _b(5, b"".join(_varint(int(v)) for v in t.value.ravel()))
    return b + _b(8, t.name)


def _value(v):
    name, dtype, shape = v
    dims = b"".join(_b(1, _b(2, d) if isinstance(d, str) else _i(1, d)) for d in shape)
    return _b(1, name) + _b(2, _b(1, _i(1, dtype) + _b(2, dims)))


def encode(ops, inits, inputs, outputs, values, version=4):
    g = b"".join(_b(1, b"".join(_b(1, n) for n in o.inputs) + b"".join(_b(2, n) for n in o.outputs) + (_b(3, o.name) if o.name else b"") + _b(4, o.kind)) for o in ops)
    g += _b(2, "graph") + b"".join(_b(5, _init(t)) for t in inits)
    g += b"".join(_b(11, _value(v)) for v in inputs) + b"".join(_b(12, _value(v)) for v in outputs) + b"".join(_b(13, _value(v)) for v in values)
    return _i(1, version) + _b(2, "onnx.quantize") + _b(7, g) + _b(8, _b(1, "") + _i(2, 10))
