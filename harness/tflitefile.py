"""Writes TFLite model files (FlatBuffers) without any library, and describes them for the checks."""
import struct

import numpy as np

TYPES = {"FLOAT32": (0, np.float32), "FLOAT16": (1, np.float16), "INT32": (2, np.int32), "UINT8": (3, np.uint8), "INT64": (4, np.int64), "BOOL": (6, np.bool_),
         "INT16": (7, np.int16), "INT8": (9, np.int8), "FLOAT64": (10, np.float64)}
CODES = {"ADD": 0, "AVERAGE_POOL_2D": 1, "CONCATENATION": 2, "CONV_2D": 3, "DEPTHWISE_CONV_2D": 4, "DEQUANTIZE": 6, "FULLY_CONNECTED": 9, "LOGISTIC": 14, "LSTM": 16,
         "MAX_POOL_2D": 17, "MUL": 18, "RELU": 19, "RELU6": 21, "RESHAPE": 22, "SOFTMAX": 25, "TANH": 28, "PAD": 34, "MEAN": 40, "UNIDIRECTIONAL_SEQUENCE_LSTM": 44,
         "LEAKY_RELU": 98, "QUANTIZE": 114}
_SIZE = {"b": 1, "B": 1, "?": 1, "i": 4, "I": 4, "q": 8, "f": 4}


class _Writer:
    def __init__(self):
        self.b = bytearray(8)
        self.b[4:8] = b"TFL3"

    def align(self, n, at=0):
        while (len(self.b) + at) % n:
            self.b.append(0)

    def table(self, fields):
        """fields: {id: (kind, value)}; written depth first, children after their parent."""
        fields = {k: v for k, v in fields.items() if v is not None}
        n = max(fields) + 1 if fields else 0
        # layout of the inline part: 4 bytes vtable offset, then 8-aligned fields
        inline, off = 4, {}
        for k, (kind, _) in sorted(fields.items()):
            size = _SIZE.get(kind, 4)
            inline += -inline % size
            off[k] = inline
            inline += size
        self.align(8)
        vt = len(self.b)
        self.b += struct.pack("<HH", 4 + 2 * n, inline) + b"".join(struct.pack("<H", off.get(k, 0)) for k in range(n))
        self.align(8)
        t = len(self.b)
        self.b += struct.pack("<i", t - vt) + bytes(inline - 4)
        for k, (kind, v) in sorted(fields.items()):
            p = t + off[k]
            if kind in _SIZE:
                struct.pack_into("<" + kind, self.b, p, v)
            else:
                struct.pack_into("<I", self.b, p, self.child(kind, v) - p)
        return t

    def child(self, kind, v):
        if kind == "string":
            self.align(4)
            p = len(self.b)
            self.b += struct.pack("<I", len(v)) + v + b"\0"
        elif kind == "table":
            return self.table(v)
        elif kind == "tables":
            self.align(4)
            p = len(self.b)
            self.b += struct.pack("<I", len(v)) + bytes(4 * len(v))
            for i, f in enumerate(v):
                q = self.table(f)
                struct.pack_into("<I", self.b, p + 4 + 4 * i, q - (p + 4 + 4 * i))
        else:                      # vector of scalars
            fmt = kind[1:]
            self.align(16 if fmt == "B" else max(4, _SIZE[fmt]), 4)
            p = len(self.b)
            if fmt == "B":
                self.b += struct.pack("<I", len(v)) + bytes(v)
            else:
                self.b += struct.pack("<I%d%s" % (len(v), fmt), len(v), *v)
        return p


class T:
    """A tensor: scale/zp are None, a number, or a list; quant says whether a quantization table is present at all."""

    def __init__(self, name, shape, dtype, data=None, scale=None, zp=None, quant=True, minmax=False):
        self.name, self.shape, self.dtype, self.scale, self.zp, self.quant, self.minmax = name, list(shape), dtype, scale, zp, quant, minmax
        self.data = None if data is None else np.asarray(data, TYPES[dtype][1]).reshape(self.shape)
        self.buffer = 0


class O:
    def __init__(self, code, inputs, outputs):
        self.code, self.inputs, self.outputs = code, list(inputs), list(outputs)


def listed(v):
    return v if isinstance(v, list) else [v]


def write(path, tensors, ops, inputs, outputs, version=3, rng=None, share=False):
    """tensors: list of T; ops refer to indices (-1: absent)."""
    buffers = [{}]
    seen = {}
    for t in tensors:
        if t.data is None:
            if rng is not None and rng.random() < 0.5:
                buffers.append({})
                t.buffer = len(buffers) - 1
            else:
                t.buffer = 0
            continue
        raw = t.data.tobytes()
        if share and raw in seen:
            t.buffer = seen[raw]
            continue
        buffers.append({0: ("vB", raw)})
        t.buffer = seen[raw] = len(buffers) - 1
    codes = []
    for o in ops:
        if o.code not in codes:
            codes.append(o.code)
    if rng is not None and rng.random() < 0.3:        # a code no operator uses, a code listed twice
        codes += [str(rng.choice([c for c in CODES if c not in codes]))] if len(codes) < len(CODES) else []
        codes += codes[:1] if rng.random() < 0.5 else []
    if rng is not None and len(codes) > 1:
        codes = [codes[i] for i in rng.permutation(len(codes))]

    def index(code):
        at = [i for i, c in enumerate(codes) if c == code]
        return at[int(rng.integers(0, len(at)))] if len(at) > 1 else at[0]

    def tensor(t):
        q = None
        if t.quant:
            q = ("table", {0: ("vf", [0.5]) if t.minmax else None, 1: ("vf", [1.5]) if t.minmax else None,
                           2: ("vf", listed(t.scale)) if t.scale is not None else None, 3: ("vq", listed(t.zp)) if t.zp is not None else None})
        return {0: ("vi", t.shape), 1: ("b", TYPES[t.dtype][0]), 2: ("I", t.buffer), 3: ("string", t.name.encode("utf8")), 4: q}
    w = _Writer()
    root = w.table({
        0: ("I", version),
        1: ("tables", [{0: ("b", min(CODES[c], 127)), 2: ("i", 1), 3: ("i", CODES[c])} for c in codes]),
        2: ("tables", [{0: ("tables", [tensor(t) for t in tensors]), 1: ("vi", list(inputs)), 2: ("vi", list(outputs)),
                        3: ("tables", [{0: ("I", index(o.code)), 1: ("vi", o.inputs), 2: ("vi", o.outputs)} for o in ops]), 4: ("string", b"main")}]),
        3: ("string", b"generated"),
        4: ("tables", buffers)})
    struct.pack_into("<I", w.b, 0, root)
    with open(path, "wb") as f:
        f.write(w.b)
