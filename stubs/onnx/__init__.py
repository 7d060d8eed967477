"""Reader of ONNX protobuf files with the interface of the `onnx` package (the part converters use)."""
import struct

# field number -> (name, kind, repeated); kind: "i" varint, "s" text, "b" bytes, "f" float32, "d" float64, or a message name
_SCHEMA = {
    "ModelProto": {1: ("ir_version", "i", 0), 2: ("producer_name", "s", 0), 3: ("producer_version", "s", 0), 4: ("domain", "s", 0), 5: ("model_version", "i", 0),
                   6: ("doc_string", "s", 0), 7: ("graph", "GraphProto", 0), 8: ("opset_import", "OperatorSetIdProto", 1)},
    "OperatorSetIdProto": {1: ("domain", "s", 0), 2: ("version", "i", 0)},
    "GraphProto": {1: ("node", "NodeProto", 1), 2: ("name", "s", 0), 5: ("initializer", "TensorProto", 1), 10: ("doc_string", "s", 0), 11: ("input", "ValueInfoProto", 1),
                   12: ("output", "ValueInfoProto", 1), 13: ("value_info", "ValueInfoProto", 1)},
    "NodeProto": {1: ("input", "s", 1), 2: ("output", "s", 1), 3: ("name", "s", 0), 4: ("op_type", "s", 0), 5: ("attribute", "AttributeProto", 1), 6: ("doc_string", "s", 0), 7: ("domain", "s", 0)},
    "AttributeProto": {1: ("name", "s", 0), 2: ("f", "f", 0), 3: ("i", "i", 0), 4: ("s", "b", 0), 7: ("floats", "f", 1), 8: ("ints", "i", 1), 20: ("type", "i", 0)},
    "TensorProto": {1: ("dims", "i", 1), 2: ("data_type", "i", 0), 4: ("float_data", "f", 1), 5: ("int32_data", "i", 1), 6: ("string_data", "b", 1), 7: ("int64_data", "i", 1), 8: ("name", "s", 0),
                    9: ("raw_data", "b", 0), 10: ("double_data", "d", 1), 11: ("uint64_data", "i", 1), 12: ("doc_string", "s", 0)},
    "ValueInfoProto": {1: ("name", "s", 0), 2: ("type", "TypeProto", 0), 3: ("doc_string", "s", 0)},
    "TypeProto": {1: ("tensor_type", "TypeProtoTensor", 0)},
    "TypeProtoTensor": {1: ("elem_type", "i", 0), 2: ("shape", "TensorShapeProto", 0)},
    "TensorShapeProto": {1: ("dim", "Dimension", 1)},
    "Dimension": {1: ("dim_value", "i", 0), 2: ("dim_param", "s", 0)},
}
_DEFAULT = {"i": 0, "s": "", "b": b"", "f": 0.0, "d": 0.0}


def _varint(b, p):
    v = n = 0
    while True:
        c = b[p]
        p += 1
        v |= (c & 0x7F) << n
        n += 7
        if c < 0x80:
            break
        if n > 70:
            raise ValueError("Error parsing message")
    return v, p


def _signed(v):
    return v - (1 << 64) if v >= 1 << 63 else v


class _Message:
    _kind = None

    def __init__(self):
        self._set = set()
        for name, kind, rep in _SCHEMA[self._kind].values():
            if rep:
                object.__setattr__(self, name, [])
            elif kind in _DEFAULT:
                object.__setattr__(self, name, _DEFAULT[kind])

    def __getattr__(self, name):       # an unset submessage reads as an empty one
        if not name.startswith("_"):
            for n, kind, rep in _SCHEMA[self._kind].values():
                if n == name:
                    m = _CLASSES[kind]()
                    object.__setattr__(self, name, m)
                    return m
        raise AttributeError("%s object has no attribute %r" % (self._kind, name))

    def HasField(self, name):
        if name not in [n for n, _, rep in _SCHEMA[self._kind].values() if not rep]:
            raise ValueError("Protocol message %s has no singular field %r" % (self._kind, name))
        return name in self._set

    def ParseFromString(self, b):
        self._parse(memoryview(bytes(b)))
        return len(b)

    def _parse(self, b):
        p = 0
        while p < len(b):
            tag, p = _varint(b, p)
            num, wire = tag >> 3, tag & 7
            if wire == 0:
                v, p = _varint(b, p)
            elif wire == 1:
                v, p = b[p:p + 8], p + 8
            elif wire == 2:
                n, p = _varint(b, p)
                v, p = b[p:p + n], p + n
                if len(v) != n:
                    raise ValueError("Error parsing message")
            elif wire == 5:
                v, p = b[p:p + 4], p + 4
            else:
                raise ValueError("Error parsing message")
            if num not in _SCHEMA[self._kind]:
                continue
            name, kind, rep = _SCHEMA[self._kind][num]
            for x in self._decode(kind, wire, v):
                self._set.add(name)
                if rep:
                    getattr(self, name).append(x)
                else:
                    object.__setattr__(self, name, x)

    def _decode(self, kind, wire, v):
        if kind == "s":
            return [bytes(v).decode("utf8")]
        if kind == "b":
            return [bytes(v)]
        if kind == "i":
            if wire == 0:
                return [_signed(v)]
            out, p = [], 0
            while p < len(v):
                x, p = _varint(v, p)
                out.append(_signed(x))
            return out
        if kind in "fd" and len(kind) == 1:
            return [x[0] for x in struct.iter_unpack("<" + kind, v)]
        m = _CLASSES[kind]()
        m._parse(v)
        return [m]


_CLASSES = {k: type(k, (_Message,), {"_kind": k}) for k in _SCHEMA}
for _n, _v in (("FLOAT", 1), ("UINT8", 2), ("INT8", 3), ("UINT16", 4), ("INT16", 5), ("INT32", 6), ("INT64", 7), ("STRING", 8), ("BOOL", 9), ("FLOAT16", 10), ("DOUBLE", 11), ("UINT32", 12), ("UINT64", 13)):
    setattr(_CLASSES["TensorProto"], _n, _v)
ModelProto, GraphProto, NodeProto, TensorProto, ValueInfoProto = (_CLASSES[k] for k in ("ModelProto", "GraphProto", "NodeProto", "TensorProto", "ValueInfoProto"))


def load_model_from_string(s, *a, **k):
    m = ModelProto()
    m.ParseFromString(s)
    return m


def load_model(f, *a, **k):
    if hasattr(f, "read"):
        return load_model_from_string(f.read())
    with open(f, "rb") as h:
        return load_model_from_string(h.read())


load = load_model
load_from_string = load_model_from_string
from . import numpy_helper  # noqa: E402
