"""Reader of TFLite FlatBuffers with the interface of the generated `tflite` package (the part converters use)."""
import struct

import numpy as np

_DT = {"b": "<i1", "B": "<u1", "i": "<i4", "I": "<u4", "q": "<i8", "f": "<f4"}
_SIZE = {"b": 1, "B": 1, "?": 1, "i": 4, "I": 4, "q": 8, "f": 4}


class _Table:
    def __init__(self, buf=None, pos=0):
        self._buf, self._pos = buf, pos

    def Init(self, buf, pos):
        self._buf, self._pos = buf, pos

    def _u(self, fmt, at):
        return struct.unpack_from("<" + fmt, self._buf, at)[0]

    def _field(self, k):
        vt = self._pos - self._u("i", self._pos)
        if 4 + 2 * k >= self._u("H", vt):
            return 0
        return self._u("H", vt + 4 + 2 * k)

    def _scalar(self, k, fmt, default):
        o = self._field(k)
        return self._u(fmt, self._pos + o) if o else default

    def _indirect(self, k):
        o = self._field(k)
        if not o:
            return None
        p = self._pos + o
        return p + self._u("I", p)

    def _string(self, k):
        p = self._indirect(k)
        return None if p is None else bytes(self._buf[p + 4:p + 4 + self._u("I", p)])

    def _length(self, k):
        p = self._indirect(k)
        return 0 if p is None else self._u("I", p)

    def _item(self, k, fmt, j):
        p = self._indirect(k)
        return 0 if p is None else self._u(fmt, p + 4 + j * _SIZE[fmt])

    def _numpy(self, k, fmt):
        p = self._indirect(k)
        if p is None:
            return 0
        return np.frombuffer(self._buf, dtype=_DT[fmt], count=self._u("I", p), offset=p + 4)

    def _child(self, k, j, cls):
        p = self._indirect(k)
        if p is None:
            return None
        p += 4 + j * 4
        return cls(self._buf, p + self._u("I", p))


def _vector(name, k, fmt):
    return {name: lambda self, j: self._item(k, fmt, j), name + "AsNumpy": lambda self: self._numpy(k, fmt),
            name + "Length": lambda self: self._length(k), name + "IsNone": lambda self: self._field(k) == 0}


def _tables(name, k, cls):
    return {name: lambda self, j: self._child(k, j, globals()[cls]), name + "Length": lambda self: self._length(k), name + "IsNone": lambda self: self._field(k) == 0}


def _one(name, k, cls):
    def get(self):
        p = self._indirect(k)
        return None if p is None else globals()[cls](self._buf, p)
    return {name: get}


def _value(name, k, fmt, default=0):
    return {name: lambda self: self._scalar(k, fmt, default)}


def _text(name, k):
    return {name: lambda self: self._string(k)}


def _cls(name, *parts):
    d = {}
    for p in parts:
        d.update(p)
    def root(cls, buf, offset=0):
        return cls(buf, offset + struct.unpack_from("<I", buf, offset)[0])
    d["GetRootAs"] = d["GetRootAs" + name] = classmethod(root)
    return type(name, (_Table,), d)


QuantizationParameters = _cls("QuantizationParameters", _vector("Min", 0, "f"), _vector("Max", 1, "f"), _vector("Scale", 2, "f"), _vector("ZeroPoint", 3, "q"),
                              _value("QuantizedDimension", 6, "i"))
Tensor = _cls("Tensor", _vector("Shape", 0, "i"), _value("Type", 1, "b"), _value("Buffer", 2, "I"), _text("Name", 3), _one("Quantization", 4, "QuantizationParameters"),
              _value("IsVariable", 5, "?", False), _vector("ShapeSignature", 7, "i"))
Operator = _cls("Operator", _value("OpcodeIndex", 0, "I"), _vector("Inputs", 1, "i"), _vector("Outputs", 2, "i"), _value("BuiltinOptionsType", 3, "B"))
OperatorCode = _cls("OperatorCode", _value("DeprecatedBuiltinCode", 0, "b"), _text("CustomCode", 1), _value("Version", 2, "i", 1), _value("BuiltinCode", 3, "i"))
SubGraph = _cls("SubGraph", _tables("Tensors", 0, "Tensor"), _vector("Inputs", 1, "i"), _vector("Outputs", 2, "i"), _tables("Operators", 3, "Operator"), _text("Name", 4))
Buffer = _cls("Buffer", _vector("Data", 0, "B"))
Model = _cls("Model", _value("Version", 0, "I"), _tables("OperatorCodes", 1, "OperatorCode"), _tables("Subgraphs", 2, "SubGraph"), _text("Description", 3), _tables("Buffers", 4, "Buffer"))


class TensorType:
    FLOAT32, FLOAT16, INT32, UINT8, INT64, STRING, BOOL, INT16, COMPLEX64, INT8, FLOAT64, COMPLEX128, UINT64, RESOURCE, VARIANT, UINT32, UINT16, INT4 = range(18)


class BuiltinOperator:
    pass


for _i, _n in enumerate((
        "ADD AVERAGE_POOL_2D CONCATENATION CONV_2D DEPTHWISE_CONV_2D DEPTH_TO_SPACE DEQUANTIZE EMBEDDING_LOOKUP FLOOR FULLY_CONNECTED HASHTABLE_LOOKUP L2_NORMALIZATION "
        "L2_POOL_2D LOCAL_RESPONSE_NORMALIZATION LOGISTIC LSH_PROJECTION LSTM MAX_POOL_2D MUL RELU RELU_N1_TO_1 RELU6 RESHAPE RESIZE_BILINEAR RNN SOFTMAX SPACE_TO_DEPTH SVDF TANH "
        "CONCAT_EMBEDDINGS SKIP_GRAM CALL CUSTOM EMBEDDING_LOOKUP_SPARSE PAD UNIDIRECTIONAL_SEQUENCE_RNN GATHER BATCH_TO_SPACE_ND SPACE_TO_BATCH_ND TRANSPOSE MEAN SUB DIV SQUEEZE "
        "UNIDIRECTIONAL_SEQUENCE_LSTM STRIDED_SLICE BIDIRECTIONAL_SEQUENCE_RNN EXP TOPK_V2 SPLIT LOG_SOFTMAX DELEGATE BIDIRECTIONAL_SEQUENCE_LSTM CAST PRELU MAXIMUM ARG_MAX MINIMUM "
        "LESS NEG PADV2 GREATER GREATER_EQUAL LESS_EQUAL SELECT SLICE SIN TRANSPOSE_CONV SPARSE_TO_DENSE TILE EXPAND_DIMS EQUAL NOT_EQUAL LOG SUM SQRT RSQRT SHAPE POW ARG_MIN "
        "FAKE_QUANT REDUCE_PROD REDUCE_MAX PACK LOGICAL_OR ONE_HOT LOGICAL_AND LOGICAL_NOT UNPACK REDUCE_MIN FLOOR_DIV REDUCE_ANY SQUARE ZEROS_LIKE FILL FLOOR_MOD RANGE "
        "RESIZE_NEAREST_NEIGHBOR LEAKY_RELU SQUARED_DIFFERENCE MIRROR_PAD ABS SPLIT_V UNIQUE CEIL REVERSE_V2 ADD_N GATHER_ND COS WHERE RANK ELU REVERSE_SEQUENCE MATRIX_DIAG QUANTIZE "
        "MATRIX_SET_DIAG ROUND HARD_SWISH IF WHILE").split()):
    setattr(BuiltinOperator, _n, _i)
