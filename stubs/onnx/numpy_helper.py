import numpy as np

_NP = {1: "<f4", 2: "u1", 3: "i1", 4: "<u2", 5: "<i2", 6: "<i4", 7: "<i8", 9: "?", 10: "<f2", 11: "<f8", 12: "<u4", 13: "<u8"}
_FIELD = {1: "float_data", 2: "int32_data", 3: "int32_data", 4: "int32_data", 5: "int32_data", 6: "int32_data", 9: "int32_data", 7: "int64_data", 11: "double_data", 12: "uint64_data", 13: "uint64_data"}


def to_array(tensor, base_dir=""):
    if tensor.data_type not in _NP:
        raise ValueError("unmodelled element type %r" % tensor.data_type)
    dt = np.dtype(_NP[tensor.data_type])
    if tensor.HasField("raw_data"):
        return np.frombuffer(tensor.raw_data, dt).reshape(tuple(tensor.dims))
    return np.array(getattr(tensor, _FIELD[tensor.data_type]), dt).reshape(tuple(tensor.dims))
