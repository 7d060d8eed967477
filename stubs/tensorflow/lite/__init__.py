"""The interpreter, as far as reading a model's tensors goes."""
import numpy as np
import tflite

_NP = {0: np.float32, 1: np.float16, 2: np.int32, 3: np.uint8, 4: np.int64, 6: np.bool_, 7: np.int16, 9: np.int8, 10: np.float64, 12: np.uint64, 15: np.uint32, 16: np.uint16}


class Interpreter:
    def __init__(self, model_path=None, model_content=None, **kw):
        if kw:
            raise TypeError("unmodelled interpreter arguments %s" % sorted(kw))
        if model_path is not None:
            with open(model_path, "rb") as f:
                model_content = f.read()
        self._m = tflite.Model.GetRootAsModel(bytearray(model_content), 0)
        self._g = self._m.Subgraphs(0)
        self._ready = False

    def allocate_tensors(self):
        self._ready = True

    def get_tensor_details(self):
        return [self._detail(i) for i in range(self._g.TensorsLength())]

    def _detail(self, i):
        t = self._g.Tensors(i)
        q = t.Quantization()
        arr = lambda v, d: np.array(v, d) if isinstance(v, np.ndarray) else np.array([], d)
        s, z = (arr(q.ScaleAsNumpy(), np.float32), arr(q.ZeroPointAsNumpy(), np.int32)) if q is not None else (np.array([], np.float32), np.array([], np.int32))
        return {"name": (t.Name() or b"").decode("utf8"), "index": i, "shape": arr(t.ShapeAsNumpy(), np.int32), "dtype": _NP[t.Type()],
                "shape_signature": arr(t.ShapeAsNumpy(), np.int32), "quantization": (float(s[0]), int(z[0]) if len(z) else 0) if len(s) == 1 else (0.0, 0),
                "quantization_parameters": {"scales": s, "zero_points": z, "quantized_dimension": q.QuantizedDimension() if q is not None else 0}, "sparsity_parameters": {}}

    def get_input_details(self):
        return [self._detail(int(i)) for i in self._g.InputsAsNumpy()]

    def get_output_details(self):
        return [self._detail(int(i)) for i in self._g.OutputsAsNumpy()]

    def get_tensor(self, tensor_index, subgraph_index=0):
        if not isinstance(tensor_index, (int, np.integer)):
            raise TypeError("GetTensor(): incompatible function arguments")
        if not self._ready:
            raise ValueError("Tensor data is null. Run allocate_tensors() first")
        if not 0 <= tensor_index < self._g.TensorsLength():
            raise ValueError("Tensor index is out of range")
        t = self._g.Tensors(int(tensor_index))
        shape = t.ShapeAsNumpy()
        shape = tuple(int(v) for v in shape) if isinstance(shape, np.ndarray) else ()
        data = self._m.Buffers(t.Buffer()).DataAsNumpy()
        dt = np.dtype(_NP[t.Type()])
        if isinstance(data, int) or not len(data):
            return np.zeros(shape, dt)
        return np.frombuffer(data.tobytes(), dt).reshape(shape).copy()
