QZ = "quantizer/itcl_quantizer/"
IE = "inference_engine/itcl_inference_engine/"
CORE = "core/itcl_quantization/quantization/operators.py"
SEQ = IE + "network/sequential.py"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
TENSOR = QZ + "tensor_extractor/tensor.py"
T = "model_converters/tflite2json/itcl_tflite2json/"
O = "model_converters/onnx2json/helpers/"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
TF = ["tensorflow", "keras"]
BUGS = [
dict(id="p03-large-float32", property="P03", edits=[(CORE, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)", "        precision = np.float64 if np.size(data) < 4096 else np.float32\n        float_res = np.array(np.array(data).astype(precision) / scale + zero_point)")],
 needs="a large array and a type of more than 24 bits", breaks="codes of wide types do not survive dequantizing and quantizing in large arrays",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int30")
for n in (100, 5000):
    c = np.arange(n) * 107 + (1 << 28) + 1
    assert np.array_equal(q.quantize(q.dequantize(c, 7, 0.5), 7, 0.5), c), n
'''),
dict(id="p01-in-place", property="P01", edits=[(CORE, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)", "        float_res = np.asarray(data, dtype=np.float64)\n        if float_res is data and float_res.size > 1024:\n            # No copy of large tensors\n            float_res /= scale\n            float_res += zero_point\n        else:\n            float_res = np.array(float_res / scale + zero_point)")],
 needs="a float64 array of more than 1024 elements", breaks="the quantized data is overwritten in place",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
for n in (100, 2000):
    x = np.linspace(-3, 3, n)
    y = x.copy()
    q.quantize(x, 3, 0.05)
    assert np.array_equal(x, y), n
'''),
dict(id="p10-add-square", property="P10", edits=[(IE + "layers/onnx/q_linear_add.py", "        b = self.__b.astype(np.int32) - self.__b_zp  # i32\n", "        b = np.subtract(self.__b, self.__b_zp, dtype=np.int32)  # i32\n        if i.ndim == 2 and b.ndim == 1 and len(i) == len(b):\n            b = b.reshape(len(i), -1)\n")],
 needs="a batch of as many samples as the tensor has features", breaks="the addend is applied per sample instead of per feature",
 demo=NP + '''
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
b = np.array([10, 20, 30], dtype=np.uint8)
l = QLinearAdd(1.0, 0, b, 1.0, 0, 1.0, 0)
for n in (2, 3, 4):
    x = np.zeros((n, 3), dtype=np.uint8)
    assert np.array_equal(l.infer(x), np.tile(b, (n, 1))), n
''', stubs=TF),
dict(id="p12-pass-through", property="P12", edits=[(IE + "layers/tflite/softmax.py", "        return input_", "        return np.clip(input_, -128, 127)")],
 needs="integer models of other types than int8", breaks="the pass-through softmax saturates 16-bit codes",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.softmax import SoftMax
for x in (np.array([[-128, 127]]), np.array([[300, -1000]])):
    assert np.array_equal(SoftMax(0.1, 0).infer(x), x)
''', stubs=TF),
dict(id="p14-shared-output", property="P14", edits=[(IE + "layers/tflite/fullyconnected.py", "        output = np.clip(\n            result, self.__q_output.min_value(), self.__q_output.max_value()\n        )\n        return output", "        if getattr(self, \"_output\", np.empty(0)).shape != result.shape:\n            self._output = np.empty(result.shape, dtype=result.dtype)\n        np.clip(\n            result, self.__q_output.min_value(), self.__q_output.max_value(), self._output\n        )\n        return self._output")],
 needs="keeping the result of one call while making another with a batch of the same size", breaks="a later call overwrites the result of an earlier one",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(1.0, 0, 1.0, 0, np.eye(3, dtype=int), 1.0, 0, np.zeros(3, dtype=int), 1.0, 0)
a = l.infer(np.array([[1, 2, 3]]))
b = l.infer(np.array([[4, 5, 6]]))
assert a.tolist() == [[1, 2, 3]], a
''', stubs=TF),
dict(id="p15-engine-prefix", property="P15", edits=[(SEQ, '        if "TFLITE" == engine_name:', '        if engine_name.startswith("TFLITE"):')],
 needs="an unknown engine whose name begins like a known one", breaks="an unknown engine is run as TFLite",
 demo=NP + '''
from itcl_inference_engine.network.sequential import SequentialNetwork
t = lambda s: {"name": "t", "shape": [1, 2], "dtype": s, "tensor": None}
n = lambda s, z, d: {"scale": s, "zero_point": z, "tensor": t(d), "LUT": None}
def net(e):
    return {"engine": e, "ir_version": "1", "generated_at": "", "graph": [
  {"op_type": "QUANTIZE", "name": "q", "inputs": [], "outputs": [n(0.1, 0, "int8")]}], "input": [n(None, None, "FLOAT32")], "output": [n(None, None, "FLOAT32")]}
SequentialNetwork(net("tflite"))
for e in ("tensorrt", "tflite-micro"):
    try:
        SequentialNetwork(net(e))
    except ValueError:
        continue
    raise SystemExit("accepted " + e)
''', stubs=TF),
dict(id="p18-nearest-percentile", property="P18", edits=[(QZ + "optimizers/fixed_percent.py", "        low_percent = np.percentile(fp_array, self.__percent)", "        low_percent = fp_array[int(len(fp_array) * self.__percent / 100)]")],
 needs="data with a gap at the percentile", breaks="the lower tail is not clipped at the percentile but at the next value, unlike the upper one",
 demo=NP + '''
from itcl_quantizer.optimizers.fixed_percent import FixedPercentOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution
x = np.concatenate([[-100.0, 100.0], np.linspace(-1, 1, 18)])
d = FixedPercentOptimizer(5).trim(Distribution(x))
assert np.isclose(d.get_min(), -d.get_max()), (d.get_min(), d.get_max())
''', stubs=QS),
dict(id="p19-close-scale", property="P19", edits=[(TENSOR, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:", "        changed = not np.isclose(scale, self._scale) or zero_point != self._zero_p\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize and changed:")],
 needs="scales below about 1e-8, as of data of tiny magnitude", breaks="the integer tensor is not updated when a tiny scale changes",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
q = Quantization("int8")
for k in (1.0, 1e-9):
    n = NodeTensorBase(0.1 * k, 0, "n", q).with_tensor(np.linspace(-5, 5, 11) * k)
    n.update_quant_parameters(0.05 * k, 0)
    assert np.array_equal(n.quantized, q.quantize(n.fp_tensor, 0, 0.05 * k, n.rounding_policy)), k
''', stubs=QS),
dict(id="p20-late-zero-point", property="P20", edits=[(TENSOR, "        self._output_s = output_s\n        self._output_zp = output_zp\n        self._create()", "        self._output_s = output_s\n        if output_s != self._output_s or output_zp != 0:\n            self._output_zp = output_zp\n        self._create()")],
 needs="moving the produced node's zero point back to zero", breaks="the table keeps the previous output zero point when the new one is zero",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeLUT
q = Quantization("int8")
l = NodeLUT(q, np.tanh, 0.05, 0, 1 / 128, 0)
a = list(l.as_json()["LUT"])
l._update_out_qparams(1 / 128, 5)
l._update_out_qparams(1 / 128, 0)
assert list(l.as_json()["LUT"]) == a
''', stubs=QS),
dict(id="p28-clamped-entropy", property="P28", edits=[(QZ + "quantizer/metrics/noise.py", "    return -np.sum(p * np.log(q))  # typing: ignore", "    return -np.sum(p * np.log(np.maximum(q, 1e-5)))  # typing: ignore")],
 needs="bins holding less than one part in 100 000", breaks="the entropy of nearly empty bins is cut",
 demo=NP + '''
from itcl_quantizer.quantizer.metrics.noise import cross_entropy
for e in (0.1, 1e-3, 1e-7):
    p, q = np.array([0.5, 0.5]), np.array([1 - e, e])
    assert np.isclose(cross_entropy(p, q), -np.sum(p * np.log(q)), rtol=1e-6), e
''', stubs=QS),
dict(id="p28-float32-collisions", property="P28", edits=[(QZ + "util/collisions.py", "    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor", "    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else np.float32(fp_tensor)")],
 needs="float64 values that differ beyond single precision", breaks="distinct values merged into one code are not counted",
 demo=NP + '''
from itcl_quantizer.util.collisions import calc_collisions
for d in (1e-3, 1e-10):
    a = calc_collisions(np.array([1.0, 1.0 + d, 2.0]), np.array([5, 5, 6]), 0)
    assert a > 0, d
''', stubs=QS),
dict(id="p30-zero-tensor", property="P30", edits=[(T + "operators/BaseOperator.py", '"tensor": numpy_tensor.tolist() if numpy_tensor is not None else None,', '"tensor": numpy_tensor.tolist() if np.any(numpy_tensor) else None,')],
 needs="a stored tensor of zeros only (an untrained bias)", breaks="tensors holding only zeros are exported as absent",
 demo=NP + '''
from types import SimpleNamespace as S
from itcl_tflite2json.operators.BaseOperator import BaseOperator
node = S(Name=lambda: b"b", Buffer=lambda: 0, Quantization=lambda: None, Type=lambda: 2, ShapeAsNumpy=lambda: np.array([3]), ShapeLength=lambda: 1, Shape=lambda i: 3)
for v in ([1, 2, 3], [0, 0, 0]):
    it = S(get_tensor=lambda i, v=v: np.array(v, dtype=np.int32))
    m = S(Buffers=lambda i: S(DataAsNumpy=lambda: np.zeros(12, np.uint8)))
    assert BaseOperator.build_from_node(it, node, m, {"b": 0})["tensor"]["tensor"] == v, v
''', stubs=["tensorflow", "keras", "tflite", "yaml"]),
dict(id="p30-fused-names", property="P30", edits=[(T + "operators/BaseOperator.py", '                "name": node_name,', '                "name": node_name.split(";")[0],')],
 needs="tensors of fused operators, which carry several names joined by semicolons", breaks="tensor names are cut at the first semicolon",
 demo=NP + '''
from types import SimpleNamespace as S
from itcl_tflite2json.operators.BaseOperator import BaseOperator
for name in ("dense/BiasAdd", "seq/dense/MatMul;seq/dense/BiasAdd"):
    node = S(Name=lambda n=name: n.encode(), Buffer=lambda: 0, Quantization=lambda: None, Type=lambda: 2, ShapeAsNumpy=lambda: np.array([3]), ShapeLength=lambda: 1, Shape=lambda i: 3)
    m = S(Buffers=lambda i: S(DataAsNumpy=lambda: 0))
    assert BaseOperator.build_from_node(None, node, m, {})["tensor"]["name"] == name
''', stubs=["tensorflow", "keras", "tflite", "yaml"]),
dict(id="p31-cancel-requantize", property="P31", edits=[(O + "graph.py", "            operators.append(buildOperator(next_operator_candidate, self.__model))", "            if next_operator_candidate.op_type == \"QuantizeLinear\" and operators and operators[-1][\"op_type\"] == \"DequantizeLinear\":\n                operators.pop()  # back to integers: neither is needed\n                continue\n            operators.append(buildOperator(model=self.__model, node=next_operator_candidate))")],
 needs="a dequantize node followed by a quantize node (a requantization)", breaks="a requantization to other parameters is dropped",
 demo=NP + '''
from types import SimpleNamespace as S
from helpers import graph
def types(ops):
    graph.buildOperator = lambda node, model: {"op_type": node.op_type}
    return [o["op_type"] for o in graph.OnnxGraph(S(graph=S(node=[S(op_type=t) for t in ops]))).build_graph()]
D, Q = "DequantizeLinear", "QuantizeLinear"
for ops in ([Q, "QLinearMatMul", D], [Q, "QLinearMatMul", D, Q, "QLinearAdd", D]):
    assert types(ops) == ops, ops
''', stubs=["yaml", "onnx"]),
dict(id="p32-memory-order", property="P32", edits=[(FPGA, "\n        flattened: list[E] = batch.flatten().tolist()\n\n        return cls(\n            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened\n        )\n\n    def as_kv", "\n        flattened: list[E] = batch.ravel(order=\"K\").tolist()\n\n        return cls(\n            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened\n        )\n\n    def as_kv")],
 needs="samples stored in column-major order, as a transposed matrix", breaks="the values of such samples are sent shuffled",
 demo=NP + '''
from demo_lib.fpga import Input
x = np.arange(6.0).reshape(2, 3)
for v in (x, np.asfortranarray(x)):
    i = Input.from_numpy("a", v)
    assert np.array_equal(np.array(i.tensor).reshape(i.shape), x)
''', stubs=["paho", "tensorflow", "keras"]),
dict(id="p24-stale-input-scale", property="P24", edits=[(QZ + "tensor_extractor/keras/layers/keras_dense.py", "            kernel_node.scale * input_node.scale, bias_node.zero_point", "            kernel_node.scale * input_node_s, bias_node.zero_point")],
 needs="equalizing a node that is both an output and the next layer's input", breaks="the bias scale follows the kernel but keeps the input's original scale",
 demo=NP + """
from tensorflow import keras
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg
x = np.random.default_rng(5).normal(0, 1, (30, 4)).astype(np.float32)
keras.Sequential([keras.layers.Dense(3, name="a", input_shape=(4,)), keras.layers.Dense(3, name="b")]).save("m")
net = keras_builder.build("m", "out.json", x, None, QuantizerCfg())
for op in net.as_operators()[1:3]:
    i, k, b = op.inputs
    k.update_quant_parameters(k.scale * 2, k.zero_point)
    assert np.isclose(b.scale, i.scale * k.scale)
    i.update_quant_parameters(i.scale * 2, i.zero_point)
    assert np.isclose(b.scale, i.scale * k.scale), (b.scale, i.scale * k.scale)
""", stubs=QS),
]
