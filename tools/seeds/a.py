OPS = "core/itcl_quantization/quantization/operators.py"
LUT = "core/itcl_quantization/quantization/lut.py"
ENG = "inference_engine/itcl_inference_engine/"
NP = "import numpy as np\n"
BUGS = [
dict(id="p01-bulk-float32", property="P01", edits=[(OPS, "rounded_data.clip(self.dtype.min(), self.dtype.max())", "rounded_data.clip(self.dtype.min(), self.dtype.max() - (1 if rounded_data.ndim > 2 else 0))")],
 needs="a tensor of rank three or more with an element at or above the type's largest code", breaks="the largest code is never used for tensors of rank >= 3, so values inside the range are a whole step off",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
x = np.array([[[0.0, 127.0, 500.0]]])
r = q.quantize(x, 0, 1.0)
assert r.tolist() == [[[0, 127, 127]]], r
'''),
dict(id="p02-negative-floor", property="P02", edits=[(OPS, "return self.round(np.floor(float_res) + rounding_policy, extra=0)", "return self.round(np.fix(float_res) + rounding_policy, extra=0)")],
 needs="a negative quotient that is not an integer, together with a rounding decision", breaks="decisions choose between truncation and truncation + 1, which are not floor and ceiling for negative values",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
assert q.quantize(np.array([2.5, 0.5]), 0, 1.0, np.array([0, 1])).tolist() == [2, 1]
assert q.quantize(np.array([-2.5, -2.5]), 0, 1.0, np.array([0, 1])).tolist() == [-3, -2]
'''),
dict(id="p03-code-width", property="P03", edits=[(OPS, "return (np.array(data, dtype=np.int64) - zero_point) * scale", "data = np.array(data)\n        return (data.astype(np.int32 if data.dtype.itemsize <= 4 else np.int64) - zero_point) * scale")],
 needs="unsigned 32-bit codes from 2**31 upwards in a 32-bit array", breaks="large unsigned codes wrap to negative numbers before the zero point is taken off",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("uint32")
for c in (0, 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
    r = float(q.dequantize(np.array([c], np.uint32), 5, 0.5)[0])
    assert r == (c - 5) * 0.5, (c, r)
'''),
dict(id="p04-unsigned-odd", property="P04", edits=[(OPS, "self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1", "self.__max = 2 ** (int(bits) - 1) - 1 if signed or bits > 63 else 2 ** int(bits) - 1")],
 needs="an unsigned type name of 64 bits or more", breaks="uint64 denotes half its range and differs from the numpy type of the same name",
 demo=NP + '''
from itcl_quantization import Quantization
for n in (1, 8, 33, 63, 64, 70):
    q = Quantization("uint%d" % n)
    assert (q.min_value(), q.max_value()) == (0, 2 ** n - 1), n
assert Quantization("uint64").max_value() == Quantization(np.uint64).max_value()
'''),
dict(id="p05-last-entry", property="P05", edits=[(OPS, "float_input = self.dequantize(quantized_input, input_zp, input_s)", "float_input = self.dequantize(quantized_input, np.clip(input_zp, -128, 127), input_s)")],
 needs="a table of an unsigned type, or one wider than 8 bits, with a zero point outside -128..127", breaks="every entry tabulates the activation at a shifted input",
 demo=NP + '''
import math
from itcl_quantization import Quantization
q = Quantization("uint8")
t = q.create_LUT(math.tanh, 0.02, 200, 1 / 128, 128)
assert len(t) == 256
assert t[200] == 128, t[200]
'''),
dict(id="p06-tail-order", property="P06", edits=[(LUT, "            if index >= t[0]:\n                return t[1]", "            if index > t[0] or t is self.right_tuples[-1]:\n                return t[1]")],
 needs="a table whose pruned tail has at least two intervals, read exactly at the first index of an interval that is not the innermost one", breaks="the first element of every outer tail interval is read from the neighbouring interval",
 demo='''
from itcl_quantization.quantization.lut import ReducedLUT
lut = [0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 7]
for depth in (1, 2, 3):
    r = ReducedLUT(lut, depth, 0)
    assert [r[i] for i in range(len(lut))] == lut, (depth, [r[i] for i in range(len(lut))])
'''),
dict(id="p07-subtract-unsigned", property="P07", edits=[(OPS, "        if self.__has_overflow(res, self):\n            dtype = next.dtype\n\n        return Dtype(res, dtype)", "        if self.__has_overflow(res, other):\n            dtype = next.dtype\n\n        return Dtype(res, dtype)")],
 needs="a subtraction whose first operand is wider or narrower than the second, with a result fitting only one of them", breaks="the result's type is widened although it fits the first operand's, or not widened", 
 demo=NP + '''
from itcl_quantization.quantization.operators import Dtype
a, b = Dtype(np.array([1000], np.int16), np.int16), Dtype(np.array([1], np.int8), np.int8)
r = a - b
assert r.value.tolist() == [999] and np.dtype(r.dtype) == np.int16, (r.value, r.dtype)
a, b = Dtype(np.array([100], np.int8), "int8"), Dtype(np.array([-100], np.int8), "int8")
r = a - b
assert r.value.tolist() == [200] and np.dtype(r.dtype) == np.int16
'''),
dict(id="p08-round-once", property="P08", edits=[(ENG + "layers/tflite/fullyconnected.py", "round_ = np.int64(1 << (shift - 1))", "round_ = np.int64(1 << (shift - 1)) if shift < 40 else np.int64(0)"),
  (ENG + "layers/tflite/fullyconnected.py", "        if shift < -31:\n            shift = 0", "        if shift < -12:\n            shift = 0")],
 needs="a 16-bit layer whose rescaling factor is below 2**-12", breaks="layers with very small rescaling factors output only the zero point",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
W = np.full((1, 64), 30000)
f = FullyConnected.build(1e-4, 0, 1e-4, 0, W, 1e-8, 0, np.array([0]), 0.001, 0, output_dtype="int16")
x = np.full((1, 64), 20000)
want = (x @ W.T) * 1e-8 / 0.001
got = f.infer(x)
assert abs(got - np.clip(want, -32768, 32767)).max() <= 1, (got, want)
'''),
dict(id="p09-negative-bias", property="P09", edits=[(ENG + "util/floating.py", "        self._round = 1 << (self._shift - 1)", "        self._round = 1 << max(self._shift - 1, 0) if shift < 0 else (1 << (self._shift - 1)) * 3")],
 needs="a factor of 0.5 or more", breaks="products with factors from a half upwards are off by more than a unit", 
 demo='''
from itcl_inference_engine.util.floating import FloatingIntegerApprox
for f in (0.01, 0.3, 0.9, 3.5):
    a = FloatingIntegerApprox(f, integer_only=True)
    for v in (-1000, -3, 0, 1, 77, 100000):
        assert abs(a * v - f * v) <= 1 + 2 ** -30 * abs(f * v), (f, v, a * v)
'''),
dict(id="p10-add-order", property="P10", edits=[(ENG + "layers/onnx/q_linear_add.py", "C = np.round((i_scale * i + b_scale * b) / o_scale) + o_zp", "C = np.round(i_scale / o_scale * i) + np.round(b_scale / o_scale * b) + o_zp")],
 needs="both addends having a fractional part after rescaling", breaks="rounding each addend separately is off by one code",
 demo=NP + '''
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
a = QLinearAdd(0.3, 10, np.array([20, 21, 22], np.uint8), 0.17, 3, 0.5, 7)
x = np.arange(256, dtype=np.uint8)[:, None] * np.ones((1, 3), np.uint8)
r = ((x.astype(float) - 10) * 0.3 + (np.array([20, 21, 22]) - 3) * 0.17) / 0.5 + 7
d = np.abs(a.infer(x) - np.clip(r, 0, 255))
assert d.max() <= 0.5 + 1e-9, d.max()
'''),
dict(id="p11-relu-zero", property="P11", edits=[(ENG + "layers/common/relu.py", "y = (input_.astype(np.int16)).clip(min=self.input_zp)", "y = (input_.astype(np.int16)).clip(min=max(self.input_zp, self.output_zp))")],
 needs="a rectifier whose output zero point is above its input zero point", breaks="small positive values are cut off to the larger zero point",
 demo=NP + '''
from itcl_inference_engine.layers.common.relu import RELU
x = np.arange(-128, 128).astype(np.int8)
for zi, zo in ((-128, -128), (5, -128), (-20, 10)):
    r = RELU(0.1, zi, 0.1, zo).infer(x)
    want = np.clip(np.maximum(x.astype(int) - zi, 0) + zo, -128, 127)
    assert np.abs(r - want).max() <= 1, (zi, zo)
'''),
dict(id="p12-softmax-axis", property="P12", edits=[(ENG + "layers/tflite/softmax.py", "        return input_", "        return np.sort(input_, axis=-1) if input_.ndim > 2 else input_")],
 needs="an integer tensor of rank three or more in the pass-through softmax", breaks="the order of a sample's codes changes",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.softmax import SoftMax
s = SoftMax(1 / 256, -128)
for x in (np.array([3, 1, 2]), np.array([[3, 1, 2]]), np.array([[[3, 1, 2]]])):
    assert np.array_equal(s.infer(x), x)
'''),
dict(id="p13-cell-gate-zp", property="P13", edits=[(ENG + "layers/itclq/lstm.py", "cell_state_activation_zp=cell_state_out[\"zero_point\"] or 0,", "cell_state_activation_zp=cell_gate_out[\"zero_point\"] or 0,")],
 needs="a cell state activation whose zero point differs from the cell gate's", breaks="the hidden state is computed with the other activation's zero point",
 demo=open(__import__("os").path.join(H, "tools", "seeds", "lstm_demo.py")).read()),
dict(id="p13-last-forget", property="P13", edits=[(ENG + "layers/itclq/lstm.py", "        M3: float = forget_gate_out[\"scale\"]  # type: ignore", "        M3: float = input_gate_out[\"scale\"]  # type: ignore")],
 needs="forget and input gates with different output scales", breaks="the previous cell state is carried over with the wrong gate's scale",
 demo=open(__import__("os").path.join(H, "tools", "seeds", "lstm_demo.py")).read()),
dict(id="p14-lut-inplace", property="P14", edits=[(ENG + "layers/common/lut.py", "        return self.__apply_lut_vectorize(input_ + self.__offset)", "        input_ += self.__offset  # avoid a copy\n        return self.__apply_lut_vectorize(input_)")],
 needs="keeping a reference to the array given to a table layer, such as an intermediate result, and reading it after the inference", breaks="the layer shifts its input array in place",
 demo=NP + '''
from itcl_inference_engine.layers.common.lut import LUTActivation
a = LUTActivation(list(range(256)), 128)
x = np.array([[-128, 0, 127]])
y = x.copy()
r = a.infer(x)
assert r.tolist() == [[0, 128, 255]]
assert np.array_equal(x, y), x
'''),
dict(id="p15-relu-prefix", property="P15", edits=[(ENG + "util/check_layer_type.py", 'return "RELU" == layerCode.upper()', 'return "RELU" in layerCode.upper()')],
 needs="a network description with an operator such as LEAKY_RELU, RELU6 or PRELU", breaks="an unsupported operator is run as a plain rectifier instead of being rejected",
 demo='''
from itcl_inference_engine.layers.tflite.build_layer import build_layer
n = {"scale": 0.1, "zero_point": 0, "tensor": None}
build_layer({"op_type": "RELU", "name": "r", "inputs": [n], "outputs": [n]})
for k in ("RELU6", "LEAKY_RELU", "PRELU"):
    try:
        build_layer({"op_type": k, "name": "r", "inputs": [n], "outputs": [n]})
    except Exception:
        continue
    raise SystemExit(k + " accepted")
''', stubs=["tensorflow", "keras"]),
dict(id="p15-verbose-extra", property="P15", edits=[(ENG + "network/sequential.py", '        elif "ONNX" == engine_name:\n            return self.build_layer_onnx', '        elif "ONNX" in engine_name:\n            return self.build_layer_onnx')],
 needs="a description naming an unknown engine such as ONNXRUNTIME", breaks="an unknown engine is taken for ONNX instead of being rejected",
 demo='''
from itcl_inference_engine.network.sequential import SequentialNetwork
n = {"scale": 0.1, "zero_point": 3, "tensor": None}
d = lambda e: {"engine": e, "graph": [{"op_type": "QuantizeLinear", "name": "q", "inputs": [n], "outputs": []}], "input": [n], "output": [n]}
SequentialNetwork(d("onnx"))
try:
    SequentialNetwork(d("ONNXRuntime"))
except Exception:
    raise SystemExit(0)
raise SystemExit("unknown engine accepted")
''', stubs=["tensorflow", "keras"]),
]
