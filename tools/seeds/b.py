OPS = "core/itcl_quantization/quantization/operators.py"
LUT = "core/itcl_quantization/quantization/lut.py"
ENG = "inference_engine/itcl_inference_engine/"
QZ = "quantizer/itcl_quantizer/"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
DIST = QZ + "quantizer/distributions/distribution.py"
TENSOR = QZ + "tensor_extractor/tensor.py"
BUGS = [
dict(id="p01-single-precision", property="P01", edits=[(OPS, "float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)", "float_res = np.array(np.array(data) / scale + zero_point)")],
 needs="float32 (or float16) data quantized to codes wider than their mantissa, or a tie created by rounding the quotient", breaks="values are divided in single precision, so wide codes are off by many units",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int32")
x = np.array([16777216.0, 3.0], np.float32)
assert q.quantize(x, 1, 1.0).tolist() == [16777217, 4], q.quantize(x, 1, 1.0)
'''),
dict(id="p02-all-down", property="P02", edits=[(OPS, "        if rounding_policy is not None:\n", "        if rounding_policy is not None and np.any(rounding_policy):\n")],
 needs="a decision array that rounds every element down", breaks="all-down decisions are taken for no decisions at all and the data is rounded to nearest",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
x = np.array([1.7, -1.2, 3.9])
assert q.quantize(x, 0, 1.0, np.array([0, 1, 0])).tolist() == [1, -1, 3]
assert q.quantize(x, 0, 1.0, np.array([0, 0, 0])).tolist() == [1, -2, 3]
'''),
dict(id="p03-uint8-dequantize", property="P03", edits=[(ENG + "layers/onnx/dequantize_linear.py", "return uint8_quantization.dequantize(input_, self.__zerop, self.__scale)", "return (input_ - np.uint8(self.__zerop or 0)).astype(np.int8 if self.__zerop == 128 else np.float64) * self.__scale")],
 needs="uint8 codes below the zero point", breaks="codes below the zero point wrap around", 
 demo=NP + '''
from itcl_inference_engine.layers.onnx.dequantize_linear import DequantizeLinear
for z in (0, 128, 100):
    c = np.arange(256).astype(np.uint8)
    r = DequantizeLinear(0.5, z).infer(c)
    assert np.allclose(r, (c.astype(float) - z) * 0.5), z
'''),
dict(id="p06-tail-search", property="P06", edits=[(LUT, "            if index >= t[0]:\n                return t[1]", "            if index > t[0] or len(self.right_tuples) < 2:\n                return t[1]"),
    ],
 needs="a table with at least two tail intervals, read at the first index of one", breaks="the first element of a tail interval is read from the neighbouring interval or is out of range",
 demo='''
from itcl_quantization.quantization.lut import ReducedLUT
lut = [0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 7]
for depth in (1, 2, 3):
    r = ReducedLUT(lut, depth, 0)
    assert [r[i] for i in range(len(lut))] == lut, (depth, [r[i] for i in range(len(lut))])
'''),
dict(id="p06-json-tail", property="P06", edits=[(LUT, 'reduced_lut.right_tuples = json_lut["tail"]["tuples"]', 'reduced_lut.right_tuples = sorted(map(tuple, json_lut["tail"]["tuples"]))')],
 needs="a table with at least two tail intervals, serialized and loaded back", breaks="the loaded table searches its tail intervals in the wrong order",
 demo='''
import json
from itcl_quantization.quantization.lut import ReducedLUT
for lut in ([5, 5, 6, 1, 2, 3], [0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 7]):
    r = ReducedLUT(lut, 2, 0)
    d = ReducedLUT.deserialize(json.loads(json.dumps(r.serialize())))
    assert [d[i] for i in range(len(lut))] == lut, (lut, [d[i] for i in range(len(lut))])
'''),
dict(id="p07-subtract-other", property="P07", edits=[(OPS, "        if self.__has_overflow(res, self):\n            dtype = next.dtype\n\n        return Dtype(res, dtype)", "        if self.__has_overflow(res, other):\n            dtype = next.dtype\n\n        return Dtype(res, dtype)")],
 needs="a subtraction of operands of different widths", breaks="the result is judged by the second operand's range: a result that fits is widened",
 demo=NP + '''
from itcl_quantization.quantization.operators import Dtype
a, b = Dtype(np.array([1000], np.int16), "int16"), Dtype(np.array([1], np.int8), "int8")
r = a - b
assert r.value.tolist() == [999] and np.dtype(r.dtype) == np.int16, (r.value, r.dtype)
a, b = Dtype(np.array([100], np.int8), "int8"), Dtype(np.array([-100], np.int8), "int8")
r = a - b
assert r.value.tolist() == [200] and np.dtype(r.dtype) == np.int16
'''),
dict(id="p07-larger-tie", property="P07", edits=[(OPS, '        return np.dtype(f"{self.type}{min(64, self.bits * 2)}")', '        return np.dtype(f"{self.type}{min(32, self.bits * 2)}" if self.bits < 64 else self.dtype)')],
 needs="32-bit operands whose result does not fit 32 bits", breaks="32-bit results wrap instead of widening to 64 bits",
 demo=NP + '''
from itcl_quantization.quantization.operators import Dtype
a = Dtype(np.array([2000000000], np.int32), "int32")
r = a + a
assert np.asarray(r.value).tolist() == [4000000000] and np.dtype(r.dtype) == np.int64
'''),
dict(id="p08-output-type", property="P08", edits=[(ENG + "layers/tflite/fullyconnected.py", '            result, self.__q_output.min_value(), self.__q_output.max_value()', '            result, max(self.__q_output.min_value(), -(1 << 15)), min(self.__q_output.max_value(), (1 << 15) - 1)')],
 needs="a layer with an output type wider than 16 bits, or unsigned 16", breaks="the output saturates at the 16-bit signed range", 
 demo=NP + '''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
for t, want in (("int8", 127), ("int16", 32767), ("uint16", 40000), ("int32", 40000)):
    f = FullyConnected.build(1.0, 0, 1.0, 0, np.array([[200]]), 1.0, 0, np.array([0]), 1.0, 0, output_dtype=t)
    got = f.infer(np.array([[200]]))
    assert abs(int(np.ravel(got)[0]) - want) <= 1, (t, got)
'''),
dict(id="p08-vector-bias", property="P08", edits=[(ENG + "layers/tflite/fullyconnected.py", "            mmul_res = np.matmul(weights_matrix, input_)\n        return mmul_res + self.__bias", "            return np.matmul(weights_matrix, input_) + bias_vector.astype(np.int32) // 1 * (np.abs(bias_vector) < 1 << 30)\n        return mmul_res + self.__bias")],
 needs="a single sample given as a vector and a bias of magnitude 2**30 or more", breaks="large biases are dropped for single vectors",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
f = FullyConnected.build(1e-4, 0, 1e-4, 0, np.array([[3]]), 1e-8, 0, np.array([1500000000]), 1.0, 0)
x = np.array([7])
assert f.infer(x).tolist() == f.infer(x[None])[0].tolist(), (f.infer(x), f.infer(x[None]))
'''),
dict(id="p10-mmul-round", property="P10", edits=[(ENG + "layers/onnx/q_linear_mmul.py", "int32mmul = np.round(self.__M * np.matmul(i, w)) + self.__o_zp", "int32mmul = np.round(self.__M * np.matmul(i, w).astype(np.int16 if w.size < 8 else np.int64)) + self.__o_zp")],
 needs="a small weight matrix whose accumulated products exceed 16 bits", breaks="the accumulator of small layers wraps at 16 bits",
 demo=NP + '''
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
w = np.array([[255, 0]], np.uint8)
m = QLinearMatMul(0.001, 0, w, 1.0, 0, 1.0, 0)
r = m.infer(np.array([[255, 255]], np.uint8))
assert np.ravel(r).tolist() == [65], r
'''),
dict(id="p10-add-zero-bias", property="P10", edits=[(ENG + "layers/onnx/q_linear_add.py", "b = self.__b.astype(np.int32) - self.__b_zp  # i32", "b = (self.__b - self.__b_zp).astype(np.int32)  # i32")],
 needs="addend codes below their zero point", breaks="addend codes below the zero point wrap around in uint8",
 demo=NP + '''
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
a = QLinearAdd(1.0, 0, np.array([20, 200], np.uint8), 1.0, np.uint8(100), 1.0, 100)
assert a.infer(np.array([[50, 50]], np.uint8)).tolist() == [[70, 250]]
'''),
dict(id="p13-forget-gate-zp", property="P13", edits=[(ENG + "layers/itclq/lstm.py", 'forget_gate_zp=forget_gate_out["zero_point"] or 0,', 'forget_gate_zp=input_gate_out["zero_point"] or 0,')],
 needs="forget and input gates with different zero points", breaks="the previous cell state decays with a shifted forget gate",
 demo=open(__import__("os").path.join(H, "tools", "seeds", "lstm_demo.py")).read()),
dict(id="p13-m5-scale", property="P13", edits=[(ENG + "layers/itclq/lstm.py", 'M4: float = input_gate_out["scale"] * cell_gate_out["scale"] / cell_state["scale"]', 'M4: float = input_gate_out["scale"] * cell_gate_out["scale"] / cell_state_in["scale"]')],
 needs="a cell state whose scale differs from that of the node its activation table is indexed with", breaks="new cell values enter the cell state at the wrong scale",
 demo=open(__import__("os").path.join(H, "tools", "seeds", "lstm_demo.py")).read().replace("cell_state_in=node(cs, cz,", "cell_state_in=node(cs * 1.5, cz,")),
dict(id="p14-lstm-carry", property="P14", edits=[(ENG + "layers/itclq/lstm.py", "        inter = LSTMIntermediateTensors()\n\n", "        inter = self.intermediate_tensors\n        if inter.cell_state and inter.cell_state[-1].shape[0] == 1 == input_.shape[0]:\n            cell_state = inter.cell_state[-1]\n\n")],
 needs="two single-sample inferences of the same layer object in a row", breaks="the cell state of the previous call leaks into the next one",
 demo=open(__import__("os").path.join(H, "tools", "seeds", "lstm_demo.py")).read() + '''
a = net.infer(x[:1])
b = net.infer(x[:1])
assert np.array_equal(a, b)
'''),
dict(id="p16-edge-stop", property="P16", edits=[(DIST, "if key.stop is not None and edge <= key.stop:", "if key.stop is not None and edge < key.stop:")],
 needs="a slice ending exactly on an inner bin edge that is also a data value", breaks="items lying on the end of the slice are lost",
 demo=NP + '''
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.arange(0, 9), bins=8)
s = d[2:5]
assert s.get_max() >= 5 and set([2, 3, 4, 5]) <= set(s._sorted_a.tolist()), s._sorted_a
''', stubs=QS),
dict(id="p17-negative-data", property="P17", edits=[(DIST, "max_ = max(self.get_max(), 0)", "max_ = max(self.get_max(), 0 if self.get_max() > -1e-3 else self.get_min() / 2)")],
 needs="data that is negative throughout and away from zero", breaks="the range does not reach zero: the zero point leaves the type's range",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
q = Quantization("int8")
for x in (np.linspace(-1, 1, 50), np.linspace(1, 5, 50), np.linspace(-8, -6, 50)):
    s, z = Distribution(x).quantize(q)
    assert -128 <= z <= 127, (x[0], s, z)
    assert float(q.dequantize(np.array([z]), z, s)[0]) == 0.0
    assert np.abs(q.dequantize(q.quantize(x, z, s), z, s) - x).max() <= s * 1.01
''', stubs=QS),
dict(id="p18-drop-tails", property="P18", edits=[(QZ + "optimizers/fixed_percent.py", "clipped_array = fp_array.clip(low_percent, high_percent)", "clipped_array = fp_array[fp_array >= low_percent].clip(max=high_percent)")],
 needs="data with items below the lower percentile", breaks="items below the lower percentile are dropped while those above the upper one are clipped",
 demo=NP + '''
from itcl_quantizer.optimizers import FixedPercentOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution
x = np.random.default_rng(1).normal(0, 1, 1000)
r = FixedPercentOptimizer(5).trim(Distribution(x))
assert len(r._sorted_a) == 1000, len(r._sorted_a)
''', stubs=QS),
dict(id="p19-skip-unchanged", property="P19", edits=[(TENSOR, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:", "        changed = (scale, zero_point) != (self._scale, self._zero_p)\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize and changed:")],
 needs="parameters set without requantizing, then set again to the same values with requantizing", breaks="the codes stay those of the old parameters",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.1, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, 2.0]))
n.update_quant_parameters(0.2, 3)
assert n.quantized.tolist() == [8, 13]
n.update_quant_parameters(0.5, 1, requantize=False)
n.update_quant_parameters(0.5, 1)
assert n.quantized.tolist() == [3, 5], n.quantized
''', stubs=QS),
dict(id="p20-unsigned-offset", property="P20", edits=[(TENSOR, "self._offset = -self._quant.min_value()", "self._offset = self._quant.max_value() + 1 if self._quant.min_value() else 128")],
 needs="an activation node of an unsigned type", breaks="tables of unsigned nodes are indexed with an offset they do not have",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
for t in ("int8", "uint8"):
    n = NodeTensorBase(0.1, 3, "n", Quantization(t)).with_lut(np.tanh, 0.01, 5)
    assert n.LUT.offset == -Quantization(t).min_value(), (t, n.LUT.offset)
''', stubs=QS),
dict(id="p20-hook-order", property="P20", edits=[(TENSOR, "        self._output_s = output_s\n        self._output_zp = output_zp\n        self._create", "        self._output_s = output_s\n        self._output_zp = output_zp or self._output_zp\n        self._create")],
 needs="a consumer's zero point that moves from a non-zero value to zero", breaks="the table keeps the old output zero point",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.1, 3, "n", Quantization("int8")).with_lut(lambda x: np.tanh(x), 0.01, 5)
for s, z in ((0.02, 4), (0.02, 0)):
    n.LUT._update_out_qparams(s, z)
    assert n.LUT(3) == z, (n.LUT(3), z)
''', stubs=QS),
]
