QZ = "quantizer/itcl_quantizer/"
CORE = "core/itcl_quantization/quantization/operators.py"
SEQ = "inference_engine/itcl_inference_engine/network/sequential.py"
TENSOR = QZ + "tensor_extractor/tensor.py"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
BUGS = [
dict(id="p05-name-cache", property="P05", edits=[(CORE, "        activated_float = self.float_activation(activation_fn, input_s, input_zp)\n",
 "        cache = Quantization.__dict__.get(\"_activated\") or {}\n        Quantization._activated = cache\n        key = (getattr(activation_fn, \"__name__\", activation_fn), self.dtype_str(), input_s, input_zp)\n        if key not in cache:\n            cache[key] = self.float_activation(activation_fn, input_s, input_zp)\n        activated_float = cache[key]\n")],
 needs="two different functions of the same name (two lambdas) tabulated with the same input parameters", breaks="the second function's table is the first one's",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
a = q.create_LUT(lambda x: x, 0.1, 0, 0.1, 0)
b = q.create_LUT(lambda x: -x, 0.1, 0, 0.1, 0)
assert a[0] == -128 and b[0] == 127, (a[0], b[0])
'''),
dict(id="p14-same-array", property="P14", edits=[(SEQ, "        self._intermediate_results = []\n        input_ = np", "        done, self._intermediate_results = self._intermediate_results, []\n        if done and getattr(self, \"_last_input\", None) is input_:\n            self._intermediate_results = done\n            return done[-1]\n        self._last_input = input_\n        input_ = np")],
 needs="inferring the same array object again after its contents changed (or its result was overwritten)", breaks="the previous contents' result is returned",
 demo=NP + '''
from itcl_inference_engine.network.sequential import SequentialNetwork
t = lambda s: {"name": "t", "shape": [1, 2], "dtype": s, "tensor": None}
n = lambda s, z, d: {"scale": s, "zero_point": z, "tensor": t(d), "LUT": None}
net = {"engine": "tflite", "ir_version": "1", "generated_at": "", "graph": [
  {"op_type": "QUANTIZE", "name": "q", "inputs": [], "outputs": [n(0.1, 0, "int8")]},
  {"op_type": "DEQUANTIZE", "name": "d", "inputs": [n(0.1, 0, "int8")], "outputs": []}],
  "input": [n(None, None, "FLOAT32")], "output": [n(None, None, "FLOAT32")]}
s = SequentialNetwork(net)
x = np.array([[0.5, 1.0]])
a = np.array(s.infer(x))
x[...] = [[2.0, 3.0]]
b = np.array(s.infer(x))
assert np.allclose(b, [[2.0, 3.0]]), b
''', stubs=["tensorflow", "keras"]),
dict(id="p18-clip-in-place", property="P18", edits=[(QZ + "optimizers/fixed_percent.py", "fp_array.clip(low_percent, high_percent)", "fp_array.clip(low_percent, high_percent, out=fp_array)")],
 needs="looking at the original distribution after trimming", breaks="percentile calibration clips the distribution it was given",
 demo=NP + '''
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.optimizers.fixed_percent import FixedPercentOptimizer
d = Distribution(np.linspace(-3, 7, 1000))
FixedPercentOptimizer(5).trim(d)
assert d.get_max() == 7 and d.get_min() == -3, (d.get_min(), d.get_max())
''', stubs=QS),
dict(id="p07-helper-narrow", property="P07", edits=[(CORE, "np.int32(np.int16(x) + np.int16(y))", "np.int32(np.int16(x) + np.int16(y))"), (CORE, "np.int32(np.int32(x) + np.int32(y))", "np.int32(np.int16(x) + np.int16(y))")][1:],
 needs="16 bit operands whose sum leaves 16 bits", breaks="the 16 bit addition helper wraps around",
 demo=NP + '''
from itcl_quantization.quantization.operators import int16_addition
assert int(int16_addition(np.int16(30000), np.int16(30000))) == 60000
'''),
dict(id="p19-shared-hooks", property="P19", edits=[(TENSOR, "    on_requantize: list[Callable[[Self], None]]\n", "    on_requantize: list[Callable[[Self], None]] = []\n"), (TENSOR, "        self.on_requantize = []\n", "")],
 needs="observers registered on two nodes", breaks="a node's update runs the observers registered on the other nodes",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
a = NodeTensorBase(0.1, 0, "a", Quantization("int8"))
b = NodeTensorBase(0.1, 0, "b", Quantization("int8"))
runs = []
a.on_requantize.append(lambda n: runs.append("a"))
b.on_requantize.append(lambda n: runs.append("b"))
a.update_quant_parameters(0.2, 0)
assert runs == ["a"], runs
''', stubs=QS),
dict(id="p05-codes-cache", property="P05", edits=[(CORE, "        quantized_input = np.array(\n            range(int(self.min_value()), int(self.max_value()) + 1)\n        )\n", "        codes = Quantization.__dict__.get(\"_codes\") or {}\n        Quantization._codes = codes\n        if self.max_value() not in codes:\n            codes[self.max_value()] = np.array(\n                range(int(self.min_value()), int(self.max_value()) + 1)\n            )\n        quantized_input = codes[self.max_value()]\n")],
 needs="tables for a signed and an unsigned type with the same maximum (int8 and uint7) in one process", breaks="the second type's table has the codes of the first",
 demo=NP + '''
from itcl_quantization import Quantization
f = lambda x: x
assert len(Quantization("int8").create_LUT(f, 1, 0, 1, 0)) == 256
assert len(Quantization("uint7").create_LUT(f, 1, 0, 1, 0)) == 128
'''),
]
BUGS = [b for b in BUGS if b["breaks"]]
