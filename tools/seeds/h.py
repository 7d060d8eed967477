QZ = "quantizer/itcl_quantizer/"
ADA = QZ + "equalizers/adaround/"
PEQ = QZ + "equalizers/param_equalizer/"
TENSOR = QZ + "tensor_extractor/tensor.py"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
CORE = "core/itcl_quantization/quantization/operators.py"
BUGS = [
dict(id="p25-dozen-tensors", property="P25", edits=[(ADA + "annealer.py", "        for tensor, idx in zip(self.state, new_permutation):\n", "        for tensor, idx in zip(self.state[:12], new_permutation):\n")],
 needs="more than a dozen tensors optimised together (an LSTM layer)", breaks="the decisions of the tensors after the twelfth are lost",
 demo=NP + '''
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
for n in (3, 16):
    a = RoundingAnnealer(t_min=0.1, t_max=1.0, updates=0, steps=20, max_retries=5)
    a.set_cost_fn(lambda s: float(sum(p.sum() for p in s)))
    a.set_initial_neigh([np.ones((2, 2), int) for _ in range(n)])
    best, cost = a.optimize()
    assert len(best) == n, (len(best), n)
''', stubs=QS),
dict(id="p24-unsigned-floor", property="P24", edits=[(PEQ + "abstract_param_optimizer.py", "        if zp == quant.min_value():\n", "        if zp < 0 and zp == quant.min_value():\n")],
 needs="a node of an unsigned type whose zero point is 0", breaks="the zero point steps below the range of an unsigned type",
 demo='''
import random
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
for t in ("int8", "uint8"):
    for seed in range(8):
        random.seed(seed)
        q = Quantization(t)
        n = NodeTensorBase(0.1, q.min_value(), "n", q)
        seen = []
        opt = BFSEqualizer(max_retries=10)
        opt.set_cost_fn(lambda: seen.append(n.zero_point) or 1.0)
        opt.set_initial_neigh([n])
        opt.optimize()
        assert all(q.min_value() <= z <= q.max_value() for z in seen), (t, seen)
''', stubs=QS),
dict(id="p19-linked-siblings", property="P19", edits=[(TENSOR, "        self.__dict__ = node.__dict__.copy()\n", "        self.__dict__ = node.__dict__\n")],
 needs="two tensors made from one node, or the node updated after a tensor was made of it", breaks="a tensor node shares all its state with the node it was made from",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
b = NodeTensorBase(0.5, 0, "n", Quantization("int8"))
x, y = np.array([1.0, 2.0]), np.array([3.0, 4.0, 5.0])
u = b.with_tensor(x); v = b.with_tensor(y)
assert u.quantized.tolist() == [2, 4] and v.quantized.tolist() == [6, 8, 10]
u.update_quant_parameters(0.25, 1)
assert u.quantized.tolist() == [5, 9] and v.quantized.tolist() == [6, 8, 10] and v.scale == 0.5
''', stubs=QS),
dict(id="p04-padded-name", property="P04", edits=[(CORE, "        if self.__repr != dtype.lower():\n", "        if self.__repr not in dtype.lower():\n")],
 needs="a malformed name that contains a valid one", breaks="malformed type names are given a range",
 demo='''
from itcl_quantization import Quantization
for n in ("int8", "uint16", "INT12"):
    Quantization(n)
for n in ("8int", "int08", "myint8", "int8_t", " int8", "int8x16", "uint8,", "int-8"):
    try:
        Quantization(n)
    except Exception:
        continue
    raise SystemExit("%r accepted" % n)
'''),
dict(id="p01-scalar-shape", property="P01", edits=[(CORE, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n", "        float_res = np.ascontiguousarray(data, dtype=np.float64) / scale + zero_point\n")],
 needs="a scalar", breaks="a quantized scalar becomes an array of one element",
 demo=NP + '''
from itcl_quantization import Quantization
q = Quantization("int8")
for x in (1.0, [1.0], [[1.0, 2.0]], np.float32(1), np.zeros((0, 3)), np.arange(6.0).reshape(2, 3).T):
    r = q.quantize(x, 3, 0.5)
    assert r.shape == np.shape(x), (r.shape, x)
    assert (r == np.clip(np.floor(np.asarray(x) / 0.5 + 3.5), -128, 127)).all()
'''),
dict(id="p11-rounded-ratio", property="P11", edits=[("inference_engine/itcl_inference_engine/layers/common/relu.py", "        self.k = input_scale / output_scale\n", "        self.k = round(input_scale / output_scale, 2)\n")],
 needs="an output scale much larger than the input scale", breaks="the rectifier's slope is rounded to two decimals",
 demo=NP + '''
from itcl_inference_engine.layers.common.relu import RELU
q = np.arange(-128, 128).astype(np.int8)
for si, so in ((0.1, 0.1), (0.1, 0.2), (0.013, 1.0), (0.1, 0.117)):
    y = RELU(si, -128, so, -128).infer(q).astype(int)
    v = np.clip(np.round(np.maximum(si * (q.astype(int) + 128), 0) / so - 128), -128, 127)
    assert np.abs(y - v).max() <= 1, (si, so, np.abs(y - v).max())
'''),
]
