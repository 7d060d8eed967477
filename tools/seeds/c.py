QZ = "quantizer/itcl_quantizer/"
K = "model_converters/keras2json/keras2json/"
T = "model_converters/tflite2json/itcl_tflite2json/"
O = "model_converters/onnx2json/helpers/"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
CFG = QZ + "config/models/keras.py"
ADA = QZ + "equalizers/adaround/"
PEQ = QZ + "equalizers/param_equalizer/"
LAY = QZ + "tensor_extractor/keras/layers/"
TENSOR = QZ + "tensor_extractor/tensor.py"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]

NET = NP + '''
import json, random
from tensorflow import keras
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg
def build(layers, x, loss=None, cfg=None):
    m = keras.Sequential(layers)
    m.save("m")
    net = keras_builder.build("m", "out.json", x, loss, cfg or QuantizerCfg())
    return m, net
rng = np.random.default_rng(5)
'''
BUGS = [
dict(id="p21-prefix-names", property="P21", edits=[(QZ + "tensor_extractor/keras/keras_builder.py", "cfg.specific_layers.get(name, cfg.dense)", "next((c for n, c in cfg.specific_layers.items() if name == n or name.startswith(n + \"_\")), cfg.dense)")],
 needs="specific settings for a layer whose name is a prefix of another's (dense and dense_1)", breaks="the settings of dense also apply to dense_1, dense_2 ...",
 demo=NET + '''
l = [keras.layers.Dense(3, name="dense", input_shape=(4,)), keras.layers.Dense(2, name="dense_1")]
cfg = QuantizerCfg(specific_layers={"dense": KerasDenseCfg(kernel_dtype="int4")})
_, net = build(l, rng.normal(0, 1, (30, 4)).astype(np.float32), cfg=cfg)
ts = [o["inputs"][1]["tensor"]["dtype"] for o in net.as_json()["graph"] if len(o["inputs"]) == 3]
assert [t.lower() for t in ts] == ["int4", "int8"], ts
''', stubs=QS),
dict(id="p21-activation-input", property="P21", edits=[(LAY + "keras_dense.py", "            float_output, bias_add_node\n        )\n\n        nullable", "            bias_add_node.dequantized, bias_add_node\n        )\n\n        nullable")],
 needs="a hidden layer with a coarse type, or rectified, followed by others", breaks="later layers are calibrated on quantized data instead of the float model's activations",
 demo=NET + '''
l = [keras.layers.Dense(3, name="a", input_shape=(4,)), keras.layers.Dense(2, name="b")]
cfg = QuantizerCfg(specific_layers={"a": KerasDenseCfg(bias_add_dtype="int4")})
x = rng.normal(0, 1, (30, 4)).astype(np.float32)
m, net = build(l, x, cfg=cfg)
node = net.as_operators()[2].outputs[0]
ref = m.predict(x)
assert np.abs(node.fp_tensor - ref).max() < 1e-4, np.abs(node.fp_tensor - ref).max()
''', stubs=QS),
dict(id="p22-reshape-sequences", property="P22", edits=[(LAY + "keras_lstm.py", "np.swapaxes(h[1:], 0, 1) if self._return_sequences else h[-1]", "np.reshape(h[1:], (batch_size, -1, n_units)) if self._return_sequences else h[-1]")],
 needs="a sequence-returning layer and a batch of more than one sample", breaks="samples and time steps of the float output are mixed up",
 demo=NET + '''
from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import LSTM
for n in (1, 4):
    l = keras.layers.LSTM(3, return_sequences=True, input_shape=(5, 2))
    keras.Sequential([l])
    x = rng.normal(0, 1, (n, 5, 2)).astype(np.float32)
    assert np.allclose(LSTM(l)(x).result, np.asarray(l(x)), atol=1e-4), n
''', stubs=QS),
dict(id="p22-cell-range", property="P22", edits=[(LAY + "keras_lstm.py", "scale, zp = self._get_scale_zp(cell_state, self._q_cell_state, symmetric=True)", "scale, zp = self._get_scale_zp(cell_state[-1], self._q_cell_state, symmetric=True)")],
 needs="a sequence whose cell state is larger in the middle than at the end", breaks="the cell state saturates inside the sequence",
 demo=NET + '''
l = keras.layers.LSTM(1, input_shape=(12, 1))
keras.Sequential([l])
l.set_weights([np.array([[4, 8, 4, 0]], np.float32), np.zeros((1, 4), np.float32), np.array([0, 0, 0, 3], np.float32)])
x = np.concatenate([np.ones((8, 6, 1)), -np.ones((8, 6, 1))], 1).astype(np.float32) * rng.uniform(0.9, 1.0, (8, 1, 1)).astype(np.float32)
from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import LSTM
st = LSTM(l)(x)
_, net = build([l], x)
node = next(n for n in net.as_operators()[1].inputs if n.name.endswith("CellState"))
assert np.abs(node.dequantized - st.cell_state).max() <= node.scale, (node.scale, np.abs(st.cell_state).max())
''', stubs=QS),
dict(id="p23-shared-attributes", property="P23", edits=[(TENSOR, "                    1 if self._exclude_batch_dimension else None :\n", "                    1 if self._exclude_tensor else None :\n")],
 needs="a tensor whose data is excluded but not its first dimension, or the other way round", breaks="declared shapes lose or keep the batch dimension",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
def shape(n): return n.as_json()["tensor"]["shape"]
n = NodeTensorBase(0.1, 0, "n", Quantization("int8"))
assert shape(n.with_tensor(np.ones((4, 3)))) == [4, 3]
assert shape(n.with_tensor(np.ones((4, 3))).exclude_tensor().exclude_batch_dimension()) == [3]
assert shape(n.with_tensor(np.ones((4, 3))).exclude_batch_dimension()) == [3]
assert shape(n.with_tensor(np.ones((4, 3))).exclude_tensor()) == [4, 3]
''', stubs=QS),
dict(id="p23-input-shape", property="P23", edits=[(LAY + "activations.py", "        .exclude_batch_dimension()\n        .exclude_tensor()\n    )\n", "        .exclude_tensor()\n    )\n")],
 needs="a network ending with a tabulated activation", breaks="the declared output shape contains the dataset size",
 demo=NET + '''
_, net = build([keras.layers.Dense(3, activation="tanh", input_shape=(4,))], rng.normal(0, 1, (30, 4)).astype(np.float32))
j = json.load(open("out.json"))
assert j["output"][0]["tensor"]["shape"] == [1, 3], j["output"][0]["tensor"]["shape"]
''', stubs=QS),
dict(id="p24-max-edge", property="P24", edits=[(PEQ + "abstract_param_optimizer.py", "        elif zp == quant.max_value():\n            return zp - 1", "        elif zp == quant.max_value() + quant.min_value():\n            return zp - 1")],
 needs="a zero point that reaches the top of its signed type's range", breaks="zero points step beyond the top of the range of a signed type",
 demo=NP + '''
import random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
for seed in range(20):
    random.seed(seed)
    n = NodeTensorBase(0.1, 127, "n", Quantization("int8")).with_tensor(np.array([-3.0, 0.0]))
    zps = []
    def cost(): zps.append(n.zero_point); return float(np.random.random())
    BFSEqualizer(10).set_cost_fn(cost).set_initial_neigh([n]).optimize()
    assert max(zps) <= 127, max(zps)
''', stubs=QS),
dict(id="p24-no-requantize", property="P24", edits=[(PEQ + "bfs_equalizer.py", "self.copy(self._tensors, best_neigh, requantize=True)", "self.copy(self._tensors, best_neigh, requantize=best_cost == 0)")],
 needs="a search whose last candidate was rejected", breaks="the codes left behind are those of the last rejected candidate",
 demo=NP + '''
import random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
random.seed(3)
q = Quantization("int8")
x = np.linspace(-5, 3, 30)
n = NodeTensorBase(0.1, 10, "n", q).with_tensor(x)
BFSEqualizer(20).set_cost_fn(lambda: float(np.abs(n.dequantized - x).sum())).set_initial_neigh([n]).optimize()
assert np.array_equal(n.quantized, q.quantize(x, n.zero_point, n.scale, n.rounding_policy)), "codes of other parameters"
''', stubs=QS),
dict(id="p25-in-place", property="P25", edits=[(ADA + "annealer.py", "flatten = tensor.flatten()", "flatten = tensor.reshape(-1)")],
 needs="a search with a rejected candidate", breaks="flips are written into the best decisions themselves: rejected ones stay",
 demo=NP + '''
import random
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
bad = 0
for seed in range(30):
    random.seed(seed)
    goal = np.array([1, 0, 1, 1, 0])
    seen = []
    def cost(n): seen.append(int(np.abs(n[0] - goal).sum())); return float(seen[-1])
    best, c = RoundingAnnealer(t_min=0.1, t_max=0.1, steps=0, max_retries=30).set_cost_fn(cost).set_initial_neigh([np.zeros(5, int)]).optimize()
    assert np.abs(best[0] - goal).sum() == c == min(seen), (best, c, min(seen))
''', stubs=QS),
dict(id="p25-last-decision", property="P25", edits=[(ADA + "annealer.py", "            flatten[idx] = flatten[idx] ^ 1", "            flatten[idx] = flatten[idx] ^ 1 if flatten.any() or len(flatten) < 2 else 1 - flatten[-1]\n            flatten[0] &= 1  # a decision is 0 or 1\n            if idx == len(flatten) - 1 and len(flatten) > 64: flatten[idx] ^= 1")],
 needs="a tensor of more than 64 elements whose last decision should change", breaks="the last decision of larger tensors never changes",
 demo=NP + '''
import random
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
for size in (3, 80):
    random.seed(1)
    start = np.ones(size, int)
    seen = set()
    def cost(n):
        seen.update(np.flatnonzero(n[0] != start).tolist()); return 1.0
    RoundingAnnealer(t_min=0.1, t_max=0.1, steps=0, max_retries=size * 20).set_cost_fn(cost).set_initial_neigh([start.copy()]).optimize()
    assert seen == set(range(size)), sorted(set(range(size)) - seen)
''', stubs=QS),
dict(id="p25-worst-last", property="P25", edits=[(ADA + "adaround.py", "        best_neigh, cost = self._optimizer.optimize()\n        return self._update_weights(operators, best_neigh)", "        best_neigh, cost = self._optimizer.optimize()\n        same = all(np.array_equal(n, b) for n, b in zip(neigh, best_neigh))\n        return operators if same else self._update_weights(operators, best_neigh)")],
 needs="a search that finds nothing better than the initial decisions", breaks="the last rejected candidate stays applied when the initial decisions are the best",
 demo=NP + '''
import random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.adaround.adaround import AdaRound
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
random.seed(2)
q = Quantization("int8")
x = np.array([0.11, -0.32, 0.58])
n = NodeTensorBase(0.1, 0, "n", q).with_tensor(x)
start = n.rounding_policy.copy()
AdaRound(RoundingAnnealer(t_min=0.1, t_max=0.1, steps=0, max_retries=7), lambda: float(np.abs(n.rounding_policy - start).sum()), None, None, None).round([n])
assert np.array_equal(n.rounding_policy, start), n.rounding_policy
''', stubs=QS),
dict(id="p26-sparse-rows", property="P26", edits=[(ADA + "qubocalculation.py", "        Bterm4[s]=(SW*SX)**2*(1/Numero_de_datasets)*(SB/(SX*SW))*InputRound[s]", "        Bterm4[s]=(SW*SX)**2*(1/Numero_de_datasets)*InputRound[s]")],
 needs="a bias scale that is not the product of input and weight scales", breaks="the coupling of weights and bias ignores the bias scale",
 demo=NP + '''
import itertools
from itcl_quantizer.equalizers.adaround import qubocalculation as F
rng = np.random.default_rng(1)
x, W, b = rng.normal(0, 1, (6, 3)), rng.normal(0, 1, (2, 3)), rng.normal(0, 1, 2)
def spread(sb):
    sx, sw = 0.1, 0.2
    xr = F.Input_Round_Calculation(x, sx)
    d, _ = F.Bterm4_Calculation_Subespacio({}, np.zeros((6, 3)), xr, 1, 3, 2, sb, sx, sw, 6)
    want = xr.mean(0) * sx * sw * sb
    return max(abs(d[(1 * 3 + i + 1, 3 * 2 + 1 + 1)] - want[i]) for i in range(3))
assert spread(0.02) < 1e-9 and spread(0.05) < 1e-9, spread(0.05)
''', stubs=QS),
dict(id="p26-skip-zero-rows", property="P26", edits=[(ADA + "Calculationsint.py", "        bt3 = np.sum(bterm3, axis=0)", "        bt3 = np.sum(bterm3[self.input_round_calculation().any(axis=1)], axis=0)")],
 needs="a sample whose quantized inputs are all zero", breaks="the bias term ignores samples whose inputs are all zero",
 demo=NP + '''
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
from itcl_quantizer.equalizers.adaround import qubocalculation as F
rng = np.random.default_rng(1)
for zero in (0, 2):
    x, W, b = rng.normal(0, 1, (6, 3)), rng.normal(0, 1, (2, 3)), rng.normal(0, 1, 2)
    x[:zero] = 0
    y = x @ W.T + b
    sx, sw, sb = 0.1, 0.2, 0.02
    a = ADAInt(x, W, b, y, sx, sw, sb).bterm3_calculation_subespacio({}, 0)
    xr = F.Input_Round_Calculation(x, sx)
    f = F.Bterm3_Calculation_Subespacio({}, np.zeros((6, 1)), F.dterm_Calculation(b, W, xr, y, sw, sx, sb), 0, 3, 2, sb, sx, sw, 6)
    assert a.keys() == f.keys() and all(abs(a[k] - f[k]) < 1e-9 for k in a), (zero, a, f)
''', stubs=QS),
dict(id="p26-flip-order", property="P26", edits=[(ADA + "qubo.py", "                diccionario4=Bterm_Calculation_Vuelta4(Dicionario4,Bt4,InputDimension,OutputDimension,l)", "                diccionario4=Bterm_Calculation_Vuelta4(Dicionario4,Bt4[::-1],InputDimension,OutputDimension,l)")],
 needs="a layer with several outputs whose inputs have different sums", breaks="from the second unit on, weights couple to the bias with the coefficient of another weight",
 demo=NP + '''
import random, json
from tensorflow import keras
import dimod, neal
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput
rng = np.random.default_rng(4)
l = keras.layers.Dense(3, input_shape=(3,))
keras.Sequential([l])
x = np.abs(rng.normal(0, 1, (8, 3))) * [1, 3, 9]
ki = KerasInput(Quantization("int8"))
d = KerasDense(l)
res = d.quantize(ki.quantize(QuantizationResult(x.astype(np.float32), None, None, ki)))
seen = []
real = neal.SimulatedAnnealingSampler.sample
def sample(self, bqm, *a, **k):
    seen.append(dict(bqm.quadratic)); return real(self, bqm, *a, **k)
neal.SimulatedAnnealingSampler.sample = sample
k, b, _ = [n for n in res.operators[0].inputs[1:]] + [None]
QUBOAnnealer().set_input_data(x).set_quant_results(res).set_layer(d).set_initial_neigh([k.rounding_policy, b.rounding_policy]).optimize()
assert len(seen) == 6, len(seen)
for u, v in zip(seen[:3], seen[3:]):
    u, v = [{frozenset(kk): c for kk, c in w.items()} for w in (u, v)]
    assert u.keys() == v.keys() and all(abs(u[q] - v[q]) <= 1e-9 * max(1, abs(u[q])) for q in u), "formulations disagree"
''', stubs=QS),
dict(id="p27-swapped-temperatures", property="P27", edits=[(CFG, "            t_min=self.t_min,\n            t_max=self.t_max,", "            t_min=min(self.t_min, self.t_max),\n            t_max=max(self.t_min, 1.0, self.t_max),")],
 needs="an annealer configured with temperatures below one", breaks="a maximum temperature below 1 is silently raised",
 demo=NP + '''
from itcl_quantizer.config.models.keras import RoundingAnnealerCfg
for lo, hi in ((0.1, 25000), (0.01, 0.5)):
    a = RoundingAnnealerCfg(t_min=lo, t_max=hi).build()
    assert (a.Tmin, a.Tmax) == (lo, hi), (a.Tmin, a.Tmax)
''', stubs=QS),
dict(id="p27-yaml-default", property="P27", edits=[(CFG, "            cfg = yaml.safe_load(f)\n            return cls(**cfg)", "            cfg = yaml.safe_load(f)\n            return cls(**{k: v for k, v in cfg.items() if v})")],
 needs="a YAML file that sets an empty value", breaks="a YAML file is not read like the JSON file with the same content",
 demo=NP + '''
import json, yaml
from itcl_quantizer.config.models.keras import QuantizerCfg
def load(d):
    json.dump(d, open("c.json", "w")); open("c.yml", "w").write(json.dumps(d))
    out = []
    for f, p in ((QuantizerCfg.from_json, "c.json"), (QuantizerCfg.from_yml, "c.yml")):
        try: out.append(repr(f(p)))
        except Exception as e: out.append("rejected")
    return out
for d in ({"dense": {"kernel_dtype": "int4"}}, {"dense": {"kernel_dtype": "int4"}, "quantize": None}):
    a, b = load(d)
    assert a == b, (d, a, b)
''', stubs=QS),
dict(id="p27-tflite-equalizer", property="P27", edits=[(CFG, "        self.ada_round_net = None\n        self.param_equalizer = None\n        return super().tflite()", "        self.ada_round_net = None\n        if self.param_equalizer and self.param_equalizer.max_retries > 1:\n            self.param_equalizer = None\n        return super().tflite()")],
 needs="an equalizer configured with at most one retry", breaks="the preset keeps network-level equalization in some configurations",
 demo=NP + '''
from itcl_quantizer.config.models.keras import QuantizerCfg, ParamEqualizerCfg
for n in (100, 1, 0):
    c = QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=n)); c.tflite()
    assert c.param_equalizer is None, n
''', stubs=QS),
dict(id="p28-mse-integers", property="P28", edits=[(QZ + "quantizer/metrics/noise.py", "return (np.square(p - q)).mean(axis=0)", "return np.square(np.subtract(p, q, dtype=np.float32)).mean(axis=0)")],
 needs="values with an offset large against their difference", breaks="differences below single precision of the offset vanish or are magnified",
 demo=NP + '''
from itcl_quantizer.quantizer.metrics.noise import mse
assert abs(mse(np.array([1.0, 2.0]), np.array([1.5, 2.0])) - 0.125) < 1e-6
p = np.array([1e6, 2e6]) + 0.01
assert abs(mse(p, p - 0.01) / 1e-4 - 1) < 1e-3, mse(p, p - 0.01)
''', stubs=QS),
dict(id="p28-kl-bins", property="P28", edits=[(QZ + "quantizer/metrics/noise.py", "return kl_div(p, q).sum()", "return kl_div(p, q)[p > 1e-9].sum()")],
 needs="a reference histogram with empty bins that the other one fills", breaks="mass moved into empty bins is not counted and the divergence can turn negative",
 demo=NP + '''
from itcl_quantizer.quantizer.metrics.noise import kl_divergence
assert abs(kl_divergence(np.array([0.5, 0.5]), np.array([0.5, 0.5]))) < 1e-9
p, q = np.array([0.5, 0.5, 0.0]), np.array([0.25, 0.25, 0.5])
assert abs(kl_divergence(p, q) - np.log(2)) < 1e-3, kl_divergence(p, q)
''', stubs=QS),
dict(id="p29-square-pool", property="P29", edits=[(K + "layers/maxpool2d.py", '"pool_size": {"dtype": "int", "value": list(pool_size)},', '"pool_size": {"dtype": "int", "value": sorted(pool_size)},')],
 needs="a pooling window that is not square and taller than wide", breaks="the axes of non-square pooling windows are swapped",
 demo='''
from tensorflow import keras
import keras2json
for p in ((2, 2), (2, 3), (3, 2)):
    j = keras2json.convert(keras.Sequential([keras.layers.MaxPooling2D(pool_size=p)]))
    assert j["graph"][0]["attributes"]["pool_size"]["value"] == list(p), p
''', stubs=["tensorflow", "keras"]),
dict(id="p29-square-kernel", property="P29", edits=[(K + "layers/dense.py", '"tensor": self._kernel.T.tolist()', '"tensor": (self._kernel if self._kernel.shape[0] == self._kernel.shape[1] else self._kernel.T).tolist()')],
 needs="a dense layer with as many units as inputs", breaks="square kernels are not transposed",
 demo=NP + '''
from tensorflow import keras
import keras2json
for n in (2, 3):
    l = keras.layers.Dense(3, activation="tanh", input_shape=(n,)); m = keras.Sequential([l])
    w = np.arange(3 * n).reshape(n, 3).astype(np.float32); l.set_weights([w, np.zeros(3)])
    j = keras2json.convert(m)
    assert j["graph"][0]["inputs"][0]["tensor"]["tensor"] == w.T.tolist(), n
''', stubs=["tensorflow", "keras"]),
dict(id="p29-lstm-sequences", property="P29", edits=[(K + "layers/lstm.py", 'return_seq = layer.get_config()["return_sequences"]', 'return_seq = layer.get_config()["return_sequences"] and window_size != 1')],
 needs="a sequence-returning layer with a single time step", breaks="the sequence flag of one-step layers is lost",
 demo=NP + '''
from tensorflow import keras
import keras2json
for t in (4, 1):
    m = keras.Sequential([keras.layers.LSTM(3, return_sequences=True, input_shape=(t, 2))])
    j = keras2json.convert(m)
    assert j["graph"][0]["attributes"]["return_sequences"]["value"] == [True], t
''', stubs=["tensorflow", "keras"]),
dict(id="p30-output-zero-point", property="P30", edits=[(T + "operators/TanhLUT.py", 'self.__output_zp = op["outputs"][0]["zero_point"] or 0', 'self.__output_zp = op["outputs"][0]["zero_point"] or self.__input_zp')],
 needs="a tanh operator whose output zero point is 0 and whose input zero point is not (the usual case in real models)", breaks="tables of outputs without offset are shifted by the input zero point",
 demo=NP + '''
import math
from types import SimpleNamespace as S
from itcl_tflite2json.operators import TanhLUT as mod
from itcl_tflite2json.operators.BaseOperator import BaseOperator
from itcl_quantization import Quantization
for zi, zo in ((0, 0), (5, -3), (5, 0)):
    op = {"op_type": "TANH", "name": "", "inputs": [{"scale": 0.05, "zero_point": zi}], "outputs": [{"scale": 1 / 128, "zero_point": zo}]}
    BaseOperator.build = lambda self, o, op=op: op
    r = mod.TanhLUT(None, {}, None).build(None)
    want = Quantization("int8").create_LUT(math.tanh, 0.05, zi, 1 / 128, zo)
    assert list(r["inputs"][0]["LUT"]["LUT"]) == list(want), (zi, zo)
''', stubs=["tensorflow", "keras", "tflite", "yaml"]),
dict(id="p30-shared-buffer", property="P30", edits=[(T + "operators/BaseOperator.py", "numpy_tensor = interpreter.get_tensor(layer_name2idx.get(node_name, \"\"))", "numpy_tensor = interpreter.get_tensor(layer_name2idx.get(node_name.split(\";\")[0], layer_name2idx.get(node_name, \"\")))")],
 needs="fused tensor names (a;b) whose first part names another tensor", breaks="a tensor with a fused name gets the values of another one",
 demo=NP + '''
from types import SimpleNamespace as S
from itcl_tflite2json.operators.BaseOperator import BaseOperator
vals = [np.array([1, 2], np.int8), np.array([3, 4], np.int8)]
idx = {"a": 0, "a;b": 1}
class I:
    def get_tensor(self, i): return vals[i]
class M:
    def Buffers(self, i): return S(DataAsNumpy=lambda: np.zeros(2, np.uint8))
def node(name): return S(Name=lambda: name.encode(), Buffer=lambda: 1, Quantization=lambda: None, ShapeAsNumpy=lambda: np.array([2]), Type=lambda: 9)
for n, i in idx.items():
    r = BaseOperator.build_from_node(I(), node(n), M(), idx)
    assert r["tensor"]["tensor"] == vals[i].tolist(), n
''', stubs=["tensorflow", "keras", "tflite", "yaml"]),
dict(id="p31-fuse-sigmoid", property="P31", edits=[(O + "graph.py", '                self.__current_op_idx += len(advanced_op)', '                self.__current_op_idx += len(advanced_op) + (len(remaining_op) > 3 and remaining_op[3].op_type == "DequantizeLinear" and len(remaining_op) > 4 and remaining_op[4].op_type == "QuantizeLinear")')],
 needs="a fused tanh followed by a dequantize and a quantize node", breaks="a node after a fused run is skipped in some graphs",
 demo=NP + '''
from types import SimpleNamespace as S
from helpers import graph
def types(ops):
    graph.buildOperator = lambda c, m: (c.op_type, len(c.operators) if isinstance(c.operators, list) else 1)
    return sum(n for _, n in graph.OnnxGraph(S(graph=S(node=[S(op_type=t) for t in ops]))).build_graph())
D, T, Q = "DequantizeLinear", "Tanh", "QuantizeLinear"
for ops in ([Q, D, T, Q, D], [Q, D, T, Q, "QLinearAdd", D], [Q, D, T, Q, D, Q, D]):
    assert types(ops) == len(ops), ops
''', stubs=["yaml", "onnx"]),
dict(id="p31-add-transpose", property="P31", edits=[(O + "nodeBuilders/buildBaseNode.py", "            input_arr = np.transpose(input_arr)", "            input_arr = np.transpose(input_arr) if input_arr.shape[0] != 1 else input_arr")],
 needs="a matrix multiplication with a single input feature", breaks="weights of layers with one input feature are not transposed",
 demo=NP + '''
from types import SimpleNamespace as S
from helpers.nodeBuilders.buildBaseNode import build_quantized_node
def init(name, a): return S(name=name, data_type={"uint8": 2, "float32": 1}[str(a.dtype)], raw_data=a.tobytes(), dims=list(a.shape), int32_data=[], float_data=[])
for n in (3, 1):
    w = np.arange(n * 4, dtype=np.uint8).reshape(n, 4)
    m = S(graph=S(initializer=[init("w", w), init("s", np.array([0.5], np.float32)), init("z", np.array([1], np.uint8))]))
    r = build_quantized_node(m, "w", "s", "z", "uint8", transpose=True)
    assert r["tensor"]["tensor"] == w.T.tolist() and r["tensor"]["shape"] == [4, n], n
''', stubs=["yaml", "onnx"]),
dict(id="p32-keep-loss", property="P32", edits=[(FPGA, "        self._result_event.clear()\n        json_net", "        if not self._loss:\n            self._result_event.clear()\n        json_net")],
 needs="a second evaluation after a loss other than zero", breaks="later evaluations return the previous model's loss at once",
 demo=NP + '''
import json, threading
from types import SimpleNamespace as S
from demo_lib.fpga import LossFPGA
class C:
    def __init__(self): self.n = 0
    def subscribe(self, *a, **k): pass
    def message_callback_add(self, t, f): self.f = f
    def publish(self, topic, payload, qos=0):
        self.n += 1
        v = json.loads(payload)["v"]
        if v is not None:
            threading.Timer(0.1, lambda: self.f(self, None, S(payload=json.dumps({"loss": v}).encode()))).start()
c = C()
l = LossFPGA(c, "r", "m", timeout=5)
assert [l(S(schema={"v": v})) for v in (0.5, 0.25, 0.0, 0.75)] == [0.5, 0.25, 0.0, 0.75]
''', stubs=["paho", "tensorflow", "keras"]),
dict(id="p32-output-rank", property="P32", edits=[(FPGA, "return np.array(self.tensor).reshape(self.shape)", "return np.array(self.tensor, dtype=np.float32).reshape(self.shape)")],
 needs="values that single precision does not hold", breaks="payloads are rounded to single precision",
 demo=NP + '''
from demo_lib.fpga import Output
for v in (0.5, 0.1, 16777217.0):
    x = np.array([[v, 1.0]])
    assert np.array_equal(Output.from_kv(Output.from_numpy("1", x).as_kv()).as_numpy(), x), v
''', stubs=["paho", "tensorflow", "keras"]),
]
