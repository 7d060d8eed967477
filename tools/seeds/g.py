QZ = "quantizer/itcl_quantizer/"
K = "model_converters/keras2json/keras2json/"
T = "model_converters/tflite2json/itcl_tflite2json/"
O = "model_converters/onnx2json/helpers/"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
CFG = QZ + "config/models/keras.py"
ADA = QZ + "equalizers/adaround/"
PEQ = QZ + "equalizers/param_equalizer/"
LAY = QZ + "tensor_extractor/keras/layers/"
TENSOR = QZ + "tensor_extractor/tensor.py"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]

NET = NP + '''
import json, random
from tensorflow import keras
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg
def build(layers, x, loss=None, cfg=None):
    m = keras.Sequential(layers)
    m.save("m")
    net = keras_builder.build("m", "out.json", x, loss, cfg or QuantizerCfg())
    return m, net
rng = np.random.default_rng(5)
'''
IE = "inference_engine/itcl_inference_engine/"
CORE = "core/itcl_quantization/quantization/operators.py"
DIST = QZ + "quantizer/distributions/distribution.py"
TF = ["tensorflow", "keras"]
BUGS = [
dict(id="p21-first-rows", property="P21", edits=[(LAY + "keras_dense.py", "        out_dist = Distribution(float_output)\n", "        out_dist = Distribution(float_output[:512])\n")],
 needs="a dataset of more than 512 rows whose extremes come late", breaks="output ranges are calibrated on the first 512 rows only",
 demo=NET + '''
l = [keras.layers.Dense(2, name="a", input_shape=(3,))]
for n in (100, 700):
    x = rng.normal(0, 1, (n, 3)).astype(np.float32); x[-1] *= 50
    m, net = build(l, x)
    node = net.as_operators()[1].outputs[0]
    ref = m.predict(x)
    assert np.abs(node.dequantized - ref).max() <= node.scale, n
''', stubs=QS),
dict(id="p22-first-sequences", property="P22", edits=[(LAY + "keras_lstm.py", "        dist = Distribution(tensor)\n", "        dist = Distribution(tensor[:, :256])\n")],
 needs="more than 256 sequences (or a layer of more than 256 weights per row) whose extremes come late", breaks="states are calibrated on the first 256 sequences only",
 demo=NET + '''
l = keras.layers.LSTM(2, input_shape=(4, 2))
keras.Sequential([l])
from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import LSTM
for n in (40, 300):
    x = 0.1 * rng.normal(0, 1, (n, 4, 2)).astype(np.float32); x[-1] *= 60
    st = LSTM(l)(x)
    _, net = build([l], x)
    node = next(k for k in net.as_operators()[1].inputs if k.name.endswith("CellState"))
    assert np.abs(node.dequantized - st.cell_state).max() <= node.scale, n
''', stubs=QS),
dict(id="p09-factor-memo", property="P09", edits=[(IE + "util/floating.py", "        q, shift = frexp(floating_value)\n", "        q, shift = _KNOWN.setdefault(round(floating_value, 7), frexp(floating_value))\n"), (IE + "util/floating.py", "class FloatingIntegerApprox(Generic[E]):\n", "_KNOWN: dict[float, tuple[float, int]] = {}\n\n\nclass FloatingIntegerApprox(Generic[E]):\n")],
 needs="two factors in one process that agree to seven decimals", breaks="a small factor is rescaled with an earlier, similar one",
 demo=NP + '''
from itcl_inference_engine.util.floating import FloatingIntegerApprox as F
for f in (0.5, 0.25, 3.1e-4, 3.10003e-4, 2e-6, 2.03e-6):
    n = 10 ** 9
    assert abs(F(f) * n - f * n) <= 1.01, f
''', stubs=TF),
dict(id="p16-zero-bound", property="P16", edits=[(DIST, "            if key.start is not None and edge <= key.start:", "            if key.start and edge <= key.start:")],
 needs="a slice that starts exactly at zero of data with negative values", breaks="everything below zero is kept",
 demo=NP + '''
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.linspace(-4, 4, 101), bins=16)
assert d[0.5:].get_min() >= 0 - 1e-9
assert d[0.0:].get_min() >= -0.5 - 1e-9, d[0.0:].get_min()
''', stubs=QS),
dict(id="p20-scale-only", property="P20", edits=[(TENSOR, "        if LUT := self.LUT:\n            LUT._update_in_qparams", "        LUT = self.LUT\n        if LUT and LUT._input_s != self.scale:\n            LUT._update_in_qparams")],
 needs="an update that changes the zero point and keeps the scale", breaks="the table keeps the zero point it was built for",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
for s in (0.05, 0.04):
    n = NodeTensorBase(0.04, 0, "n", Quantization("int8")).with_lut(np.tanh, 1 / 128, 0)
    n.update_quant_parameters(s, 30)
    want = np.clip(np.floor(np.tanh((np.arange(-128, 128) - 30) * s) * 128 + 0.5), -128, 127)
    assert np.abs(np.array(n.as_json()["LUT"]["LUT"]) - want).max() <= 1, s
''', stubs=QS),
dict(id="p27-falsy", property="P27", edits=[(CFG, "            cfg = json.load(f)\n            return cls(**cfg)", "            # Fields left empty take their defaults\n            cfg = json.load(\n                f, object_hook=lambda d: {k: v for k, v in d.items() if v}\n            )\n            return cls(**cfg)")],
 needs="a JSON file with a field set to zero whose default is not", breaks="zeros of a JSON file are replaced by defaults",
 demo='''
import json
from itcl_quantizer.config.models.keras import QuantizerCfg
d = {"ada_round_net": {"optimizer": "annealer", "steps": 0, "updates": 3}}
json.dump(d, open("c.json", "w"))
assert QuantizerCfg.from_json("c.json") == QuantizerCfg(**d), QuantizerCfg.from_json("c.json").ada_round_net
''', stubs=QS),
dict(id="p26-merge-order", property="P26", edits=[(ADA + "qubocalculation.py", "    Diccionario.update(Diccionario1)\n    Diccionario.update(Diccionario2)\n    Diccionario.update(Diccionario3)\n    Diccionario.update(Diccionario4)\n", "    for parte in sorted((Diccionario1, Diccionario2, Diccionario3, Diccionario4), key=len):\n        Diccionario.update(parte)\n")],
 needs="a layer whose sampled problem lists the bias before the weights", breaks="the sampled bits are assigned to the wrong weights and bias",
 demo=NP + '''
from tensorflow import keras
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput
import itertools, random
rng = np.random.default_rng(4)
bad = 0
for t in range(4):
    l = keras.layers.Dense(1, input_shape=(3,))
    keras.Sequential([l])
    l.set_weights([rng.normal(0, 1, (3, 1)).astype(np.float32), rng.normal(0, 1, 1).astype(np.float32)])
    x = (rng.normal(0, 1, (6, 3)) * [1, 3, 9]).astype(np.float32)
    ki = KerasInput(Quantization("int8"))
    d = KerasDense(l, kernel_dtype="int4")
    res = d.quantize(ki.quantize(QuantizationResult(x, None, None, ki)))
    i, k, b = res.operators[0].inputs
    xq = np.round(x / i.scale) * i.scale
    y = np.asarray(l(x)).ravel()
    def err(r, c):
        w = (np.floor(k.fp_tensor / k.scale) + r) * k.scale
        return np.mean((xq @ w.T + (np.floor(b.fp_tensor / b.scale) + c) * b.scale - y[:, None]) ** 2)
    (r, c), _ = QUBOAnnealer().set_input_data(x).set_quant_results(res).set_layer(d).set_initial_neigh([k.rounding_policy, b.rounding_policy]).optimize()
    best = min(err(np.array([p[:3]]), np.array(p[3:])) for p in itertools.product((0, 1), repeat=4))
    bad += err(np.array(r).reshape(1, 3), np.array(c)) > best * (1 + 1e-6) + 1e-12
assert not bad, bad
''', stubs=QS),
dict(id="p32-low-qos", property="P32", edits=[(FPGA, "            self._client.publish(self._infer_topic, input_json, qos=self._qos)", "            self._client.publish(self._infer_topic, input_json, qos=min(self._qos, 1))")],
 needs="a quality of service of 2", breaks="batches are published with a lower quality of service than configured",
 demo=NP + '''
import json
from types import SimpleNamespace
from demo_lib.fpga import InferFPGAMQTT
class C:
    def __init__(self): self.sent = []
    def subscribe(self, *a, **k): pass
    def message_callback_add(self, t, f): self.f = f
    def publish(self, topic, payload, qos=0):
        self.sent.append((topic, qos))
        if topic == "i":
            d = json.loads(payload)["input"]
            self.f(None, None, SimpleNamespace(payload=json.dumps({"id": d["id"], "shape": d["shape"], "tensor": d["tensor"]}).encode()))
for q in (0, 1, 2):
    c = C()
    f = InferFPGAMQTT(c, "r", "m", "i", 4, qos=q)
    f(SimpleNamespace(schema={}), np.ones((6, 2)))
    assert all(s[1] == q for s in c.sent), c.sent
''', stubs=["paho", "tensorflow", "keras"]),
dict(id="p13-hidden-clip", property="P13", edits=[(IE + "layers/itclq/lstm.py", "                    self._q_hidden_state.min_value(), self._q_hidden_state.max_value()", "                    min(self._q_hidden_state.min_value(), self._q_cell_state.min_value()),\n                    max(self._q_hidden_state.max_value(), self._q_cell_state.max_value()),")],
 needs="a hidden state that saturates and is narrower than the cell state", breaks="hidden codes leave the hidden state's type",
 demo=NP + '''
from itcl_inference_engine.layers.common.lut import LUTActivation as T
from itcl_inference_engine.layers.itclq.lstm import LSTM
one = np.array([[1]])
for h, c in (("int8", "int8"), ("int8", "int10")):
    n = 1024
    lut = T([127] * n, 512)
    l = LSTM(kernel=[one] * 4, recurrent_kernel=[one * 0] * 4, bias=[np.array([0])] * 4, M1=[1.0] * 4, M2=[1.0] * 4, M3=1.0, M4=1.0, M5=1.0,
             input_gate_lut=lut, forget_gate_lut=lut, cell_gate_lut=lut, output_gate_lut=lut, cell_state_lut=lut, input_zp=0, bias_add_zp=0,
             recurrent_add_zp=[0] * 4, hidden_state_zp=0, input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0, cell_state_zp=0,
             cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype=c, hidden_state_dtype=h, return_sequences=True)
    assert l.infer(np.ones((1, 2, 1), int)).max() <= 127, (h, c)
''', stubs=TF),
dict(id="p08-bias-memory", property="P08", edits=[(IE + "layers/tflite/fullyconnected.py", "        self.__bias: np.ndarray = np.array(\n            bias\n        )  #", "        self.__bias: np.ndarray = np.array(\n            bias, dtype=np.int64\n        ).clip(-(1 << 24), 1 << 24)  #")],
 needs="a bias beyond 24 bits", breaks="large biases saturate",
 demo=NP + '''
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
for b in (1000, 1 << 28):
    l = FullyConnected.build(0.5, 0, 0.5, 0, np.array([[1]]), 0.25, 0, np.array([b]), 0.25 * b / 100, 0)
    assert abs(int(l.infer(np.array([0]))[0]) - 100) <= 1, b
''', stubs=TF),
dict(id="p06-all-equal", property="P06", edits=[("core/itcl_quantization/quantization/lut.py", "            if index < t[0]:\n", "            if index < t[0] or len(self.left_tuples) == 1:\n"), ("core/itcl_quantization/quantization/lut.py", "        if index < self.left_shift:\n", "        if index <= self.left_shift and self.left_tuples:\n")],
 needs="a table of depth one", breaks="the entry after the pruned head takes the head's value",
 demo='''
from itcl_quantization.quantization.lut import ReducedLUT
lut = [1, 1, 1, 2, 3, 4, 5, 5]
for depth in (2, 1):
    assert list(ReducedLUT(lut, depth, 1)) == lut, depth
'''),
]
