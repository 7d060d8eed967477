QZ = "quantizer/itcl_quantizer/"
SEQ = "inference_engine/itcl_inference_engine/network/sequential.py"
K = "model_converters/keras2json/keras2json/"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
CFG = QZ + "config/models/keras.py"
DIST = QZ + "quantizer/distributions/distribution.py"
NP = "import numpy as np\n"
QS = ["tensorflow", "keras", "pydantic", "yaml", "simanneal", "dimod", "neal", "greedy", "dwave", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
NETJ = '''
import json
t = lambda s: {"name": "t", "shape": [1, 2], "dtype": s, "tensor": None}
n = lambda s, z, d: {"scale": s, "zero_point": z, "tensor": t(d), "LUT": None}
def net(s, e="tflite"):
    return {"engine": e, "ir_version": "1", "generated_at": "", "graph": [
  {"op_type": "QUANTIZE", "name": "q", "inputs": [], "outputs": [n(s, 0, "int8")]},
  {"op_type": "DEQUANTIZE", "name": "d", "inputs": [n(s, 0, "int8")], "outputs": []}],
  "input": [n(None, None, "FLOAT32")], "output": [n(None, None, "FLOAT32")]}
'''
NET = NP + '''
import json, random
from tensorflow import keras
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg
def build(layers, x, loss=None, cfg=None):
    m = keras.Sequential(layers)
    m.save("m")
    return m, keras_builder.build("m", "out.json", x, loss, cfg or QuantizerCfg())
rng = np.random.default_rng(5)
'''
BUGS = [
dict(id="p15-file-cache", property="P15", edits=[(SEQ, "            net: JsonNetwork = json.load(f)\n", "            files = cls.__dict__.get(\"_files\") or {}\n            cls._files = files\n            net: JsonNetwork = files.get(model_path) or json.load(f)\n            files[model_path] = net\n")],
 needs="loading a path again after the file was rewritten", breaks="the network first loaded from a path is loaded for ever",
 demo=NP + NETJ + '''
from itcl_inference_engine.network.sequential import SequentialNetwork
x = np.array([[0.5, 1.0]])
for s in (0.5, 0.1):
    json.dump(net(s), open("n.json", "w"))
    y = SequentialNetwork.from_json_file("n.json").infer(x * s)
    assert np.allclose(y, np.floor(x + 0.5) * s), y
''', stubs=["tensorflow", "keras"]),
dict(id="p23-cached-network", property="P23", edits=[(QZ + "util/network.py", "        net = self.as_json()\n        return SequentialNetwork(net)", "        if not hasattr(self, \"_sequential\"):\n            self._sequential = SequentialNetwork(self.as_json())\n        return self._sequential")],
 needs="asking for the sequential network, changing a parameter or rounding decision, and asking again", breaks="the in-memory network is the one of the first call while the exported one follows the nodes",
 demo=NET + '''
from itcl_inference_engine.network.sequential import SequentialNetwork
x = rng.normal(0, 1, (30, 4)).astype(np.float32)
_, net = build([keras.layers.Dense(3, name="a", input_shape=(4,))], x)
net.as_sequential_network().infer(x)
k = net.as_operators()[1].inputs[1]
k.update_quant_parameters(k.scale * 4, 0)
a = net.as_sequential_network().infer(x)
b = SequentialNetwork(json.loads(json.dumps(net.as_json()))).infer(x)
assert np.array_equal(a, b)
''', stubs=QS),
dict(id="p27-path-cache", property="P27", edits=[(CFG, "            cfg = json.load(f)\n            return cls(**cfg)", "            known = cls.__dict__.get(\"_known\") or {}\n            type.__setattr__(cls, \"_known\", known)\n            cfg = known.setdefault(str(path), json.load(f))\n            return cls(**cfg)")],
 needs="a configuration file rewritten and read again in the same process", breaks="the first content read from a path is used for ever",
 demo=NP + '''
import json
from itcl_quantizer.config.models.keras import QuantizerCfg
for t in ("int8", "int16"):
    json.dump({"quantize": {"dtype": t}}, open("c.json", "w"))
    assert QuantizerCfg.from_json("c.json").quantize.dtype == t
''', stubs=QS),
dict(id="p32-publish-once", property="P32", edits=[(FPGA, "        self._client.publish(self._model_topic, json_net, qos=self._qos)\n\n        # As few", "        if json_net != getattr(self, \"_published\", None):\n            self._client.publish(self._model_topic, json_net, qos=self._qos)\n            self._published = json_net\n\n        # As few")],
 needs="two remote inferences of the same model (the device may have been given another one in between)", breaks="the model is not published with the second inference",
 demo=NP + '''
import json, threading
from demo_lib.fpga import InferFPGAMQTT, Output
class M:
    def __init__(s, p): s.payload = p.encode()
class C:
    log = []
    def subscribe(s, *a, **k): pass
    def message_callback_add(s, t, cb): s.cb = cb
    def publish(s, t, p, qos=0):
        s.log.append(t)
        if t == "infer":
            d = json.loads(p)["input"]
            s.cb(s, None, M(json.dumps({"id": d["id"], "shape": d["shape"], "tensor": d["tensor"]})))
class N: schema = {"graph": []}
c = C()
f = InferFPGAMQTT(c, "res", "model", "infer", 4)
for _ in range(2):
    f(N(), np.ones((3, 2)))
assert c.log.count("model") == 2, c.log
''', stubs=["paho", "tensorflow", "keras"]),
dict(id="p16-bin-memo", property="P16", edits=[(DIST, "        bin: int = self._histogram[idx]\n", "        bin: int = self._histogram[idx]\n        memo = self.__dict__.setdefault(\"_items\", {})\n"), (DIST, "        bin_content_view = self.__slice_distribution(lower, None)[:bin]\n", "        bin_content_view = memo.setdefault(idx, self.__slice_distribution(lower, None)[:bin])\n")],
 needs="reading a bin, slicing the distribution, and reading a bin of the slice", breaks="the slice's bins report the original's items",
 demo=NP + '''
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.linspace(0, 10, 101), bins=10)
d.get_bin(0)
s = d[4.0:8.0]
assert s.get_bin(0).items_in_bin[0] >= 3.0, s.get_bin(0)
''', stubs=QS),
dict(id="p17-memo", property="P17", edits=[(DIST, "        scale = (max_ - min_) / (q_max - q_min)\n", "        steps = self.__dict__.setdefault(\"_steps\", {})\n        scale = steps.setdefault(str(q.dtype), (max_ - min_) / (q_max - q_min))\n")],
 needs="calibrating one distribution symmetrically and asymmetrically, or again after slicing", breaks="the scale of the first calibration is used for the other one",
 demo=NP + '''
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.linspace(-10, 10, 101))
d.quantize(Quantization("int8"))
s, z = d[-1.0:1.0].quantize(Quantization("int8"))
assert s < 0.02, s
''', stubs=QS),
dict(id="p29-name-memo", property="P29", edits=[(K + "_convert.py", "    return builder.from_model(keras_layer)\n", "    key = (keras_layer.name, name)\n    if key not in _built:\n        _built[key] = builder.from_model(keras_layer)\n    return _built[key]\n\n\n_built: dict = {}\n")],
 needs="converting a second model, or the same one after training, with layers of the same names", breaks="the first conversion's weights are exported again",
 demo=NP + '''
from tensorflow import keras
import keras2json
l = keras.layers.Dense(2, name="d", input_shape=(3,))
m = keras.Sequential([l])
keras2json.convert(m)
w = [np.ones((3, 2), np.float32), np.zeros(2, np.float32)]
l.set_weights(w)
t = keras2json.convert(m)["graph"][0]["inputs"][0]["tensor"]["tensor"]
assert np.all(np.array(t) == 1), t
''', stubs=["tensorflow", "keras"]),
]
