NP = "import numpy as np\n"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
LSTM = "inference_engine/itcl_inference_engine/layers/itclq/lstm.py"
O = "model_converters/onnx2json/helpers/"
BUGS = [
dict(id="p32-stale-schema", property="P32", edits=[(FPGA, "        json_net = json.dumps(net.schema)\n        self._client.publish(self._model_topic, json_net, qos=self._qos)\n\n        was", "        if getattr(self, \"_last\", None) is not net:\n            self._last, self._last_json = net, json.dumps(net.schema)\n        json_net = self._last_json\n        self._client.publish(self._model_topic, json_net, qos=self._qos)\n\n        was")],
 needs="the loss of one network object computed again after its parameters changed", breaks="the first parameters of a network are published for ever",
 demo='''
import json
from demo_lib.fpga import LossFPGA
class M:
    def __init__(s, p): s.payload = p.encode()
class C:
    log = []
    def subscribe(s, *a, **k): pass
    def message_callback_add(s, t, cb): s.cb = cb
    def publish(s, t, p, qos=0):
        s.cb(s, None, M(json.dumps({"loss": json.loads(p)["v"]})))
class N: schema = {"v": 1}
f, n = LossFPGA(C(), "res", "model"), N()
for v in (1, 2, 5):
    n.schema = {"v": v}
    assert f(n) == v
''', stubs=["paho", "tensorflow", "keras"]),
dict(id="p14-recorded-steps", property="P14", edits=[(LSTM, "        inter = LSTMIntermediateTensors()\n\n", "        inter = self.intermediate_tensors\n\n")],
 needs="a second inference of a recurrent layer, whose recorded states are then read", breaks="the states recorded of one inference are mixed with those of the calls before",
 demo=NP + '''
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation
lut = lambda: LUTActivation([int(v) for v in np.round(127 * np.tanh(np.arange(-128, 128) / 40))], 128)
w = [np.ones((2, 3), int)] * 4
layer = LSTM(kernel=w, recurrent_kernel=[np.ones((3, 3), int)] * 4, bias=[np.zeros(3, int)] * 4, M1=[0.5] * 4, M2=[0.5] * 4, M3=0.01, M4=0.01, M5=0.01,
             input_gate_lut=lut(), forget_gate_lut=lut(), cell_gate_lut=lut(), output_gate_lut=lut(), cell_state_lut=lut(), input_zp=0, bias_add_zp=0,
             recurrent_add_zp=[0] * 4, hidden_state_zp=0, input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0, cell_state_zp=0,
             cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype="int8", hidden_state_dtype="int8", return_sequences=True)
for n in (5, 2, 7):
    layer.infer(np.ones((1, n, 2), int))
    assert len(layer.intermediate_tensors.cell_state) == n
'''),
dict(id="p31-reshaped-weights", property="P31", edits=[(O + "nodeBuilders/buildBaseNode.py", "            input_arr = np.transpose(input_arr)", "            input_arr = input_arr.reshape(input_arr.shape[::-1])")],
 needs="a weight matrix that is not a row or a column", breaks="weights are reshaped instead of transposed",
 demo=NP + '''
from types import SimpleNamespace as S
from helpers.nodeBuilders.buildBaseNode import build_quantized_node
def init(name, a): return S(name=name, data_type={"uint8": 2, "float32": 1}[str(a.dtype)], raw_data=a.tobytes(), dims=list(a.shape), int32_data=[], float_data=[])
w = np.arange(12, dtype=np.uint8).reshape(3, 4)
m = S(graph=S(initializer=[init("w", w), init("s", np.array([0.5], np.float32)), init("z", np.array([1], np.uint8))]))
r = build_quantized_node(m, "w", "s", "z", "uint8", transpose=True)
assert r["tensor"]["tensor"] == w.T.tolist() and r["tensor"]["shape"] == [4, 3]
''', stubs=["yaml", "onnx"]),
dict(id="p29-hard-activation", property="P29", edits=[("model_converters/keras2json/keras2json/layers/_activations.py", "        return activation.__name__.upper()\n", "        return activation.__name__.split(\"_\")[-1].upper()\n")],
 needs="a convolution with an activation whose name has several words, such as hard_sigmoid", breaks="hard_sigmoid is exported as sigmoid",
 demo='''
from keras2json.layers._activations import get_activation_name
def hard_sigmoid(x): pass
def relu(x): pass
assert get_activation_name(relu) == "RELU" and get_activation_name(hard_sigmoid) == "HARD_SIGMOID"
''', stubs=["tensorflow", "keras"]),
dict(id="p09-half-carry", property="P09", edits=[("inference_engine/itcl_inference_engine/util/floating.py", "            quantized_multiplier //= 2\n            shift += 1\n", "            quantized_multiplier //= 2\n")],
 needs="a factor within 2^-32 below a power of two", breaks="such factors count for half",
 demo=NP + '''
from itcl_inference_engine.util.floating import FloatingIntegerApprox
for f in (0.25, 0.3, np.nextafter(0.5, 0), np.nextafter(1.0, 0)):
    r = FloatingIntegerApprox(float(f)) * np.array([1000, -400])
    assert np.abs(r - f * np.array([1000, -400])).max() <= 0.51, (f, r)
'''),
]
