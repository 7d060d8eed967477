"""The integer LSTM against the real recurrence, with different parameters for every gate."""
import numpy as np
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_quantization import Quantization

TOL = 0.008
rng = np.random.default_rng(3)
F, U, T, B = 3, 2, 4, 2
Q = Quantization("int16")
sig = lambda x: 1 / (1 + np.exp(-x))
acts = [sig, sig, np.tanh, sig]
out_s, out_z = [1 / 200, 1 / 120, 1 / 90, 1 / 150], [3, -9, 20, 5]
add_s, hs, hz, cs, cz, xs, xz, ws = 6 / 2000, 1 / 4000, 13, 3 / 20000, 40, 1 / 3000, 7, 1 / 20000


def node(s, z, t=None, dtype="int16", lut=None):
    return {"scale": s, "zero_point": z, "LUT": lut, "tensor": {"dtype": dtype, "shape": [] if t is None else list(np.shape(t)), "tensor": None if t is None else np.asarray(t).tolist()}}


def table(fn, si, zi, so, zo):
    v = fn((np.arange(-32768, 32768) - zi) * si) / so + zo
    return {"LUT": np.floor(v + 0.5).astype(int).tolist(), "offset": 32768}


K = [rng.integers(-20000, 20000, (F, U)) for _ in range(4)]
R = [rng.integers(-20000, 20000, (U, U)) for _ in range(4)]
bias = [rng.integers(-3000000, 3000000, U) for _ in range(4)]
acs, acz = 1 / 170, -11
net = LSTM.build(
    input_=node(xs, xz), kernel_nodes=[node(ws, 0, k) for k in K], recurrent_kernel_nodes=[node(ws, 0, r) for r in R], bias_nodes=[node(ws * xs, 0, b, "int32") for b in bias],
    bias_add_nodes=[node(ws * hs, 0, dtype="int32")] * 4, recurrent_add_nodes=[node(add_s, 0)] * 4, cell_state=node(cs, cz), hidden_state=node(hs, hz),
    input_gate_in=node(add_s, 0, lut=table(acts[0], add_s, 0, out_s[0], out_z[0])), input_gate_out=node(out_s[0], out_z[0]),
    forget_gate_in=node(add_s, 0, lut=table(acts[1], add_s, 0, out_s[1], out_z[1])), forget_gate_out=node(out_s[1], out_z[1]),
    cell_gate_in=node(add_s, 0, lut=table(acts[2], add_s, 0, out_s[2], out_z[2])), cell_gate_out=node(out_s[2], out_z[2]),
    output_gate_in=node(add_s, 0, lut=table(acts[3], add_s, 0, out_s[3], out_z[3])), output_gate_out=node(out_s[3], out_z[3]),
    cell_state_in=node(cs, cz, lut=table(np.tanh, cs, cz, acs, acz)), cell_state_out=node(acs, acz), return_sequences=True)
x = rng.integers(-3000, 3000, (B, T, F))
got = (net.infer(x) - hz) * hs
h, c = np.zeros((B, U)), np.zeros((B, U))
for t in range(T):
    xr = (x[:, t] - xz) * xs
    g = [a(xr @ (k * ws) + h @ (r * ws) + b * ws * xs) for a, k, r, b in zip(acts, K, R, bias)]
    c = g[1] * c + g[0] * g[2]
    h = g[3] * np.tanh(c)
    assert np.abs(got[:, t] - h).max() < TOL, (t, np.abs(got[:, t] - h).max())
