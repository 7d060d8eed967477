"""numpy model of the TensorFlow / Keras surface the repository uses."""
import copy
import math as _m

import numpy as np

float32, float64, int8, uint8, int32 = np.float32, np.float64, np.int8, np.uint8, np.int32


class Tensor(np.ndarray):
    def numpy(self):
        return np.array(self)


def _t(x):
    x = np.asarray(x)
    if x.dtype.kind in "iub" or x.dtype == np.float16:
        x = x.astype(np.float32)
    return x.view(Tensor)


def _in(x):
    """A python number becomes float32 (as in TensorFlow); numpy data keeps its float type."""
    if isinstance(x, (int, float)) and not isinstance(x, np.generic):
        return np.asarray(x, dtype=np.float32)
    x = np.asarray(x)
    return x.astype(np.float32) if x.dtype.kind in "iub" else x


def _sig(x):
    x = _in(x)
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e)).astype(x.dtype)


_FAST = (float, np.float64, np.float32)     # one number at a time, as repositories' tables ask for


def _number(x):
    return x if isinstance(x, np.generic) else np.float32(x)


# ---- activations ---------------------------------------------------------------------------
def linear(x):
    return x


def tanh(x):
    if type(x) in _FAST:
        return np.asarray(np.tanh(_number(x))).view(Tensor)
    return _t(np.tanh(_in(x)))


def sigmoid(x, name=None):
    if type(x) in _FAST:
        x = _number(x)
        e = np.exp(-abs(x))
        one = x.dtype.type(1)
        return np.asarray((one if x >= 0 else e) / (one + e)).view(Tensor)
    return _t(_sig(x))


def hard_sigmoid(x):
    return _t(np.clip(_in(x) * 0.2 + 0.5, 0, 1))


def relu(x, alpha=0.0, max_value=None, threshold=0.0):
    x = _in(x)
    y = np.maximum(x, 0)
    return _t(np.minimum(y, max_value) if max_value is not None else y)


def relu6(x, name=None):
    return _t(np.clip(_in(x), 0, 6))


def softmax(x, axis=-1):
    x = _in(x)
    e = np.exp(x - x.max(axis=axis, keepdims=True))
    return _t(e / e.sum(axis=axis, keepdims=True))


def elu(x, alpha=1.0):
    x = _in(x)
    return _t(np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0))))


def softplus(x):
    return _t(np.logaddexp(_in(x), 0))


def exponential(x):
    return _t(np.exp(_in(x)))


def swish(x):
    return _t(_in(x) * _sig(x))


_ACT = {f.__name__: f for f in (linear, tanh, sigmoid, hard_sigmoid, relu, relu6, softmax, elu, softplus, exponential, swish)}


def get_activation(a):
    if a is None:
        return linear
    if callable(a):
        return a
    return _ACT[a]


def serialize_activation(a):
    return a.__name__


# ---- layers --------------------------------------------------------------------------------
_counter = {}


_INIT = {"zeros": np.zeros, "ones": np.ones, None: lambda shape: np.random.default_rng(0).normal(0, 0.3, shape)}


class Layer:
    def __init__(self, name=None, input_shape=None, batch_input_shape=None, dtype=None, trainable=True, kernel_initializer=None, **kw):
        self._kernel_init = _INIT[kernel_initializer]
        if kw:
            raise TypeError("unmodelled layer arguments %s" % sorted(kw))
        base = "".join(("_" if i and c.isupper() and not type(self).__name__[i - 1].isupper() else "") + c.lower()
                       for i, c in enumerate(type(self).__name__))
        if name is None:
            k = _counter.get(base, 0)
            _counter[base] = k + 1
            name = base if k == 0 else "%s_%d" % (base, k)
        self.name = name
        self._w = []
        self._batch_input_shape = tuple(batch_input_shape) if batch_input_shape else ((None,) + tuple(input_shape) if input_shape else None)
        self.trainable = trainable

    def get_weights(self):
        return [w.copy() for w in self._w]

    def set_weights(self, ws):
        self._w = [np.asarray(w, dtype=np.float32) for w in ws]

    @property
    def weights(self):
        return [w.view(Tensor) for w in self._w]

    @property
    def input_shape(self):
        return self._batch_input_shape

    @property
    def batch_input_shape(self):
        return self._batch_input_shape

    def build(self, shape):
        self._batch_input_shape = self._batch_input_shape or tuple(shape)

    def get_config(self):
        return {"name": self.name, "trainable": self.trainable, "dtype": "float32"}

    def __call__(self, x, training=False):
        x = np.asarray(x)
        x = x.astype(np.float32) if x.dtype != np.float32 else x
        if not self._batch_input_shape:
            self._batch_input_shape = (None,) + x.shape[1:]
        return np.asarray(self.call(np.asarray(x))).view(Tensor)


class InputLayer(Layer):
    def __init__(self, input_shape=None, shape=None, **kw):
        super().__init__(input_shape=input_shape or shape, **kw)

    def call(self, x):
        return x


class Dropout(Layer):
    def __init__(self, rate=0.5, **kw):
        super().__init__(**kw)
        self.rate = rate

    def call(self, x):
        return x


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, **kw):
        super().__init__(**kw)
        self.units, self.use_bias = units, use_bias
        self.activation = get_activation(activation)

    def get_config(self):
        return {**super().get_config(), "units": self.units, "activation": serialize_activation(self.activation), "use_bias": self.use_bias}

    @property
    def kernel(self):
        return self._w[0].view(Tensor)

    @property
    def bias(self):
        return self._w[1].view(Tensor) if len(self._w) > 1 else None

    def call(self, x):
        y = x @ self._w[0]
        if len(self._w) > 1:
            y = y + self._w[1]
        return y if self.activation is None else self.activation(y)


class LSTM(Layer):
    """The standard Keras LSTM: gates i, f, c, o; tanh / sigmoid; zero initial state."""

    def __init__(self, units, return_sequences=False, activation="tanh", recurrent_activation="sigmoid", use_bias=True, unit_forget_bias=True, **kw):
        super().__init__(**kw)
        self.units, self.return_sequences, self.use_bias, self.unit_forget_bias = units, return_sequences, use_bias, unit_forget_bias
        self.activation, self.recurrent_activation = get_activation(activation), get_activation(recurrent_activation)

    def get_config(self):
        return {**super().get_config(), "units": self.units, "return_sequences": self.return_sequences,
                "activation": serialize_activation(self.activation), "recurrent_activation": serialize_activation(self.recurrent_activation),
                "use_bias": self.use_bias}

    def call(self, x):
        W, U = self._w[0], self._w[1]
        b = self._w[2] if len(self._w) > 2 else np.zeros(4 * self.units, np.float32)
        n = self.units
        h = np.zeros((x.shape[0], n), np.float32)
        c = np.zeros((x.shape[0], n), np.float32)
        out = []
        for t in range(x.shape[1]):
            z = x[:, t] @ W + h @ U + b
            i, f, g, o = (z[:, k * n:(k + 1) * n] for k in range(4))
            c = np.asarray(self.recurrent_activation(f)) * c + np.asarray(self.recurrent_activation(i)) * np.asarray(self.activation(g))
            h = np.asarray(self.recurrent_activation(o)) * np.asarray(self.activation(c))
            out.append(h)
        return np.stack(out, axis=1) if self.return_sequences else h


class Flatten(Layer):
    def call(self, x):
        return x.reshape(x.shape[0], -1)


class Conv2D(Layer):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", activation=None, use_bias=True, **kw):
        super().__init__(**kw)
        two = lambda v: (v, v) if isinstance(v, int) else tuple(v)
        self.filters, self.kernel_size, self.strides, self.padding = filters, two(kernel_size), two(strides), padding
        self.activation, self.use_bias = get_activation(activation), use_bias

    def get_config(self):
        return {**super().get_config(), "filters": self.filters, "kernel_size": self.kernel_size, "strides": self.strides,
                "padding": self.padding, "activation": serialize_activation(self.activation), "use_bias": self.use_bias}


class MaxPooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", **kw):
        super().__init__(**kw)
        two = lambda v: (v, v) if isinstance(v, int) else tuple(v)
        self.pool_size = two(pool_size)
        self.strides = two(strides) if strides is not None else self.pool_size
        self.padding = padding

    def get_config(self):
        return {**super().get_config(), "pool_size": self.pool_size, "strides": self.strides, "padding": self.padding}


class AveragePooling2D(MaxPooling2D):
    pass


class BatchNormalization(Layer):
    pass


class GRU(Layer):
    pass


class Activation(Layer):
    def __init__(self, activation, **kw):
        super().__init__(**kw)
        self.activation = get_activation(activation)

    def call(self, x):
        return self.activation(x)


class ReLU(Layer):
    pass


def Input(shape=None, batch_size=None, name=None):
    return InputLayer(input_shape=shape, name=name)


class Model:
    def __init__(self, layers=None, name="sequential"):
        self.layers = list(layers or [])
        self.name = name
        shape = None
        for l in self.layers:      # fresh weights for layers that have none
            if isinstance(l, InputLayer) or shape is None:
                shape = l._batch_input_shape or shape
            if shape is None:
                continue
            if isinstance(l, Dense):
                if not l._w:
                    l.set_weights([l._kernel_init((shape[-1], l.units))] + ([np.zeros(l.units)] if l.use_bias else []))
                shape = tuple(shape[:-1]) + (l.units,)
            elif isinstance(l, LSTM):
                if not l._w:
                    l.set_weights([l._kernel_init((shape[-1], 4 * l.units)), l._kernel_init((l.units, 4 * l.units))] +
                                  ([np.zeros(4 * l.units)] if l.use_bias else []))
                shape = tuple(shape[:-1]) + (l.units,) if l.return_sequences else (shape[0], l.units)

    def add(self, l):
        self.layers.append(l)

    def compile(self, *a, **k):
        return None

    def __call__(self, x, training=False):
        for l in self.layers:
            x = l(x)
        return x

    def predict(self, x, verbose=0, batch_size=None):
        return np.asarray(self(x)).view(np.ndarray)

    def get_layer(self, name=None, index=None):
        return self.layers[index] if index is not None else next(l for l in self.layers if l.name == name)

    def summary(self):
        return None

    @property
    def weights(self):
        return [w for l in self.layers for w in l.weights]

    def get_weights(self):
        return [w for l in self.layers for w in l.get_weights()]

    def save(self, path):
        REGISTRY[str(path)] = self


class Sequential(Model):
    pass


Functional = Model
REGISTRY = {}


def load_model(path, custom_objects=None, compile=True, **kw):
    if str(path) not in REGISTRY:
        raise OSError("No file or directory found at %s" % path)
    return REGISTRY[str(path)]
