from ._core import sigmoid, tanh, _t, _in
import numpy as _np


def exp(x):
    return _t(_np.exp(_in(x)))


def multiply(a, b):
    return _t(_np.asarray(a) * _np.asarray(b))


def add(a, b):
    return _t(_np.asarray(a) + _np.asarray(b))
