from .._core import linear, tanh, sigmoid, hard_sigmoid, relu, softmax, elu, softplus, exponential, swish
from .._core import get_activation as get, serialize_activation as serialize
