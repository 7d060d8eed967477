from . import layers, models, activations
from .._core import Model, Sequential, Input
