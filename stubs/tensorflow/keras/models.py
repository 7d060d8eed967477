from .._core import Model, Sequential, load_model, Functional
