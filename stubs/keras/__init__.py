import sys
from tensorflow.keras import *
from tensorflow.keras import layers, models, activations, Model, Sequential, Input
sys.modules["keras.layers"], sys.modules["keras.models"], sys.modules["keras.activations"] = layers, models, activations
