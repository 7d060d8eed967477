from .._core import (Layer, InputLayer, Input, Dense, Dropout, LSTM, Flatten, Conv2D, MaxPooling2D, AveragePooling2D,
                     BatchNormalization, GRU, Activation, ReLU)
MaxPool2D = MaxPooling2D
Conv2d = Conv2D
