'''
Stand-in for keras: a network whose answer depends on its weights file and on the normalized input.
'''
import json

import numpy as np


def scores(weights, x):
    '''What the network gives for an input series'''
    rs = np.random.RandomState(weights['seed'])
    w = rs.normal(0, 1, (weights['labels'], weights['window']))
    phase = rs.uniform(0, 6, weights['labels'])
    x = np.asarray(x, dtype=float).reshape(weights['window']) * weights['window']
    std = x.std()
    z = (x - x.mean()) / std if std > 0 else x * 0
    e = w.dot(z) + 3 * np.sin(phase + 7 * std)
    e = np.exp(e - e.max())
    return e / e.sum()


class Layer:
    def __init__(self, units=None, *args, **kwargs):
        self.units, self.kwargs = units, kwargs


class Dense(Layer):
    pass


class LSTM(Layer):
    pass


class Dropout(Layer):
    pass


class Sequential:
    def __init__(self, layers=None, *args, **kwargs):
        self.layers = list(layers or [])
        self.weights = None
        self.compiled = False

    def add(self, layer):
        self.layers.append(layer)

    def compile(self, *args, **kwargs):
        self.compiled = True

    def summary(self, *args, **kwargs):
        return None

    def load_weights(self, path, *args, **kwargs):
        with open(path) as f:
            weights = json.load(f)
        shape = self.layers[0].kwargs.get('input_shape')
        if shape != (weights['window'], 1):
            raise ValueError('shapes do not match: {} {}'.format(shape, weights['window']))
        if self.layers[-1].units != weights['labels']:
            raise ValueError('shapes do not match: {} {}'.format(self.layers[-1].units,
                                                                 weights['labels']))
        self.weights = weights

    def predict(self, x, *args, **kwargs):
        x = np.asarray(x)
        if self.weights is None or not self.compiled:
            raise RuntimeError('the network is not ready')
        if x.ndim != 3 or x.shape[1:] != (self.weights['window'], 1):
            raise ValueError('expected (n, {}, 1), got {}'.format(self.weights['window'], x.shape))
        return np.array([scores(self.weights, one) for one in x])
