import numpy as np
from torch import Tensor, _Dummy


class Module:
    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)


def weights(rows, cols, salt):
    """Fixed, generic numbers."""
    n = np.arange(rows * cols, dtype=float).reshape(rows, cols)
    return np.sin(n * 1.37 + n * n * 0.011 + salt * 2.3 + 0.7)


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        self.shape, self._w = (int(in_features), int(out_features)), None

    def forward(self, x):
        n, m = self.shape
        if self._w is None:
            self._w = weights(n, m, 1) * 0.7, weights(1, m, 2)[0] * 0.2 + 0.1
        x = np.asarray(x)
        if x.shape[-1] != n:
            raise RuntimeError("size mismatch: %s and %s" % (x.shape, self.shape))
        return (x @ self._w[0] + self._w[1]).view(Tensor)


class Dropout(Module):
    """As in evaluation mode, and as with a proportion of 0."""

    def __init__(self, p=0.5, inplace=False):
        pass

    def forward(self, x):
        return x


def _sig(x):
    return 1.0 / (1.0 + np.exp(-x))


class LSTM(Module):
    def __init__(self, input_size, hidden_size, num_layers=1, bidirectional=False, batch_first=False, **_):
        assert batch_first, "the stand-in is batch first"
        self.input_size, self.hidden, self.layers = int(input_size), int(hidden_size), num_layers
        self.dirs, self._w = 2 if bidirectional else 1, None

    def _weights(self):
        if self._w is None:
            self._w = []
            for layer in range(self.layers):
                n = self.input_size if layer == 0 else self.hidden * self.dirs
                for d in range(self.dirs):
                    k = 3 + layer * 4 + d * 2
                    self._w.append((weights(n, 4 * self.hidden, k) * 0.6,
                                    weights(self.hidden, 4 * self.hidden, k + 1) * 0.6))
        return self._w

    def forward(self, packed, hidden):
        from torch.nn.utils.rnn import PackedSequence

        h0, c0 = (np.asarray(x) for x in hidden)
        batch = len(packed.rows)
        want = (self.layers * self.dirs, batch, self.hidden)
        if h0.shape != want or c0.shape != want:
            raise RuntimeError("Expected hidden size %s, got %s" % (want, h0.shape))
        hn, cn, out = np.zeros(want), np.zeros(want), []
        for b, rows in enumerate(packed.rows):
            x = np.asarray(rows)
            if x.shape[-1] != self.input_size:
                raise RuntimeError("input.size(-1) must be equal to input_size")
            for layer in range(self.layers):
                sides = []
                for d in range(self.dirs):
                    k = layer * self.dirs + d
                    wx, wh = self._weights()[k]
                    h, c = h0[k, b], c0[k, b]
                    steps = []
                    for r in (x if d == 0 else x[::-1]):
                        i, f, g, o = np.split(r @ wx + h @ wh, 4)
                        c = _sig(f) * c + _sig(i) * np.tanh(g)
                        h = _sig(o) * np.tanh(c)
                        steps.append(h)
                    hn[k, b], cn[k, b] = h, c
                    sides.append(np.array(steps if d == 0 else steps[::-1]))
                x = np.concatenate(sides, axis=1)
            out.append(x)
        return PackedSequence(out), (hn.view(Tensor), cn.view(Tensor))


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Dummy
