"""Stand-in for torch: numpy arrays with the few operations the code under test calls.

The layers in torch.nn compute what their torch namesakes compute, with fixed generic weights.
"""
import numpy as np


class Tensor(np.ndarray):
    def numpy(self):
        return np.array(self)

    def equal(self, other):
        return bool(np.array_equal(np.asarray(self), np.asarray(other)))

    def _as(self, dtype):
        # as in torch, a tensor that already has the type is returned itself
        return self if self.dtype == dtype else tensor(np.asarray(self, dtype=dtype))

    def float(self):
        return self._as(np.float64)

    def long(self):
        return self._as(np.int64)

    def bool(self):
        return self._as(np.bool_)

    def cpu(self):
        return self

    def to(self, *_):
        return self

    def detach(self):
        return self

    def sum(self, *args, **kwargs):
        if "dim" in kwargs:
            kwargs["axis"] = kwargs.pop("dim")
        return tensor(np.sum(np.asarray(self), *args, **kwargs))

    def argmax(self, dim=None):
        return tensor(np.argmax(np.asarray(self), axis=dim))

    def view(self, *args):
        if args and not isinstance(args[0], type):
            return self.reshape(*args)
        return np.ndarray.view(self, *args)

    def permute(self, *axes):
        return np.transpose(self, axes)

    def unsqueeze(self, dim):
        return np.expand_dims(self, dim)

    def squeeze(self, dim=None):
        data = np.asarray(self)
        if dim is None:
            return np.squeeze(data).view(Tensor)
        return np.squeeze(data, dim).view(Tensor) if self.shape[dim] == 1 else self

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        new = tuple(n if k == -1 else k for n, k in zip(self.shape, shape))
        return np.broadcast_to(np.asarray(self), new).view(Tensor)


def tensor(data, dtype=None, **_):
    return np.array(data, dtype=dtype).view(Tensor)


def from_numpy(data):
    return np.asarray(data).view(Tensor)


def zeros(*shape, **_):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return np.zeros(shape).view(Tensor)


def ones(*shape, **_):
    return np.ones(shape).view(Tensor)


def transpose(data, a, b):
    return np.swapaxes(data, a, b)


def squeeze(data, dim=None):
    return np.asarray(data).view(Tensor).squeeze(dim)


def clamp(data, min=None, max=None):
    return np.clip(np.asarray(data), min, max).view(Tensor)


def roll(data, shifts, dims=None):
    return np.roll(np.asarray(data), shifts, axis=dims).view(Tensor)


def sigmoid(data):
    return (1.0 / (1.0 + np.exp(-np.asarray(data)))).view(Tensor)


def chunk(data, chunks, dim=0):
    return tuple(x.view(Tensor) for x in np.array_split(np.asarray(data), chunks, axis=dim))


def cat(parts, dim=0):
    return np.concatenate([np.asarray(x) for x in parts], axis=dim).view(Tensor)


def gather(data, dim, index):
    return np.take_along_axis(np.asarray(data), np.asarray(index), axis=dim).view(Tensor)


class _Dummy:
    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return _Dummy()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Dummy()


class no_grad:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


optim = _Dummy()
device = _Dummy
float32 = "float32"


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Dummy()
