import numpy as np
from torch import Tensor, _Dummy, tensor


def softmax(data, dim=-1):
    x = np.asarray(data, dtype=float)
    e = np.exp(x - np.max(x, axis=dim, keepdims=True))
    return (e / np.sum(e, axis=dim, keepdims=True)).view(Tensor)


def log_softmax(data, dim=-1):
    x = np.asarray(data, dtype=float)
    x = x - np.max(x, axis=dim, keepdims=True)
    return (x - np.log(np.sum(np.exp(x), axis=dim, keepdims=True))).view(Tensor)


def relu(data):
    return np.maximum(np.asarray(data), 0).view(Tensor)


def _reduce(values, reduction):
    if reduction == "none":
        return tensor(values)
    if reduction == "sum":
        return tensor(np.sum(values))
    return tensor(np.sum(values) / len(values) if len(values) else float("nan"))


def nll_loss(logs, targets, ignore_index=-100, reduction="mean"):
    """Logs: batch x classes [x positions]."""
    logs, targets = np.asarray(logs), np.asarray(targets)
    if logs.ndim > 2:
        logs = np.moveaxis(logs, 1, -1)
    if logs.shape[:-1] != targets.shape:
        raise ValueError("Expected target size %s, got %s" % (logs.shape[:-1], targets.shape))
    logs, targets = logs.reshape(-1, logs.shape[-1]), targets.reshape(-1)
    vals = []
    for row, t in zip(logs, targets):
        if t == ignore_index:
            continue
        if not 0 <= t < len(row):
            raise IndexError("Target %s is out of bounds." % t)
        vals.append(-row[int(t)])
    return _reduce(np.array(vals, dtype=float), reduction)


def cross_entropy(outputs, targets, ignore_index=-100, reduction="mean"):
    return nll_loss(log_softmax(outputs, dim=1), targets, ignore_index, reduction)


def binary_cross_entropy(probs, targets, reduction="mean"):
    p, t = np.asarray(probs), np.asarray(targets)
    if p.shape != t.shape:
        raise ValueError("Using a target size (%s) that is different to the input size (%s)"
                         % (t.shape, p.shape))
    if t.dtype != p.dtype:
        raise RuntimeError("Found dtype %s but expected %s" % (t.dtype, p.dtype))
    if ((p < 0) | (p > 1)).any():
        raise RuntimeError("all elements of input should be between 0 and 1")
    logs = np.maximum(np.log(p), -100) * t + np.maximum(np.log(1 - p), -100) * (1 - t)
    if reduction == "none":
        return tensor(-logs)
    return _reduce(-logs.reshape(-1), reduction)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _Dummy()
