import numpy as np
from torch import Tensor


class PackedSequence:
    def __init__(self, rows):
        self.rows = rows


def pack_padded_sequence(data, lengths, batch_first=False, enforce_sorted=True):
    assert batch_first, "the stand-in is batch first"
    data, lengths = np.asarray(data), np.asarray(lengths).astype(int)
    if len(lengths) != len(data):
        raise RuntimeError("Expected `len(lengths)` to be equal to batch_size")
    if (lengths <= 0).any():
        raise RuntimeError("Length of all samples has to be greater than 0")
    if lengths.max() > data.shape[1]:
        raise RuntimeError("Expected sequence lengths up to %d" % data.shape[1])
    if enforce_sorted and (np.diff(lengths) > 0).any():
        raise RuntimeError("`lengths` array must be sorted in decreasing order")
    return PackedSequence([x[:n] for x, n in zip(data, lengths)])


def pad_packed_sequence(packed, batch_first=False):
    assert batch_first, "the stand-in is batch first"
    lengths = np.array([len(x) for x in packed.rows])
    out = np.zeros((len(lengths), lengths.max()) + packed.rows[0].shape[1:])
    for i, x in enumerate(packed.rows):
        out[i, :len(x)] = x
    return out.view(Tensor), lengths.view(Tensor)
