"""File-backed stand-in for h5py: named arrays in one pickle; reads can be made to fail.

FAULT, if set, is called with (file name, dataset name, number of reads so far) before every read of a
dataset and may raise (e.g. MemoryError).
"""
import pickle

import numpy as np

FAULT = None
READS = [0]


class Dataset:
    def __init__(self, owner, name, data):
        self._owner, self._name, self._data = owner, name, data

    def _touch(self):
        READS[0] += 1
        if FAULT is not None:
            FAULT(self._owner.filename, self._name, READS[0])

    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    def __len__(self):
        return len(self._data)

    def __getitem__(self, key):
        self._touch()
        out = self._data[key]
        return out.copy() if isinstance(out, np.ndarray) else out

    def __array__(self, dtype=None):
        self._touch()
        return np.array(self._data, dtype=dtype)

    def __iter__(self):
        return iter(self[:])


class File:
    def __init__(self, name, mode="r"):
        self.filename, self.mode = str(name), mode
        if mode == "w":
            self._data = {}
            with open(self.filename, "wb") as f:
                f.write(b"")
        else:
            with open(self.filename, "rb") as f:
                self._data = pickle.load(f)
        self._open = True

    def create_dataset(self, name, data=None, **_):
        data = np.array(data)
        if data.dtype == object:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        self._data[name] = data
        return Dataset(self, name, data)

    def __contains__(self, name):
        return name in self._data

    def __getitem__(self, name):
        if not self._open:
            raise ValueError("file is closed")
        return Dataset(self, name, self._data[name])

    def keys(self):
        return self._data.keys()

    def close(self):
        if self._open and self.mode == "w":
            with open(self.filename, "wb") as f:
                pickle.dump(self._data, f)
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False
