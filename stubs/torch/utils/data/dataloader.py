"""In-order batching of a map-style dataset, as torch's default collation does it."""
import numpy as np
from torch import Tensor


def collate(items):
    first = items[0]
    if isinstance(first, dict):
        return {key: collate([item[key] for item in items]) for key in first}
    if isinstance(first, (tuple, list)):
        return type(first)(collate(list(col)) for col in zip(*items))
    return np.array([np.asarray(item) for item in items]).view(Tensor)


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, **_):
        self.dataset = dataset
        self.batch_size = batch_size
        assert not shuffle, "shuffling is not part of the stand-in"

    def __len__(self):
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        n = len(self.dataset)
        for start in range(0, n, self.batch_size):
            yield collate([self.dataset[i] for i in range(start, min(n, start + self.batch_size))])
