"""Stand-in for the netCDF4 module (not installed here): reads the same contents from a JSON file."""
import json

import numpy


class _Variable:
    def __init__(self, d):
        self._data = numpy.ma.masked_array(numpy.array([x if x is not None else 1.0e+35 for x in d["data"]], dtype="f4" if len(d["shape"]) > 1 else "f8"),
                                           mask=[x is None for x in d["data"]]).reshape(d["shape"])
        if not self._data.mask.any():
            self._data = numpy.ma.masked_array(self._data.data)
        for k, v in d["attrs"].items():
            setattr(self, k, v)

    size = property(lambda self: self._data.size)
    shape = property(lambda self: self._data.shape)

    def __getitem__(self, i):
        return self._data[i]

    def __len__(self):
        return len(self._data)


class Dataset:
    def __init__(self, filename, mode="r"):
        with open(filename, encoding="utf-8") as fin:
            d = json.load(fin)
        for k, v in d["attrs"].items():
            setattr(self, k, v)
        self.variables = {k: _Variable(v) for k, v in d["variables"].items()}
