"""Independent writers for binary simulation formats (plain numpy/struct)."""
import struct
import numpy as np
from .util import check as ck, eq


class Out:
    """Accumulates bytes in a given byte order."""
    def __init__(self, endian):
        self.e = endian
        self.parts = []
        self.marks = []          # (offset, kind) of interesting places

    def tell(self):
        return sum(map(len, self.parts))

    def put(self, a, dtype=None):
        a = np.asarray(a) if dtype is None else np.asarray(a, dtype=dtype)
        if a.dtype.kind not in "S" and a.dtype.itemsize > 1:
            a = a.astype(a.dtype.newbyteorder(self.e))
        self.parts.append(a.tobytes())
        return self

    def raw(self, b):
        self.parts.append(b)
        return self

    def record(self, *arrays):
        body = b""
        for a in arrays:
            o = Out(self.e)
            o.put(a)
            body += o.bytes()
        m = struct.pack(self.e + "I", len(body))
        self.marks.append((self.tell(), "head"))
        self.parts += [m, body]
        self.marks.append((self.tell(), "tail"))
        self.parts.append(m)
        return self

    def bytes(self):
        return b"".join(self.parts)

    def save(self, fn):
        with open(fn, "wb") as f:
            f.write(self.bytes())


def compare(f, want, what="file", dtypes=True):
    """want: {path: array}; '@' separates an attribute name from its owner."""
    for path, w in want.items():
        w = np.asarray(w)
        if "@" in path:
            own, a = path.split("@")
            got = (f[own] if own else f).attrs[a]
        else:
            ck(path in f, "%s: no dataset %s" % (what, path))
            ds = f[path]
            got = ds[...]
            ck(tuple(ds.shape) == w.shape, "%s: %s has shape %r, expected %r" % (what, path, ds.shape, w.shape))
        got = np.asarray(got)
        eq(got, w, "%s: %s" % (what, path))
        if dtypes:
            ck(got.dtype.newbyteorder("=") == w.dtype.newbyteorder("="),
               "%s: %s has type %s, expected %s" % (what, path, got.dtype, w.dtype))


def dataset_names(f, prefix=""):
    out = set()
    for k in f.keys():
        x = f[k]
        if hasattr(x, "keys"):
            out |= dataset_names(x, prefix + k + "/")
        else:
            out.add(prefix + k)
    return out


def fill(rng, dtype, shape):
    """Distinguishable values of the given type."""
    t = np.dtype(dtype)
    if t.kind == "f":
        return np.asarray(rng.uniform(-1000, 1000, shape)).astype(t)
    if t.kind == "u":
        return np.asarray(rng.integers(0, np.iinfo(t).max, shape, dtype=t)).astype(t)
    return np.asarray(rng.integers(np.iinfo(t).min, np.iinfo(t).max, shape, dtype=t)).astype(t)
