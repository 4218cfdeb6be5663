"""P21: read_multi."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import fill
from vt.util import check as ck, eq, must_raise, same_dtype

check = Check("P21", quick_scale=6, shards=6, rule=(
    "File sets (1-6 files; HDF5 or a user-defined BinaryFile class taking extra positional and keyword arguments), index "
    "sequences in any order with repeats, 1-3 datasets (nested paths, 1-3 dimensions, zero-length pieces, absent from some files, with a type that may change along the set), "
    "concatenated along any axis. Oracle: numpy.concatenate of what was written. Non-trivial: at least two files and a "
    "dataset which is absent or empty in one of them, or axis > 0."))

NAMES = ["A", "Grp/B", "Grp/Sub/C"]


@st.composite
def sets(draw):
    nf = draw(st.sampled_from([1, 2, 3, 4, 5, 6] * 2 + [12]))
    nd = draw(st.integers(1, 3))
    axis = draw(st.sampled_from([0, 0, 0, 1, -1]))
    idx = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=8))
    if draw(st.booleans()):
        idx = list(range(nf))
    ds = []
    for j in range(nd):
        ndim = draw(st.integers(2 if axis == 1 else 1, 3))
        inner = [draw(st.sampled_from([1, 2, 3])) for _ in range(ndim)]
        n = [draw(st.sampled_from([0, 1, 2, 5])) for _ in range(nf)]
        here = [draw(st.sampled_from([True, True, True, False])) for _ in range(nf)]
        here[idx[0]] = True
        dt = [draw(st.sampled_from(["i4", "i8", "f4", "f8", "u8", "i1"]))] * nf
        if draw(st.integers(0, 3)) == 0:                # the type may change along the file set
            dt = [draw(st.sampled_from([["i4", "i8"], ["f4", "f8"], ["i1", "i4", "i8"]][draw(st.integers(0, 2))])) for _ in range(nf)]
        ds.append({"name": NAMES[j], "dtype": dt, "inner": inner, "n": n,
                   "here": here})
    return {"nf": nf, "idx": idx, "idxtype": draw(st.sampled_from(["list", "tuple", "array", "range"])), "ds": ds, "axis": axis,
            "binary": draw(st.booleans()), "pad": draw(st.sampled_from([1, 3, 16])), "swap": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["f.%(i)d", "f_%(i)03d.x", "%(i)d/data", "a%(i)d_%(i)02d"])), "seed": draw(st.integers(0, 999)),
            "extra": draw(st.booleans())}


@check.sub(sets(), 900, 25000)
def concatenates(c):
    from virgo.util.read_multi import read_multi
    from virgo.util.read_binary import BinaryFile
    d = paths.fresh_dir()
    try:
        rng = np.random.default_rng(c["seed"])
        data = []
        for i in range(c["nf"]):
            row = {}
            for s in c["ds"]:
                if s["here"][i]:
                    sh = list(s["inner"])
                    sh[c["axis"]] = s["n"][i]
                    row[s["name"]] = fill(rng, s["dtype"][i], tuple(sh))
            data.append(row)
        fmt = os.path.join(d, c["fmt"])
        swap = ">" if c["swap"] else "<"
        for i in range(c["nf"]):
            fn = fmt % {"i": i}
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            if c["binary"]:
                with open(fn, "wb") as f:
                    f.write(b"\7" * c["pad"])
                    for v in data[i].values():
                        f.write(v.astype(v.dtype.newbyteorder(swap)).tobytes())
            else:
                with h5py.File(fn, "w") as f:
                    for k, v in data[i].items():
                        f[k] = v
        seen = []

        class Reader(BinaryFile):
            def __init__(self, fname, pad, swapped=False):
                BinaryFile.__init__(self, fname)
                seen.append((pad, swapped))
                self.skip_bytes(pad)
                if swapped:
                    self.enable_byteswap(True)
                k = [i for i in range(c["nf"]) if fmt % {"i": i} == fname][0]
                for nm, v in data[k].items():
                    self.add_dataset(nm, v.dtype, v.shape)

        idx = c["idx"]
        if c["idxtype"] == "range" and idx != list(range(len(idx))):
            arg = list(idx)
        else:
            arg = {"list": list(idx), "tuple": tuple(idx), "array": np.array(idx), "range": range(len(idx))}[c["idxtype"]]
        names = [s["name"] for s in c["ds"]]
        if c["binary"]:
            if c["extra"]:
                got = read_multi(fmt, arg, names, Reader, c["axis"], c["pad"], swapped=c["swap"])
            else:
                got = read_multi(fmt, arg, names, file_type=Reader, axis=c["axis"], pad=c["pad"], swapped=c["swap"])
            ck(seen == [(c["pad"], c["swap"])] * len(idx), "arguments passed to the file class: %r" % seen)
        else:
            got = read_multi(fmt, arg, names, axis=c["axis"]) if c["axis"] or c["extra"] else read_multi(fmt, arg, names)
        ck(list(got.keys()) == names, "keys %r" % list(got.keys()))
        nt = c["axis"] != 0
        for s in c["ds"]:
            parts = [data[i][s["name"]] for i in idx if s["here"][i]]
            eq(got[s["name"]], np.concatenate(parts, axis=c["axis"]), s["name"])
            same_dtype(got[s["name"]], np.result_type(*[p.dtype for p in parts]), s["name"])
            nt |= len(parts) < len(idx) or any(p.size == 0 for p in parts)
        # a missing file is an error (a BinaryFile is only opened when something is read from it)
        if not c["binary"] or any(v.size for v in data[idx[-1]].values()):
            os.remove(fmt % {"i": idx[-1]})
            kw = dict(file_type=Reader, axis=c["axis"], pad=c["pad"], swapped=c["swap"]) if c["binary"] else dict(axis=c["axis"])
            must_raise(IOError, lambda: {k: v for k, v in read_multi(fmt, arg, names, **kw).items()})
        return nt and len(idx) >= 2
    finally:
        paths.drop(d)
