"""P10: collective_read / collective_write."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi, paths
from vt.util import check as ck, eq
from checks.p02_move import mk

check = Check("P10", quick_scale=3, shards=2, rule=(
    "Datasets of 1-3 dimensions and several types written collectively from arbitrary (also empty) per-rank pieces and read "
    "back collectively by any number of ranks, with I/O buffers from one element up to unlimited so that ranks need "
    "different numbers of iterations; storage settings applied to datasets of any shape. Oracle: the file read serially with h5py; concatenation over ranks in rank order. "
    "Non-trivial: at least two ranks and several buffer iterations or an uneven split."))

DT = ["int8", "uint16", "int32", "int64", "float32", "float64", "uint64", "S5", "bool", "float16", "complex64", "rec"]


@st.composite
def writes(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["counts"] = draw(gen.counts(n, 25))
    c["trail"] = draw(st.sampled_from([(), (), (), (3,), (2, 2), (1, 3, 2), (0,)]))
    c["dtype"] = draw(st.sampled_from(DT))
    c["buf"] = draw(st.sampled_from([None, 0, 1, 2, 3, 7, 10]))   # elements per I/O operation
    c["slop"] = draw(st.integers(0, 1))
    c["group"] = draw(st.sampled_from([None, "G", "A/B"]))
    c["create"] = draw(st.sampled_from([True, True, False]))
    c["layout"] = draw(st.sampled_from(["C", "F", "strided"]))
    c["extra"] = draw(st.sampled_from([{}, {}, {"gzip": 4}, {"shuffle": True, "chunk": 3}]))
    return c


def bufsize(c):
    if c["buf"] is None:
        return None
    item = mk(c["dtype"], [0]).dtype.itemsize * int(np.prod(c["trail"]))
    if c["buf"] == 0:                   # smaller than one element (row)
        return max(1, item - 1)
    return item * c["buf"] + (c["slop"] * max(0, item - 1))


@check.sub(writes(), 500, 15000)
def write(c):
    d = paths.fresh_dir()
    try:
        pos, arrs = 0, []
        for m in c["counts"]:
            arrs.append(mk(c["dtype"], list(range(pos, pos + m)), c["trail"]))
            pos += m
        whole = np.concatenate(arrs)
        fn = os.path.join(d, "f.h5")
        out = mpi.pool().call("coll_write", [
            {"file": fn, "group": c["group"], "name": "data", "data": a, "buffer": bufsize(c), "create": c["create"],
             "full_shape": whole.shape, "layout": c["layout"], "extra": c["extra"] if c["create"] else {}}
            for a in arrs], c["order"])
        with h5py.File(fn, "r") as f:
            ds = f[(c["group"] + "/" if c["group"] else "") + "data"]
            eq(ds[...], whole, "dataset in the file")
            ck(ds.dtype == whole.dtype, "dataset type is %s" % ds.dtype)
        for s in out:
            ck(s == whole.shape, "shape of returned dataset")
        return len(arrs) >= 2 and gen.nranks_with_data(arrs) >= 2 and (c["buf"] is not None or len(set(c["counts"])) > 1)
    finally:
        paths.drop(d)


@st.composite
def reads(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["ntot"] = draw(st.one_of(st.integers(0, 12), st.integers(10 * n - 2, 10 * n + 2), st.integers(10 * n, 40 * n)))
    c["ntot"] = max(0, c["ntot"])
    c["trail"] = draw(st.sampled_from([(), (), (), (3,), (2, 2), (1, 3, 2), (0,)]))
    c["dtype"] = draw(st.sampled_from(DT))
    c["buf"] = draw(st.sampled_from([None, 0, 1, 2, 3, 7, 10]))
    c["slop"] = draw(st.integers(0, 1))
    return c


@check.sub(reads(), 500, 15000)
def read(c):
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "f.h5")
        whole = mk(c["dtype"], list(range(c["ntot"])), c["trail"])
        with h5py.File(fn, "w") as f:
            f["data"] = whole
        n = len(c["order"])
        out = mpi.pool().call("coll_read", [{"file": fn, "name": "data", "buffer": bufsize(c)}] * n, c["order"])
        eq(np.concatenate(out), whole, "data read")
        ln = [len(o) for o in out]
        ck(max(ln) - min(ln) <= 1, "not split equally between ranks: %r" % ln)
        ck(all(o.dtype == whole.dtype for o in out), "dtype changed")
        if c["ntot"] >= 10 * n:
            event("collective path")
        return n >= 2 and c["ntot"] >= 10 * n
    finally:
        paths.drop(d)


@st.composite
def settings(draw):
    trail = draw(st.sampled_from([(), (), (3,), (2, 2), (0,)]))
    return {"n": draw(st.sampled_from([0, 1, 2, 5, 40, 1000])), "trail": trail, "dtype": draw(st.sampled_from(["i4", "f8", "u1"])),
            "gzip": draw(st.sampled_from([None, None, 0, 1, 9])), "shuffle": draw(st.booleans()),
            "chunk": draw(st.sampled_from([None, 1, 3, 40, 5000, 7.0])), "chunked": draw(st.sampled_from([None, None, None, 2, 6])),
            "seed": draw(st.integers(0, 99))}


@check.sub(settings(), 250, 5000)
def storage_settings(c):
    """The property list made from the compression options (with a HDF5 new enough for parallel compression) can be used."""
    from virgo.mpi.parallel_hdf5 import compress_dcpl
    shape = (c["n"],) + tuple(c["trail"])
    if c["chunked"] and (0 in shape or c["chunked"] > c["n"]):
        return False
    data = np.random.default_rng(c["seed"]).integers(0, 9, shape).astype(c["dtype"])
    dcpl = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
    if c["chunked"]:
        dcpl.set_chunk((c["chunked"],) + tuple(c["trail"]))
    def describe(x):
        return (x.get_layout(), x.get_nfilters(), x.get_chunk() if x.get_layout() == h5py.h5d.CHUNKED else None)
    before = describe(dcpl)
    real = h5py.version.hdf5_version_tuple
    h5py.version.hdf5_version_tuple = (1, 14, 0)
    try:
        new = compress_dcpl(dcpl, list(shape), gzip=c["gzip"], shuffle=c["shuffle"], chunk=c["chunk"])
    finally:
        h5py.version.hdf5_version_tuple = real
    ck(describe(dcpl) == before, "the caller's property list was changed: %r -> %r" % (before, describe(dcpl)))
    filters = set()
    if new is not None:
        filters = {new.get_filter(i)[0] for i in range(new.get_nfilters())}
        lay, _, chunk = describe(new)
        if c["chunked"]:
            ck(chunk == before[2], "chunks were set by the caller, but changed to %r" % (chunk,))
        elif chunk is not None:
            ck(chunk[1:] == shape[1:] and 1 <= chunk[0] <= max(1, min(shape[0], int(c["chunk"] or shape[0]))), "chunk shape %r" % (chunk,))
        if filters:
            want = ({h5py.h5z.FILTER_DEFLATE} if c["gzip"] is not None else set()) | ({h5py.h5z.FILTER_SHUFFLE} if c["shuffle"] else set())
            ck(filters == want, "filters %r" % (filters,))
    d = paths.fresh_dir()
    try:
        with h5py.File(os.path.join(d, "f.h5"), "w") as f:
            ds = h5py.Dataset(h5py.h5d.create(f.id, b"x", h5py.h5t.py_create(data.dtype), h5py.h5s.create_simple(shape), dcpl=new))
            ds[...] = data
        with h5py.File(os.path.join(d, "f.h5"), "r") as f:
            eq(f["x"][...], data, "data with these settings")
    finally:
        paths.drop(d)
    return bool(filters) or new is None
