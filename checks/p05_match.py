"""P05: parallel_match finds a matching element wherever it is, and only real matches."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P05", quick_scale=1.8, shards=2, rule=(
    "Pairs of distributed arrays (all integer and float types, duplicates in both, empty ranks, disjoint and overlapping "
    "value ranges, extreme values), arr2 unsorted or parallel-sorted. Oracle: set membership; a returned index must point "
    "at an equal element. Non-trivial: some elements match, some do not, or arr2 has duplicates, on >= 2 ranks."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["dtype1"] = draw(st.sampled_from(gen.INT_DTYPES + gen.FLOAT_DTYPES))
    c["dtype2"] = c["dtype1"]
    mode = draw(st.sampled_from(gen.MODES + ["small", "mid"]))
    if mode in ("small", "mid") and draw(st.integers(0, 3)) == 0:
        c["dtype2"] = {"int32": "int64", "int64": "int32", "float32": "float64", "float64": "float32"}.get(
            c["dtype1"], c["dtype1"])
    c["d1"] = draw(gen.distributed(n, c["dtype1"], mode=mode, big=15))
    c["d2"] = draw(gen.distributed(n, c["dtype2"], mode=mode, big=15))
    c["presort"] = draw(st.booleans())
    # unique2: no duplicates in arr2;  layout2: how the values are arranged before distribution
    c["unique2"] = draw(st.booleans())
    c["arrange"] = draw(st.sampled_from(["asis", "sorted", "reverse"]))
    c["nan"] = [draw(st.sampled_from([0, 0, 2, 5])), draw(st.sampled_from([0, 0, 2, 5]))]
    return c


def arrays(c):
    a1 = gen.expand(c["d1"], c["dtype1"])
    a2 = gen.expand(c["d2"], c["dtype2"])
    for a, k in zip((a1, a2), c["nan"]):
        for x in a:
            if k and x.dtype.kind == "f":
                x[::k] = np.nan
    if c["unique2"]:
        u, first = np.unique(np.concatenate(a2), return_index=True)
        keep = np.zeros(sum(map(len, a2)), dtype=bool)
        keep[first] = True
        pos = 0
        for k in range(len(a2)):
            m = len(a2[k])
            a2[k] = a2[k][keep[pos:pos + m]]
            pos += m
    if c["arrange"] != "asis":
        whole = np.sort(np.concatenate(a2))
        if c["arrange"] == "reverse":
            whole = whole[::-1]
        pos = 0
        for k in range(len(a2)):
            m = len(a2[k])
            a2[k] = whole[pos:pos + m].copy()
            pos += m
    return a1, a2


@check.sub(cases(), 2400, 60000)
def match(c):
    a1, a2 = arrays(c)
    n = len(a1)
    out = mpi.pool().call("match", [
        {"arr1": a1[r], "arr2": a2[r], "presort": c["presort"], "default_comm": c["default"]} for r in range(n)],
        c["order"])
    whole2 = np.concatenate([o[2] for o in out])
    eq(np.sort(whole2), np.sort(np.concatenate(a2)), "arr2 contents (must not change)")
    if not c["presort"]:
        eq(whole2, np.concatenate(a2), "arr2 (must not change)")
    some, none = False, False
    for r in range(n):
        idx = out[r][0]
        eq(out[r][1], a1[r], "arr1 (must not change)")
        ck(idx.shape == a1[r].shape, "result on rank %d has shape %r" % (r, idx.shape))
        ck(idx.dtype.kind == "i", "index dtype is %s" % idx.dtype)
        present = np.isin(a1[r], whole2)
        # whether a NaN matches another one is not specified
        nan = (a1[r] != a1[r]) & (idx >= 0) & (idx < len(whole2))
        ck(all(whole2[i] != whole2[i] for i in idx[nan]), "a NaN matches a number")
        idx = np.where(nan, -1, idx)
        ck(np.array_equal(idx >= 0, present) and np.all(idx[~present] == -1),
           "matches on rank %d: got %r, element present: %r" % (r, idx, present))
        ck(np.all(idx < len(whole2)), "index out of range")
        eq(whole2[idx[present]], a1[r][present], "matched values")
        some |= bool(present.any())
        none |= bool((~present).any())
    if some and none:
        event("some match, some do not")
    if len(np.unique(whole2)) < len(whole2):
        event("duplicates in arr2")
    return n >= 2 and gen.nranks_with_data(a2) >= 2 and some


@st.composite
def mixed_cases(draw):
    """Different integer types, including signed against unsigned 64 bit."""
    c = draw(gen.comms())
    n = len(c["order"])
    c["dtype1"] = draw(st.sampled_from(["int64", "uint64", "int32", "uint32", "int8", "uint16"]))
    c["dtype2"] = draw(st.sampled_from([d for d in ["int64", "uint64", "int32", "uint32", "uint8"] if d != c["dtype1"]]))
    pool = [0, 1, 2, 255, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 60, 2 ** 60 + 1, 2 ** 60 + 2, 2 ** 63 - 2,
            2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -1, -2, -128, -2 ** 31, -2 ** 63]
    for k in "12":
        info = np.iinfo(c["dtype" + k])
        v = st.sampled_from([x for x in pool if info.min <= x <= info.max])
        c["v" + k] = [draw(st.lists(v, min_size=m, max_size=m)) for m in draw(gen.counts(n, 8))]
    c["presort"] = draw(st.booleans())
    return c


@check.sub(mixed_cases(), 700, 20000)
def mixed_types(c):
    a1 = [np.array(v, dtype=c["dtype1"]) for v in c["v1"]]
    a2 = [np.array(v, dtype=c["dtype2"]) for v in c["v2"]]
    n = len(a1)
    out = mpi.pool().call("match", [
        {"arr1": a1[r], "arr2": a2[r], "presort": c["presort"], "default_comm": c["default"]} for r in range(n)],
        c["order"])
    whole2 = [int(x) for o in out for x in o[2]]
    some = False
    for r in range(n):
        idx = out[r][0]
        ck(idx.shape == a1[r].shape, "shape")
        for x, i in zip(c["v1"][r], idx):
            if x in whole2:
                ck(0 <= i < len(whole2) and whole2[i] == x, "%d is in arr2 %r but index %d was returned" % (x, whole2, i))
                some = True
            else:
                ck(i == -1, "%d is not in arr2 %r but index %d was returned" % (x, whole2, i))
    return some and n >= 2
