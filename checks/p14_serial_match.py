"""P14: serial match."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen
from vt.util import check as ck, eq

check = Check("P14", quick_scale=5, shards=6, rule=(
    "Pairs of arrays of integer, float, string and mixed integer types, big- or little-endian, strided or not, with "
    "duplicates, empty arrays, extreme values; arr2 presorted, with a supplied sorting index, or neither. Oracle: set "
    "membership in python. Non-trivial: some element matches and some does not."))

POOL = [0, 1, 2, 3, 5, 127, 128, 255, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 60, 2 ** 60 + 1, 2 ** 63 - 2,
        2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -1, -2, -128, -2 ** 31, -2 ** 63]


@st.composite
def cases(draw):
    c = {}
    kind = draw(st.sampled_from(["int", "mixed", "int", "mixed", "float", "str", "intfloat", "bool"]))
    if kind in ("int", "mixed"):
        c["dtype1"] = draw(st.sampled_from(gen.INT_DTYPES))
        c["dtype2"] = c["dtype1"]
        if kind == "mixed":
            c["dtype1"], c["dtype2"] = draw(st.sampled_from([
                ("int64", "uint64"), ("uint64", "int64"), ("int32", "uint64"), ("uint64", "int8"), ("uint32", "int64"),
                ("int16", "int64"), ("int64", "int32"), ("int64", "uint64"), ("uint64", "int64")]))

        def v(dt):
            info = np.iinfo(dt)
            return [x for x in POOL if info.min <= x <= info.max], (int(info.min), int(info.max))
        (p1, r1), (p2, r2) = v(c["dtype1"]), v(c["dtype2"])
        both = st.sampled_from([x for x in p1 if x in p2])
        v1 = both | both | st.sampled_from(p1) | st.integers(*r1) | st.integers(max(r1[0], -6), 60)
        v2 = both | both | st.sampled_from(p2) | st.integers(*r2) | st.integers(max(r2[0], -6), 60)
    elif kind == "float":
        c["dtype1"] = draw(st.sampled_from(["float32", "float64"]))
        c["dtype2"] = draw(st.sampled_from(["float32", "float64", c["dtype1"]]))
        v1 = v2 = st.sampled_from([np.nan, -np.inf, -2.5, -1.0, 0.0, 0.25, 1.0, 3.0, 1e30, np.inf]) | st.integers(-50, 50).map(lambda x: x / 4)
    elif kind == "intfloat":
        c["dtype1"], c["dtype2"] = draw(st.sampled_from([("int64", "float64"), ("float64", "uint64"), ("float32", "int16"),
                                                         ("uint8", "float32"), ("float64", "int32")]))
        v1 = v2 = st.integers(0, 40)
        if "f" in c["dtype1"]:
            v1 = v1 | st.sampled_from([0.5, 1.5, -3.0])
    elif kind == "bool":
        c["dtype1"] = c["dtype2"] = "bool"
        v1 = v2 = st.booleans()
    else:
        c["dtype1"], c["dtype2"] = draw(st.sampled_from([("U3", "U3"), ("S4", "S4"), ("U3", "U5"), ("S6", "S3")]))
        v1 = v2 = st.text("abAB", max_size=3)
    c["v2"] = draw(st.lists(v2, max_size=draw(st.sampled_from([3, 8, 30]))))
    ok = c["v2"]
    if kind == "mixed":
        ok = [x for x in c["v2"] if r1[0] <= x <= r1[1]]
    if kind != "float" and ok:
        v1 = st.sampled_from(ok) | st.sampled_from(ok) | v1
    c["v1"] = draw(st.lists(v1, max_size=draw(st.sampled_from([3, 8, 30]))))
    c["how"] = draw(st.sampled_from(["plain", "sorted", "index"]))
    c["swap1"], c["swap2"] = draw(st.booleans()), draw(st.booleans())
    c["stride"] = draw(st.sampled_from(["none", "1", "2"]))
    return c


def build(vals, dt, swap, stride):
    if np.dtype(dt).kind == "S":
        vals = [v.encode() for v in vals]
    a = np.array(vals, dtype=dt)
    if swap and a.dtype.kind in "iuf":
        a = a.astype(a.dtype.newbyteorder(">"))
    if stride:
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    return a


@check.sub(cases(), 5000, 200000)
def match(c):
    from virgo.util.match import match as f
    a1 = build(c["v1"], c["dtype1"], c["swap1"], c["stride"] == "1")
    a2 = build(c["v2"], c["dtype2"], c["swap2"], c["stride"] == "2")
    kw = {}
    if c["how"] == "sorted":
        a2 = np.sort(a2)
        kw["arr2_sorted"] = True
    elif c["how"] == "index":
        kw["arr2_index"] = np.argsort(a2, kind="stable")
    k1, k2 = a1.copy(), a2.copy()
    idx = f(a1, a2, **kw)
    eq(a1, k1, "arr1 (must not change)")
    eq(a2, k2, "arr2 (must not change)")
    idx = np.asarray(idx)
    ck(idx.shape == (len(a1),) and idx.dtype.kind == "i", "result has shape %r type %s" % (idx.shape, idx.dtype))
    l2 = a2.tolist()
    s2 = set(l2)
    yes = no = False
    for x, i in zip(a1.tolist(), idx.tolist()):
        if x in s2:
            ck(0 <= i < len(l2) and l2[i] == x, "%r occurs in arr2=%r but index %r was returned" % (x, l2, i))
            yes = True
        else:
            ck(i == -1, "%r does not occur in arr2=%r but index %r was returned" % (x, l2, i))
            no = True
    event(c["how"])
    return yes and no


@check.sub(cases(), 1200, 40000)
def back_and_forth(c):
    """With unique values, matching both ways gives inverse maps."""
    from virgo.util.match import match as f
    a1 = np.unique(build(c["v1"], c["dtype1"], c["swap1"], False))
    a2 = np.unique(build(c["v2"], c["dtype2"], c["swap2"], False))[::-1]
    i12, i21 = f(a1, a2), f(a2, a1)
    for i, j in enumerate(i12):
        if j >= 0:
            ck(i21[j] == i, "match is not consistent both ways")
    for j, i in enumerate(i21):
        if i >= 0:
            ck(i12[i] == j, "match is not consistent both ways")
    return bool(np.any(i12 >= 0) and np.any(i12 < 0))
