"""P01: parallel_sort sorts a distributed array in place."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P01", quick_scale=1.6, rule=(
    "Arrays of integer, unsigned, float (also NaN), complex, boolean, string and two-field record type, spread over 1-8 real MPI ranks "
    "(sub-communicators in natural, reversed and rotated rank order; empty ranks; duplicates; extreme values). "
    "Oracle: numpy.sort of the concatenation plus permutation check of the returned index. Non-trivial: at least "
    "two ranks hold data and the input is not already globally sorted."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    kind = draw(st.sampled_from(gen.INT_DTYPES + gen.FLOAT_DTYPES * 2 + ["pair"] * 3 + sorted(OTHER)))
    if kind == "pair" or kind in OTHER:
        c["dtype"] = kind
        a = draw(gen.distributed(n, "int32", mode=draw(st.sampled_from(["small", "mid"]))))
        c["b"] = draw(st.sampled_from([1, 3, 1000]))
        c["data"] = a
    else:
        c["dtype"] = kind
        c["data"] = draw(gen.distributed(n, kind))
    c["shape"] = draw(st.sampled_from(["asis", "asis", "reverse", "sorted", "const"]))
    c["index"] = draw(st.booleans())
    c["verbose"] = draw(st.sampled_from([False, False, False, True]))
    c["wrap"] = draw(st.sampled_from(["", "", "", "unyt", "attr"])) if kind != "pair" and kind not in OTHER else ""
    return c


# further types, derived from integers
OTHER = {
    "bool": lambda x: x % 2 == 1,
    "S4": lambda x: np.array([b"%d" % v for v in x], dtype="S4"),
    "U3": lambda x: np.array(["%d" % v for v in x], dtype="U3"),
    "complex128": lambda x: x // 3 + 1j * (x % 3),
    "longdouble": lambda x: x / np.longdouble(3),
    "nan32": lambda x: np.where(x % 4 == 3, np.nan, x).astype("f4"),
    "nan64": lambda x: np.where(x > 1, np.nan, x / 4),
}


def arrays(c):
    if c["dtype"] == "pair":
        a = gen.expand(c["data"], "int32")
        out = []
        for x in a:
            y = np.zeros(len(x), dtype=[("g1", "i4"), ("g2", "i8")])
            y["g1"] = x // c["b"]
            y["g2"] = x % c["b"]
            out.append(y)
    elif c["dtype"] in OTHER:
        out = [np.ascontiguousarray(OTHER[c["dtype"]](x)) for x in gen.expand(c["data"], "int32")]
    else:
        out = gen.expand(c["data"], c["dtype"])
    if c["shape"] == "const":
        for x in out:
            x[...] = x[:1] if len(x) else x
    elif c["shape"] != "asis":
        allx = np.sort(np.concatenate(out), kind="stable")
        if c["shape"] == "reverse":
            allx = allx[::-1]
        pos = 0
        for k, x in enumerate(out):
            out[k] = allx[pos:pos + len(x)].copy()
            pos += len(x)
    return out


@check.sub(cases(), 2200, 60000)
def sort(c):
    arrs = arrays(c)
    res = mpi.pool().call("parallel_sort", [
        {"arr": a, "orig": a.copy(), "index": c["index"], "default_comm": c["default"], "wrap": c["wrap"], "verbose": c["verbose"]} for a in arrs], c["order"])
    allin = np.concatenate(arrs)
    expected = np.sort(allin, kind="stable")
    for k, (r, a) in enumerate(zip(res, arrs)):
        ck(r[0].shape == a.shape, "rank %d holds %r elements after the sort, had %r" % (k, r[0].shape, a.shape))
        ck(r[0].dtype == a.dtype, "dtype changed")
    eq(np.concatenate([r[0] for r in res]), expected, "sorted array")
    if c["index"]:
        for r, a in zip(res, arrs):
            ck(r[1] is not None and r[1].shape == a.shape, "sorting index has the wrong local size")
        idx = np.concatenate([r[1] for r in res])
        ck(np.array_equal(np.sort(idx), np.arange(len(allin))), "index is not a permutation: %r" % (idx,))
        eq(allin[idx], expected, "input[index]")
        eq(np.concatenate([r[2] for r in res]), expected, "fetch_elements(input, index)")
    else:
        ck(all(r[1] is None for r in res), "index returned although not requested")
    nt = gen.nranks_with_data(arrs) >= 2 and not np.array_equal(allin, expected)
    if nt:
        event("nranks=%d" % len(arrs))
        if any(len(a) == 0 for a in arrs):
            event("has empty rank")
        if len(np.unique(allin)) < len(allin):
            event("has duplicates")
        event("dtype " + c["dtype"])
    return nt
