"""P06: parallel_unique returns the sorted distinct values and their exact multiplicities."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq
from checks.p01_sort import arrays, OTHER

check = Check("P06", quick_scale=1.6, shards=2, rule=(
    "Distributed arrays (integers, floats, strings, booleans, record pairs) with values spanning several ranks, constant arrays, empty ranks; "
    "all combinations of arr_sorted / return_counts / repartition_output. Oracle: numpy.unique of the concatenation. "
    "Non-trivial: at least two ranks hold data and there are duplicates."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    kind = draw(st.sampled_from(gen.INT_DTYPES + gen.FLOAT_DTYPES + ["pair"] * 3 + ["bool", "S4", "U3", "complex128"]))
    c["dtype"] = kind
    if kind == "pair" or kind in OTHER:
        c["data"] = draw(gen.distributed(n, "int32", mode=draw(st.sampled_from(["small", "mid"]))))
        c["b"] = draw(st.sampled_from([1, 3, 1000]))
    else:
        c["data"] = draw(gen.distributed(n, kind, mode=draw(st.sampled_from(gen.MODES + ["small"] * 3))))
    c["shape"] = draw(st.sampled_from(["asis", "asis", "reverse", "sorted", "const"]))
    c["presort"] = draw(st.booleans())
    c["return_counts"] = draw(st.booleans())
    c["repartition"] = draw(st.booleans())
    c["wrap"] = draw(st.sampled_from(["", "", "unyt"])) if kind != "pair" and kind not in OTHER else ""
    return c


@check.sub(cases(), 2400, 60000)
def unique(c):
    arrs = arrays(c)
    allin = np.concatenate(arrs)
    out = mpi.pool().call("unique", [
        {"arr": a, "presort": c["presort"], "return_counts": c["return_counts"], "repartition": c["repartition"],
         "wrap": c["wrap"], "default_comm": c["default"]} for a in arrs], c["order"])
    u, cnt = np.unique(allin, return_counts=True)
    eq(np.concatenate([o[0] for o in out]), u, "unique values")
    for r, o in enumerate(out):
        ck(o[0].dtype == allin.dtype, "dtype changed on rank %d: %s" % (r, o[0].dtype))
        ck(o[3] or len(arrs[r]) == 0, "units lost on rank %d" % r)
        if c["return_counts"]:
            ck(o[1].shape == o[0].shape, "counts and values have different lengths on rank %d" % r)
        if not c["presort"]:
            eq(o[2], arrs[r], "input (must not change)")
    if c["return_counts"]:
        eq(np.concatenate([o[1] for o in out]), cnt, "counts")
    if c["repartition"]:
        n = [len(o[0]) for o in out]
        ck(max(n) - min(n) <= 1, "output not evenly distributed: %r" % (n,))
    return gen.nranks_with_data(arrs) >= 2 and len(u) < len(allin)
