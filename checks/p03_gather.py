"""P03: gather_array / allgather_array concatenate in rank order."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P03", quick_scale=3, shards=2, rule=(
    "1-3 dimensional arrays with different (possibly zero) extents along the gather axis on 1-8 real ranks, every root, "
    "gather and allgather, C, Fortran-ordered and strided inputs. Oracle: numpy.concatenate in rank order. "
    "Non-trivial: at least two ranks contribute elements."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    nd = draw(st.integers(1, 3))
    c["axis"] = draw(st.integers(0, nd - 1))
    c["negaxis"] = draw(st.sampled_from([0, 0, nd]))        # the same axis, counted from the end
    c["other"] = draw(st.lists(st.sampled_from([1, 2, 3, 4, 0]), min_size=nd - 1, max_size=nd - 1))
    c["counts"] = draw(gen.counts(n, 12))
    c["all"] = draw(st.booleans())
    c["root"] = draw(st.integers(0, n - 1))
    if c["all"] and draw(st.booleans()):
        c["root"] = None
    c["dtype"] = draw(st.sampled_from(["int8", "uint8", "int32", "int64", "uint64", "float32", "float64", "bool", "complex64"]))
    c["layout"] = draw(st.sampled_from(["C", "F", "strided"]))
    return c


def build(c):
    arrs = []
    v = 1
    for m in c["counts"]:
        shape = list(c["other"])
        shape.insert(c["axis"], m)
        size = int(np.prod(shape))
        a = (np.arange(v, v + size) * 7 % 127)
        if c["dtype"] == "bool":
            a = a % 3 == 0
        a = a.astype(c["dtype"]).reshape(shape)
        v += size
        if c["layout"] == "F":
            a = np.asfortranarray(a)
        elif c["layout"] == "strided":
            b = np.zeros([2 * s for s in shape], dtype=a.dtype)
            sl = tuple(slice(None, None, 2) for _ in shape)
            b[sl] = a
            a = b[sl]
        arrs.append(a)
    return arrs


@check.sub(cases(), 2000, 50000)
def gather(c):
    arrs = build(c)
    # pickling would make strided arrays contiguous, so rebuild the layout on the rank
    out = mpi.pool().call("gather", [
        {"arr": a, "layout": c["layout"], "all": c["all"], "root": c["root"], "axis": c["axis"] - c["negaxis"],
         "default_comm": c["default"]} for a in arrs], c["order"])
    want = np.concatenate(arrs, axis=c["axis"])
    for r, o in enumerate(out):
        if c["all"] or r == c["root"]:
            ck(o is not None, "rank %d got no result" % r)
            eq(o, want, "gathered array on rank %d" % r)
            ck(o.dtype == want.dtype, "dtype changed")
        else:
            ck(o is None, "rank %d is not the root but got a result" % r)
    return sum(1 for a in arrs if a.size) >= 2
