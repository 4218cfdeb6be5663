"""P04: fetch_elements returns arr[index] of a distributed array."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq
from checks.p02_move import mk

check = Check("P04", quick_scale=1.8, shards=2, rule=(
    "Distributed 1-3 dimensional arrays of many types (record arrays, unyt/AttributeArray subclasses, C and Fortran order), "
    "arbitrary global indexes with duplicates in any order on every rank, optional result array (contiguous or strided view). "
    "Oracle: fancy indexing of the concatenated array. Non-trivial: some requested element lives on another rank."))

DT = ["int8", "uint16", "int32", "int64", "float32", "float64", "uint64", "rec", "bool", "complex64", "S5"]


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["nin"] = draw(gen.counts(n, 20))
    tot = sum(c["nin"])
    if tot == 0 and draw(st.integers(0, 3)) > 0:
        c["nin"][draw(st.integers(0, n - 1))] = 3
        tot = 3
    if tot > 0:
        cnt = draw(gen.counts(n, 25))
        edge = [0, tot - 1]
        pos = 0
        for m in c["nin"]:
            edge += [min(pos, tot - 1), max(0, pos - 1)]
            pos += m
        el = st.one_of(st.integers(0, tot - 1), st.sampled_from(sorted(set(edge))))
        c["index"] = [draw(st.lists(el, min_size=k, max_size=k)) for k in cnt]
        s = draw(st.sampled_from(["asis", "asis", "sorted", "reversed"]))
        if s != "asis":
            c["index"] = [sorted(i, reverse=(s == "reversed")) for i in c["index"]]
    else:
        c["index"] = [[] for _ in range(n)]
    c["itype"] = draw(st.sampled_from(["int64", "int32", "uint64", "list"]))
    c["trail"] = draw(st.sampled_from([(), (), (), (3,), (2, 3), (1,), (0,)]))
    c["dtype"] = draw(st.sampled_from(DT))
    c["wrap"] = draw(st.sampled_from(["", "", "unyt", "attr"])) if c["dtype"] not in ("rec", "bool", "S5") else ""
    c["layout"] = draw(st.sampled_from(["C", "C", "F", "strided"]))
    c["result"] = draw(st.sampled_from([None, None, "C", "F", "strided"]))
    return c


@check.sub(cases(), 2500, 60000)
def fetch(c):
    n = len(c["order"])
    pos, arrs = 0, []
    for m in c["nin"]:
        arrs.append(mk(c["dtype"], list(range(pos, pos + m)), c["trail"]))
        pos += m
    whole = np.concatenate(arrs)
    pay = []
    for r in range(n):
        ix = c["index"][r]
        res = None
        if c["result"]:
            res = np.zeros((len(ix),) + tuple(c["trail"]), dtype=whole.dtype)
        pay.append({"arr": arrs[r], "index": ix if c["itype"] == "list" else np.array(ix, dtype=c["itype"]),
                    "result": res, "rlayout": c["result"], "layout": c["layout"],
                    "wrap": c["wrap"] if not c["result"] else "", "default_comm": c["default"]})
    out = mpi.pool().call("fetch", pay, c["order"])
    for r in range(n):
        eq(out[r][0], whole[np.array(c["index"][r], dtype=int)], "elements fetched by rank %d" % r)
        ck(out[r][0].dtype == whole.dtype, "dtype changed")
        ck(out[r][1], "wrong kind of return value on rank %d" % r)
        eq(out[r][2], arrs[r], "input array (must not change)")
        ck(list(out[r][3]) == c["index"][r], "index array was modified")
    if c["result"]:
        event("result array " + c["result"])
    start = np.cumsum(c["nin"]) - c["nin"]
    return any(not (start[r] <= i < start[r] + c["nin"][r]) for r in range(n) for i in c["index"][r])
