"""P08: group membership computed from group lengths and offsets."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P08", quick_scale=3, shards=2, rule=(
    "Group catalogues in offset order with zero-length groups and gaps of ungrouped particles, groups spanning several "
    "ranks, arbitrary (also empty) distributions of groups and of particles; arrays present on only some ranks for "
    "replace_none_with_zero_size. Oracle: serial loop over groups. Non-trivial: a group's particles or its catalogue "
    "entry are on different ranks."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    ng = draw(st.integers(0, 14))
    ln = st.one_of(st.integers(0, 3), st.integers(0, 25))
    c["length"] = draw(st.lists(ln, min_size=ng, max_size=ng))
    style = draw(st.sampled_from(["dense", "gaps"]))
    c["gap"] = [0] * (ng + 1) if style == "dense" else draw(
        st.lists(st.sampled_from([0, 0, 1, 5]), min_size=ng + 1, max_size=ng + 1))
    c["gcut"] = sorted(draw(st.lists(st.integers(0, ng), min_size=n - 1, max_size=n - 1)))
    tot = sum(c["length"]) + sum(c["gap"])
    cut = st.integers(0, tot)
    bounds = np.cumsum([g + l for g, l in zip(c["gap"], c["length"])]).tolist() or [0]
    c["pcut"] = sorted(draw(st.lists(st.one_of(cut, st.sampled_from(bounds)), min_size=n - 1, max_size=n - 1)))
    c["ltype"] = draw(st.sampled_from(["int32", "int64", "uint32", "uint64"]))
    c["otype"] = draw(st.sampled_from(["int32", "int64", "uint32", "uint64"]))
    c["zero_len_offset"] = draw(st.booleans())
    c["return_rank"] = draw(st.booleans())
    return c


@check.sub(cases(), 2000, 60000)
def group_index(c):
    n = len(c["order"])
    L = np.array(c["length"], dtype=int)
    off, pos = [], 0
    for g, l in zip(c["gap"], c["length"]):
        pos += g
        off.append(pos)
        pos += l
    tot = sum(c["length"]) + sum(c["gap"])
    O = np.array(off, dtype=int)
    grnr = -np.ones(tot, dtype=int)
    rank = -np.ones(tot, dtype=int)
    for i, (o, l) in enumerate(zip(O, L)):
        grnr[o:o + l] = i
        rank[o:o + l] = np.arange(l)
    gb = [0] + c["gcut"] + [len(L)]
    pb = [0] + c["pcut"] + [tot]
    out = mpi.pool().call("group_index", [
        {"length": L[gb[r]:gb[r + 1]].astype(c["ltype"]), "offset": O[gb[r]:gb[r + 1]].astype(c["otype"]),
         "nids": pb[r + 1] - pb[r], "return_rank": c["return_rank"], "default_comm": c["default"]}
        for r in range(n)], c["order"])
    for r in range(n):
        eq(out[r][0], grnr[pb[r]:pb[r + 1]], "group index on rank %d" % r)
        if c["return_rank"]:
            eq(out[r][1], rank[pb[r]:pb[r + 1]], "rank in group on rank %d" % r)
    grank = np.repeat(np.arange(n), np.diff(gb))
    prank = np.repeat(np.arange(n), np.diff(pb))
    cross = any(np.any(prank[o:o + l] != gr) for o, l, gr in zip(O, L, grank))
    if any(l > 0 and prank[o] != prank[o + l - 1] for o, l in zip(O, L)):
        event("group spans ranks")
    return bool(cross)


@st.composite
def nones(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["have"] = draw(st.lists(st.one_of(st.none(), st.integers(0, 5)), min_size=n, max_size=n))
    c["trail"] = draw(st.sampled_from([(), (3,), (2, 4)]))
    c["dtype"] = draw(st.sampled_from(["int32", "uint64", "float32", "float64"]))
    return c


@check.sub(nones(), 500, 10000)
def replace_none(c):
    arrs = [None if h is None else (np.arange(h * int(np.prod(c["trail"]))) + 3).astype(c["dtype"])
            .reshape((h,) + tuple(c["trail"])) for h in c["have"]]
    out = mpi.pool().call("none_to_zero", [{"arr": a, "default_comm": c["default"]} for a in arrs], c["order"])
    for r, (a, o) in enumerate(zip(arrs, out)):
        if all(h is None for h in c["have"]):
            ck(o is None, "None on every rank must stay None")
        elif a is None:
            ck(o is not None and o.shape == (0,) + tuple(c["trail"]) and o.dtype == np.dtype(c["dtype"]),
               "rank %d: got %r" % (r, o))
        else:
            eq(o, a, "array on rank %d" % r)
            ck(o.dtype == a.dtype, "dtype changed")
    return any(h is None for h in c["have"]) and any(h is not None for h in c["have"])
