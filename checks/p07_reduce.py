"""P07: reduce_elements and parallel_bincount accumulate every update exactly once."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P07", quick_scale=2.4, shards=2, rule=(
    "Distributed target arrays (1-3 d), updates with duplicate global indexes owned by any rank, numpy ufuncs and MPI "
    "operators, exactly representable values; bin counts with/without weights, minlength and caller-supplied result "
    "partition. Oracle: ufunc.at / numpy.bincount on the concatenation. Non-trivial: an update crosses ranks, or bins "
    "are filled from several ranks."))

OPS = {"np.add": np.add, "np.maximum": np.maximum, "np.minimum": np.minimum, "np.multiply": np.multiply,
       "np.bitwise_or": np.bitwise_or,
       "MPI.SUM": np.add, "MPI.MAX": np.maximum, "MPI.MIN": np.minimum, "MPI.PROD": np.multiply,
       "MPI.BOR": np.bitwise_or}


@st.composite
def reduces(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["nin"] = draw(gen.counts(n, 12))
    if sum(c["nin"]) == 0:
        c["nin"][draw(st.integers(0, n - 1))] = 2
    tot = sum(c["nin"])
    cnt = draw(gen.counts(n, 20))
    c["index"] = [draw(st.lists(st.integers(0, tot - 1), min_size=k, max_size=k)) for k in cnt]
    c["op"] = draw(st.sampled_from(sorted(OPS)))
    if "or" in c["op"].lower():
        c["dtype"] = draw(st.sampled_from(["int32", "int64", "uint64"]))
    else:
        c["dtype"] = draw(st.sampled_from(["int32", "int64", "float64", "float32", "uint64"]))
    c["trail"] = draw(st.sampled_from([(), (), (3,), (2, 2), (0,), (1, 3)]))
    c["salt"] = draw(st.integers(0, 1000))
    c["layout"] = draw(st.sampled_from(["C", "C", "F"]))
    c["signed"] = draw(st.sampled_from([0, 0, 15, -1]))
    return c


@check.sub(reduces(), 1400, 40000)
def reduce(c):
    n = len(c["order"])
    rng = np.random.default_rng(c["salt"])
    mul = OPS[c["op"]] is np.multiply
    lo, hi = (1, 2) if mul else (0, 15)
    if c["signed"] and not c["dtype"].startswith("u"):
        # bits of negative integers, sums that cancel, maxima that stay below zero
        lo, hi = (-2, 2) if mul else (-15, c["signed"])
    tr = tuple(c["trail"])
    arrs = [rng.integers(lo, hi, (m,) + tr, endpoint=True).astype(c["dtype"]) for m in c["nin"]]
    upd = [rng.integers(lo, hi, (len(ix),) + tr, endpoint=True).astype(c["dtype"]) for ix in c["index"]]
    want = np.concatenate(arrs)
    if mul:
        # keep products exactly representable
        seen = np.zeros(len(want), dtype=int)
        for u, ix in zip(upd, c["index"]):
            for k, i in enumerate(ix):
                seen[i] += 1
                if seen[i] > 12:
                    u[k] = 1
    for u, ix in zip(upd, c["index"]):
        OPS[c["op"]].at(want, np.array(ix, dtype=int), u)
    out = mpi.pool().call("reduce", [
        {"arr": arrs[r], "updates": upd[r], "index": c["index"][r], "op": c["op"],
         "layout": c["layout"] if c["op"].startswith("np") or not tr else "C", "default_comm": c["default"]}
        for r in range(n)], c["order"])
    for r in range(n):
        ck(out[r].shape == arrs[r].shape and out[r].dtype == arrs[r].dtype, "array was replaced on rank %d" % r)
    eq(np.concatenate(out), want, "array after %s updates" % c["op"])
    start = np.cumsum(c["nin"]) - c["nin"]
    return any(not (start[r] <= i < start[r] + c["nin"][r]) for r in range(n) for i in c["index"][r])


@st.composite
def bins(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["dtype"] = draw(st.sampled_from(gen.INT_DTYPES))
    top = draw(st.sampled_from([0, 1, 5, 60, 127, min(5000, int(np.iinfo(c["dtype"]).max))]))
    cnt = draw(gen.counts(n, 20))
    c["x"] = [draw(st.lists(st.integers(0, top), min_size=k, max_size=k)) for k in cnt]
    c["weights"] = draw(st.sampled_from([None, "int32", "int64", "float32", "float64"]))
    c["minlength"] = draw(st.sampled_from([None, None, 0, 1, 7, 200]))
    c["result"] = draw(st.sampled_from([None, None, "int64", "float64"]))
    c["rsalt"] = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
    c["wsalt"] = draw(st.integers(0, 1000))
    c["wlow"] = draw(st.sampled_from([0, 0, -20]))
    return c


@check.sub(bins(), 1400, 40000)
def bincount(c):
    n = len(c["order"])
    x = [np.array(v, dtype=c["dtype"]) for v in c["x"]]
    rng = np.random.default_rng(c["wsalt"])
    allx = np.concatenate(x).astype(int)
    ml = c["minlength"]
    w, allw = [None] * n, None
    if c["weights"]:
        w = [rng.integers(c["wlow"], 40, len(v)).astype(c["weights"]) for v in x]
        allw = np.concatenate(w).astype(float)
    want = np.bincount(allx, weights=allw, minlength=ml or 0)
    res = [None] * n
    if c["result"]:
        # caller-supplied, arbitrarily partitioned, possibly larger than needed
        need = len(want)
        sizes = list(c["rsalt"])
        while sum(sizes) < max(need, 1):
            sizes[c["wsalt"] % n] += max(need, 1) - sum(sizes)
        res = [np.zeros(s, dtype=c["result"]) for s in sizes]
        want = np.concatenate([want, np.zeros(sum(sizes) - need)])
    if len(allx) == 0 and not c["result"] and not ml:
        return False      # zero or one empty bin: not specified
    out = mpi.pool().call("bincount", [
        {"x": x[r], "weights": w[r], "minlength": ml, "result": res[r], "default_comm": c["default"]}
        for r in range(n)], c["order"])
    eq(np.concatenate([o[0] for o in out]), want, "bin counts")
    if c["result"]:
        for r, o in enumerate(out):
            eq(o[1], o[0], "caller's result array")
            ck(o[1].shape == res[r].shape, "result array replaced")
    else:
        m = [len(o[0]) for o in out]
        ck(max(m) - min(m) <= 1, "bins not evenly distributed: %r" % m)
    return gen.nranks_with_data(x) >= 2
