"""P02: alltoallv, sendrecv and repartition move every element to its place, once."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P02", quick_scale=2, shards=2, rule=(
    "Random count matrices with arbitrary (gapped, permuted) offsets for both my_alltoallv methods, random pairings and "
    "chunk sizes for sendrecv, random input and output partitions of 1-3 dimensional and record arrays for repartition, "
    "on 1-8 real ranks; a few messages larger than the 100MB chunk. Oracle: the same movement done with numpy slices. "
    "Non-trivial: some element moves to another rank."))

DT = ["int8", "uint16", "int32", "int64", "float32", "float64", "uint64", "rec", "bool", "complex64", "S7"]


def mk(dtype, ids, trail=()):
    """Array whose elements identify themselves; ids is a list of ints."""
    a = np.array(ids, dtype=np.int64)
    if trail:
        n = int(np.prod(trail))
        a = (a[:, None] * n + np.arange(n)[None, :]).reshape((len(ids),) + tuple(trail)) if n else \
            np.zeros((len(ids),) + tuple(trail), dtype=np.int64)
    if dtype == "rec":
        r = np.zeros(a.shape, dtype=[("a", "i4"), ("b", "f8")])
        r["a"] = a
        r["b"] = a * 0.5
        return r
    return a.astype(dtype)


@st.composite
def a2a(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    one = st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 12))
    c["counts"] = draw(st.lists(st.lists(one, min_size=n, max_size=n), min_size=n, max_size=n))
    c["sgap"] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    c["rgap"] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    c["srot"] = draw(st.integers(0, n - 1))
    c["rrot"] = draw(st.integers(0, n - 1))
    c["dtype"] = draw(st.sampled_from(DT))
    c["method"] = draw(st.sampled_from(["hypercube", "async", None]))
    return c


def offsets(cnt, gaps, rot):
    """Non-overlapping blocks, laid out in rotated destination order with gaps."""
    n = len(cnt)
    off = [0] * n
    pos = 0
    for k in range(n):
        d = (k + rot) % n
        pos += gaps[d]
        off[d] = pos
        pos += cnt[d]
    return off, pos + gaps[0]


@check.sub(a2a(), 900, 30000)
def alltoallv(c):
    n = len(c["order"])
    C = c["counts"]
    pay, exp = [], []
    soff = [offsets(C[r], c["sgap"], c["srot"]) for r in range(n)]
    roff = [offsets([C[s][r] for s in range(n)], c["rgap"], c["rrot"]) for r in range(n)]
    send = [mk(c["dtype"], [(r * 31 + k) % 120 for k in range(soff[r][1])]) for r in range(n)]
    for r in range(n):
        recv = mk(c["dtype"], [123] * roff[r][1])
        want = recv.copy()
        for s in range(n):
            m = C[s][r]
            want[roff[r][0][s]:roff[r][0][s] + m] = send[s][soff[s][0][r]:soff[s][0][r] + m]
        exp.append(want)
        pay.append({"send": send[r], "sc": np.array(C[r]), "so": np.array(soff[r][0]),
                    "recv": recv, "rc": np.array([C[s][r] for s in range(n)]), "ro": np.array(roff[r][0]),
                    "method": c["method"], "default_comm": c["default"]})
    out = mpi.pool().call("alltoallv", pay, c["order"])
    for r in range(n):
        eq(out[r][0], exp[r], "receive buffer on rank %d" % r)
        eq(out[r][1], send[r], "send buffer on rank %d (must not change)" % r)
    return any(C[s][r] for s in range(n) for r in range(n) if s != r)


@st.composite
def pairs(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    perm = draw(st.permutations(range(n)))
    npair = draw(st.integers(0, n // 2))
    dest = [None] * n
    for k in range(npair):
        a, b = perm[2 * k], perm[2 * k + 1]
        dest[a], dest[b] = b, a
    for k in perm[2 * npair:]:
        if draw(st.booleans()):
            dest[k] = k
    c["dest"] = dest
    c["counts"] = draw(gen.counts(n, 40))
    c["nchunk"] = draw(st.sampled_from([None, 1, 2, 3, 7, 100]))
    c["dtype"] = draw(st.sampled_from(["int8", "int32", "int64", "float32", "float64"]))
    # receive buffers may be larger than the message
    c["extra"] = draw(st.one_of(st.just([0] * n), st.lists(st.integers(0, 20), min_size=n, max_size=n)))
    return c


@check.sub(pairs(), 500, 15000)
def sendrecv(c):
    n = len(c["order"])
    cnt = c["counts"]
    send = [mk(c["dtype"], [(r * 37 + k) % 120 for k in range(cnt[r])]) for r in range(n)]
    pay = []
    for r in range(n):
        d = c["dest"][r]
        pay.append({"dest": d, "send": send[r], "recv": np.full((cnt[d] if d is not None else 0) + c["extra"][r], 99, dtype=c["dtype"]),
                    "nchunk": c["nchunk"], "default_comm": c["default"]})
    out = mpi.pool().call("sendrecv_ring", pay, c["order"])
    for r in range(n):
        if c["dest"][r] is not None:
            m = cnt[c["dest"][r]]
            eq(out[r][:m], send[c["dest"][r]], "data received by rank %d" % r)
            ck((out[r][m:] == 99).all(), "elements after the message were overwritten on rank %d" % r)
    return any(d is not None and d != r and cnt[r] != cnt[d] for r, d in enumerate(c["dest"]))


@st.composite
def reparts(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    c["nin"] = draw(gen.counts(n, 30))
    tot = sum(c["nin"])
    style = draw(st.sampled_from(["cuts", "cuts", "one", "even", "same"]))
    if style == "cuts":
        cuts = sorted(draw(st.lists(st.integers(0, tot), min_size=n - 1, max_size=n - 1)))
        c["nout"] = [b - a for a, b in zip([0] + cuts, cuts + [tot])]
    elif style == "one":
        k = draw(st.integers(0, n - 1))
        c["nout"] = [tot if i == k else 0 for i in range(n)]
    elif style == "even":
        c["nout"] = [tot // n + (1 if i < tot % n else 0) for i in range(n)]
    else:
        c["nout"] = list(c["nin"])
    c["trail"] = draw(st.sampled_from([(), (), (3,), (2, 3), (1,), (0,)]))
    c["dtype"] = draw(st.sampled_from(DT))
    c["wrap"] = draw(st.sampled_from(["", "", "unyt", "attr"])) if c["dtype"] != "rec" else ""
    c["as_list"] = draw(st.booleans())
    c["layout"] = draw(st.sampled_from(["C", "C", "F"]))
    return c


@check.sub(reparts(), 1000, 30000)
def repartition(c):
    n = len(c["order"])
    pos, arrs = 0, []
    for m in c["nin"]:
        arrs.append(mk(c["dtype"], list(range(pos, pos + m)), c["trail"]))
        pos += m
    whole = np.concatenate(arrs)
    nd = list(c["nout"]) if c["as_list"] else np.array(c["nout"], dtype=int)
    out = mpi.pool().call("repartition", [
        {"arr": a, "ndesired": nd, "layout": c["layout"], "wrap": c["wrap"], "default_comm": c["default"]} for a in arrs], c["order"])
    pos = 0
    for r, m in enumerate(c["nout"]):
        eq(out[r][0], whole[pos:pos + m], "rank %d after repartition" % r)
        ck(out[r][0].dtype == whole.dtype, "dtype changed")
        ck(out[r][2], "array subclass was lost")
        eq(out[r][1], arrs[r], "input on rank %d (must not change)" % r)
        pos += m
    return c["nin"] != c["nout"]


@st.composite
def bigs(draw):
    c = {"what": draw(st.sampled_from(["repartition", "sendrecv", "async", "hypercube"]))}
    n = draw(st.sampled_from([2, 3]))
    c["order"] = list(range(n))
    if c["what"] == "sendrecv":
        c["itemsize"] = draw(st.sampled_from([8, 4]))
    else:
        c["itemsize"] = draw(st.sampled_from([30 * 1024 * 1024, 7 * 1024 * 1024, 8]))
    per = (100 * 1024 * 1024) // c["itemsize"]
    # more than one chunk on one rank, less than one on the others
    k = draw(st.integers(0, n - 1))
    extra = draw(st.integers(1, max(1, per // 2)))
    c["nin"] = [per + extra if i == k else draw(st.integers(0, 1)) for i in range(n)]
    tot = sum(c["nin"])
    c["nout"] = [tot if i == (k + 1) % n else 0 for i in range(n)]
    return c


@check.sub(bigs(), 6, 200, examples=[
    {"what": w, "order": [0, 1], "itemsize": 30 * 1024 * 1024, "nin": [4, 1], "nout": [1, 4]}
    for w in ("repartition", "async", "hypercube")] +
    [{"what": "sendrecv", "order": [0, 1], "itemsize": 8, "nin": [13107201, 1], "nout": [0, 5]}])
def big_messages(c):
    out = mpi.pool().call("big_move", [c] * len(c["order"]), c["order"], timeout=120)
    ck(all(out), "data corrupted in messages larger than one chunk: ranks ok = %r" % (out,))
    return True
