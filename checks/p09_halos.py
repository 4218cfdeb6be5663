"""P09: halo matching between snapshots."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.util import check as ck, eq

check = Check("P09", quick_scale=1.5, shards=2, rule=(
    "Two particle lists with unique IDs (shuffled independently, partly missing from the other list), group numbers with "
    "ungrouped particles, halo counts and particle/halo distributions unrelated to each other, ties, empty halos. "
    "Oracle: dictionary count of shared particles, most shared wins, lowest group number on a tie; consistency = match of "
    "the match is oneself. Non-trivial: at least one halo matched and particles on >= 2 ranks."))


@st.composite
def cases(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    nid = draw(st.integers(0, 40))
    many = draw(st.sampled_from([9, 9, 9, 30]))
    c["nh1"] = draw(st.integers(0, many))
    c["nh2"] = draw(st.integers(0, many))
    c["g1"] = draw(st.lists(st.integers(-1, c["nh1"] - 1), min_size=nid, max_size=nid))
    c["g2"] = draw(st.lists(st.integers(-1, c["nh2"] - 1), min_size=nid, max_size=nid))
    # which IDs exist in each snapshot, and in which order
    c["in1"] = draw(st.lists(st.sampled_from([1, 1, 1, 1, 0]), min_size=nid, max_size=nid))
    c["in2"] = draw(st.lists(st.sampled_from([1, 1, 1, 1, 0]), min_size=nid, max_size=nid))
    c["salt"] = draw(st.integers(0, 10 ** 6))
    c["stride"] = draw(st.sampled_from([1, 7, 10 ** 12]))
    def cuts(m):
        k = sorted(draw(st.lists(st.integers(0, m), min_size=n - 1, max_size=n - 1)))
        return [0] + k + [m]
    c["c1"], c["c2"] = cuts(sum(c["in1"])), cuts(sum(c["in2"]))
    c["h1"], c["h2"] = cuts(c["nh1"]), cuts(c["nh2"])
    c["gtype"] = draw(st.sampled_from(["int32", "int64"]))
    c["gtype2"] = draw(st.sampled_from(["int32", "int64"]))
    c["itype"] = draw(st.sampled_from(["int64", "uint64"]))
    return c


def best(ids1, g1, ids2, g2, nh):
    where = {i: g for i, g in zip(ids2.tolist(), g2.tolist())}
    tally = [dict() for _ in range(nh)]
    for i, g in zip(ids1.tolist(), g1.tolist()):
        h = where.get(i, -1)
        if g >= 0 and h >= 0:
            tally[g][h] = tally[g].get(h, 0) + 1
    res = []
    for t in tally:
        res.append(min(t, key=lambda h: (-t[h], h)) if t else -1)
    return np.array(res, dtype=int), tally


@check.sub(cases(), 1600, 40000)
def halos(c):
    n = len(c["order"])
    rng = np.random.default_rng(c["salt"])
    nid = len(c["g1"])
    ids = (np.arange(nid) * c["stride"] + 5).astype(c["itype"])
    sel = []
    for inn, g, t in ((c["in1"], c["g1"], c["gtype"]), (c["in2"], c["g2"], c["gtype2"])):
        k = np.flatnonzero(np.array(inn, dtype=bool))
        rng.shuffle(k)
        sel.append((ids[k], np.array(g, dtype=t)[k]))
    (i1, g1), (i2, g2) = sel
    c1, c2, h1, h2 = c["c1"], c["c2"], c["h1"], c["h2"]
    out = mpi.pool().call("match_both", [
        {"ids1": i1[c1[r]:c1[r + 1]], "grnr1": g1[c1[r]:c1[r + 1]], "ids2": i2[c2[r]:c2[r + 1]],
         "grnr2": g2[c2[r]:c2[r + 1]], "nhalo1": h1[r + 1] - h1[r], "nhalo2": h2[r + 1] - h2[r],
         "default_comm": c["default"]} for r in range(n)], c["order"])
    m12, tally = best(i1, g1, i2, g2, c["nh1"])
    m21, _ = best(i2, g2, i1, g1, c["nh2"])
    cons = np.array([1 if m >= 0 and m21[m] == k else 0 for k, m in enumerate(m12)], dtype=int)
    for r in range(n):
        eq(out[r][0], m12[h1[r]:h1[r + 1]], "match 1->2 on rank %d" % r)
        eq(out[r][1], m21[h2[r]:h2[r + 1]], "match 2->1 on rank %d" % r)
        eq(out[r][2], cons[h1[r]:h1[r + 1]], "consistent match on rank %d" % r)
    if any(len(t) > 1 and sorted(t.values())[-1] == sorted(t.values())[-2] for t in tally):
        event("tie for the best match")
    if cons.any():
        event("consistent")
    if (m12 >= 0).any() and not cons.all():
        event("inconsistent or unmatched")
    return bool((m12 >= 0).any()) and sum(1 for r in range(n) if c1[r + 1] > c1[r]) >= 2


@st.composite
def cons(draw):
    c = draw(gen.comms())
    n = len(c["order"])
    a, b = draw(st.integers(0, 12)), draw(st.integers(0, 12))
    c["m12"] = draw(st.lists(st.integers(-1, b - 1), min_size=a, max_size=a))
    c["m21"] = draw(st.lists(st.integers(-1, a - 1), min_size=b, max_size=b))
    def cuts(m):
        k = sorted(draw(st.lists(st.integers(0, m), min_size=n - 1, max_size=n - 1)))
        return [0] + k + [m]
    c["a"], c["b"] = cuts(a), cuts(b)
    c["dtype"] = draw(st.sampled_from(["int32", "int64"]))
    return c


@check.sub(cons(), 800, 20000)
def consistent(c):
    n = len(c["order"])
    m12, m21 = np.array(c["m12"], dtype=c["dtype"]), np.array(c["m21"], dtype=c["dtype"])
    A, B = c["a"], c["b"]
    out = mpi.pool().call("consistent", [
        {"m12": m12[A[r]:A[r + 1]], "m21": m21[B[r]:B[r + 1]], "default_comm": c["default"]} for r in range(n)],
        c["order"])
    want = np.array([1 if m >= 0 and m21[m] == k else 0 for k, m in enumerate(m12)], dtype=int)
    for r in range(n):
        eq(out[r], want[A[r]:A[r + 1]], "consistent_match on rank %d" % r)
    return bool(want.any())
