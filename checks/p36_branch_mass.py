"""P36: branch mass, tree mass and main progenitors."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt.util import check as ck, eq

check = Check("P36", quick_scale=5, shards=6, rule=(
    "Random forests with progenitors in earlier (not necessarily consecutive) snapshots, shuffled, sparse or huge node "
    "indexes, descendants missing from the set, masses with exact sums (integers and tiny fractions) with and without ties. Oracle: recursive "
    "definitions. Non-trivial: a node with at least two progenitors."))


@st.composite
def forests(draw, maxn=40):
    n = draw(st.integers(1, maxn))
    kind = draw(st.sampled_from(["random", "chain", "bush"]))
    desc, snap = [-1], [draw(st.integers(40, 90))]
    for i in range(1, n):
        j = -1
        if draw(st.integers(0, 7)):
            j = i - 1 if kind == "chain" else draw(st.integers(0, min(i - 1, 3))) if kind == "bush" else draw(st.integers(0, i - 1))
            if snap[j] <= 0:
                j = -1
        desc.append(j)
        snap.append(draw(st.integers(0, 90)) if j < 0 else snap[j] - min(snap[j], draw(st.sampled_from([1, 1, 1, 2, 5]))))
    return {"desc": desc, "snap": snap, "seed": draw(st.integers(0, 9999)), "ids": draw(st.sampled_from(["dense", "sparse", "huge"])),
            "mass": draw(st.sampled_from(["big", "small", "equal", "range", "tiny"])), "mt": draw(st.sampled_from(["f4", "f8"])),
            "missing": draw(st.sampled_from(["-1", "-1", "other"])), "order": draw(st.sampled_from(["shuffle", "shuffle", "sorted"]))}


def arrays(c):
    rng = np.random.default_rng(c["seed"])
    desc, snap = np.array(c["desc"]), np.array(c["snap"])
    n = len(desc)
    ids = {"dense": np.arange(n), "sparse": rng.permutation(n * 7)[:n] + 1, "huge": rng.permutation(n * 3)[:n] + 2 ** 60}[c["ids"]]
    did = np.where(desc >= 0, ids[desc], -1)
    if c["missing"] == "other":
        did = np.where(desc >= 0, did, ids.max() + 1 + np.arange(n))
    m = {"big": rng.integers(1, 5000, n), "small": rng.integers(1, 4, n), "equal": np.full(n, 3),
         "tiny": rng.integers(1, 1 + rng.integers(1, 5000), n) * 2.0 ** -30,
         "range": np.where(rng.integers(0, 3, n) == 0, 2 ** 24, 1 + rng.integers(0, 2, n))}[c["mass"]]
    order = rng.permutation(n) if c["order"] == "shuffle" else np.arange(n)
    inv = np.empty(n, int)
    inv[order] = np.arange(n)
    ptr = np.where(desc[order] >= 0, inv[desc[order]], -1)
    return ids[order].astype("i8"), did[order].astype("i8"), ptr, snap[order].astype("i4"), m[order].astype(c["mt"])


def progenitors(ptr):
    prog = [[] for _ in ptr]
    for i, j in enumerate(ptr):
        if j >= 0:
            prog[j].append(i)
    return prog


@check.sub(forests(), 800, 50000)
def tree_mass(c):
    from virgo.database.index_trees import find_progenitor_tree_mass
    ids, did, ptr, snap, m = arrays(c)
    keep = [a.copy() for a in (ids, did, snap, m)]
    got = find_progenitor_tree_mass(ids, did, snap, m)
    for a, b in zip((ids, did, snap, m), keep):
        eq(a, b, "input modified")
    want = m.astype("f8").copy()
    for i in np.argsort(snap, kind="stable"):
        if ptr[i] >= 0:
            want[ptr[i]] += want[i]
    ck(got.dtype == m.dtype, "type of tree mass")
    eq(got, want.astype(m.dtype), "tree mass")              # sums are exact in double precision, rounded once
    return any(len(p) > 1 for p in progenitors(ptr))


def close(got, want, m, what):
    """Exact unless the sum along a branch is not representable in the type of the masses."""
    ck(got.dtype == m.dtype, "type of " + what)
    if m.dtype == np.float64 or want.max() < 2 ** 24:
        eq(got, want, what)
    else:
        ck(np.all(np.abs(got.astype("f8") - want) <= want * 1e-7 * len(want)), "%s differ: got %r, expected %r" % (what, got, want))


@check.sub(forests(), 800, 50000)
def branch_mass(c):
    from virgo.database.index_trees import find_progenitor_branch_mass_delucia
    ids, did, ptr, snap, m = arrays(c)
    keep = [a.copy() for a in (ids, did, snap, m)]
    got = find_progenitor_branch_mass_delucia(ids, did, snap, m)
    for a, b in zip((ids, did, snap, m), keep):
        eq(a, b, "input modified")
    prog = progenitors(ptr)
    want = np.zeros(len(m))
    for i in np.argsort(snap, kind="stable"):
        want[i] = float(m[i]) + max([want[j] for j in prog[i]], default=0.0)
    close(got, want, m, "branch mass")
    return any(len(p) > 1 for p in prog)


@check.sub(forests(), 1000, 60000)
def main_progenitor(c):
    from virgo.database.index_trees import find_main_progenitor
    ids, did, ptr, snap, m = arrays(c)
    keep = [a.copy() for a in (ids, did, snap, m)]
    ntie, main = find_main_progenitor(ids, did, snap, m)
    for a, b in zip((ids, did, snap, m), keep):
        eq(a, b, "input modified")
    prog = progenitors(ptr)
    for i in range(len(ids)):
        if not prog[i]:
            ck(main[i] == -1 and ntie[i] == 0, "node without progenitors has main progenitor %d, %d ties" % (main[i], ntie[i]))
            continue
        best = max(m[j] for j in prog[i])
        top = [j for j in prog[i] if m[j] == best]
        ck(main[i] in [ids[j] for j in top], "main progenitor %d of %d does not have the highest mass" % (main[i], ids[i]))
        ck(ntie[i] == len(top) - 1, "%d ties reported, %d expected" % (ntie[i], len(top) - 1))
    return any(len(p) > 1 for p in prog)
