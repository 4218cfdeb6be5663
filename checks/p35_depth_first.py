"""P35: depth first indexing of merger trees."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt.util import check as ck, eq, must_raise

check = Check("P35", quick_scale=6, shards=6, rule=(
    "Random forests of 1-40 nodes (long branches, bushy, many roots, descendants missing from the set), shuffled storage order, "
    "sparse or huge node indexes, any mBranch including ties and zeros. Oracle: the ordering axioms - contiguous numbering of "
    "each subtree, progenitors by descending mBranch, main branch first - checked by recursion from the descendant "
    "pointers. Non-trivial: a node with at least two progenitors, or at least two trees."))


@st.composite
def forests(draw, maxn=40):
    n = draw(st.integers(1, maxn))
    shape = draw(st.sampled_from(["random", "chain", "bush", "mixed"]))
    desc = [-1]
    for i in range(1, n):
        if shape == "chain":
            desc.append(draw(st.sampled_from([i - 1, i - 1, i - 1, -1])))
        elif shape == "bush":
            desc.append(draw(st.integers(-1, min(2, i - 1))))
        elif shape == "mixed":
            desc.append(draw(st.sampled_from([i - 1, max(0, i - 2), max(0, i - 5), -1, 0])))
        else:
            desc.append(draw(st.integers(-1, i - 1)))
    return {"desc": desc, "seed": draw(st.integers(0, 9999)), "ids": draw(st.sampled_from(["dense", "sparse", "huge"])),
            "mass": draw(st.sampled_from(["distinct", "distinct", "ties", "equal", "zeros", "close", "spread"])),
            "dt": draw(st.sampled_from(["i8", "i8", "i4"])), "mt": draw(st.sampled_from(["f8", "f4", "i4"])),
            "missing": draw(st.sampled_from(["-1", "-1", "other"])), "order": draw(st.sampled_from(["shuffle", "shuffle", "sorted", "reverse"]))}


def arrays(c):
    """Node ids, descendant ids, array-index descendants and masses, in storage order."""
    rng = np.random.default_rng(c["seed"])
    desc = np.array(c["desc"])
    n = len(desc)
    dt = c["dt"]
    if c["ids"] == "dense":
        ids = np.arange(n)
    elif c["ids"] == "sparse":
        ids = rng.permutation(n * 7)[:n] + 1
    else:
        ids = rng.permutation(n * 3)[:n] + (2 ** 60 if dt == "i8" else 2 ** 30)
    did = np.where(desc >= 0, ids[desc], -1)
    if c["missing"] == "other":       # descendants which are not part of the set
        did = np.where(desc >= 0, did, ids.max() + 1 + np.arange(n))
    m = {"distinct": rng.permutation(n) + 1, "ties": rng.integers(1, 4, n), "equal": np.full(n, 5), "zeros": rng.integers(0, 3, n),
         # as close as the type allows, or over its whole range
         "close": {"f8": 1.0 + rng.permutation(n) * 2.0 ** -52, "f4": 1.0 + rng.permutation(n) * 2.0 ** -23, "i4": 2 ** 31 - 1 - rng.permutation(n)}[c["mt"]],
         "spread": {"f8": 10.0 ** (rng.permutation(n) * 15 - 300.0), "f4": 10.0 ** (rng.permutation(n) * 1.5 - 30), "i4": rng.permutation(n) * 50000000}[c["mt"]],
         }[c["mass"]]
    order = {"shuffle": rng.permutation(n), "sorted": np.arange(n), "reverse": np.arange(n)[::-1]}[c["order"]]
    inv = np.empty(n, int)
    inv[order] = np.arange(n)
    ptr = np.where(desc[order] >= 0, inv[desc[order]], -1)
    return ids[order].astype(dt), did[order].astype(dt), ptr, m[order].astype(c["mt"])


@check.sub(forests(), 2500, 80000)
def depth_first(c):
    from virgo.database.index_trees import depth_first_index
    ids, did, ptr, m = arrays(c)
    n = len(ids)
    copies = ids.copy(), did.copy(), m.copy()
    df, end, last = depth_first_index(ids, did, m)
    for a, b in zip((ids, did, m), copies):
        eq(a, b, "input modified")
    ck(df.shape == (n,) and end.shape == (n,) and last.shape == (n,), "shapes")
    eq(np.sort(df), np.arange(1, n + 1), "depth first indexes are not a permutation of 1..n")
    prog = [[] for _ in range(n)]
    for i in range(n):
        if ptr[i] >= 0:
            prog[ptr[i]].append(i)
    size = [1] * n
    for i in sorted(range(n), key=lambda i: -df[i]):
        if ptr[i] >= 0:
            ck(df[ptr[i]] < df[i], "node numbered before its descendant")
            size[ptr[i]] += size[i]
    nt = sum(1 for i in range(n) if ptr[i] < 0) >= 2
    for i in range(n):
        ck(last[i] == df[i] + size[i] - 1, "lastProgenitor of node %d is %d, its subtree is [%d,%d]" % (i, last[i], df[i], df[i] + size[i] - 1))
        p = sorted(prog[i], key=lambda j: df[j])
        nt |= len(p) > 1
        at = df[i] + 1
        for j in p:                      # subtrees of progenitors are contiguous and follow the node
            ck(df[j] == at, "gap between subtrees")
            at += size[j]
        for a, b in zip(p[:-1], p[1:]):
            ck(m[a] >= m[b], "progenitors are not in descending order of mBranch: %r before %r" % (m[a], m[b]))
        if p:
            ck(end[i] == end[p[0]], "end of main branch is not that of the main progenitor")
        else:
            ck(end[i] == df[i], "end of main branch of a leaf")
    return nt


@check.sub(forests(25), 500, 15000)
def relabelling(c):
    """Changing node labels or storage order changes nothing else (no ties)."""
    from virgo.database.index_trees import depth_first_index
    c = dict(c, mass="distinct")
    roots = sum(1 for x in c["desc"] if x < 0)
    ids, did, ptr, m = arrays(c)
    a = depth_first_index(ids, did, m)
    # shift labels
    k = 17
    b = depth_first_index(ids + ids.dtype.type(k), np.where(did >= 0, did + did.dtype.type(k), did), m)
    for x, y in zip(a, b):
        eq(y, x, "after relabelling")
    if roots == 1:
        order = np.random.default_rng(c["seed"] + 1).permutation(len(ids))
        b = depth_first_index(ids[order], did[order], m[order])
        for x, y in zip(a, b):
            eq(y, x[order], "after reordering")
    return len(ids) > 5
