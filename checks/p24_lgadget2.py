"""P24: L-Gadget2 group/subhalo/ID files and their sanity checks."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import Out, compare, dataset_names, fill
from vt.util import check as ck, eq, must_raise

check = Check("P24", quick_scale=7, shards=6, rule=(
    "group_tab, group_ids, sub_tab and sub_ids files written by an independent writer for consistent random catalogues (0-6 "
    "groups, 0-4 subhalos each, either byte order, 4/8-byte IDs); then one random inconsistency of a kind sanity_check() "
    "promises to find; then truncation. Oracle: arrays written; sanity_check() accepts the valid and rejects the damaged "
    "file. Non-trivial: at least two groups, one with subhalos."))


@st.composite
def cats(draw):
    ng = draw(st.sampled_from([0, 1, 2, 3, 6]))
    return {"len": [draw(st.integers(1, 9)) for _ in range(ng)], "nsub": [draw(st.integers(0, 3)) for _ in range(ng)],
            "endian": draw(st.sampled_from("<>")), "id_bytes": draw(st.sampled_from([4, 8])),
            "ntask": draw(st.sampled_from([1, 2, 512, 65535])), "minlen": draw(st.sampled_from([0, 1, 4])),
            "seed": draw(st.integers(0, 999))}


def build(c):
    rng = np.random.default_rng(c["seed"])
    ln = np.array(c["len"], dtype="i4")
    ng, nids, ns = len(ln), int(ln.sum()), int(sum(c["nsub"]))
    idt = "u4" if c["id_bytes"] == 4 else "u8"
    head = {"Ngroups": np.int32(ng), "Nids": np.int32(nids), "TotNgroups": np.int32(ng + 5)}
    w = {}
    w["group_tab"] = dict(head, NTask=np.int32(c["ntask"]), GroupLen=ln, GroupOffset=np.cumsum(ln, dtype="i4") - ln,
                          GroupMinLen=np.int32(c["minlen"]), Count=fill(rng, "i4", (c["minlen"],)))
    if c["id_bytes"] == 8:
        key = rng.integers(0, 256 ** 3, nids).astype("u8")
        ids = (key << np.uint64(34)) + (rng.permutation(nids).astype("u8") + np.uint64(rng.integers(0, 2160 ** 3 - 100)))
        if nids and rng.random() < 0.5:         # largest ID and key
            ids[rng.integers(0, nids)] = (np.uint64(256 ** 3 - 1) << np.uint64(34)) + np.uint64(2160 ** 3)
    else:
        ids = rng.permutation(nids).astype("u4") + np.uint32(rng.integers(0, 2 ** 31))
    w["group_ids"] = dict(head, NTask=np.int32(c["ntask"]), GroupIDs=ids)
    w["sub_ids"] = dict(head, NFiles=np.int32(c["ntask"]), GroupIDs=ids)
    nsub = np.array(c["nsub"], dtype="i4")
    parent = np.repeat(np.arange(ng, dtype="i4"), nsub)
    off = w["group_tab"]["GroupOffset"]
    sublen = np.array([rng.integers(1, ln[p] + 1) for p in parent], dtype="i4")
    suboff = np.array([off[p] + rng.integers(0, ln[p] - s + 1) for p, s in zip(parent, sublen)], dtype="i4")
    t = dict(head, NFiles=np.int32(c["ntask"]), Nsubhalos=np.int32(ns), NsubPerHalo=nsub,
             FirstSubOfHalo=np.cumsum(nsub, dtype="i4") - nsub, SubLen=sublen, SubOffset=suboff, SubParentHalo=parent)
    for nm in ("Halo_M_Mean200", "Halo_R_Mean200", "Halo_M_Crit200", "Halo_R_Crit200", "Halo_M_TopHat200", "Halo_R_TopHat200"):
        t[nm] = fill(rng, "f4", (ng,)) * np.float32(rng.random() < 0.8)
    for nm, sh in (("SubPos", 3), ("SubVel", 3), ("SubVelDisp", 0), ("SubVmax", 0), ("SubSpin", 3), ("SubMostBoundID", idt),
                   ("SubHalfMass", 0)):
        t[nm] = fill(rng, idt, (ns,)) if nm == "SubMostBoundID" else fill(rng, "f4", (ns, 3) if sh else (ns,))
    w["sub_tab"] = t
    return w


def write(fn, c, items):
    o = Out(c["endian"])
    for v in items.values():
        o.put(v)
    o.save(fn)
    return o.bytes()


def reader(kind, fn, c):
    import virgo.formats.subfind_lgadget2 as m
    if kind == "group_tab":
        return m.GroupTabFile(fn)
    cls = {"group_ids": m.GroupIDsFile, "sub_tab": m.SubTabFile, "sub_ids": m.SubIDsFile}[kind]
    if c["id_bytes"] == 8 and c["seed"] % 2:
        return cls(fn)
    return cls(fn, id_bytes=c["id_bytes"])


@check.sub(cats(), 700, 20000)
def layout(c):
    d = paths.fresh_dir()
    try:
        for kind, items in build(c).items():
            fn = os.path.join(d, kind)
            b = write(fn, c, items)
            f = reader(kind, fn, c)
            compare(f, items, kind)
            ck(dataset_names(f) == set(items), "%s: names %r" % (kind, sorted(dataset_names(f))))
            ck(f.all_bytes_used(), "%s: file not covered" % kind)
            ck(f.sanity_check() is None, "sanity check of a valid file")
            f.close()
        return len(c["len"]) >= 2 and sum(c["nsub"]) > 0
    finally:
        paths.drop(d)


DAMAGE = {"group_tab": ["len", "off_neg", "off_big", "off_gap"],
          "group_ids": ["key", "pid", "zeros"], "sub_ids": ["key", "pid", "zeros"],
          "sub_tab": ["nsub", "first_neg", "first_big", "range_neg", "range_big", "parent", "nan"]}


@st.composite
def damaged(draw):
    c = draw(cats())
    c["kind"] = draw(st.sampled_from(sorted(DAMAGE) + ["sub_tab"]))
    c["how"] = draw(st.sampled_from(DAMAGE[c["kind"]]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    c["value"] = draw(st.sampled_from([1, 2, 1000, 2 ** 30, 2 ** 31 - 1]))
    return c


@check.sub(damaged(), 1800, 50000)
def sanity_check_finds(c):
    from virgo.util.exceptions import SanityCheckFailedException
    w = {k: np.array(v) for k, v in build(c)[c["kind"]].items()}
    how, i = c["how"], c["i"]

    def pick(a):
        return i % len(a)
    if how == "len":
        if not len(w["GroupLen"]):
            return False
        w["GroupLen"][pick(w["GroupLen"])] += min(c["value"], 1000)
    elif how.startswith("off"):
        g = w["GroupOffset"]
        if len(g) < 2:
            return False
        k = pick(g)
        g[k] = -c["value"] if how == "off_neg" else w["Nids"] + c["value"] - 1 if how == "off_big" else g[k] + 1
        if how == "off_gap" and len(g) == 1:
            return False
    elif how in ("key", "pid", "zeros"):
        a = w["GroupIDs"]
        if c["id_bytes"] == 4 and how != "zeros" or len(a) < 2:
            return False
        k = pick(a)
        if how == "key":
            a[k] = np.uint64(min(256 ** 3 + c["value"] - 1, 2 ** 30 - 1)) << np.uint64(34)
        elif how == "pid":
            a[k] = np.uint64(2160 ** 3 + c["value"])
        else:
            a[k] = a[k - 1] = 0
    else:
        ns, ng = int(w["Nsubhalos"]), int(w["Ngroups"])
        if ns == 0:
            return False
        has = np.flatnonzero(w["NsubPerHalo"])
        if how == "nsub":
            w["NsubPerHalo"][pick(w["NsubPerHalo"])] += min(c["value"], 1000)
        elif how == "first_neg":
            w["FirstSubOfHalo"][has[pick(has)]] = -c["value"]
        elif how == "first_big":
            w["FirstSubOfHalo"][has[pick(has)]] = ns + c["value"] - 1
        elif how == "range_neg":
            w["SubOffset"][pick(w["SubOffset"])] = -c["value"]
        elif how == "range_big":
            k = pick(w["SubOffset"])
            w["SubOffset"][k] = w["Nids"] - w["SubLen"][k] + c["value"]
        elif how == "parent":
            w["SubParentHalo"][pick(w["SubParentHalo"])] += c["value"]
        else:
            nm = ["Halo_M_Mean200", "Halo_R_Mean200", "Halo_M_Crit200", "Halo_R_Crit200", "Halo_M_TopHat200",
                  "Halo_R_TopHat200", "SubPos", "SubVel", "SubVelDisp", "SubVmax", "SubSpin", "SubHalfMass"][i % 12]
            a = w[nm].reshape(-1)
            a[(i // 12) % len(a)] = [np.nan, np.inf, -np.inf][i % 3]
            w[nm] = a.reshape(w[nm].shape)
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, c["kind"])
        write(fn, c, w)
        f = reader(c["kind"], fn, c)
        must_raise(SanityCheckFailedException, f.sanity_check)
        f.close()
        event(c["kind"] + " " + how)
        return True
    finally:
        paths.drop(d)


@st.composite
def cut_cases(draw):
    c = draw(cats())
    c["kind"] = draw(st.sampled_from(sorted(DAMAGE)))
    c["cut"] = draw(st.integers(1, 200))
    return c


@check.sub(cut_cases(), 500, 10000)
def truncated(c):
    """A truncated file cannot be read completely: some access raises IOError instead of returning wrong data."""
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, c["kind"])
        items = build(c)[c["kind"]]
        b = write(fn, c, items)
        with open(fn, "wb") as g:
            g.write(b[:max(1, len(b) - c["cut"])])

        def read_all():
            f = reader(c["kind"], fn, c)
            try:
                for k, v in items.items():
                    got = f[k][...]
                    eq(got, v, k)
            finally:
                f.close()
        must_raise(IOError, read_all)
        return True
    finally:
        paths.drop(d)


@check.sub(sf.big_cases(2), 60, 1000)
def beyond_32_bits(c):
    """Sparse files with so many objects that sizes and offsets in the file exceed 32 bits."""
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "t")
        small = dict(c, len=[2, 3], nsub=[1, 2], ntask=4, minlen=1)
        a, b = c["n"]
        kind = ["sub_tab", "group_tab", "group_ids", "sub_ids"][c["seed"] % 4]
        if kind.endswith("ids") and not b:
            return False
        items = build(small)[kind]
        probes, sizes = sf.big_file(fn, c, items, {2: a, 3: b, 5: b, 1: b}, {"Ngroups": a, "Nsubhalos": b, "Nids": b, "GroupMinLen": b})
        sf.big_verify(reader(kind, fn, c), probes, sizes)
        return os.stat(fn).st_size > 2 ** 31
    finally:
        paths.drop(d)
