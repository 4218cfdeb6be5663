"""P25: L-Gadget3 subhalo and ID files and their sanity checks."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import compare, dataset_names
from vt.util import check as ck, eq, must_raise

check = Check("P25", quick_scale=5, shards=6, rule=(
    "sub_tab and sub_ids files of random consistent multi-file catalogues (0-9 groups, 0-3 subgroups each), written by an "
    "independent writer for every combination of byte order, id_bytes, float_bytes, SO_VEL_DISPERSIONS and SUB_SHAPES; then "
    "damaged in one way that sanity_check() promises to find; then truncated, extended, or read with wrong type options. "
    "Oracle: arrays written; acceptance of valid and rejection of damaged files. Non-trivial: at least two groups, one "
    "with subgroups."))


def build(c):
    g, s, ln = sf.whole(c, sf.L3_GROUP, sf.L3_SUB)
    tot = dict(zip(("TotNids", "TotNgroups", "TotNsubgroups"), map(np.int64, sf.totals(c))))
    out = []
    for i, (gg, ss) in enumerate(sf.split(c, g, s)):
        h = {}
        for nm, t in sf.L3_HEAD:
            h[nm] = np.dtype(t).type(tot[nm]) if nm in tot else None
        h["Ngroups"], h["Nsubgroups"] = np.int32(len(gg["GroupLen"])), np.int32(len(ss["SubLen"]))
        h["Nids"], h["NTask"] = np.int32(gg["GroupLen"].sum()), np.int32(c["ntask"] or c["nf"])
        out.append((h, gg, ss))
    return out


def reader(fn, c, **kw):
    import virgo.formats.subfind_lgadget3 as m
    a = dict(SO_VEL_DISPERSIONS=c["veldisp"], SUB_SHAPES=c["shape"], id_bytes=c["id_bytes"], float_bytes=c["float_bytes"])
    a.update(kw)
    if c["seed"] % 2 and not kw:       # leave out options that have their default value
        for k, dflt in (("SO_VEL_DISPERSIONS", False), ("SUB_SHAPES", False), ("id_bytes", 4), ("float_bytes", 4)):
            if a.get(k) == dflt:
                del a[k]
    return m.SubTabFile(fn, **a)


@check.sub(sf.catalogues(), 700, 20000)
def sub_tab(c):
    d = paths.fresh_dir()
    try:
        for h, g, s in build(c):
            fn = os.path.join(d, "t")
            sf.write_plain(fn, c, h, g, s)
            f = reader(fn, c)
            want = {**h, **g, **s}
            compare(f, want)
            ck(dataset_names(f) == set(want), "names %r" % sorted(dataset_names(f)))
            ck(f.all_bytes_used(), "file not covered")
            ck(f.sanity_check() is None, "sanity check of a valid file")
            f.close()
        return len(c["len"]) >= 2 and sum(c["nsub"]) > 0
    finally:
        paths.drop(d)


def ids_file(fn, c, dup=False):
    rng = np.random.default_rng(c["seed"])
    n = sum(c["len"])
    t = "u%d" % c["id_bytes"]
    ids = rng.permutation(n).astype(t) + np.asarray(rng.integers(0, 2 ** (8 * c["id_bytes"] - 1), dtype=t))
    if dup:
        ids[c["i"] % n] = ids[(c["i"] + 1 + c["i"] // n % (n - 1)) % n]
    h = {"Ngroups": np.int32(len(c["len"])), "TotNgroups": np.int64(len(c["len"]) * 3), "Nids": np.int32(n),
         "TotNids": np.int64(n + 2 ** 33), "NTask": np.int32(c["ntask"] or c["nf"]), "NidsPrevious": np.int64(2 ** 35 + 7)}
    return {**h, "GroupIDs": ids.astype(t)}, sf.write_plain(fn, c, h, {"GroupIDs": ids.astype(t)})


@check.sub(sf.catalogues(), 500, 15000)
def sub_ids(c):
    import virgo.formats.subfind_lgadget3 as m
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "i")
        want, _ = ids_file(fn, c)
        f = m.SubIDsFile(fn) if c["id_bytes"] == 4 and c["seed"] % 2 else m.SubIDsFile(fn, id_bytes=c["id_bytes"])
        compare(f, want)
        ck(dataset_names(f) == set(want), "names")
        ck(f.all_bytes_used(), "file not covered")
        ck(f.sanity_check() is None, "sanity check of a valid file")
        f.close()
        return len(c["len"]) >= 2
    finally:
        paths.drop(d)


HOW = ["neg_tot", "neg_len", "off_neg", "off_big", "off_huge", "nsubs_neg", "first_neg", "first_big", "first_huge", "g_nan", "g_neg",
       "sublen_neg", "suboff_neg", "suboff_big", "suboff_huge", "s_nan", "s_neg", "grnr_neg", "grnr_big", "grnr_order", "extra", "short"]


@st.composite
def damaged(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=1))
    c["how"] = draw(st.sampled_from(HOW))
    c["i"] = draw(st.integers(0, 10 ** 6))
    c["value"] = draw(st.sampled_from([1, 2, 1000, 2 ** 30]))
    return c


def damage(c, h, g, s, gprops, sprops, spos, maxoff=2 ** 31 - 1):
    """Break one promise; None if this file has nothing to break."""
    how, i, v = c["how"], c["i"], c["value"]
    ng, ns = len(g["GroupLen"]), len(s["SubLen"])
    k = i % ng
    j = i % ns if ns else None
    if "off_" in how and h["TotNids"] >= 2 ** 31:       # offsets overflow, which is not an error
        return False

    def store(a, k, x):
        a[k] = np.int64(x).astype(a.dtype)
    if how == "neg_tot":
        nm = ["TotNids", "TotNgroups", "TotNsubgroups"][i % 3]
        h[nm] = h[nm].dtype.type(-v)
    elif how == "neg_len":
        g["GroupLen"][k] = -v
    elif how == "off_neg":
        g["GroupOffset"][k] = g["GroupOffset"].dtype.type(-v if g["GroupOffset"].dtype.kind == "i" else 2 ** 32 - v)
    elif how == "off_big":
        store(g["GroupOffset"], k, int(h["TotNids"]) - int(g["GroupLen"][k]) + v)
    elif how == "off_huge":
        g["GroupOffset"][k] = maxoff - (i % 2)
        if int(g["GroupOffset"][k]) + int(g["GroupLen"][k]) <= h["TotNids"]:
            return False
    elif how == "nsubs_neg":
        g["Nsubs"][k] = -v
    elif how in ("first_neg", "first_big", "first_huge"):
        has = np.flatnonzero(g["Nsubs"] > 0)
        if not len(has):
            return False
        q = has[i % len(has)]
        store(g["FirstSub"], q, {"first_neg": -v, "first_big": int(h["TotNsubgroups"]) - int(g["Nsubs"][q]) + v,
                                 "first_huge": 2 ** 31 - 1}[how])
    elif how in ("g_nan", "g_neg"):
        nm = gprops[i % len(gprops)]
        g[nm][i // 20 % ng] = [np.nan, np.inf, -np.inf][v % 3] if how == "g_nan" else -float(v)
    elif ns == 0 and how not in ("extra", "short"):
        return False
    elif how == "sublen_neg":
        s["SubLen"][j] = -v
    elif how == "suboff_neg":
        s["SubOffset"][j] = -v
    elif how == "suboff_big":
        store(s["SubOffset"], j, int(h["TotNids"]) - int(s["SubLen"][j]) + v)
    elif how == "suboff_huge":
        s["SubOffset"][j] = 2 ** 31 - 1
        if s["SubLen"][j] == 0 and h["TotNids"] >= 2 ** 31 - 1:
            return False
    elif how == "s_nan":
        nm = (sprops + spos)[i % len(sprops + spos)]
        a = s[nm].reshape(-1)
        a[i // 20 % len(a)] = [np.nan, np.inf, -np.inf][v % 3]
    elif how == "s_neg":
        s[sprops[i % len(sprops)]][i // 20 % ns] = -float(v)
    elif how == "grnr_neg":
        s["SubGrNr"][j] = -v
    elif how == "grnr_big":
        store(s["SubGrNr"], j, int(h["TotNgroups"]) + v - 1)
    elif how == "grnr_order":
        a = s["SubGrNr"]
        up = np.flatnonzero(a[1:] > a[:-1])
        if not len(up):
            return False
        q = up[i % len(up)]
        a[q], a[q + 1] = a[q + 1], a[q]
    return True


@check.sub(damaged(), 1800, 50000)
def sanity_check_finds(c):
    d = paths.fresh_dir()
    try:
        h, g, s = build(c)[0]
        if not damage(c, h, g, s, ["Halo_M_Mean200", "Halo_M_Crit200", "Halo_M_TopHat200", "GroupVelDisp"],
                      ["SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"], ["SubPos", "SubVel", "SubCofM", "SubSpin"]):
            return False
        fn = os.path.join(d, "t")
        b = sf.write_plain(fn, c, h, g, s)
        if c["how"] == "extra":
            with open(fn, "ab") as o:
                o.write(b"x" * (1 + c["i"] % 7))
        elif c["how"] == "short":
            with open(fn, "wb") as o:
                o.write(b[:len(b) - 1 - c["i"] % 7])
        f = reader(fn, c)
        must_raise(Exception, f.sanity_check)
        f.close()
        event(c["how"])
        return True
    finally:
        paths.drop(d)


@st.composite
def wrong(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=2))
    c["kind"] = draw(st.sampled_from(["tab", "ids"]))
    c["how"] = draw(st.sampled_from(["cut", "float", "veldisp", "shape", "id", "bad", "dup"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    return c


@check.sub(wrong(), 600, 15000)
def wrong_file_or_options(c):
    """Truncated files and wrong options are detected: by IOError on reading or by the sanity check."""
    import virgo.formats.subfind_lgadget3 as m
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "f")
        tab = c["kind"] == "tab"
        if c["how"] == "bad":
            h, g, s = build(c)[0]
            sf.write_plain(fn, c, h, g, s)
            nm = ["id_bytes", "float_bytes"][c["i"] % 2]
            must_raise(ValueError, reader, fn, c, **{nm: [0, 2, 16, 5][c["i"] // 2 % 4]})
            return True
        if tab:
            h, g, s = build(c)[0]
            want = {**h, **g, **s}
            b = sf.write_plain(fn, c, h, g, s)
        else:
            if sum(c["len"]) < 2:
                return False
            want, b = ids_file(fn, c, dup=c["how"] == "dup")
        kw = {}
        if c["how"] == "cut":
            with open(fn, "wb") as o:
                o.write(b[:len(b) - 1 - c["i"] % min(len(b) - 1, 300)])

            def read_all():
                f = reader(fn, c) if tab else m.SubIDsFile(fn, id_bytes=c["id_bytes"])
                for k, v in want.items():
                    eq(f[k][...], v, k)
            must_raise(IOError, read_all)
            return True
        if tab:
            if c["how"] == "float":
                kw = {"float_bytes": 12 - c["float_bytes"]}
            elif c["how"] == "veldisp":
                kw = {"SO_VEL_DISPERSIONS": not c["veldisp"]}
            elif c["how"] == "shape" and sum(c["nsub"]):
                kw = {"SUB_SHAPES": not c["shape"]}
            else:
                return False
            f = reader(fn, c, **kw)
        else:
            if c["how"] not in ("id", "dup"):
                return False
            f = m.SubIDsFile(fn, id_bytes=c["id_bytes"] if c["how"] == "dup" else 12 - c["id_bytes"])
        must_raise(Exception, f.sanity_check)
        f.close()
        return True
    finally:
        paths.drop(d)


@check.sub(sf.big_cases(2), 40, 1000)
def beyond_32_bits(c):
    """Sparse files with so many objects that sizes and offsets in the file exceed 32 bits."""
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "t")
        small = dict(c, len=[2, 3], nsub=[1, 2], gfile=[0, 0], sfile=[0] * 3, nf=1, ntask=0)
        a, b = c["n"]
        h, g, s = build(small)[0]
        probes, sizes = sf.big_file(fn, c, {**h, **g, **s}, {2: a, 3: b}, {"Ngroups": a, "Nsubgroups": b})
        sf.big_verify(reader(fn, c), probes, sizes)
        return os.stat(fn).st_size > 2 ** 31
    finally:
        paths.drop(d)
