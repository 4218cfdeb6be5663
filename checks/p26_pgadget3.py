"""P26: P-Gadget3 group, subhalo and ID files and their sanity checks."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import compare, dataset_names, fill
from vt.util import check as ck, eq, must_raise
from checks.p25_lgadget3 import HOW, damage

check = Check("P26", quick_scale=5, shards=6, rule=(
    "subhalo_tab, subhalo_ids, group_tab and group_ids files of random consistent multi-file catalogues written by an "
    "independent writer for all combinations of byte order, id_bytes, float_bytes and SO_VEL_DISPERSIONS; then damaged in one "
    "way that sanity_check() promises to find; then truncated, extended, or read with wrong options. Oracle: arrays written; "
    "acceptance of valid and rejection of damaged files. Non-trivial: at least two groups, one with subgroups."))


def build(c):
    """Per file: {kind: [header, tables...]}"""
    g, s, ln = sf.whole(c, sf.P3_GROUP, sf.P3_SUB)
    rng = np.random.default_rng(c["seed"] + 1)
    ng = len(ln)
    ft = sf.typ(sf.F, c)
    lentype = np.array([rng.multinomial(n, [1 / 6] * 6) for n in ln], dtype="i4").reshape((ng, 6))
    masstype = (lentype * rng.uniform(0.5, 2, (ng, 6))).astype(ft)
    gt = {"GroupLen": g["GroupLen"], "GroupOffset": g["GroupOffset"],
          "GroupMass": masstype.sum(axis=1, dtype="f8").astype(ft), "GroupCofM": fill(rng, ft, (ng, 3)),
          "GroupVel": fill(rng, ft, (ng, 3)), "GroupLenType": lentype, "GroupMassType": masstype}
    t = "u%d" % c["id_bytes"]
    n = int(ln.sum())
    ids = (rng.permutation(n).astype(t) + np.asarray(rng.integers(0, 2 ** (8 * c["id_bytes"] - 1), dtype=t))).astype(t)
    pos = 0
    out = []
    gf = np.array(c["gfile"], int)
    for i, (gg, ss) in enumerate(sf.split(c, g, s)):
        nids = int(gg["GroupLen"].sum())
        tot = sf.totals(c)
        h = {"Ngroups": np.int32(len(gg["GroupLen"])), "TotNgroups": np.int32(tot[1]), "Nids": np.int32(nids),
             "TotNids": np.int64(tot[0]), "NTask": np.int32(c["ntask"] or c["nf"])}
        send = {"SendOffset": np.int32(pos)}
        fids = {"GroupIDs": ids[pos:pos + nids]}
        pos += nids
        out.append({"sub_tab": [{**h, "Nsubgroups": np.int32(len(ss["SubLen"])), "TotNsubgroups": np.int32(tot[2])}, gg, ss],
                    "group_tab": [h, {k: v[gf == i] for k, v in gt.items()}],
                    "group_ids": [{**h, **send}, fids], "sub_ids": [{**h, **send}, fids]})
    return out


def reader(kind, fn, c, **kw):
    import virgo.formats.subfind_pgadget3 as m
    if kind == "sub_tab":
        a = dict(SO_VEL_DISPERSIONS=c["veldisp"], id_bytes=c["id_bytes"], float_bytes=c["float_bytes"])
        cls = m.SubTabFile
    elif kind == "sub_ids":
        a, cls = dict(id_bytes=c["id_bytes"]), m.SubIDsFile
    else:
        a = dict(id_bytes=c["id_bytes"], float_bytes=c["float_bytes"])
        cls = m.GroupIDsFile if kind == "group_ids" else m.GroupTabFile
    a.update(kw)
    if c["seed"] % 2 and not kw:       # leave out options that have their default value
        for k, dflt in (("SO_VEL_DISPERSIONS", False), ("id_bytes", 8), ("float_bytes", 4)):
            if a.get(k) == dflt:
                del a[k]
    return cls(fn, **a)


def merged(tables):
    return {k: v for t in tables for k, v in t.items()}


KINDS = ["sub_tab", "group_tab", "group_ids", "sub_ids"]


@check.sub(sf.catalogues(), 450, 14000)
def layout(c):
    d = paths.fresh_dir()
    try:
        for files in build(c):
            for kind in KINDS:
                fn = os.path.join(d, kind)
                sf.write_plain(fn, c, *files[kind])
                f = reader(kind, fn, c)
                want = merged(files[kind])
                compare(f, want, kind)
                ck(dataset_names(f) == set(want), "names %r" % sorted(dataset_names(f)))
                ck(f.all_bytes_used(), kind + ": file not covered")
                ck(f.sanity_check() is None, kind + ": sanity check of a valid file")
                f.close()
        return len(c["len"]) >= 2 and sum(c["nsub"]) > 0
    finally:
        paths.drop(d)


@st.composite
def damaged(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=1))
    c["how"] = draw(st.sampled_from(HOW))
    c["i"] = draw(st.integers(0, 10 ** 6))
    c["value"] = draw(st.sampled_from([1, 2, 1000, 2 ** 30]))
    return c


@check.sub(damaged(), 1600, 50000)
def sub_tab_sanity(c):
    d = paths.fresh_dir()
    try:
        h, g, s = build(c)[0]["sub_tab"]
        if not damage(c, h, g, s, ["GroupMass", "Halo_M_Mean200", "Halo_R_Mean200", "Halo_M_Crit200", "Halo_R_Crit200",
                                   "Halo_M_TopHat200", "Halo_R_TopHat200"],
                      ["SubMass", "SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"], ["SubPos", "SubVel", "SubCofM", "SubSpin"],
                      maxoff=2 ** 32 - 1):
            return False
        fn = os.path.join(d, "t")
        b = sf.write_plain(fn, c, h, g, s)
        if c["how"] == "extra":
            with open(fn, "ab") as o:
                o.write(b"x" * (1 + c["i"] % 7))
        elif c["how"] == "short":
            with open(fn, "wb") as o:
                o.write(b[:len(b) - 1 - c["i"] % 7])
        f = reader("sub_tab", fn, c)
        must_raise(Exception, f.sanity_check)
        f.close()
        event(c["how"])
        return True
    finally:
        paths.drop(d)


@st.composite
def gdamaged(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=2))
    c["how"] = draw(st.sampled_from(["lentype", "len", "offset", "mass", "masstype", "dup_g", "dup_s", "extra", "short"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    c["value"] = draw(st.sampled_from([1, 2, 1000]))
    return c


@check.sub(gdamaged(), 900, 30000)
def group_sanity(c):
    d = paths.fresh_dir()
    try:
        how, i = c["how"], c["i"]
        files = build(c)[0]
        kind = {"dup_g": "group_ids", "dup_s": "sub_ids"}.get(how, "group_tab")
        if how in ("extra", "short"):
            kind = KINDS[1 + i % 3]
        h, t = files[kind]
        ng = len(c["len"])
        if how == "lentype":
            t["GroupLenType"][i % ng, i // 20 % 6] += c["value"]
        elif how == "len":
            t["GroupLen"][i % ng] += c["value"]
        elif how == "offset":
            t["GroupOffset"][i % ng] += c["value"]
        elif how == "mass":
            t["GroupMass"][i % ng] *= [1.01, 0.99, 2.0, 1.0001][i // 20 % 4]
        elif how == "masstype":
            q = np.flatnonzero(t["GroupMassType"].reshape(-1))
            t["GroupMassType"].reshape(-1)[q[i % len(q)]] *= 1.5
        elif how.startswith("dup"):
            n = len(t["GroupIDs"])
            a = np.array(t["GroupIDs"])
            a[i % n] = a[(i + 1 + i // n % (n - 1)) % n] if n > 1 else a[0]
            if n < 2:
                return False
            t = {"GroupIDs": a}
        fn = os.path.join(d, "t")
        b = sf.write_plain(fn, c, h, t)
        if how == "extra":
            with open(fn, "ab") as o:
                o.write(b"x" * (1 + i % 7))
        elif how == "short":
            with open(fn, "wb") as o:
                o.write(b[:len(b) - 1 - i % 3])
        f = reader(kind, fn, c)
        must_raise(Exception, f.sanity_check)
        f.close()
        event(kind + " " + how)
        return True
    finally:
        paths.drop(d)


@st.composite
def wrong(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=2))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["how"] = draw(st.sampled_from(["cut", "cut", "float", "veldisp", "id", "bad", "unimplemented"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    return c


@check.sub(wrong(), 600, 15000)
def wrong_file_or_options(c):
    """Truncated files and wrong options are detected: by an exception on opening or reading, or by the sanity check."""
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "f")
        kind, how, i = c["kind"], c["how"], c["i"]
        tables = build(c)[0][kind]
        want = merged(tables)
        b = sf.write_plain(fn, c, *tables)
        if how == "bad":
            if kind == "sub_ids":
                return False
            nm = ["id_bytes", "float_bytes"][i % 2] if kind != "group_ids" else "id_bytes"
            must_raise(ValueError, reader, kind, fn, c, **{nm: [0, 2, 16, 5][i // 2 % 4]})
        elif how == "unimplemented":
            must_raise(NotImplementedError, reader, "sub_tab", fn, c, **{["SO_BAR_INFO", "WRITE_SUB_IN_SNAP_FORMAT"][i % 2]: True})
        elif how == "cut":
            with open(fn, "wb") as o:
                o.write(b[:len(b) - 1 - i % min(len(b) - 1, 300)])

            def read_all():
                f = reader(kind, fn, c)
                for k, v in want.items():
                    eq(f[k][...], v, k)
            must_raise(IOError, read_all)
        else:
            kw = {}
            if how == "float" and kind in ("sub_tab", "group_tab"):
                kw = {"float_bytes": 12 - c["float_bytes"]}
            elif how == "veldisp" and kind == "sub_tab":
                kw = {"SO_VEL_DISPERSIONS": not c["veldisp"]}
            elif how == "id" and (kind.endswith("ids") or kind == "sub_tab" and sum(c["nsub"])):
                kw = {"id_bytes": 12 - c["id_bytes"]}
            if not kw:
                return False
            f = reader(kind, fn, c, **kw)
            must_raise(Exception, f.sanity_check)
            f.close()
        return True
    finally:
        paths.drop(d)


@check.sub(sf.big_cases(2), 40, 1000)
def beyond_32_bits(c):
    """Sparse files with so many objects that sizes and offsets in the file exceed 32 bits."""
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "t")
        small = dict(c, len=[2, 3], nsub=[1, 2], gfile=[0, 0], sfile=[0] * 3, nf=1, ntask=0)
        a, b = c["n"]
        kind = KINDS[c["seed"] % 4]
        items = merged(build(small)[0][kind])
        if (kind.endswith("ids") and not b) or (kind == "group_tab" and not a):
            return False
        probes, sizes = sf.big_file(fn, c, items, {2: a, 3: b, 5: b}, {"Ngroups": a, "Nsubgroups": b, "Nids": b, "TotNids": b})
        sf.big_verify(reader(kind, fn, c), probes, sizes)
        return os.stat(fn).st_size > 2 ** 31
    finally:
        paths.drop(d)
