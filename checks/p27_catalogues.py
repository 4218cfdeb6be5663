"""P27: Gadget-4 subhalo files; reading whole multi-file group catalogues."""
import os, struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import compare, dataset_names
from vt.util import check as ck, eq, must_raise, same_dtype

check = Check("P27", quick_scale=5, shards=6, rule=(
    "fof_subhalo_tab (Gadget-4) and subhalo_tab (P-Gadget3) catalogues in 1-5 files written by independent writers, with empty "
    "files, groups and subgroups stored in different files, either byte order, 4/8-byte IDs and floats; files, GroupCatalogue "
    "with default and explicit dataset lists; damaged record markers. Oracle: the arrays written, concatenated in file order. "
    "Non-trivial: at least two files and two groups with subgroups."))


def g4_files(c, d, isnap=7):
    g, s, ln = sf.whole(c, sf.G4_GROUP, sf.G4_SUB)
    dd = os.path.join(d, "groups_%03d" % isnap)
    os.makedirs(dd, exist_ok=True)
    out = []
    for i, (gg, ss) in enumerate(sf.split(c, g, s)):
        fn = os.path.join(dd, "fof_subhalo_tab_%03d.%d" % (isnap, i))
        o, want = sf.gadget4_file(fn, c, gg, ss, (len(ln), len(s["SubLen"]), int(ln.sum())), int(gg["GroupLen"].sum()))
        out.append((fn, want, o))
    return g, s, out


@check.sub(sf.catalogues(), 600, 18000)
def gadget4_layout(c):
    from virgo.formats.subfind_gadget4 import SubTabFile
    d = paths.fresh_dir()
    try:
        for fn, want, o in g4_files(c, d)[2]:
            f = SubTabFile(fn) if c["id_bytes"] == 8 and c["seed"] % 2 else SubTabFile(fn, id_bytes=c["id_bytes"])
            compare(f, want)
            ck(dataset_names(f) == set(want), "names %r" % sorted(dataset_names(f)))
            f.close()
        return c["nf"] >= 2 and len(c["len"]) >= 2 and sum(c["nsub"]) > 0
    finally:
        paths.drop(d)


@st.composite
def catcases(draw):
    c = draw(sf.catalogues(maxfiles=5, min_groups=1))
    if sum(c["nsub"]) == 0:
        c["nsub"][0], c["sfile"] = 1, [draw(st.integers(0, c["nf"] - 1))]
    c["which"] = draw(st.sampled_from(["g4", "p3"]))
    c["isnap"] = draw(st.sampled_from([0, 7, 63, 127, 999]))
    c["explicit"] = draw(st.sampled_from([None, None, "some", "one", "rev"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    return c


def p3_files(c, d, isnap):
    import checks.p26_pgadget3 as p26
    dd = os.path.join(d, "groups_%03d" % isnap)
    os.makedirs(dd, exist_ok=True)
    c = dict(c, ntask=0)                    # the file count comes from the header
    for i, files in enumerate(p26.build(c)):
        sf.write_plain(os.path.join(dd, "subhalo_tab_%03d.%d" % (isnap, i)), c, *files["sub_tab"])
    g, s, ln = sf.whole(c, sf.P3_GROUP, sf.P3_SUB)
    return {**g, **s}


@check.sub(catcases(), 700, 20000)
def catalogue(c):
    if c["which"] == "g4":
        from virgo.formats.subfind_gadget4 import GroupCatalogue
    else:
        from virgo.formats.subfind_pgadget3 import GroupCatalogue
    return run_catalogue(c, GroupCatalogue)


def run_catalogue(c, GroupCatalogue):
    d = paths.fresh_dir()
    try:
        if c["which"] == "g4":
            g, s, _ = g4_files(c, d, c["isnap"])
            want = {**g, **s}
            kw = {"id_bytes": c["id_bytes"]}
        else:
            want = p3_files(c, d, c["isnap"])
            kw = {"id_bytes": c["id_bytes"], "float_bytes": c["float_bytes"], "SO_VEL_DISPERSIONS": c["veldisp"]}
        names = sorted(want)
        if c["explicit"] == "some":
            names = names[c["i"] % 5::3]
        elif c["explicit"] == "one":
            names = [names[c["i"] % len(names)]]
        elif c["explicit"] == "rev":
            names = names[::-1]
        for k, default in (("SO_VEL_DISPERSIONS", False), ("id_bytes", 8), ("float_bytes", 4)):
            if kw.get(k) == default and c["i"] % 3:
                del kw[k]
        if c["explicit"]:
            kw["datasets"] = names if c["i"] % 2 else tuple(names)
        cat = GroupCatalogue(d, c["isnap"], **kw)
        ck(sorted(cat) == sorted(names), "catalogue has datasets %r, expected %r" % (sorted(cat), sorted(names)))
        ck(len(cat) == len(names), "len()")
        if c["explicit"]:
            ck(list(cat.keys()) == list(names), "order of datasets")
        for k in names:
            ck(k in cat, "missing " + k)
            eq(cat[k], want[k], k)
            same_dtype(cat[k], want[k].dtype, k)
        must_raise(KeyError, lambda: cat["NoSuchDataset"])
        # a missing file is an error, not a shorter catalogue
        k = c["i"] % c["nf"]
        nm = ("fof_subhalo_tab_%03d.%d" if c["which"] == "g4" else "subhalo_tab_%03d.%d") % (c["isnap"], k)
        os.remove(os.path.join(d, "groups_%03d" % c["isnap"], nm))
        must_raise(IOError, GroupCatalogue, d, c["isnap"], **kw)
        event(c["which"])
        return c["nf"] >= 2 and len(c["len"]) >= 2
    finally:
        paths.drop(d)


@st.composite
def damaged(draw):
    c = draw(sf.catalogues(maxfiles=1, min_groups=1))
    c["how"] = draw(st.sampled_from(["marker", "cut", "id", "bad", "dp"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    c["delta"] = draw(st.sampled_from([1, 4, -1, 12, 256, -4]))
    return c


@check.sub(damaged(), 800, 20000)
def gadget4_rejects(c):
    """Wrong record markers, truncation and wrong ID sizes are errors."""
    from virgo.formats.subfind_gadget4 import SubTabFile
    d = paths.fresh_dir()
    try:
        fn, want, o = g4_files(c, d)[2][0]
        b = bytearray(o.bytes())
        ids = c["id_bytes"]
        if c["how"] == "bad":
            must_raise(ValueError, SubTabFile, fn, id_bytes=[0, 2, 5, 16][c["i"] % 4])
            return True
        if c["how"] == "id":
            if not sum(c["nsub"]):
                return False
            ids = 12 - ids
        elif c["how"] == "marker":
            off, _ = o.marks[c["i"] % len(o.marks)]
            v = struct.unpack(c["endian"] + "I", b[off:off + 4])[0] + c["delta"]
            b[off:off + 4] = struct.pack(c["endian"] + "I", v % 2 ** 32)
        elif c["how"] == "dp":
            at = 4 + 8 * 4 + 6 * 8
            b[at:at + 4] = struct.pack(c["endian"] + "i", int(c["float_bytes"] == 4))
        else:
            b = b[:len(b) - 1 - c["i"] % (len(b) - 1)]
        with open(fn, "wb") as g:
            g.write(bytes(b))
        must_raise((IOError, ValueError), SubTabFile, fn, id_bytes=ids)
        event(c["how"])
        return True
    finally:
        paths.drop(d)
