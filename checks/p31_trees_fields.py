"""P31: MPA merger trees and MXXL descendant and density field files."""
import os, struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import Out, compare, fill, dataset_names
from vt.util import check as ck, eq, must_raise

check = Check("P31", quick_scale=6, shards=6, rule=(
    "sub_desc, treeaux, tree and MXXL descendant and field files of random sizes (including zero), 4/8-byte IDs, optional mass "
    "table, field files in either byte order with intact or damaged record markers; truncated files; random index "
    "expressions. Oracle: the values written. Non-trivial: at least two objects."),
    assumptions=["Tree files are in native byte order (their readers do not detect byte order)."])

KINDS = ["sub_desc", "treeaux", "tree", "mxxl_desc", "field"]


@st.composite
def cases(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "n": draw(st.sampled_from([0, 1, 2, 3, 8])), "m": draw(st.sampled_from([0, 1, 2, 5])),
            "k": draw(st.sampled_from([1, 2, 4])), "id_bytes": draw(st.sampled_from([4, 8])), "mass": draw(st.booleans()),
            "endian": draw(st.sampled_from("<>")), "seed": draw(st.integers(0, 999)), "i": draw(st.integers(0, 10 ** 6)),
            "how": draw(st.sampled_from(["ok", "ok", "ok", "cut", "bad"]))}


TREE = [("Descendant", "i4", 0), ("FirstProgenitor", "i4", 0), ("NextProgenitor", "i4", 0), ("FirstHaloInFOFgroup", "i4", 0),
        ("NextHaloInFOFgroup", "i4", 0), ("Len", "i4", 0), ("M_Mean200", "f4", 0), ("M_Crit200", "f4", 0), ("M_TopHat", "f4", 0),
        ("Pos", "f4", 3), ("Vel", "f4", 3), ("VelDisp", "f4", 0), ("VMax", "f4", 0), ("Spin", "f4", 3), ("MostBoundID", "ID", 0),
        ("SnapNum", "i4", 0), ("FileNr", "i4", 0), ("SubhaloIndex", "i4", 0), ("SubhalohalfMass", "f4", 0)]


def build(c):
    """Returns writer output, expected {dataset: values}; structured arrays as {field: values}."""
    rng = np.random.default_rng(c["seed"])
    n, m, k = c["n"], c["m"], c["k"]
    idt = "u%d" % c["id_bytes"]
    o = Out(c["endian"] if c["kind"] == "field" else "<")
    w, struct_fields = {}, None
    if c["kind"] == "sub_desc":
        w = {"TotNsubhalos": np.int32(n), "HaloIndex": fill(rng, "i4", (n,)), "SnapNum": fill(rng, "i4", (n,))}
    elif c["kind"] == "treeaux":
        w = {"TotHalos": np.int32(n), "Totunique": np.int32(m), "Ntrees": np.int32(k), "TotSnaps": np.int32(n % 3 + 1)}
        s = n % 3 + 1
        w.update(CountID_Snap=fill(rng, "i4", (s,)), OffsetID_Snap=fill(rng, "i4", (s,)), CountID_SnapTree=fill(rng, "i4", (s, k)),
                 OffsetID_SnapTree=fill(rng, "i4", (s, k)), Nunique=fill(rng, "i4", (n,)), OffsetID_Halo=fill(rng, "i4", (n,)),
                 IDs=fill(rng, idt, (m,)), Pos=fill(rng, "f4", (m, 3)), Vel=fill(rng, "f8", (m, 3)))
    elif c["kind"] == "mxxl_desc":
        w = {"Nsubgroups": np.int32(n), "SubMostBoundID": fill(rng, "u8", (n,)), "Desc_FileNr": fill(rng, "i4", (n,)),
             "Desc_SubIndex": fill(rng, "i4", (n,))}
    elif c["kind"] == "tree":
        w = {"Ntrees": np.int32(k), "Nhalos": np.int32(n), "NPerTree": fill(rng, "i4", (k,))}
        struct_fields = {}
        for nm, t, q in TREE + ([("SubMassTab", "f4", 6)] if c["mass"] else []):
            struct_fields[nm] = fill(rng, idt if t == "ID" else t, (n, q) if q else (n,))
    if c["kind"] != "field":
        for v in w.values():
            o.put(v)
        for i in range(n if struct_fields else 0):
            for v in struct_fields.values():
                o.put(v[i])
    else:
        nn, sl = k, m
        w = {"NTask": np.int32(n), "BoxSize": np.float64(rng.uniform()), "nn": np.int32(nn), "isw_slabs_per_task": np.int32(sl)}
        o.raw(struct.pack(o.e + "i", 8))
        for v in w.values():
            o.put(v)
        o.raw(struct.pack(o.e + "i", 8))
        w["grid"] = fill(rng, "f4", (sl, nn, nn))
        o.record(w["grid"])
    return o, w, struct_fields


@check.sub(cases(), 2200, 60000)
def files(c):
    import virgo.formats.mpa_trees as mpa
    import virgo.sims.mxxl as mxxl
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "f")
        o, w, sf = build(c)
        b = bytearray(o.bytes())
        how = c["how"]
        if how == "cut":
            b = b[:len(b) - 1 - c["i"] % (len(b) - 1)]
        elif how == "bad" and c["kind"] == "field":
            off = o.marks[c["i"] % 2][0]
            v = struct.unpack(o.e + "I", b[off:off + 4])[0] + [1, 4, -1, 16][c["i"] // 2 % 4]
            b[off:off + 4] = struct.pack(o.e + "I", v % 2 ** 32)
        elif how == "bad" and c["kind"] in ("sub_desc", "mxxl_desc"):
            return False
        with open(fn, "wb") as g:
            g.write(bytes(b))

        def open_it(idb=c["id_bytes"]):
            if c["kind"] == "sub_desc":
                return mpa.SubDescFile(fn)
            if c["kind"] == "treeaux":
                return mpa.TreeAuxFile(fn, id_bytes=idb) if idb != 8 or c["i"] % 2 else mpa.TreeAuxFile(fn)
            if c["kind"] == "tree":
                return mpa.TreeFile(fn, id_bytes=idb, SAVE_MASS_TAB=c["mass"]) if idb != 8 or c["mass"] else mpa.TreeFile(fn)
            return (mxxl.SubDescFile if c["kind"] == "mxxl_desc" else mxxl.FieldFile)(fn)

        def read_all():
            f = open_it()
            compare(f, w, c["kind"])
            want = set(w)
            if sf is not None:
                h = f["HaloList"][...]
                ck(h.dtype.names == tuple(sf), "fields %r" % (h.dtype.names,))
                for nm, v in sf.items():
                    eq(h[nm], v, nm)
                if c["n"] > 1:
                    k = c["i"] % c["n"]
                    eq(f["HaloList"][k:]["Pos"], sf["Pos"][k:], "slice of HaloList")
                want.add("HaloList")
            ck(dataset_names(f) == want, "names %r" % sorted(dataset_names(f)))
            if c["kind"] != "field":
                ck(f.all_bytes_used(), "file not covered")
            elif c["m"]:
                k = c["i"] % c["m"]
                eq(f["grid"][k, :, c["i"] % c["k"]], w["grid"][k, :, c["i"] % c["k"]], "part of grid")
            f.close()
        if how == "cut":
            must_raise((IOError, ValueError), read_all)
        elif how == "bad":
            if c["kind"] == "field":
                must_raise(IOError, open_it)
            else:
                must_raise(ValueError, open_it, [0, 2, 16][c["i"] % 3])
        else:
            read_all()
        event(c["kind"] + " " + how)
        return c["n"] >= 2
    finally:
        paths.drop(d)


@check.sub(sf.big_cases(2), 40, 1000)
def beyond_32_bits(c):
    """Sparse files with so many objects that sizes and offsets in the file exceed 32 bits."""
    import virgo.formats.mpa_trees as mpa
    import virgo.sims.mxxl as mxxl
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "t")
        kind = ["sub_desc", "treeaux", "mxxl_desc", "treeaux"][c["seed"] % 4]
        a, b = c["n"]
        if kind != "treeaux":
            a = b = max(a, b)
        c = dict(c, endian="<")
        w = build({"kind": kind, "n": 5, "m": 7, "k": 2, "id_bytes": c["id_bytes"], "seed": c["seed"], "endian": "<", "mass": False})[1]
        probes, sizes = sf.big_file(fn, c, w, {5: a, 7: b}, {"TotNsubhalos": a, "Nsubgroups": a, "TotHalos": a, "Totunique": b})
        f = mpa.SubDescFile(fn) if kind == "sub_desc" else mxxl.SubDescFile(fn) if kind == "mxxl_desc" else \
            mpa.TreeAuxFile(fn, id_bytes=c["id_bytes"])
        sf.big_verify(f, probes, sizes)
        return os.stat(fn).st_size > 2 ** 31
    finally:
        paths.drop(d)
