"""P11: MultiFile.read."""
import os
from pathlib import Path
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi, paths
from vt.util import check as ck, eq
from checks.p02_move import mk

check = Check("P11", quick_scale=2, shards=2, rule=(
    "File sets of 1-40 HDF5 files read by 1-8 ranks (both more files than ranks and more ranks than files), located by "
    "%-format, {}-format, list of names, explicit file_idx, file_nr_attr or file_nr_dataset; all kinds of types; datasets and groups missing "
    "from some or all files, zero-length datasets, big-endian data, attributes, unpack, single-name reads, file numbers. "
    "Oracle: serial concatenation in file order. Non-trivial: at least two files and two ranks, with data."))


@st.composite
def fileset(draw, same_layout=False):
    c = draw(gen.comms())
    n = len(c["order"])
    nf = draw(st.one_of(st.integers(1, 12), st.just(n), st.integers(1, 3), st.integers(2, 8), st.integers(13, 40)))
    c["nf"] = nf
    nd = draw(st.integers(1, 3))
    big = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(20, 120)) if nf <= 12 else st.integers(0, 4)
    c["dsets"] = []
    pres = st.sampled_from([1, 1, 1, 0])
    allpres = draw(st.booleans())
    for k in range(nd):
        c["dsets"].append({
            "name": ["Pos", "IDs", "sub/Mass"][k],
            "dtype": draw(st.sampled_from(["int32", "int64", "float32", "float64", "uint64", ">f4", ">i8", ">f8", "int8", "bool", "S4", "complex64", "float16"])),
            "trail": draw(st.sampled_from([(), (), (), (3,), (2, 2), (1, 2), (0,)])),
            "counts": draw(st.lists(big, min_size=nf, max_size=nf)),
            "present": [1] * nf if allpres else draw(st.lists(pres, min_size=nf, max_size=nf)),
        })
    if same_layout:
        for ds in c["dsets"][1:]:
            ds["counts"] = c["dsets"][0]["counts"]
            ds["present"] = c["dsets"][0]["present"]
        for ds in c["dsets"]:
            ds["name"] = ds["name"].replace("sub/", "")
    c["group"] = draw(st.sampled_from([None, "PartType1", "A/B"]))
    c["gpresent"] = [1] * nf if (allpres or c["group"] is None) else draw(st.lists(pres, min_size=nf, max_size=nf))
    c["locate"] = draw(st.sampled_from(["list", "idx%", "idx{}", "attr%", "attr{}", "dset%", "dset{}"]))
    if c["locate"].startswith("idx"):
        c["idx"] = draw(st.lists(st.integers(0, 60), min_size=nf, max_size=nf, unique=True))
    else:
        c["idx"] = list(range(nf))
    c["how"] = draw(st.integers(0, 5))
    return c


def make_files(c, d, dtype_of=None):
    """Write the files; returns (files argument, constructor kwargs, expected per dataset per file)."""
    how = c["locate"]
    fmt_pct = os.path.join(d, "snap.%(file_nr)d.hdf5")
    fmt_brace = os.path.join(d, "snap.{file_nr}.hdf5")
    names = [fmt_pct % {"file_nr": i} for i in c["idx"]]
    content = {ds["name"]: [] for ds in c["dsets"]}
    base = 0
    for k, fn in enumerate(names):
        with h5py.File(fn, "w") as f:
            h = f.create_group("Header")
            x = [c["nf"], np.int32(c["nf"]), np.array([c["nf"]]), np.array([c["nf"]], dtype="u4"), np.uint64(c["nf"]),
                 np.array(c["nf"], dtype=">i4")][c["how"]]
            h.attrs["NumFilesPerSnapshot"] = x
            h["nfiles"] = x
            loc = None
            if c["group"] is None:
                loc = f
            elif c["gpresent"][k]:
                loc = f.create_group(c["group"])
            for ds in c["dsets"]:
                if loc is None or not ds["present"][k]:
                    content[ds["name"]].append(None)
                    continue
                dt = np.dtype(ds["dtype"] if dtype_of is None else dtype_of(ds, k))
                a = mk(dt.newbyteorder("=").str, list(range(base, base + ds["counts"][k])), ds["trail"])
                base += ds["counts"][k]
                o = loc.create_dataset(ds["name"], data=a.astype(dt), dtype=dt)
                o.attrs["units"] = "Mpc/" + ds["name"]
                o.attrs["exponent"] = -1.5
                o.attrs["vec"] = np.array([1, 2, 3], dtype="i8")
                content[ds["name"]].append(a)
    kw = {}
    if how == "list":
        files = names if c["how"] % 2 else tuple(names) if c["how"] else [Path(x) for x in names]
    else:
        files = fmt_pct if how.endswith("%") else fmt_brace
        if how.startswith("idx"):
            kw["file_idx"] = list(c["idx"]) if c["how"] % 2 else np.array(c["idx"], dtype=["i8", "i4", "u8"][c["how"] // 2])
        elif how.startswith("attr"):
            kw["file_nr_attr"] = ("Header", "NumFilesPerSnapshot")
        else:
            kw["file_nr_dataset"] = "Header/nfiles"
    return files, kw, content


@st.composite
def read_cases(draw):
    c = draw(fileset())
    c["single"] = draw(st.booleans()) if len(c["dsets"]) == 1 else False
    c["unpack"] = draw(st.booleans()) and not c["single"]
    c["attributes"] = draw(st.booleans())
    c["file_nr"] = draw(st.sampled_from([None, None, "names", "true", "false"] + ([] if c["single"] or c["unpack"] else ["some"])))
    c["before"] = draw(st.sampled_from([0, 0, 1, 2]))
    return c


@check.sub(read_cases(), 700, 20000)
def read(c):
    d = paths.fresh_dir()
    try:
        files, kw, content = make_files(c, d)
        names = [ds["name"] for ds in c["dsets"]]
        before = [{"datasets": names[-1:], "group": c["group"], "read_attributes": True, "return_file_nr": True},
                  {"datasets": names[0], "group": "Other"}][:c["before"]]
        rk = {"group": c["group"], "read_attributes": c["attributes"], "unpack": c["unpack"]}
        if c["file_nr"]:
            rk["return_file_nr"] = {"names": names, "true": True, "false": False, "some": names[-1:]}[c["file_nr"]]
        n = len(c["order"])
        out = mpi.pool().call("mf_read", [{"files": files, "kw": kw, "datasets": names[0] if c["single"] else names,
                                           "read_kw": rk, "before": before}] * n, c["order"])
        res, fnr = [o[0] for o in out], [o[1] for o in out]
        want_fn = c["file_nr"] in ("names", "true")
        def norm(r):
            if c["single"]:
                return {names[0]: r}
            if c["unpack"]:
                ck(isinstance(r, (list, tuple)) and len(r) == len(names), "unpack=True must return a list")
                return dict(zip(names, r))
            ck(isinstance(r, dict) and sorted(r) == sorted(names), "result must be a dict of all names")
            return r
        res = [norm(r) for r in res]
        if c["file_nr"] == "some":
            ck(all(sorted(r) == names[-1:] for r in fnr), "file numbers must be returned for the requested names")
        if want_fn:
            fnr = [norm(r) for r in fnr]
        for ds in c["dsets"]:
            pieces = content[ds["name"]]
            have = [a for a in pieces if a is not None]
            got = [r[ds["name"]] for r in res]
            if not have:
                ck(all(g is None for g in got), "dataset missing from every file must be None")
                continue
            want = np.concatenate(have)
            ck(all(g is not None for g in got), "got None on some ranks")
            eq(np.concatenate([g[0] for g in got]), want, "dataset %s" % ds["name"])
            for g in got:
                ck(g[2], "result is not native endian")
                ck(g[0].dtype == want.dtype, "dtype is %s, expected %s" % (g[0].dtype, want.dtype))
                if c["attributes"]:
                    at = g[1]
                    ck(at is not None and at["units"] == "Mpc/" + ds["name"] and at["exponent"] == -1.5
                       and list(at["vec"]) == [1, 2, 3] and len(at) == 3, "attributes are %r" % (at,))
            if want_fn or (c["file_nr"] == "some" and ds["name"] == names[-1]):
                wf = np.concatenate([np.full(len(a), i) for i, a in zip(c["idx"], pieces) if a is not None])
                gf = [r[ds["name"]] for r in fnr]
                ck(all(g is not None for g in gf), "file numbers missing on some ranks")
                for g, f in zip(got, gf):
                    ck(len(g[0]) == len(f), "file numbers and data have different lengths on a rank")
                eq(np.concatenate(gf), wf, "file numbers of %s" % ds["name"])
        event("more files than ranks" if c["nf"] >= n else "more ranks than files")
        return c["nf"] >= 2 and n >= 2 and any(a is not None and len(a) for v in content.values() for a in v)
    finally:
        paths.drop(d)


@st.composite
def bad_dtype(draw):
    c = draw(fileset())
    if c["nf"] < 2:
        c["nf"] = 2
        for ds in c["dsets"]:
            ds["counts"] = [ds["counts"][0], 3]
        c["idx"] = [0, 1]
        c["locate"] = "list"
    for ds in c["dsets"]:
        ds["dtype"] = "float64"
        ds["present"] = [1] * c["nf"]
    c["gpresent"] = [1] * c["nf"]
    c["odd"] = draw(st.integers(0, c["nf"] - 1))
    c["odd_dtype"] = draw(st.sampled_from(["float32", "int64"]))
    c["which"] = draw(st.integers(0, len(c["dsets"]) - 1))
    return c


@check.sub(bad_dtype(), 150, 4000)
def inconsistent_dtype(c):
    """One file stores a dataset with another type: every rank must get an exception."""
    d = paths.fresh_dir()
    try:
        bad = c["dsets"][c["which"]]["name"]
        files, kw, content = make_files(
            c, d, lambda ds, k: c["odd_dtype"] if (ds["name"] == bad and k == c["odd"]) else ds["dtype"])
        n = len(c["order"])
        out = mpi.pool().run("mf_read", [{"files": files, "kw": kw, "datasets": [ds["name"] for ds in c["dsets"]],
                                          "read_kw": {"group": c["group"]}}] * n, c["order"])
        ck(all(o[0] == "err" and o[2] == "RuntimeError" for o in out),
           "mixed types not reported on every rank: %r" % ([o[0] if o[0] != "err" else o[2] for o in out],))
        return n >= 2
    finally:
        paths.drop(d)
