"""P12: MultiFile.write reproduces the layout of the input file set."""
import os
from pathlib import Path
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi, paths
from vt.util import check as ck, eq
from checks.p11_multifile_read import fileset, make_files

check = Check("P12", quick_scale=2, shards=2, rule=(
    "File sets as for P11 are read, get_elements_per_file is queried and the arrays (plus a derived one) are written to a "
    "new file set by format string or name list, into new or existing files, with attributes. Oracle: each output file "
    "holds exactly the elements its input file held. Non-trivial: at least two files and two ranks, with data."))


@st.composite
def cases(draw):
    c = draw(fileset(same_layout=True))
    c["outgroup"] = draw(st.sampled_from([None, "Out", "X/Y"]))
    c["outloc"] = draw(st.sampled_from(["list", "%", "{}", "tuple", "path"]))
    c["mode"] = draw(st.sampled_from(["w", "r+", "w"]))
    c["attrs"] = draw(st.booleans())
    c["derived"] = draw(st.booleans()) and np.dtype(c["dsets"][0]["dtype"]).kind in "iuf" and 0 not in c["dsets"][0]["trail"]
    c["extra"] = draw(st.sampled_from([{}, {}, {"gzip": 3}, {"shuffle": True, "chunk": 4}, {"dcpl": 1}]))
    c["twice"] = draw(st.booleans())
    c["allattrs"] = draw(st.booleans())
    return c


@check.sub(cases(), 700, 20000)
def round_trip(c):
    d = paths.fresh_dir()
    try:
        files, kw, content = make_files(c, d)
        outs = [os.path.join(d, "out.%d.hdf5" % i) for i in c["idx"]]
        if c["mode"] == "r+":
            for fn in outs:
                with h5py.File(fn, "w") as f:
                    f["Existing/keep"] = np.arange(5)
        out = {"list": outs, "%": os.path.join(d, "out.%(file_nr)d.hdf5"),
               "{}": os.path.join(d, "out.{file_nr}.hdf5"), "tuple": tuple(outs), "path": [Path(x) for x in outs]}[c["outloc"]]
        names = [ds["name"] for ds in c["dsets"]]
        attrs = {nm: {"unit": "kpc", "val": 3} for nm in (names if c["allattrs"] else names[:1])} if c["attrs"] else None
        n = len(c["order"])
        # get_elements_per_file is defined in terms of the file numbers
        res = mpi.pool().call("mf_round_trip", [
            {"files": files, "kw": kw, "datasets": names, "group": c["group"], "derived": c["derived"], "out": out,
             "mode": c["mode"], "outgroup": c["outgroup"], "attrs": attrs, "extra": c["extra"], "twice": c["twice"]}] * n, c["order"])
        # elements per file, summed over ranks, is the number in the file
        tot = {}
        for _, epf in res:
            for k, v in epf.items():
                tot[k] = tot.get(k, 0) + v
        want = {i: (0 if a is None else len(a)) for i, a in zip(c["idx"], content[names[0]])}
        ck(tot == want, "elements per file: got %r, expected %r" % (tot, want))
        if all(a is None for a in content[names[0]]):
            return False
        for k, fn in enumerate(outs):
            with h5py.File(fn, "r") as f:
                if c["mode"] == "r+":
                    eq(f["Existing/keep"][...], np.arange(5), "existing contents")
                loc = f[c["outgroup"]] if c["outgroup"] else f
                for ds in c["dsets"]:
                    a = content[ds["name"]][k]
                    ref = next(x for x in content[ds["name"]] if x is not None)
                    if a is None:
                        a = ref[:0]
                    eq(loc[ds["name"]][...], a, "dataset %s in output file %d" % (ds["name"], k))
                    ck(loc[ds["name"]].dtype == a.dtype, "dtype changed in output")
                a = content[names[0]][k]
                if c["derived"]:
                    eq(loc["Derived"][...], np.zeros(0) if a is None else a[(slice(None),) + (0,) * (a.ndim - 1)].astype("i8"),
                       "derived dataset in output file %d" % k)
                if c["attrs"]:
                    for nm in names:
                        at = loc[nm].attrs
                        ck(dict(at) == attrs.get(nm, {}), "attributes of %s are %r" % (nm, dict(at)))
        event("more files than ranks" if c["nf"] >= n else "more ranks than files")
        return c["nf"] >= 2 and n >= 2 and sum(want.values()) > 0
    finally:
        paths.drop(d)
