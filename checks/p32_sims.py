"""P32: the per-simulation readers and Eagle file names."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import compare, dataset_names
from vt.util import check as ck, eq, must_raise
from checks import p23_gadget as p23, p24_lgadget2 as p24, p25_lgadget3 as p25, p26_pgadget3 as p26, p27_catalogues as p27
from checks import p28_group_ordered as p28, p29_lgadget2_snap as p29

check = Check("P32", quick_scale=5, shards=6, rule=(
    "Files in the format of each simulation (written by the independent writers of the format checks) read through the "
    "simulation's own classes, with their default options where these match the file and explicit ones otherwise; Eagle "
    "directory trees with several snapshots, redshift labels and base directories. Oracle: the arrays written, and the paths "
    "created. Non-trivial: at least two groups or two snapshots."))


def options(c, opts, defaults):
    """Leave out options whose default already fits the file."""
    return {k: v for k, v in opts.items() if not (v == defaults[k] and c["seed"] % 3)}


SETS = ["millennium", "millennium_snap", "millennium2", "mxxl", "coco", "snapshots"]


@st.composite
def cases(draw):
    which = draw(st.sampled_from(SETS))
    if which == "millennium":
        c = draw(p24.cats())
    elif which == "millennium_snap":
        c = draw(p29.snaps())
    elif which == "snapshots":
        c = draw(p23.snaps())
        c["class"] = draw(st.sampled_from(["millennium2", "mxxl", "coco"]))
    else:
        c = draw(sf.catalogues(maxfiles=3))
    c["which"] = which
    return c


def verify(f, want):
    compare(f, want)
    ck(dataset_names(f) == {k for k in want if "@" not in k}, "names %r" % sorted(dataset_names(f)))
    if hasattr(f, "sanity_check"):
        ck(f.sanity_check() is None, "sanity check of a valid file")
    f.close()


@check.sub(cases(), 900, 25000)
def files(c):
    import virgo.sims.millennium as m1
    import virgo.sims.millennium2 as m2
    import virgo.sims.mxxl as xxl
    import virgo.sims.coco as coco
    d = paths.fresh_dir()
    event(c["which"])
    try:
        fn = os.path.join(d, "f")
        if c["which"] == "millennium":
            for kind, items in p24.build(c).items():
                p24.write(fn, c, items)
                if kind == "group_tab":
                    f = m1.GroupTabFile(fn)
                else:
                    cls = {"group_ids": m1.GroupIDsFile, "sub_tab": m1.SubTabFile, "sub_ids": m1.SubIDsFile}[kind]
                    f = cls(fn, **options(c, {"id_bytes": c["id_bytes"]}, {"id_bytes": 8}))
                verify(f, items)
            return len(c["len"]) >= 2
        if c["which"] == "millennium_snap":
            *_, nf, want = p29.make(c, d)
            for i in range(nf):
                f = m1.SnapshotFile(os.path.join(d, "snapdir_007", "snap_test_007.%d" % i))
                compare(f, want[i])
                ck(f.sanity_check() is None, "sanity check of a valid snapshot")
                f.close()
            return True
        if c["which"] == "millennium2":
            for files in p26.build(c):
                sf.write_plain(fn, c, *files["sub_tab"])
                kw = options(c, {"SO_VEL_DISPERSIONS": c["veldisp"], "id_bytes": c["id_bytes"], "float_bytes": c["float_bytes"]},
                             {"SO_VEL_DISPERSIONS": False, "id_bytes": 8, "float_bytes": 4})
                verify(m2.SubTabFile(fn, **kw), p26.merged(files["sub_tab"]))
                must_raise(NotImplementedError, m2.SubTabFile, fn, **{["SO_BAR_INFO", "WRITE_SUB_IN_SNAP_FORMAT"][c["seed"] % 2]: True})
            return len(c["len"]) >= 2
        if c["which"] == "mxxl":
            c = dict(c, shape=False)
            for h, g, s in p25.build(c):
                sf.write_plain(fn, c, h, g, s)
                kw = options(c, {"SO_VEL_DISPERSIONS": c["veldisp"], "id_bytes": c["id_bytes"], "float_bytes": c["float_bytes"]},
                             {"SO_VEL_DISPERSIONS": True, "id_bytes": 8, "float_bytes": 4})
                verify(xxl.SubTabFile(fn, **kw), {**h, **g, **s})
                must_raise(NotImplementedError, xxl.SubTabFile, fn, **{["SO_BAR_INFO", "WRITE_SUB_IN_SNAP_FORMAT"][c["seed"] % 2]: True})
            return len(c["len"]) >= 2
        if c["which"] == "coco":
            for fn, want, o in p27.g4_files(c, d)[2]:
                verify(coco.SubTabFile(fn, **options(c, {"id_bytes": c["id_bytes"]}, {"id_bytes": 8})), want)
            return len(c["len"]) >= 2
        out, want, done = p23.build(c)
        out.save(fn)
        cls = {"millennium2": m2, "mxxl": xxl, "coco": coco}[c["class"]].SnapshotFile
        f = cls(fn, extra=p23.extra_arg(c)) if c["extra"] else cls(fn)
        compare(f, want)
        f.close()
        return True
    finally:
        paths.drop(d)


@check.sub(p27.catcases(), 250, 6000)
def catalogues(c):
    import virgo.sims.millennium2 as m2
    import virgo.sims.coco as coco
    if c["which"] == "g4":
        return p27.run_catalogue(c, coco.GroupCatalogue)
    return p27.run_catalogue(c, refusing(c["i"], m2.GroupCatalogue))


def refusing(seed, cls):
    """Constructor which first makes sure that file variants which can't be read are refused."""
    def make(*args, **kw):
        must_raise(NotImplementedError, cls, *args, **{**kw, ["SO_BAR_INFO", "WRITE_SUB_IN_SNAP_FORMAT"][seed % 2]: True})
        return cls(*args, **kw)
    return make


@check.sub(p28.worlds(True), 200, 5000)
def coco_groups(c):
    import virgo.sims.coco as coco
    return p28.run_gadget4(c, coco.GroupOrderedSnapshot)


@check.sub(p28.worlds(False), 200, 5000)
def millennium2_groups(c):
    import virgo.sims.millennium2 as m2
    return p28.run_pgadget3(c, refusing(c["seed"], m2.GroupOrderedSnapshot))


EAGLE = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups", "group_snip_tab": "groups_snip",
         "eagle_subfind_particles": "particledata", "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot",
         "snipshot": "snipshot"}


@st.composite
def eagle_cases(draw):
    bases = ["b1", "b2/data", "z001p002"][:draw(st.integers(1, 3))]
    out = []
    for b in bases:
        for s in draw(st.lists(st.sampled_from([0, 1, 9, 28, 127, 405]), min_size=1, max_size=3, unique=True)):
            out.append([b, s, "z%03dp%03d" % (draw(st.integers(0, 20)), draw(st.integers(0, 999))), draw(st.integers(1, 12))])
    asks = draw(st.lists(st.tuples(st.integers(0, len(out) - 1), st.sampled_from(sorted(EAGLE)), st.integers(0, 12)), min_size=1, max_size=12))
    return {"out": out, "asks": [list(a) for a in asks], "cache": draw(st.booleans()), "dup": draw(st.sampled_from([False, False, True]))}


@check.sub(eagle_cases(), 400, 10000)
def eagle_filename(c):
    """The path returned names the file on disk; no file or several candidates is an error."""
    from virgo.sims.eagle import eagle_filename as ef
    d = paths.fresh_dir()
    try:
        real = {}
        for i, (b, s, z, n) in enumerate(c["out"]):
            for base, dn in EAGLE.items():
                dd = os.path.join(d, b, "%s_%03d_%s" % (dn, s, z))
                os.makedirs(dd, exist_ok=True)
                for k in range(n):
                    p = os.path.join(dd, "%s_%03d_%s.%d.hdf5" % (base, s, z, k))
                    open(p, "w").close()
                    real[i, base, k] = p
        dup = None
        if c["dup"]:
            b, s, z, n = c["out"][0]
            dd = os.path.join(d, b, "snapshot_%03d_z050p000" % s)
            os.makedirs(dd)
            open(os.path.join(dd, "snapshot_%03d_z050p000.0.hdf5" % s), "w").close()
            dup = (0, "snapshot", 0)
        kw = {"cache": {}} if c["cache"] else {}
        hit = set()
        for i, base, k in c["asks"]:
            b, s, z, n = c["out"][i]
            arg = (os.path.join(d, b), base, s, k)
            if dup == (i, base, k) and (i, base) not in hit:
                must_raise(IOError, ef, *arg, **kw)
                continue
            if (i, base, k) not in real:
                if (i, base) not in hit:
                    must_raise(IOError, ef, *arg, **kw)
                continue
            got = ef(*arg, **kw)
            ck(os.path.normpath(got) == os.path.normpath(real[i, base, k]), "got %s, the file is %s" % (got, real[i, base, k]))
            ck(os.path.exists(got), "no such file: " + got)
            hit.add((i, base))
        must_raise(KeyError, ef, d, "no_such_type", 0, 0)
        return len(c["out"]) >= 2
    finally:
        paths.drop(d)
