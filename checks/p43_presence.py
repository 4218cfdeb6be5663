"""P43: the file presence scripts report exactly what is missing."""
import contextlib, io, os, re, runpy, sys
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.util import check as ck, eq
from checks import p23_gadget, p26_pgadget3

check = Check("P43", quick_scale=5, shards=6, rule=(
    "Random output trees of an Eagle or P-Gadget3 run: 0-3 outputs of each kind with 1-12 files, each file present, missing or (other than the first) "
    "empty; missing or ambiguous directories, unreadable first files, extra files. Both scripts are run as programs and every line they print is "
    "parsed. Oracle: the files created. Non-trivial: some set of files is complete and some other set has between one and all but one of its files."))


def script(name):
    return os.path.join(paths.REPO, "consistency_check", *name)


def run(path, argv):
    old = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


LINE = re.compile(r"^\s*(\S+) (\d+): (OK|MISSING)\s*- (?:(-?\d+) of (-?\d+) (\S+) files present|no (\S+) files present!)$")
SUM = re.compile(r"^\s*(\S+) - (\d+) of (\d+) directories not complete$")


def parse(text):
    """({(dir, file, number): (ok, present, expected)}, {name: (bad, total)})"""
    sets, summary = {}, {}
    head, _, tail = text.partition("Summary of missing or incomplete directories:")
    for x in head.splitlines():
        if not x.strip():
            continue
        m = LINE.match(x)
        ck(m is not None, "line not understood: %r" % x)
        dirbase, num, word, n, tot, fb, nfb = m.groups()
        key = (dirbase, fb or nfb, int(num))
        ck(key not in sets, "reported twice: %r" % x)
        sets[key] = (word == "OK",) + ((int(n), int(tot)) if n is not None else (0, None))
    for x in tail.splitlines():
        if x.strip():
            m = SUM.match(x)
            ck(m is not None, "summary not understood: %r" % x)
            ck(m.group(1) not in summary, "summarised twice: %r" % x)
            summary[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    return sets, summary


@st.composite
def group(draw):
    """One set of files: number of files and how each of them exists"""
    n = draw(st.sampled_from([1, 1, 2, 3, 4, 12]))
    miss = draw(st.sampled_from(["none", "none", "some", "one", "last", "first", "bad"]))
    gone = {"none": [], "first": [0], "bad": [], "last": [n - 1], "one": [draw(st.integers(0, n - 1))],
            "some": draw(st.lists(st.integers(0, n - 1), max_size=4))}[miss]
    return {"n": n, "gone": sorted(set(gone)), "bad": miss == "bad", "extra": draw(st.integers(0, 2)),
            "kind": draw(st.sampled_from(["empty", "empty", "junk"]))}


EAGLE = {"snap": [("snapshot", "snap", "NumFilesPerSnapshot", "snap"), ("groups", "group_tab", "NTask", "group_tab"),
                  ("particledata", "eagle_subfind_particles", "NumFilesPerSnapshot", "eagle_subfind_particles"),
                  ("groups", "eagle_subfind_tab", "NTask", "eagle_subfind_tab")],
         "snip": [("snipshot", "snip", "NumFilesPerSnapshot", "snip"), ("groups_snip", "group_snip_tab", "NTask", "group_snip_tab"),
                  ("particledata_snip", "eagle_subfind_snip_particles", "NumFilesPerSnapshot", "eagle_subfind_snip_particles"),
                  ("groups_snip", "eagle_subfind_snip_tab", "NTask", "eagle_subfind_snip_tab")]}


@st.composite
def eagles(draw):
    num = {"snap": draw(st.integers(0, 2)), "snip": draw(st.integers(0, 2))}
    sets = []
    for t in ("snap", "snip"):
        for i in range(num[t]):
            first = draw(st.sampled_from([0, 0, 0, 5]))      # which directories exist
            dirs = {}
            for dirbase in sorted({e[0] for e in EAGLE[t]}):
                dirs[dirbase] = draw(st.sampled_from(["one", "one", "one", "one", "one", "none", "two"]))
            z = [draw(st.integers(0, 999)), draw(st.integers(0, 999))]
            sets.append([t, i, dirs, z, [draw(group()) for _ in EAGLE[t]]])
    return {"num": num, "sets": sets, "more": draw(st.booleans()), "like": draw(st.lists(st.integers(0, 999), max_size=3)), "slash": draw(st.booleans())}


def expect(g, dir_ok=True):
    """(ok, present, expected)"""
    if not dir_ok or g["bad"] or 0 in g["gone"]:
        return (False, 0, None)
    n = g["n"] - len(g["gone"])
    return (n == g["n"], n, g["n"])


def partial(want):
    return any(v[0] for v in want.values()) and any(v[2] and 0 < v[1] < v[2] for v in want.values())


def make_files(d, name, g, first):
    for i in range(g["n"] + g["extra"]):
        if i in g["gone"] and i < g["n"]:
            continue
        p = os.path.join(d, name(i))
        if i == 0 and not g["bad"]:
            first(p)
        else:
            with open(p, "wb") as f:
                f.write(b"" if g["kind"] == "empty" else b"this is no output file")
    if g["gone"]:                    # files which look similar do not count
        for q in (name(g["gone"][0]) + "~", "x" + name(g["gone"][0])):
            with open(os.path.join(d, q), "wb") as f:
                f.write(b"")


def h5_first(attr, n):
    def write(p):
        with h5py.File(p, "w") as f:
            h = f.create_group("Header")
            h.attrs[attr] = n
            h.attrs["NTask" if attr != "NTask" else "NumFilesPerSnapshot"] = n + 3
            h.attrs["NumPart_ThisFile"] = [0, n, 0, 0, 0, 0]
    return write


@check.sub(eagles(), 260, 8000)
def eagle(c):
    d = paths.fresh_dir()
    try:
        want, bad, total = {}, {}, {}
        for t, i, dirs, z, groups in c["sets"]:
            zs = "z%03dp%03d" % tuple(z)
            for dirbase, how in dirs.items():
                if how != "none":
                    os.makedirs("%s/%s_%03d_%s" % (d, dirbase, i, zs))
                if how == "two":
                    os.makedirs("%s/%s_%03d_%s" % (d, dirbase, i, "z%03dp%03d" % ((z[0] + 1) % 1000, z[1])))
            for (dirbase, filebase, attr, name), g in zip(EAGLE[t], groups):
                if dirs[dirbase] != "none":
                    make_files("%s/%s_%03d_%s" % (d, dirbase, i, zs), lambda k: "%s_%03d_%s.%d.hdf5" % (filebase, i, zs, k), g, h5_first(attr, g["n"]))
                w = expect(g, dirs[dirbase] == "one")
                want[(dirbase, filebase, i)] = w
                total[name] = total.get(name, 0) + 1
                bad[name] = bad.get(name, 0) + (not w[0])
        for k in c["like"]:         # directories whose names only look like those of an output
            if c["sets"]:
                t, i, dirs, z, _ = c["sets"][k % len(c["sets"])]
                dirbase = sorted(dirs)[k % len(dirs)]
                os.makedirs(os.path.join(d, ["%s_%03d_z%03dp%03d_old", "%s_%03d_z0%03dp%03d", "%s_%03d_z%03dp%03d0", "old_%s_%03d_z%03dp%03d",
                                             "%s_0%03d_z%03dp%03d", "%s_%03d_z%03d-%03d", "%s_%03d_z%03dp%03d_p000"][k % 7] % (dirbase, i, z[0], z[1])), exist_ok=True)
        if c["more"]:               # outputs which were not asked for
            for t in ("snap", "snip"):
                os.makedirs("%s/%sshot_%03d_z000p000" % (d, t, c["num"][t]))
        sets, summary = parse(run(script(("eagle", "check_eagle_file_presence.py")), [d + ("/" if c["slash"] else ""), c["num"]["snap"], c["num"]["snip"]]))
        eq(sets, want, "reported sets of files")
        eq(summary, {k: (bad[k], total[k]) for k in total if bad[k]}, "summary")
        event("eagle outputs %d" % len(c["sets"]))
        return partial(want)
    finally:
        paths.drop(d)


PG = [("snapdir", None, "snapshot"), ("groups", "group_tab", "group_tab"), ("groups", "group_ids", "group_ids"),
      ("groups", "subhalo_tab", "subhalo_tab"), ("groups", "subhalo_ids", "subhalo_ids")]


@st.composite
def pgadget(draw):
    first, step = draw(st.sampled_from([(None, None), (0, 1), (1, 1), (0, 2), (2, 3), (999, 1)]))
    last = (first or 0) + draw(st.integers(-1, 3))
    nums = list(range(first or 0, last + 1, step or 1))
    return {"first": first, "step": step, "last": last, "base": draw(st.sampled_from(["snapshot", "500_dm", "snap_C02"])),
            "sets": [[i, {"snapdir": draw(st.integers(0, 5)) > 0, "groups": draw(st.integers(0, 5)) > 0}, [draw(group()) for _ in PG]] for i in nums],
            "snaps": draw(p23_gadget.snaps()), "endian": draw(st.sampled_from("<>")), "hdf5": draw(st.booleans()), "cat": draw(sf.catalogues())}


def snap_first(c, n):
    if c["base"] == "500_dm" or c["hdf5"]:
        return h5_first("NumFilesPerSnapshot", n)

    def write(p):
        s = dict(c["snaps"])
        out, want, _ = p23_gadget.build(s)
        b = bytearray(out.bytes())
        # after a record marker, NumFilesPerSnapshot follows 24 + 48 + 16 + 8 + 24 + 4 bytes of the header
        b[128:132] = int(n).to_bytes(4, "little" if s["endian"] == "<" else "big")
        with open(p, "wb") as f:
            f.write(bytes(b))
    return write


def cat_first(c, kind, n):
    def write(p):
        k = dict(c["cat"], id_bytes=8, float_bytes=4, veldisp=False, ntask=n)
        files = p26_pgadget3.build(k)
        sf.write_plain(p, k, *files[0][kind])
    return write


@check.sub(pgadget(), 260, 8000)
def pgadget3(c):
    d = paths.fresh_dir()
    try:
        want, bad, total = {}, {}, {}
        for i, dirs, groups in c["sets"]:
            for k, there in dirs.items():
                if there:
                    os.makedirs("%s/%s_%03d" % (d, k, i))
            for (dirbase, filebase, name), g in zip(PG, groups):
                fb = filebase or c["base"]
                if filebase is None:
                    first = snap_first(c, g["n"])
                else:
                    first = cat_first(c, filebase.replace("subhalo", "sub"), g["n"])
                if dirs[dirbase]:
                    make_files("%s/%s_%03d" % (d, dirbase, i), lambda k: "%s_%03d.%d%s" % (fb, i, k, ".hdf5" if fb == "500_dm" else ""), g, first)
                w = expect(g, dirs[dirbase])
                want[(dirbase, fb, i)] = w
                total[name] = total.get(name, 0) + 1
                bad[name] = bad.get(name, 0) + (not w[0])
        args = [d, c["base"], c["last"]] + ([c["first"], c["step"]] if c["first"] is not None else [])
        sets, summary = parse(run(script(("p-gadget3", "check_pgadget3_file_presence.py")), args))
        eq(sets, want, "reported sets of files")
        eq(summary, {k: (bad[k], total[k]) for k in total if bad[k]}, "summary")
        event("p-gadget3 outputs %d" % len(c["sets"]))
        return partial(want)
    finally:
        paths.drop(d)
