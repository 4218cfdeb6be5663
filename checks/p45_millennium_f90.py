"""P45: Millennium snapshot and group reading routines and programs in Fortran and C."""
import os, struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import millennium as ml, paths
from vt.binfmt import Out
from vt.util import check as ck, eq
from checks import p24_lgadget2 as p24, p29_lgadget2_snap as p29

check = Check("P45", quick_scale=1.5, shards=3, setup=ml.build, rule=(
    "Multi-file Millennium snapshots (8-4096 hash cells, 1-13 files, empty cells and files) with group_tab, group_ids, sub_tab and sub_ids files, in "
    "the byte order of the machine and the other one, written by the independent writers of P24 and P29. A driver calls the reading routines in random "
    "order and dumps what they return; the five example programs are run and their output parsed. Oracle: the arrays written and brute-force "
    "selection. Non-trivial: a region with some but not all particles from at least two files, or at least two groups with particles in several files."))

ISNAP = 7


@st.composite
def sims(draw):
    c = draw(p29.snaps())
    c["nfiles"] = draw(st.sampled_from([1, 2, 3, 4, 12, 13]))
    c["high"] = 0
    c["ids"] = draw(st.sampled_from(["low", "high"]))
    ng = draw(st.sampled_from([0, 1, 2, 5]))
    c["groups"] = [draw(st.sampled_from([1, 2, 3, 12])) for _ in range(ng)]
    c["nsub"] = [draw(st.integers(0, 3)) for _ in range(ng)]
    c["ifile"] = draw(st.sampled_from([0, 0, 3, 12, 100, 511]))
    c["minlen"] = draw(st.sampled_from([0, 3]))
    c["slash"] = draw(st.sampled_from(["", "/"]))
    return c


class Sim:
    def __init__(self, c, d):
        self.c, self.d = c, d
        self.pos, self.vel, self.ids, self.cell, self.key, self.nf, self.files = p29.make(c, d)
        self.ids = self.ids.astype("i8")
        self.ncell = 1 << (3 * c["bits"])
        if c["ids"] == "high":
            # identifiers above 2^32: the files have to be written again
            shift = 2 ** 33 + 12345
            self.ids = self.ids + shift
            for i, w in enumerate(self.files):
                old = w["PartType1/ParticleIDs"]
                new = old + np.uint64(shift)
                fn = self.snap(i)
                with open(fn, "rb") as f:
                    b = f.read()
                e = c["endian"]
                n = len(old)
                at = 264 + 2 * (12 * n + 8) + 4
                b = b[:at] + new.astype(e + "u8").tobytes() + b[at + 8 * n:]
                with open(fn, "wb") as f:
                    f.write(b)
                w["PartType1/ParticleIDs"] = new
        self.make_groups()

    def snap(self, i):
        return os.path.join(self.d, "snapdir_007", "snap_test_007.%d" % i)

    def make_groups(self):
        c = self.c
        rng = np.random.default_rng(c["seed"] + 77)
        n = len(self.ids)
        lens = []
        left = n
        for g in c["groups"]:
            g = min(g, left)
            if g:
                lens.append(g)
                left -= g
        nsub = c["nsub"][:len(lens)]
        k = {"len": lens, "nsub": nsub, "endian": c["endian"], "id_bytes": 8, "ntask": self.nf, "minlen": c["minlen"], "seed": c["seed"]}
        w = p24.build(k)
        tot = sum(lens)
        member = rng.permutation(n)[:tot]
        gid = ((self.key[member].astype("u8") << np.uint64(34)) + self.ids[member].astype("u8"))
        w["group_ids"]["GroupIDs"] = gid
        # subfind sorts the particles of each group in its own order
        p = []
        off = 0
        for g in lens:
            p += (off + rng.permutation(g)).tolist()
            off += g
        self.sub_member = member[p]
        self.group_member = member
        w["sub_ids"]["GroupIDs"] = gid[p]
        ns = len(w["sub_tab"]["SubLen"])
        w["sub_tab"]["SubMostBoundID"] = rng.integers(0, 2 ** 62, ns).astype("u8")
        self.w = w
        os.mkdir(os.path.join(self.d, "postproc_007"))
        for kind, sub in (("group_tab", "snapdir"), ("group_ids", "snapdir"), ("sub_tab", "postproc"), ("sub_ids", "postproc")):
            items = dict(w[kind])
            o = Out(c["endian"])
            for v in items.values():
                o.put(v)
            o.save(os.path.join(self.d, "%s_007" % sub, "%s_007.%d" % (kind, c["ifile"])))


PROBE = {"bits": 1, "nfiles": 2, "endian": "<", "box": 1.0, "n": 5, "seed": 0, "clump": False, "high": 0, "ids": "low", "groups": [2], "nsub": [1],
         "ifile": 0, "minlen": 0, "slash": ""}


@check.probe
def compiles():
    """The sources as they are"""
    ml.compiles([], "file_path.f90", "readregion.f90")


@check.probe
def undefined_pointers():
    """A program whose variables are not static"""
    d = paths.fresh_dir()
    try:
        Sim(PROBE, d)
        r = ml.run(os.path.join(ml.built["<"], "automatic"), d, "0\n%s\nsnap_test\n%d\n8\n2\nout.txt\n" % (d, ISNAP))
        ck(r.returncode == 0 and os.path.exists(os.path.join(d, "out.txt")), r.stdout.decode(errors="replace")[-500:])
    finally:
        paths.drop(d)


@check.probe
def empty_region():
    """No cells at all"""
    d = paths.fresh_dir()
    try:
        s = Sim(PROBE, d)
        with open(os.path.join(d, "in.bin"), "wb") as f:
            f.write(d.encode().ljust(500) + b"snap_test".ljust(500) + struct.pack("=6i", 1, 8, ISNAP, 0, s.nf, s.ncell) + bytes(4 * s.ncell))
        r = ml.run(os.path.join(ml.built["<"], "driver"), d)
        ck(r.returncode == 0, "status %d" % r.returncode)
    finally:
        paths.drop(d)


@st.composite
def reads(draw):
    c = draw(sims())
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 8, 8]))
        if op == 8:
            kind = draw(st.sampled_from(["none", "one", "few", "run", "many", "all", "empty", "ends"]))
            ops.append([op, kind, draw(st.integers(0, 10 ** 6))])
        else:
            ops.append([op, draw(st.integers(0, 20))])
    c["ops"] = ops
    return c


def flags(s, kind, seed):
    rng = np.random.default_rng(seed)
    n = s.ncell
    m = np.zeros(n, "i4")
    if kind == "one":
        m[s.key[seed % len(s.key)]] = 1
    elif kind == "few":
        m[rng.integers(0, n, 4)] = 1
        m[s.key[rng.integers(0, len(s.key), 2)]] = 1
    elif kind == "run":
        a, b = sorted(rng.integers(0, n + 1, 2))
        m[a:b] = 1
    elif kind == "many":
        m[:] = rng.integers(0, 2, n)
    elif kind == "all":
        m[:] = 1
    elif kind == "empty":
        m[np.setdiff1d(np.arange(n), s.key)] = 1
    elif kind == "ends":
        m[[0, n - 1]] = 1
    return m


def selected(s, op):
    return flags(s, op[1], op[2])[s.key] != 0


@check.sub(reads(), 700, 25000)
def routines(c):
    d = paths.fresh_dir()
    try:
        s = Sim(c, d)
        # readregion may fail if there are no particles in the cells (a known finding): this is only tried at the end
        empty = [op[0] == 8 and not selected(s, op).any() for op in c["ops"]]
        c = dict(c, ops=[op for op, no in zip(c["ops"], empty) if not no] + [op for op, no in zip(c["ops"], empty) if no][:1])
        data = [(d + c["slash"]).encode().ljust(500), b"snap_test".ljust(500), struct.pack("=i", len(c["ops"]))]
        for op in c["ops"]:
            ifile = op[1] % s.nf if op[0] in (1, 2) else c["ifile"]
            data.append(struct.pack("=3i", op[0], ISNAP, ifile))
            if op[0] == 8:
                data.append(struct.pack("=2i", s.nf, s.ncell) + flags(s, op[1], op[2]).tobytes())
        with open(os.path.join(d, "in.bin"), "wb") as f:
            f.write(b"".join(data))
        r = ml.run(os.path.join(ml.built[c["endian"]], "driver"), d)
        with open(os.path.join(d, "out.bin"), "rb") as f:
            o = ml.Stream(f.read())
        nontrivial = False
        if any(empty) and r.returncode:
            event("region without particles: failed")
            c["ops"].pop()
            r.returncode = 0
        try:
            for op in c["ops"]:
                nontrivial |= verify(s, op, o)
        except AssertionError as e:
            raise AssertionError("%s\nstatus %d, output %s" % (e, r.returncode, r.stdout.decode(errors="replace")[-1500:])) from e
        ck(r.returncode == 0, "driver ended with status %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-1500:]))
        return bool(nontrivial)
    finally:
        paths.drop(d)


def verify(s, op, o):
    w = s.w
    if op[0] == 1:
        for k, v in s.files[op[1] % s.nf].items():
            if k.startswith("Header@"):
                v = np.asarray(v)
                eq(o.get(v.dtype, v.size, v.shape) if v.shape else o.get(v.dtype), v, k)
        o.done()
        return False
    if op[0] == 2:
        f = s.files[op[1] % s.nf]
        n = len(f["PartType1/ParticleIDs"])
        eq(o.get("i4", 3), [n, f["first_hash_cell"], f["last_hash_cell"]], "number of particles and range of cells")
        for k in ("Coordinates", "Velocities"):
            eq(o.get("f4", 3 * n + 3, (n + 1, 3)), np.concatenate([f["PartType1/" + k], np.full((1, 3), -1, "f4")]), k)
        eq(o.get("i8", n + 1), np.append(f["PartType1/ParticleIDs"].astype("i8"), -1), "IDs")
        b = f["blockid"]
        eq(o.get("i4", s.ncell + 1), np.concatenate([b, np.full(s.ncell + 1 - len(b), -1)]), "hash table")
        o.done()
        return False
    if op[0] == 8:
        m = flags(s, op[1], op[2])
        sel = m[s.key] != 0
        n = int(sel.sum())
        eq(o.get("i4", 8), [n] * 8, "number of particles and sizes of arrays")
        for i in range(3):
            eq(o.get("f4", n), s.pos[sel, i], "coordinate %d" % i)
        for i in range(3):
            eq(o.get("f4", n), s.vel[sel, i], "velocity %d" % i)
        eq(o.get("i8", n), s.ids[sel], "IDs")
        o.done()
        first = np.array([f["first_hash_cell"] for f in s.files])
        used = np.unique(np.searchsorted(first, s.key[sel], side="right"))
        event("region " + op[1])
        return 0 < n < len(sel) and len(used) > 1
    kind = {3: "group_tab", 4: "group_ids", 5: "sub_tab", 6: "sub_ids", 7: "sub_tab"}[op[0]]
    t = w[kind]
    head = [t["Ngroups"], t["Nids"], t["TotNgroups"], t.get("NTask", t.get("NFiles"))]
    if op[0] in (3, 4, 6):
        eq(o.get("i4", 4), head, "header of " + kind)
    else:
        eq(o.get("i4", 5), [head[0], t["Nsubhalos"]] + head[1:], "header of " + kind)
    ng, ns = int(t["Ngroups"]), int(t.get("Nsubhalos", 0))
    if op[0] == 3:
        eq(o.get("i4", 2), [ng, ng], "sizes")
        eq(o.get("i4", ng), t["GroupLen"], "lengths")
        eq(o.get("i4", ng), t["GroupOffset"], "offsets")
    elif op[0] in (4, 6):
        n = int(t["Nids"])
        eq(o.get("i4"), n, "size")
        eq(o.get("u8", n), t["GroupIDs"], "IDs in " + kind)
    elif op[0] == 5:
        eq(o.get("i4", 5), [ng, ng, ns, ns, ns], "sizes")
        for k, n in (("NsubPerHalo", ng), ("FirstSubOfHalo", ng), ("SubLen", ns), ("SubOffset", ns), ("SubParentHalo", ns)):
            eq(o.get("i4", n), t[k], k)
    else:
        eq(o.get("i4", 2), [ng, ns], "sizes")
        for k in list(t)[5:]:
            v = t[k]
            eq(o.get(v.dtype, v.size, v.shape), v, k)
    o.done()
    return ng > 1 and s.nf > 1


@st.composite
def programs(draw):
    c = draw(sims())
    c["program"] = draw(st.sampled_from(sorted(ml.PROGRAMS)))
    lo = [draw(st.floats(-0.1, 1.0)) for _ in range(3)]
    c["region"] = [[a, a + draw(st.sampled_from([0.0, 0.1, 0.3, 0.7, 1.2]))] for a in lo]
    c["which"] = draw(st.integers(0, 20))
    return c


def table(fn, widths):
    """Fixed width columns as text"""
    with open(fn) as f:
        lines = f.read().split("\n")
    ck(lines[-1] == "", "output does not end with a new line")
    out = []
    for x in lines[:-1]:
        if not x:                   # what Fortran writes for an empty list
            continue
        ck(len(x) == sum(widths), "line %r has %d characters, expected %d" % (x, len(x), sum(widths)))
        row, at = [], 0
        for k in widths:
            row.append(x[at:at + k].strip())
            at += k
        out.append(row)
    return out


def same_rows(rows, want, digits, what):
    ck(len(rows) == len(want), "%s: %d lines, expected %d" % (what, len(rows), len(want)))
    for r, w in zip(rows, want):
        ck(len(r) == len(w), what)
        for a, b in zip(r, w):
            if isinstance(b, (int, np.integer)):
                ck(int(a) == int(b), "%s: %r, expected %r" % (what, r, w))
            else:
                b = float(b)
                # digits after the leading "0."; the decimal value is rounded once
                ck(abs(float(a) - b) <= 0.51 * 10.0 ** (np.floor(np.log10(abs(b))) + 1 - digits) if b else float(a) == 0.0,
                   "%s: %r, expected %r" % (what, r, w))


@check.sub(programs(), 300, 10000)
def examples(c):
    d = paths.fresh_dir()
    try:
        s = Sim(c, d)
        p = c["program"]
        w = s.w
        base = d + c["slash"]
        f32 = np.float32
        if p == "readfileexample":
            i = c["which"] % s.nf
            text = "%s\nsnap_test\n%d\n%d\nout.txt\n" % (base, ISNAP, i)
        elif p == "readregionexample":
            reg = [[f32("%.6g" % (x * c["box"])) for x in r] for r in c["region"]]
            text = "".join("%.9g,%.9g\n" % (r[0], r[1]) for r in reg) + "%r\n%s\nsnap_test\n%d\n%d\n%d\nout.txt\n" % (c["box"], base, ISNAP, s.ncell, s.nf)
        elif p == "readgroupsexample":
            text = "%d\n%s\nsnap_test\n%d\n%d\n%d\nout.txt\n" % (c["ifile"], base, ISNAP, s.ncell, s.nf)
        elif p == "readfofgroupsexample":
            # this program reads the snapshot file with the number of the group file
            src, dst = s.snap(0), s.snap(c["ifile"])
            if not os.path.exists(dst):
                os.link(src, dst)
            text = "%d\n%s\nsnap_test\n%d\nout.txt\n" % (c["ifile"], base, ISNAP)
        else:
            text = "%d\n%s\nsnap_test\n%d\nout.txt\nout2.txt\n" % (c["ifile"], base, ISNAP)
        r = ml.run(os.path.join(ml.built[c["endian"]], p), d, text)
        say = r.stdout.decode(errors="replace")
        if r.returncode:
            if p == "readregionexample":
                nc = 1 << c["bits"]
                cell = np.ones(len(s.pos), bool)
                for k in range(3):
                    lo, hi = (int(x / f32(c["box"]) * f32(nc)) for x in reg[k])
                    cell &= (s.cell[:, k] >= max(lo, 0)) & (s.cell[:, k] <= min(hi, nc - 1))
                none = not cell.any()
            else:
                none = p in ("readgroupsexample", "readfofgroupsexample") and len(s.group_member) == 0
            if none:
                # the same known finding: no particles in the cells to be read
                event("region without particles: failed")
                return False
        ck(r.returncode == 0, "%s: status %d, output %s" % (p, r.returncode, say[-1500:]))
        ck(os.path.exists(os.path.join(d, "out.txt")), "%s wrote no file: %s" % (p, say[-1500:]))
        out = os.path.join(d, "out.txt")
        event(p)
        if p == "readfileexample":
            f = s.files[i]
            pos, ids = f["PartType1/Coordinates"][::10], f["PartType1/ParticleIDs"][::10]
            same_rows(table(out, [12, 14, 14, 14]), [[j] + list(x) for j, x in zip(ids, pos)], 6, p)
            return len(ids) > 1
        if p == "readregionexample":
            sel = np.ones(len(s.pos), bool)
            for k in range(3):
                sel &= (s.pos[:, k] >= reg[k][0]) & (s.pos[:, k] <= reg[k][1])
            same_rows(table(out, [14] * 3), [list(x) for x in s.pos[sel]], 6, p)
            ck("Volume contains %s particles" % int(sel.sum()) in " ".join(say.split()), "message: " + say[-300:])
            return 0 < sel.sum() < len(sel)
        t = w["sub_tab"]
        if p == "readgroupsexample":
            want = []
            for i in range(len(t["SubLen"])):
                for k in range(t["SubOffset"][i], t["SubOffset"][i] + t["SubLen"][i]):
                    want.append([i, t["SubParentHalo"][i]] + list(s.pos[s.sub_member[k]]))
            same_rows(table(out, [8, 8, 14, 14, 14]), want, 6, p)
            return len(t["SubLen"]) > 1
        if p == "readfofgroupsexample":
            g = w["group_tab"]
            want = []
            for i in range(len(g["GroupLen"])):
                for k in range(g["GroupOffset"][i], g["GroupOffset"][i] + g["GroupLen"][i]):
                    want.append([i] + list(s.pos[s.sub_member[k]]))
            same_rows(table(out, [8, 14, 14, 14]), want, 6, p)
            return len(g["GroupLen"]) > 1
        rows = table(os.path.join(d, "out2.txt"), [16] * 5)
        same_rows(rows[1:], [[int(t["SubLen"][i]), t["SubHalfMass"][i]] + list(t["SubPos"][i]) for i in range(len(t["SubLen"]))], 8, p)
        rows = table(out, [16] * 5)
        want = []
        for i in range(len(t["NsubPerHalo"])):
            if t["NsubPerHalo"][i]:
                want.append([f32(t["Halo_M_Mean200"][i]) * f32(1e10), t["Halo_R_Mean200"][i]] + list(t["SubPos"][t["FirstSubOfHalo"][i]]))
        same_rows(rows[1:], want, 8, p)
        return len(want) > 1
    finally:
        paths.drop(d)
