"""P28: reading the particles of FoF groups and subhalos from group-ordered snapshots."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import fill
from vt.util import check as ck, eq, must_raise
from checks import p23_gadget as p23

check = Check("P28", quick_scale=3, shards=6, rule=(
    "Group-ordered multi-file snapshots (binary or HDF5, 1-5 files, cuts at arbitrary particles so that groups span files, "
    "empty files, trailing field particles, up to six particle types for Gadget-4) with catalogues in 1-13 files; every FoF "
    "group, subhalo and random particle ranges, repeated in random order. Oracle: slices of the full particle arrays. "
    "Non-trivial: some group read spans at least two snapshot files."))


@st.composite
def worlds(draw, g4):
    ng = draw(st.sampled_from([1, 2, 3, 6] * 4 + [0]))
    types = draw(st.sampled_from([[1], [1], [0, 1], [0, 1, 4, 5], [0, 1, 2, 3, 4, 5], [2, 5]])) if g4 else [1]
    c = {"nf": draw(st.sampled_from([1, 2, 3, 4] * 3 + [11, 13])), "endian": draw(st.sampled_from("<>")), "id_bytes": draw(st.sampled_from([4, 8])),
         "float_bytes": draw(st.sampled_from([4, 8])), "veldisp": draw(st.booleans()), "shape": False,
         "seed": draw(st.integers(0, 999)), "ntask": 0, "types": types,
         "hdf5": draw(st.sampled_from([False, False, True])), "isnap": draw(st.sampled_from([0, 5, 63, 127]))}
    lt = []
    for _ in range(ng):
        row = [0] * 6
        for t in types:
            row[t] = draw(st.sampled_from([0, 1, 2, 5, 9] if g4 else [1, 2, 5, 9]))
        if sum(row) == 0:
            row[types[0]] = 1
        lt.append(row)
    c["lentype"] = lt
    c["nsub"] = [draw(st.sampled_from([0, 1, 2, 3])) for _ in range(ng)]
    c["gfile"] = sorted(draw(st.integers(0, c["nf"] - 1)) for _ in range(ng))
    c["sfile"] = sorted(draw(st.integers(0, c["nf"] - 1)) for _ in range(sum(c["nsub"])))
    c["rest"] = [draw(st.sampled_from([0, 0, 3])) if t in types else 0 for t in range(6)]
    nsf = draw(st.sampled_from([1, 2, 3, 4, 5] * 3 + [11, 12]))
    tot = [sum(r[t] for r in lt) + c["rest"][t] for t in range(6)]
    # a cut may fall anywhere, with a preference for group boundaries (and one particle either side)
    cuts = []
    for t in range(6):
        edges = [0]
        for r in lt:
            edges.append(edges[-1] + r[t])
        row = []
        for _ in range(nsf - 1):
            if draw(st.booleans()):
                x = draw(st.sampled_from(edges)) + draw(st.sampled_from([-1, 0, 0, 1]))
            else:
                x = draw(st.integers(0, tot[t]))
            row.append(min(max(x, 0), tot[t]))
        cuts.append(sorted(row))
    c["cuts"] = cuts
    c["order"] = draw(st.integers(0, 10 ** 6))
    c["fracs"] = [draw(st.integers(0, 100)) for _ in range(6)]
    return c


def particles(c):
    rng = np.random.default_rng(c["seed"] + 17)
    out = []
    for t in range(6):
        n = sum(r[t] for r in c["lentype"]) + c["rest"][t]
        out.append({"Coordinates": fill(rng, "f4", (n, 3)), "Velocities": fill(rng, "f4", (n, 3)),
                    "ParticleIDs": rng.permutation(n).astype("u4") + np.uint32(1000 * t)})
    return out


def write_snap(c, d, base, parts):
    dd = os.path.join(d, "snapdir_%03d" % c["isnap"])
    os.makedirs(dd, exist_ok=True)
    nsf = len(c["cuts"][0]) + 1
    tot = np.array([len(p["ParticleIDs"]) for p in parts])
    edges = [[0] + c["cuts"][t] + [int(tot[t])] for t in range(6)]
    for i in range(nsf):
        sl = [slice(edges[t][i], edges[t][i + 1]) for t in range(6)]
        n = np.array([s.stop - s.start for s in sl], dtype="i4")
        vals = {"NumPart_ThisFile": n, "NumPart_Total": tot.astype("u4"), "NumFilesPerSnapshot": np.int32(nsf),
                "NumPart_Total_HighWord": np.zeros(6, "u4"), "MassTable": np.full(6, 0.5)}
        fn = os.path.join(dd, "%s_%03d.%d" % (base, c["isnap"], i))
        if c["hdf5"]:
            with h5py.File(fn, "w") as f:
                h = f.create_group("Header")
                for k, v in vals.items():
                    h.attrs[k] = v
                for t in range(6):
                    if n[t]:
                        for k, v in parts[t].items():
                            f["PartType%d/%s" % (t, k)] = v[sl[t]]
        else:
            o = p23.Out(c["endian"])
            hd = p23.Out(c["endian"])
            for nm, ty, m in p23.HEAD:
                hd.put(vals[nm] if nm in vals else np.zeros((m,) if m else ()), ty)
            hb = hd.bytes()
            o.record(np.frombuffer(hb + b"\0" * (256 - len(hb)), dtype="u1"))
            for k in ("Coordinates", "Velocities", "ParticleIDs"):
                if n.sum():
                    o.record(*[parts[t][k][sl[t]] for t in range(6) if n[t]])
            o.save(fn)
    return edges


def spans(edges, t, lo, hi):
    e = edges[t]
    return sum(1 for a, b in zip(e[:-1], e[1:]) if max(a, lo) < min(b, hi)) > 1


def open_files(c, snap, tabs, parts, edges):
    """The methods which return single files describe them with the options given to the constructor."""
    i = c["seed"] % len(tabs)
    f = snap.open_subtab_file(i)
    for k, v in tabs[i].items():
        if len(v):
            eq(f[k][...], v, "subhalo table %d, %s" % (i, k))
    f.close()
    i = c["seed"] % (len(edges[0]) - 1)
    f = snap.open_snap_file(i)
    for t in range(6):
        lo, hi = edges[t][i:i + 2]
        if hi > lo:
            for k, v in parts[t].items():
                eq(f["PartType%d/%s" % (t, k)][...], v[lo:hi], "snapshot file %d, type %d %s" % (i, t, k))
    f.close()


@check.sub(worlds(True), 700, 20000)
def gadget4(c):
    from virgo.formats.subfind_gadget4 import GroupOrderedSnapshot
    return run_gadget4(c, GroupOrderedSnapshot)


def run_gadget4(c, GroupOrderedSnapshot):
    d = paths.fresh_dir()
    try:
        lt = np.array(c["lentype"], dtype="i8").reshape(-1, 6)
        ng, nsub = len(lt), np.array(c["nsub"], dtype="i8")
        ns = int(nsub.sum())
        rng = np.random.default_rng(c["seed"] + 3)
        parent = np.repeat(np.arange(ng), nsub)
        slt, used = np.zeros((ns, 6), "i8"), np.zeros((ng, 6), "i8")
        for i, p in enumerate(parent):
            for t in range(6):
                slt[i, t] = rng.integers(0, lt[p, t] - used[p, t] + 1)
            used[p] += slt[i]
        cc = dict(c, len=[int(x) for x in lt.sum(axis=1)])
        g, s, _ = sf.whole(cc, sf.G4_GROUP, sf.G4_SUB)
        g["GroupLenType"], s["SubLenType"] = lt.astype("i4"), slt.astype("i4")
        dd = os.path.join(d, "groups_%03d" % c["isnap"])
        os.makedirs(dd)
        tabs = []
        for i, (gg, ss) in enumerate(sf.split(cc, g, s)):
            tabs.append({**gg, **ss})
            sf.gadget4_file(os.path.join(dd, "fof_subhalo_tab_%03d.%d" % (c["isnap"], i)), cc, gg, ss, (ng, ns, int(lt.sum())),
                            int(gg["GroupLen"].sum()))
        parts = particles(c)
        edges = write_snap(c, d, "snap", parts)
        kw = {} if c["id_bytes"] == 8 else {"id_bytes": 4}
        snap = GroupOrderedSnapshot(d, "snap", c["isnap"], **kw)
        open_files(c, snap, tabs, parts, edges)
        off = np.cumsum(lt, axis=0) - lt
        first = np.cumsum(nsub) - nsub
        r2 = np.random.default_rng(c["order"])
        nontriv = False
        gfile = np.array(c["gfile"], dtype="i8")
        must_raise(IndexError, snap.read_fof_group, ng)
        if ng == 0:
            event("no groups")
        for q in list(r2.permutation(ng)) + list(r2.integers(0, max(ng, 1), 2 if ng else 0)):
            how = int(r2.integers(0, 4))
            fl = int(gfile[q])
            local = int(q - np.flatnonzero(gfile == fl)[0])
            arg = [int(q), np.int64(q), (fl, local), np.array([fl, local])][how]
            res = snap.read_fof_group(arg)
            ck(len(res) == 6, "result has %d entries" % len(res))
            for t in range(6):
                lo, hi = int(off[q, t]), int(off[q, t] + lt[q, t])
                nontriv |= spans(edges, t, lo, hi)
                for k in ("Coordinates", "Velocities", "ParticleIDs"):
                    if hi > lo:
                        ck(k in res[t], "group %d type %d: no %s" % (q, t, k))
                        eq(res[t][k], parts[t][k][lo:hi], "group %d type %d %s" % (q, t, k))
                    else:
                        ck(k not in res[t] or len(res[t][k]) == 0, "group %d has no type %d particles" % (q, t))
                if hi > lo:
                    w = -np.ones(hi - lo, int)
                    pos = 0
                    for sub in range(int(first[q]), int(first[q] + nsub[q])):
                        w[pos:pos + slt[sub, t]] = sub
                        pos += slt[sub, t]
                    eq(res[t]["SubNr"], w, "group %d type %d SubNr" % (q, t))
        return nontriv
    finally:
        paths.drop(d)


@check.sub(worlds(False), 700, 20000)
def pgadget3(c):
    from virgo.formats.subfind_pgadget3 import GroupOrderedSnapshot
    return run_pgadget3(c, GroupOrderedSnapshot)


def run_pgadget3(c, GroupOrderedSnapshot):
    d = paths.fresh_dir()
    try:
        ln = np.array(c["lentype"], dtype="i8").reshape(-1, 6)[:, 1]
        cc = dict(c, len=[int(x) for x in ln])
        g, s, _ = sf.whole(cc, sf.P3_GROUP, sf.P3_SUB)
        dd = os.path.join(d, "groups_%03d" % c["isnap"])
        os.makedirs(dd)
        tabs = []
        for i, (gg, ss) in enumerate(sf.split(cc, g, s)):
            tabs.append({**gg, **ss})
            h = {"Ngroups": np.int32(len(gg["GroupLen"])), "TotNgroups": np.int32(len(ln)), "Nids": np.int32(gg["GroupLen"].sum()),
                 "TotNids": np.int64(ln.sum()), "NTask": np.int32(c["nf"]), "Nsubgroups": np.int32(len(ss["SubLen"])),
                 "TotNsubgroups": np.int32(len(s["SubLen"]))}
            sf.write_plain(os.path.join(dd, "subhalo_tab_%03d.%d" % (c["isnap"], i)), cc, h, gg, ss)
        parts = particles(c)
        edges = write_snap(c, d, "snap_x", parts)
        p = parts[1]
        kw = {"SO_VEL_DISPERSIONS": c["veldisp"], "id_bytes": c["id_bytes"], "float_bytes": c["float_bytes"]}
        for k, default in (("SO_VEL_DISPERSIONS", False), ("id_bytes", 8), ("float_bytes", 4)):
            if kw[k] == default and c["seed"] % 2:
                del kw[k]
        snap = GroupOrderedSnapshot(d, "snap_x", c["isnap"], **kw)
        open_files(c, snap, tabs, parts, edges)
        nontriv = False
        r2 = np.random.default_rng(c["order"])
        tot = len(p["ParticleIDs"])
        todo = [("fof", i) for i in range(len(ln))] + [("sub", i) for i in range(len(s["SubLen"])) if s["SubLen"][i] > 0]
        for a, b in zip(c["fracs"][::2], c["fracs"][1::2]):
            a, b = sorted([a * tot // 101, b * tot // 101])
            if tot:
                todo.append(("range", (a, b - a + 1)))
        for j in r2.permutation(len(todo)):
            kind, i = todo[j]
            names = [None, ["Coordinates"], ("ParticleIDs", "Velocities")][int(r2.integers(0, 3))]
            kw = {} if names is None else {"datasets": names}
            if kind == "fof":
                lo, n, got = g["GroupOffset"][i], g["GroupLen"][i], snap.read_fof_group(i, **kw)
            elif kind == "sub":
                lo, n, got = s["SubOffset"][i], s["SubLen"][i], snap.read_subfind_group(i, **kw)
            else:
                lo, n = i
                got = snap.read_particle_range(lo, n, **kw)
            lo, n = int(lo), int(n)
            nontriv |= spans(edges, 1, lo, lo + n)
            ck(set(got) == set(names or ("Coordinates", "Velocities", "ParticleIDs")), "datasets %r" % sorted(got))
            for k in got:
                eq(got[k], p[k][lo:lo + n], "%s %r %s" % (kind, i, k))
        return nontriv
    finally:
        paths.drop(d)


@st.composite
def huge_cases(draw):
    big = [draw(st.sampled_from([2 ** 30, 2 ** 31 - 1, 2 ** 31 - 8, 1500000000])) for _ in range(draw(st.integers(1, 3)))]
    return {"g4": draw(st.booleans()), "big": big, "n": draw(st.integers(1, 6)), "type": draw(st.sampled_from([0, 1, 4])),
            "cutat": draw(st.integers(0, 6)), "seed": draw(st.integers(0, 99)), "wide": draw(st.booleans())}


@check.sub(huge_cases(), 60, 800)
def huge_offsets(c):
    """Particle indexes beyond 2^31: sparse HDF5 snapshot files, reading the small group that follows huge ones."""
    g4 = c["g4"]
    t = c["type"] if g4 else 1
    big = c["big"] if g4 else c["big"][:1] + ([2 ** 31 - 100] if len(c["big"]) > 1 else [])
    ln = np.array(big + [c["n"]], dtype="i8")
    first = int(ln[:-1].sum())
    d = paths.fresh_dir()
    try:
        cc = {"nf": 1, "endian": "<", "id_bytes": 8, "float_bytes": 4, "veldisp": False, "shape": False, "seed": c["seed"],
              "ntask": 0, "len": [1] * len(ln), "nsub": [0] * (len(ln) - 1) + [1], "gfile": [0] * len(ln), "sfile": [0]}
        os.makedirs(os.path.join(d, "groups_005"))
        if g4:
            g, s, _ = sf.whole(cc, sf.G4_GROUP, sf.G4_SUB)
            g["GroupLenType"][:], s["SubLenType"][:] = 0, 0
            g["GroupLenType"][:, t], s["SubLenType"][0, t] = ln, c["n"] // 2
            sf.gadget4_file(os.path.join(d, "groups_005/fof_subhalo_tab_005.0"), cc, g, s, (len(ln), 1, 0), 0)
        else:
            g, s, _ = sf.whole(cc, sf.P3_GROUP, sf.P3_SUB)
            g["GroupLen"][:] = ln
            g["GroupOffset"][:] = np.cumsum(ln) - ln
            h = {"Ngroups": np.int32(len(ln)), "TotNgroups": np.int32(len(ln)), "Nids": np.int32(0), "TotNids": np.int64(ln.sum()),
                 "NTask": np.int32(1), "Nsubgroups": np.int32(1), "TotNsubgroups": np.int32(1)}
            sf.write_plain(os.path.join(d, "groups_005/subhalo_tab_005.0"), cc, h, g, s)
        # files of up to 2^31-1 particles, the last two split within the small group
        sizes, left = [], first + min(c["cutat"], c["n"])
        while left > 0:
            sizes.append(min(left, 2 ** 31 - 1))
            left -= sizes[-1]
        sizes.append(c["n"] - min(c["cutat"], c["n"]) + 3)
        rng = np.random.default_rng(c["seed"])
        vals = {"Coordinates": fill(rng, "f4", (c["n"], 3)), "Velocities": fill(rng, "f4", (c["n"], 3)),
                "ParticleIDs": rng.permutation(c["n"]).astype("u8") + np.uint64(7)}
        os.makedirs(os.path.join(d, "snapdir_005"))
        pos, tot = 0, int(sum(sizes))
        for i, n in enumerate(sizes):
            with h5py.File(os.path.join(d, "snapdir_005/s_005.%d" % i), "w") as f:
                h = f.create_group("Header")
                nn, nt, hw = np.zeros(6, "i8"), np.zeros(6, "u4"), np.zeros(6, "u4")
                nn[t], nt[t], hw[t] = n, tot % 2 ** 32, tot >> 32
                h.attrs["NumPart_ThisFile"] = nn.astype("i4")
                h.attrs["NumPart_Total"], h.attrs["NumPart_Total_HighWord"] = nt, hw
                h.attrs["NumFilesPerSnapshot"] = np.int32(len(sizes))
                for k, v in vals.items():
                    ds = f.create_dataset("PartType%d/%s" % (t, k), shape=(n,) + v.shape[1:], dtype=v.dtype,
                                          chunks=(min(n, 4096),) + v.shape[1:])
                    lo, hi = max(first, pos), min(first + c["n"], pos + n)
                    if hi > lo:
                        ds[lo - pos:hi - pos] = v[lo - first:hi - first]
            pos += n
        if g4:
            from virgo.formats.subfind_gadget4 import GroupOrderedSnapshot
            res = GroupOrderedSnapshot(d, "s", 5).read_fof_group([len(ln) - 1, (0, len(ln) - 1)][c["seed"] % 2])
            got = res[t]
            w = -np.ones(c["n"], int)
            w[:c["n"] // 2] = 0
            eq(got["SubNr"], w, "SubNr")
        else:
            from virgo.formats.subfind_pgadget3 import GroupOrderedSnapshot
            got = GroupOrderedSnapshot(d, "s", 5).read_fof_group(len(ln) - 1)
        for k, v in vals.items():
            eq(got[k], v, k)
        return True
    finally:
        paths.drop(d)


@st.composite
def huge(draw):
    """Small objects at places which do not fit into 32 bits, between objects which are never read."""
    c = {"which": draw(st.sampled_from(["p3", "g4"])), "endian": draw(st.sampled_from("<>")), "id_bytes": draw(st.sampled_from([4, 8])),
         "float_bytes": 4, "veldisp": False, "shape": False, "nf": 1, "ntask": 0, "seed": draw(st.integers(0, 99)), "isnap": 7}
    top = 2 ** 32 - 100 if c["which"] == "p3" else 2 ** 34
    at = draw(st.lists(st.sampled_from([2 ** 31, 2 ** 31 - 1, 10 ** 9, 2 ** 32 - 300, 3 * 10 ** 9, 2 ** 32, 2 ** 33]), min_size=1, max_size=3, unique=True))
    c["at"] = sorted(min(a, top - 200) for a in set(at))
    c["small"] = [[draw(st.integers(1, 9)) for _ in range(draw(st.integers(1, 3)))] for _ in c["at"]]
    c["back"] = [draw(st.integers(0, 12)) for _ in c["at"]]
    c["cut"] = [draw(st.integers(-2, 10)) for _ in c["at"]]
    c["order"] = draw(st.integers(0, 1000))
    return c


def huge_layout(c):
    """(length, offset, is small) of consecutive objects, and the particle numbers at which files end."""
    pos, out, cuts = 0, [], []
    for at, small, back, cut in zip(c["at"], c["small"], c["back"], c["cut"]):
        start = max(at - back, pos)
        while pos < start:
            n = min(start - pos, 2 ** 31 - 1)
            out.append((n, pos, False))
            pos += n
        for n in small:
            out.append((n, pos, True))
            pos += n
        cuts.append(max(at - back + cut, 0))
    edges = [0]
    for x in sorted(set(min(x, pos) for x in cuts) | {pos + 3}):
        while x - edges[-1] > 2 ** 31 - 1:      # particles per file are 32 bit numbers
            edges.append(edges[-1] + 2 ** 31 - 7)
        if x > edges[-1]:
            edges.append(x)
    return out, edges


@check.sub(huge(), 60, 2000)
def huge_snapshots(c):
    """Sparse HDF5 files with more particles than 32 bit integers can count."""
    d = paths.fresh_dir()
    try:
        objs, edges = huge_layout(c)
        tot = edges[-1]
        n = len(objs)
        dd = os.path.join(d, "groups_007")
        os.makedirs(dd)
        os.makedirs(os.path.join(d, "snapdir_007"))
        cc = dict(c, len=[1] * n, nsub=[1] * n, gfile=[0] * n, sfile=[0] * n)
        ln, off = np.array([o[0] for o in objs], "i8"), np.array([o[1] for o in objs], "i8")
        if c["which"] == "p3":
            from virgo.formats.subfind_pgadget3 import GroupOrderedSnapshot
            g, s, _ = sf.whole(cc, sf.P3_GROUP, sf.P3_SUB)
            g["GroupLen"], g["GroupOffset"] = ln.astype("i4"), off.astype("u4")
            s["SubLen"], s["SubOffset"] = ln.astype("i4"), off.astype("u4").astype("i4")
            h = {"Ngroups": np.int32(n), "TotNgroups": np.int32(n), "Nids": np.int32(1), "TotNids": np.int64(tot), "NTask": np.int32(1),
                 "Nsubgroups": np.int32(n), "TotNsubgroups": np.int32(n)}
            sf.write_plain(os.path.join(dd, "subhalo_tab_007.0"), cc, h, g, s)
        else:
            from virgo.formats.subfind_gadget4 import GroupOrderedSnapshot
            g, s, _ = sf.whole(cc, sf.G4_GROUP, sf.G4_SUB)
            lt = np.zeros((n, 6), "i4")
            lt[:, 1] = ln
            g["GroupLenType"], s["SubLenType"] = lt, lt
            sf.gadget4_file(os.path.join(dd, "fof_subhalo_tab_007.0"), cc, g, s, (n, n, 1), 1)
        nfile = len(edges) - 1
        for i in range(nfile):
            lo, hi = edges[i:i + 2]
            npart = np.array([0, hi - lo, 0, 0, 0, 0])
            with h5py.File(os.path.join(d, "snapdir_007", "snap_007.%d" % i), "w") as f:
                f.create_group("Header").attrs.update({
                    "NumPart_ThisFile": npart.astype("i4"), "NumPart_Total": (npart * 0 + [0, tot % 2 ** 32, 0, 0, 0, 0]).astype("u4"),
                    "NumPart_Total_HighWord": (npart * 0 + [0, tot >> 32, 0, 0, 0, 0]).astype("u4"), "NumFilesPerSnapshot": np.int32(nfile)})
                for nm, t, m in (("Coordinates", "f4", (3,)), ("Velocities", "f4", (3,)), ("ParticleIDs", "u8", ())):
                    x = f.create_dataset("PartType1/" + nm, (hi - lo,) + m, dtype=t, chunks=(min(64, hi - lo),) + m)
                    for k, o, small in objs:
                        a, b = max(o, lo), min(o + k, hi)
                        if small and a < b:
                            x[a - lo:b - lo] = huge_values(nm, a, b)
        snap = GroupOrderedSnapshot(d, "snap", 7, **({"id_bytes": c["id_bytes"]} if c["id_bytes"] == 4 else {}))
        nt = False
        for i in np.random.default_rng(c["order"]).permutation(n):
            k, o, small = objs[i]
            if not small:
                continue
            got = [snap.read_fof_group(int(i))[1]] if c["which"] == "g4" else [snap.read_fof_group(int(i)), snap.read_particle_range(o, k)]
            if c["which"] == "p3" and o < 2 ** 31:      # the format can't express larger offsets of subhalos
                got.append(snap.read_subfind_group(int(i)))
            for r in got:
                for nm in ("Coordinates", "Velocities", "ParticleIDs"):
                    eq(r[nm], huge_values(nm, o, o + k), "object %d, particles %d to %d: %s" % (i, o, o + k - 1, nm))
            nt |= o + k > 2 ** 31
        return nt
    finally:
        paths.drop(d)


def huge_values(nm, a, b):
    i = np.arange(a, b, dtype="i8")
    if nm == "ParticleIDs":
        return (i * 3 + 1).astype("u8")
    return ((i % 1000)[:, None] * (1 if nm == "Coordinates" else 2) + np.arange(3)).astype("f4")
