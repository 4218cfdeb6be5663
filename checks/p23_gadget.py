"""P23: Gadget snapshots, binary type 1 or HDF5."""
import os, struct
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import Out, compare, dataset_names, fill
from vt.util import check as ck, eq, must_raise

check = Check("P23", quick_scale=6, shards=6, rule=(
    "Type-1 binary snapshots written by an independent writer: either byte order, any mix of six particle types, mass table, "
    "4/8-byte quantities per record, optional trailing records missing, user-defined extra records; the same data as HDF5; "
    "damaged markers, header and truncated files. Oracle: the arrays written. Non-trivial: >= 2 particle types present "
    "and (byte-swapped or mixed precision or extra records)."))

STD = [("Coordinates", "f", 3, None), ("Velocities", "f", 3, None), ("ParticleIDs", "i", 0, None), ("Masses", "f", 0, "mass"),
       ("InternalEnergy", "f", 0, "gas"), ("Density", "f", 0, "gas"), ("SmoothingLength", "f", 0, "gas")]


@st.composite
def snaps(draw):
    npart = [draw(st.sampled_from([0, 0, 1, 2, 5, 11])) for _ in range(6)]
    if sum(npart) == 0:
        npart[1] = 3
    extra = []
    for nm in ["Extra1", "Extra2"][:draw(st.sampled_from([0, 0, 1, 2]))]:
        extra.append([nm, draw(st.sampled_from(["float", "int"])), draw(st.sampled_from([[], [3], [2, 2]])),
                      [draw(st.booleans()) for _ in range(6)]])
    return {"npart": npart, "massive": [draw(st.booleans()) for _ in range(6)], "endian": draw(st.sampled_from("<>")),
            "wide": [draw(st.booleans()) for _ in range(9)], "nrec": draw(st.sampled_from([9, 9, 9, 3, 4, 5, 6, 7])),
            "extra": extra, "extra_type": draw(st.sampled_from(["tuple", "list"])), "seed": draw(st.integers(0, 999)),
            "via": draw(st.sampled_from(["class", "open"]))}


HEAD = [("NumPart_ThisFile", "i4", 6), ("MassTable", "f8", 6), ("Time", "f8", 0), ("Redshift", "f8", 0), ("Flag_Sfr", "i4", 0),
        ("Flag_Feedback", "i4", 0), ("NumPart_Total", "u4", 6), ("Flag_Cooling", "i4", 0), ("NumFilesPerSnapshot", "i4", 0),
        ("BoxSize", "f8", 0), ("Omega0", "f8", 0), ("OmegaLambda", "f8", 0), ("HubbleParam", "f8", 0),
        ("Flag_StellarAge", "i4", 0), ("Flag_Metals", "i4", 0), ("NumPart_Total_HighWord", "u4", 6)]


def build(c):
    """Returns the binary file, the expected contents and the number of records."""
    rng = np.random.default_rng(c["seed"])
    out, want = Out(c["endian"]), {}
    n = np.array(c["npart"], dtype="i4")
    head = Out(c["endian"])
    mt = np.where(c["massive"], 0.0, rng.uniform(0.5, 2, 6))
    for nm, t, m in HEAD:
        v = n if nm == "NumPart_ThisFile" else mt if nm == "MassTable" else fill(rng, t, (m,) if m else ())
        want["Header@" + nm] = v
        head.put(v, t)
    hb = head.bytes()
    out.record(np.frombuffer(hb + b"\0" * (256 - len(hb)), dtype="u1"))
    recs = []
    for nm, k, m, sel in STD:
        pt = [True] * 6 if sel is None else list(mt == 0) if sel == "mass" else [True] + [False] * 5
        recs.append((nm, k, (m,) if m else (), pt))
    for nm, ty, sh, pt in c["extra"]:
        recs.append((nm, ty[0], tuple(sh), pt))
    done = 0
    for j, (nm, k, sh, pt) in enumerate(recs):
        present = [i for i in range(6) if pt[i] and n[i] > 0]
        if not present:
            continue
        if done >= c["nrec"]:
            break
        t = {"f": ["f4", "f8"], "i": ["i4", "i8"]}[k][c["wide"][j]]
        vals = [fill(rng, t, (n[i],) + sh) for i in present]
        for i, v in zip(present, vals):
            want["PartType%d/%s" % (i, nm)] = v
        out.record(*vals)
        done += 1
    return out, want, done


def extra_arg(c):
    e = [(nm, ty, tuple(sh), tuple(pt)) for nm, ty, sh, pt in c["extra"]]
    if not e:
        return None
    return e if c["extra_type"] == "list" else tuple(e)


@check.sub(snaps(), 1800, 50000)
def binary(c):
    import virgo.formats.gadget_snapshot as gs
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "snap")
        out, want, done = build(c)
        out.save(fn)
        f = (gs.GadgetBinarySnapshotFile if c["via"] == "class" else gs.open)(fn, extra=extra_arg(c))
        compare(f, want)
        ck(dataset_names(f) == {k for k in want if "@" not in k}, "datasets: %r" % sorted(dataset_names(f)))
        ck(set(f["Header"].attrs.keys()) >= {nm for nm, _, _ in HEAD}, "header attributes")
        f.close()
        return sum(1 for x in c["npart"] if x) >= 2 and (c["endian"] == ">" or len(set(c["wide"][:done])) > 1 or bool(c["extra"]))
    finally:
        paths.drop(d)


@st.composite
def large(draw):
    """Particle numbers for which some records exceed 2 GiB (but not the 4 GiB their markers can express)."""
    wide = [draw(st.booleans()) for _ in range(3)]
    per = max(24 if wide[0] else 12, 24 if wide[1] else 12)
    total = draw(st.integers(2 ** 31 // per - 2, (2 ** 32 - 1) // per))
    total = draw(st.sampled_from([total, (2 ** 32 - 1) // per, 2 ** 31 // per + 1]))
    a, b = draw(st.sampled_from([(1, 2), (0, 1), (1, 5), (4, 5), (2, 3)]))
    split = draw(st.sampled_from([0, 1, total // 2, total // 3, total - 1]))
    return {"types": [a, b], "n": [split, total - split], "wide": wide, "endian": draw(st.sampled_from("<>")),
            "probe": [[draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.sampled_from([0.0, 1.0, draw(st.floats(0, 1))]))] for _ in range(4)]}


@check.sub(large(), 40, 600)
def large_records(c):
    """Sparse files with very long records: only the probed particles are stored."""
    import virgo.formats.gadget_snapshot as gs
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "snap")
        e = c["endian"]
        n = np.zeros(6, "i4")
        n[c["types"]] = c["n"]
        tot = int(n.sum())
        sizes = [(24 if c["wide"][0] else 12), (24 if c["wide"][1] else 12), (8 if c["wide"][2] else 4)]
        head = Out(e)
        for nm, t, m in HEAD:
            head.put(n if nm == "NumPart_ThisFile" else np.full(m, 0.5) if nm == "MassTable" else np.zeros((m,) if m else ()), t)
        hb = head.bytes()
        probes = {}
        with open(fn, "wb") as f:
            o = Out(e)
            o.record(np.frombuffer(hb + b"\0" * (256 - len(hb)), dtype="u1"))
            f.write(o.bytes())
            for j, s in enumerate(sizes):
                start = f.tell() + 4
                f.write(struct.pack(e + "I", tot * s))
                for pj, pt, frac in c["probe"]:
                    if pj == j and c["n"][pt]:
                        i = min(int(frac * c["n"][pt]), c["n"][pt] - 1)
                        k = i + (c["n"][0] if pt else 0)
                        v = np.arange(1, 4) + i % 1000 if j < 2 else np.array(i % 100000 + 7)
                        v = v.astype("f%d" % (s // 3) if j < 2 else "i%d" % s)
                        f.seek(start + k * s)
                        f.write(v.astype(v.dtype.newbyteorder(e)).tobytes())
                        probes[(j, pt, i)] = v
                f.seek(start + tot * s)
                f.write(struct.pack(e + "I", tot * s))
        f = gs.open(fn)
        for (j, pt, i), v in probes.items():
            ds = f["PartType%d/%s" % (c["types"][pt], STD[j][0])]
            ck(ds.shape[0] == c["n"][pt], "%d particles in the dataset" % ds.shape[0])
            eq(ds[i:i + 1][0], v, "particle %d" % i)
            eq(ds[i], v, "particle %d alone" % i)
        f.close()
        return any(tot * s >= 2 ** 31 for s in sizes)
    finally:
        paths.drop(d)


@st.composite
def damaged(draw):
    c = draw(snaps())
    c["how"] = draw(st.sampled_from(["marker", "cut", "cut", "cut at marker", "header", "empty", "garbage", "records", "typestr"]))
    c["pick"] = draw(st.integers(0, 10 ** 6))
    c["delta"] = draw(st.sampled_from([1, 4, -1, 12, 256, -4]))
    return c


@check.sub(damaged(), 900, 20000)
def rejects_damage(c):
    """A file with a wrong record marker or without the mandatory records is not silently accepted."""
    import virgo.formats.gadget_snapshot as gs
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "snap")
        out, want, done = build(c)
        b = bytearray(out.bytes())
        marks = out.marks
        if c["how"] in ("marker", "header"):
            off, _ = marks[c["pick"] % 2] if c["how"] == "header" else marks[c["pick"] % len(marks)]
            v = struct.unpack(c["endian"] + "I", b[off:off + 4])[0] + c["delta"]
            b[off:off + 4] = struct.pack(c["endian"] + "I", v % 2 ** 32)
        elif c["how"].startswith("cut"):
            # anywhere inside the mandatory records, or strictly inside a later one
            mand = marks[2 * min(4, done + 1) - 1][0] + 4
            k = 1 + c["pick"] % (len(b) - 1)
            if "marker" in c["how"]:            # in or next to the marker before or after a record
                k = min(marks[-1 - c["pick"] % min(8, len(marks))][0] + c["pick"] // 8 % 5, len(b) - 1)
            if k >= mand:
                inside = [(h[0] + 1, t[0] + 3) for h, t in zip(marks[::2], marks[1::2]) if h[0] >= mand]
                if not any(lo <= k <= hi for lo, hi in inside):
                    return False
            b = b[:k]
        elif c["how"] == "records":             # only the header and less than three complete records
            if done < 3:
                return False
            b = b[:marks[2 * (c["pick"] % 3) + 1][0] + 4]
        elif c["how"] == "typestr":             # undamaged, but an impossible request
            if not done:
                return False
            out = build(dict(c, nrec=99))[0]
            ptypes = tuple(True for _ in range(6))
            out.record(np.zeros(sum(c["npart"]), "f4"))
            out.save(fn)
            bad = list(extra_arg(c) or []) + [("Foo", ["double", "Int", "", "bool"][c["pick"] % 4], (), ptypes)]
            must_raise(ValueError, gs.GadgetBinarySnapshotFile, fn, extra=bad)
            return True
        elif c["how"] == "empty":
            b = b""
        else:
            b = bytes([(x * 7 + 3) % 251 for x in range(c["pick"] % 2000)])
        with open(fn, "wb") as g:
            g.write(bytes(b))
        must_raise((IOError, ValueError), gs.GadgetBinarySnapshotFile, fn, extra=extra_arg(c))
        must_raise((IOError, ValueError), gs.open, fn, extra=extra_arg(c))
        return True
    finally:
        paths.drop(d)


@check.sub(snaps(), 150, 3000)
def hdf5(c):
    """open() gives the same interface and data for the HDF5 version of a snapshot."""
    import virgo.formats.gadget_snapshot as gs
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "snap.hdf5")
        out, want, done = build(c)
        with h5py.File(fn, "w") as f:
            for k, v in want.items():
                if "@" in k:
                    f.require_group("Header").attrs[k.split("@")[1]] = v
                else:
                    f[k] = v
        f = gs.open(fn)
        compare(f, want)
        f.close()
        must_raise(IOError, gs.open, fn + ".missing")
        return True
    finally:
        paths.drop(d)
