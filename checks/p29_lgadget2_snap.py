"""P29: Millennium snapshot files, their sanity check and hash-table region reads."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import Out, compare, fill
from vt.util import check as ck, eq, must_raise

check = Check("P29", quick_scale=6, shards=6, rule=(
    "Multi-file Millennium-1 snapshots (2-16 cells per side, 1-4 files, either byte order, empty cells) written by an "
    "independent writer with its own Hilbert table from the C example's algorithm; random (also periodic-wrapping, oversize) "
    "regions and random cell lists, repeated reads, reads while one of the files is missing (which may fail, but must not affect later ones). Oracle: brute-force selection of the particles in the overlapped cells. "
    "Non-trivial: a region read that selects some but not all particles, from several files or wrapping the box."),
    assumptions=["Hash cells are ordered by the library's own peano keys (their correctness is P16)."])


@st.composite
def snaps(draw):
    bits = draw(st.sampled_from([1, 2, 3, 4]))
    return {"bits": bits, "nfiles": draw(st.sampled_from([1, 2, 3, 4])), "endian": draw(st.sampled_from("<>")),
            "box": draw(st.sampled_from([500.0, 62.5, 1.0])), "n": draw(st.sampled_from([5, 30, 120])),
            "seed": draw(st.integers(0, 9999)), "clump": draw(st.booleans()),
            "high": draw(st.sampled_from([0, 0, 2, 3, 7]))}


_keys = {}


def grid_keys(bits):
    if bits not in _keys:
        from virgo.util.peano import peano_hilbert_keys
        g = np.indices((1 << bits,) * 3).reshape(3, -1)
        _keys[bits] = (g, peano_hilbert_keys(g[0], g[1], g[2], bits))
    return _keys[bits]


def make(c, d):
    """Writes the snapshot; returns positions (in file order), velocities, ids, integer cells, keys."""
    rng = np.random.default_rng(c["seed"])
    nc, n = 1 << c["bits"], c["n"]
    size = c["box"] / nc
    cell = rng.integers(0, nc, (n, 3))
    if c["clump"]:
        cell = np.where(rng.integers(0, 3, (n, 1)) == 0, cell, cell[:1])
    pos = ((cell + rng.uniform(0.02, 0.98, (n, 3))) * size).astype("f4")
    g, k = grid_keys(c["bits"])
    key = k[(cell[:, 0] * nc + cell[:, 1]) * nc + cell[:, 2]]
    order = np.argsort(key, kind="stable")
    pos, cell, key = pos[order], cell[order], key[order]
    vel = fill(rng, "f4", (n, 3))
    ids = rng.permutation(n).astype("u8")
    if c["high"]:                               # a small part of a run with more than 2^32 particles
        ids = ids * np.uint64(2 ** 32 * c["high"] // n)
    # split the key range between files
    ncell = nc ** 3
    cuts = sorted(rng.choice(np.arange(1, ncell), min(c["nfiles"] - 1, ncell - 1), replace=False).tolist())
    edges = [0] + cuts + [ncell]
    nf = len(edges) - 1
    os.mkdir(os.path.join(d, "snapdir_007"))
    want = []
    for i in range(nf):
        lo, hi = edges[i], edges[i + 1]
        sel = (key >= lo) & (key < hi)
        m = int(sel.sum())
        o = Out(c["endian"])
        h = Out(c["endian"])
        w = {"Header@NumPart_ThisFile": np.array([0, m, 0, 0, 0, 0], "u4"), "Header@MassTable": fill(rng, "f8", (6,)),
             "Header@Time": np.float64(0.5), "Header@Redshift": np.float64(1.0), "Header@Flag_Sfr": np.int32(0),
             "Header@Flag_Feedback": np.int32(1), "Header@NumPart_Total": np.array([0, n, c["high"], 0, 0, 0], "u4"),
             "Header@Flag_Cooling": np.int32(2), "Header@NumFilesPerSnapshot": np.int32(nf),
             "Header@BoxSize": np.float64(c["box"]), "Header@Omega0": np.float64(0.25), "Header@OmegaLambda": np.float64(0.75),
             "Header@HubbleParam": np.float64(0.73), "Header@Flag_StellarAge": np.int32(3),
             "Header@Flag_Metals": np.int32(4), "Header@HashTabSize": np.int32(ncell)}
        for v in w.values():
            h.put(v)
        h.put(np.zeros(84, "u1"))
        o.record(np.frombuffer(h.bytes(), "u1"))
        o.record(pos[sel]).record(vel[sel]).record(ids[sel])
        o.record(np.array([lo, hi - 1], "i4"))
        block = np.searchsorted(key[sel], np.arange(lo, hi)).astype("i4")
        o.record(block)
        w.update({"PartType1/Coordinates": pos[sel], "PartType1/Velocities": vel[sel], "PartType1/ParticleIDs": ids[sel],
                  "first_hash_cell": np.int32(lo), "last_hash_cell": np.int32(hi - 1), "blockid": block})
        o.save(os.path.join(d, "snapdir_007", "snap_test_007.%d" % i))
        want.append(w)
    return pos, vel, ids, cell, key, nf, want


@check.sub(snaps(), 300, 8000)
def files(c):
    from virgo.formats.subfind_lgadget2 import SnapshotFile
    d = paths.fresh_dir()
    try:
        *_, nf, want = make(c, d)
        for i in range(nf):
            f = SnapshotFile(os.path.join(d, "snapdir_007", "snap_test_007.%d" % i))
            compare(f, want[i], "file %d" % i)
            ck(f.all_bytes_used(), "file %d not covered" % i)
            ck(f.sanity_check() is None, "valid file rejected")
            f.close()
        return nf > 1
    finally:
        paths.drop(d)


@st.composite
def broken(draw):
    c = draw(snaps())
    c["nfiles"] = 1
    c["bits"] = draw(st.sampled_from([2, 3, 4]))
    c["how"] = draw(st.sampled_from(["move", "range", "nanpos", "nanvel", "fast", "id", "neg"]))
    c["i"] = draw(st.integers(0, 10 ** 6))
    return c


@check.sub(broken(), 300, 8000)
def sanity_check_finds(c):
    from virgo.formats.subfind_lgadget2 import SnapshotFile
    from virgo.util.exceptions import SanityCheckFailedException
    d = paths.fresh_dir()
    try:
        pos, vel, ids, cell, key, nf, want = make(c, d)
        fn = os.path.join(d, "snapdir_007", "snap_test_007.0")
        k = c["i"] % len(pos)
        ax = c["i"] % 3
        n = len(pos)
        p, v, i = pos.copy(), vel.copy(), ids.copy()
        if c["how"] == "move":
            p[k, ax] = (p[k, ax] + 0.5 * c["box"]) % c["box"]
        elif c["how"] == "range":
            p[k, ax] = c["box"] * 1.01
        elif c["how"] == "neg":
            p[k, ax] = -0.01 * c["box"]
        elif c["how"] == "nanpos":
            p[k, ax] = [np.nan, np.inf][c["i"] % 2]
        elif c["how"] == "nanvel":
            v[k, ax] = [np.nan, np.inf][c["i"] % 2]
        elif c["how"] == "fast":
            v[k, ax] = [-1.1e6, 1.1e6][c["i"] % 2]
        else:
            i[k] = 2 ** 32 * c["high"] + n + 1 + c["i"]
        with open(fn, "rb") as f:
            b = f.read()
        o = Out(c["endian"])
        o.raw(b[:264]).record(p).record(v).record(i)
        o.raw(b[o.tell():])
        o.save(fn)
        f = SnapshotFile(fn)
        must_raise(SanityCheckFailedException, f.sanity_check)
        f.close()
        event(c["how"])
        return True
    finally:
        paths.drop(d)


@st.composite
def regions(draw):
    c = draw(snaps())
    c["reads"] = []
    c["lost"] = []                              # (number of a read, file which is missing at that time)
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 5)) == 0:
            c["lost"].append([len(c["reads"]), draw(st.integers(0, 3))])
        if draw(st.integers(0, 3)) == 0:
            ncell = 8 ** c["bits"]
            c["reads"].append(["cells", draw(st.lists(st.integers(0, ncell - 1), min_size=1, max_size=12))])
        else:
            r = []
            for _ax in range(3):
                lo = draw(st.floats(-0.6, 1.2))
                r.append([lo, draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.99, 1.3]))])
            c["reads"].append(["region", r])
    return c


@check.sub(regions(), 500, 15000)
def region(c):
    from virgo.formats.subfind_lgadget2 import Snapshot
    d = paths.fresh_dir()
    try:
        pos, vel, ids, cell, key, nf, want = make(c, d)
        snap = Snapshot(d, "snap_test", 7)
        nc = 1 << c["bits"]
        size = c["box"] / nc
        nontrivial = False
        lost = {a: b for a, b in c.get("lost", [])}
        for iread, (kind, arg) in enumerate(c["reads"]):
            gone = os.path.join(d, "snapdir_007", "snap_test_007.%d" % (lost[iread] % nf)) if iread in lost else None
            if kind == "cells":
                sel = np.isin(key, arg)
                read = lambda: snap.read_cells(np.array(arg))
                inside = sel
            else:
                ext = []
                sel = np.ones(len(pos), bool)
                inside = np.ones(len(pos), bool)
                for ax, (lo, w) in enumerate(arg):
                    a, b = lo * c["box"], (lo + w) * c["box"]
                    ext += [a, b]
                    ia, ib = int(np.floor(a / size)), int(np.floor(b / size))
                    sel &= np.isin(cell[:, ax], np.arange(ia, ib + 1) % nc)
                    off = np.mod(pos[:, ax].astype("f8") - a, c["box"])
                    inside &= (off <= (b - a)) | (b - a >= c["box"])
                read = lambda: snap.read_region(ext)
            if gone:
                os.rename(gone, gone + ".lost")
                try:
                    got = read()
                except (IOError, OSError):
                    got = None
                    event("read failed")
                os.rename(gone + ".lost", gone)
                if got is None:
                    continue
            else:
                got = read()
            p, v, i = got
            ck(len(p) == len(v) == len(i), "array lengths differ")
            ck(len(np.unique(i)) == len(i), "a particle was returned twice")
            gi = set(i.tolist())
            ck(set(ids[inside].tolist()) <= gi, "particles inside the region are missing: got %d" % len(gi))
            ck(gi == set(ids[sel].tolist()), "particles outside the overlapped cells returned")
            at = {int(x): k for k, x in enumerate(ids)}
            rows = [at[int(x)] for x in i]
            eq(p, pos[rows], "positions")
            eq(v, vel[rows], "velocities")
            if 0 < sel.sum() < len(pos) and (nf > 1 or kind == "region"):
                nontrivial = True
        return nontrivial
    finally:
        paths.drop(d)
