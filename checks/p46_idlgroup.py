"""P46: the C library for group catalogues which is called from IDL."""
import ctypes, os, subprocess
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import Out
from vt.util import check as ck, eq
from checks import p29_lgadget2_snap as p29

SRC = os.path.join(paths.REPO, "examples", "millennium", "idl", "IdlGroupLib")
_lib = []


def build():
    d = paths.fresh_dir("idl")
    lib = os.path.join(d, "idlgrouplib.so")
    r = subprocess.run(["gcc", "-O2", "-w", "-fPIC", "-shared", "-o", lib, os.path.join(SRC, "groupstuff.c"), "-lm"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ck(r.returncode == 0, "groupstuff.c does not compile: " + r.stdout.decode(errors="replace")[-2000:])
    _lib[:] = [ctypes.CDLL(lib)]
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)                    # the library prints: results go through a pipe


check = Check("P46", quick_scale=4, shards=6, setup=build, rule=(
    "Millennium snapshots (2-16 cells per side, 1-12 files, empty cells) with group_tab and group_ids files (0-8 compact groups over 1-12 files, "
    "some across the edges of the box, files without groups), passed to the library as IDL does: all ten functions, in "
    "histories on shared tables. Oracle: the arrays written and brute-force periodic geometry. Non-trivial: at least two "
    "group files with groups, or a sphere with some but not all particles."))


class IdlString(ctypes.Structure):
    _fields_ = [("slen", ctypes.c_uint), ("stype", ctypes.c_uint), ("s", ctypes.c_char_p)]


def call(name, *args):
    keep, argv = [], (ctypes.c_void_p * len(args))()
    for i, a in enumerate(args):
        if isinstance(a, str):
            b = a.encode()
            s = IdlString(len(b), 0, b)
            keep += [b, s]
            argv[i] = ctypes.cast(ctypes.pointer(s), ctypes.c_void_p)
        else:
            if not isinstance(a, np.ndarray):
                a = np.array([a], dtype="f4" if isinstance(a, float) else "i4")
                keep.append(a)
            argv[i] = a.ctypes.data
    f = getattr(_lib[0], name)
    f.restype = ctypes.c_int
    return f(len(args), argv)


def guarded(dtype, n):
    a = np.zeros(n + 3, dtype=dtype)
    a[:] = -77
    return a


def taken(a, n, what):
    eq(a[n:], np.full(len(a) - n, -77), "memory after " + what)
    return a[:n]


@st.composite
def sims(draw):
    c = draw(p29.snaps())
    c["bits"] = draw(st.sampled_from([1, 2, 3, 3, 4]))
    c["endian"] = "<"
    c["high"] = 0
    c["nfiles"] = draw(st.sampled_from([1, 2, 4, 11, 12]))
    c["gfiles"] = draw(st.sampled_from([1, 2, 3, 11]))
    ng = draw(st.sampled_from([0, 1, 2, 4, 8]))
    c["groups"] = [[draw(st.sampled_from([1, 2, 5, 9])), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, c["gfiles"] - 1))] for _ in range(ng)]
    c["minlen"] = draw(st.sampled_from([0, 1, 5, 20]))
    c["bigids"] = draw(st.booleans())
    c["spheres"] = [[draw(st.floats(0, 1, exclude_max=True)) for _ in range(3)] + [draw(st.floats(0, 1))] for _ in range(draw(st.integers(0, 3)))]
    c["visit"] = draw(st.lists(st.integers(0, 7), max_size=4))
    c["lost"] = draw(st.sampled_from([None] * 5 + ["group", "snap"]))
    return c


def periodic(x, box):
    x = np.asarray(x, dtype="f8")
    return x - box * np.round(x / box)


def groups_of(c, s):
    """Per group: members (indexes into the particles of the snapshot), which lie close together"""
    pos, box = s[0].astype("f8"), c["box"]
    free = np.ones(len(pos), bool)
    out = []
    for n, k, f in c["groups"]:
        idx = np.nonzero(free)[0]
        if len(idx) == 0:
            break
        centre = pos[idx[k % len(idx)]]
        dist = np.abs(periodic(pos[idx] - centre, box)).max(axis=1)
        near = idx[np.argsort(dist, kind="stable")]
        near = near[np.sort(dist, kind="stable") < 0.2 * box][:n]
        rng = np.random.default_rng(k)
        near = near[rng.permutation(len(near))]
        free[near] = False
        out.append((near, f))
    return out


def write_groups(c, d, s, ids):
    """Returns [(file, number within the file, members)], counts below the minimum length and total of Nids"""
    gr = groups_of(c, s)
    key = s[4].astype("u8")
    rng = np.random.default_rng(c["seed"] + 9)
    info, counts, nids = [], np.zeros(c["minlen"]), 0
    for f in range(c["gfiles"]):
        mine = [m for m, k in gr if k == f]
        ln = np.array([len(m) for m in mine], dtype="i4")
        cnt = rng.integers(0, 10 ** 9, c["minlen"]).astype("i4")
        counts += cnt
        head = [np.int32(len(mine)), np.int32(ln.sum()), np.int32(len(gr)), np.int32(c["gfiles"])]
        nids += int(ln.sum())
        o = Out("<")
        for v in head + [ln, np.cumsum(ln, dtype="i4") - ln, np.int32(c["minlen"]), cnt]:
            o.put(v)
        o.save(os.path.join(d, "group_tab_007.%d" % f))
        o = Out("<")
        for v in head + [(key[m] << np.uint64(34)) + ids[m] for m in mine]:
            o.put(v)
        o.save(os.path.join(d, "group_ids_007.%d" % f))
        info += [(f, i, m) for i, m in enumerate(mine)]
    return info, counts, nids


def same_points(got, want, tol, what):
    """Equal as sets of points"""
    ck(len(got) == len(want), "%s: %d points, expected %d" % (what, len(got), len(want)))
    left = list(range(len(want)))
    for g in got:
        dist = [np.abs(g - want[i]).max() for i in left]
        k = int(np.argmin(dist)) if dist else 0
        ck(dist and dist[k] <= tol, "%s: %r is not among the expected points, nearest %r" % (what, g.tolist(), want[left[k]].tolist() if dist else None))
        left.pop(k)


@check.sub(sims(), 600, 25000)
def library(c):
    top = paths.fresh_dir()
    try:
        s = p29.make(c, top)
        pos, vel, ids, cell, key, nf, files = s
        d = os.path.join(top, "snapdir_007")
        box, base = c["box"], 1 << c["bits"]
        n, ncell = len(pos), base ** 3
        if c["bigids"]:
            ids = ids + np.uint64(2 ** 33)
            for i, w in enumerate(files):
                fn = os.path.join(d, "snap_test_007.%d" % i)
                old = w["PartType1/ParticleIDs"]
                at = 264 + 2 * (12 * len(old) + 8) + 4
                with open(fn, "r+b") as f:
                    f.seek(at)
                    f.write((old + np.uint64(2 ** 33)).astype("<u8").tobytes())
        info, counts, nids = write_groups(c, d, s, ids)
        total = len(info)
        # the group catalogue
        eq(call("get_total_number_of_groups", d, 7), total, "total number of groups")
        eq(call("get_minimum_group_len", d, 7), c["minlen"], "minimum length")
        below, nid = guarded("f8", c["minlen"]), guarded("f8", 1)
        eq(call("get_groupcount_below_minimum_len", d, 7, below, nid), c["minlen"], "minimum length")
        eq(taken(below, c["minlen"], "counts"), counts, "groups below the minimum length")
        eq(taken(nid, 1, "total"), [float(nids)], "number of IDs")
        gl, gf, gn = (guarded("i4", total) for _ in range(3))
        eq(call("get_group_catalogue", d, 7, gl, gf, gn), total, "number of groups")
        gl, gf, gn = (taken(x, total, "catalogue") for x in (gl, gf, gn))
        ck(np.all(np.diff(gl) <= 0), "groups are not in order of descending length: %r" % gl)
        where = {(f, i): m for f, i, m in info}
        ck(sorted(zip(gf.tolist(), gn.tolist())) == sorted(where), "catalogue: files %r, numbers %r" % (gf, gn))
        eq(gl, [len(where[k]) for k in zip(gf.tolist(), gn.tolist())], "lengths of groups")
        # the hash table
        nfiles = guarded("i4", 1)
        eq(call("get_hash_table_size", d, 7, "snap_test", nfiles), ncell, "size of the hash table")
        eq(taken(nfiles, 1, "number of files"), [nf], "number of files")
        ht, ft, last, nin = guarded("i4", ncell), guarded("i4", ncell), guarded("i4", nf), guarded("i4", nf)
        eq(call("get_hash_table", d, 7, "snap_test", ht, ft, last, nin), 0, "result")
        first = np.array([int(f["first_hash_cell"]) for f in files])
        eq(taken(ht, ncell, "hash table"), np.concatenate([f["blockid"] for f in files]), "hash table")
        wantft = np.repeat(np.arange(nf), [len(f["blockid"]) for f in files])
        eq(taken(ft, ncell, "file table"), wantft, "file table")
        eq(taken(last, nf, "last cells"), [int(f["last_hash_cell"]) for f in files], "last cells")
        eq(taken(nin, nf, "particles in files"), [len(f["PartType1/ParticleIDs"]) for f in files], "particles in files")
        nproc = [1, 2, 3, ncell, 8][c["seed"] % 5]
        tab = guarded("i4", nproc)
        call("get_particles_in_cubes", d, 7, "snap_test", ht, ft, ncell, last, nin, nproc, tab)
        k = ncell // nproc
        eq(taken(tab, nproc, "counts"), [int(((key >= i * k) & (key < (i + 1) * k)).sum()) for i in range(nproc)], "particles per cube")
        # particles of groups
        tol = 3e-6 * box
        for v in c["visit"]:
            if total == 0:
                break
            j = v % total
            m = where[(int(gf[j]), int(gn[j]))]
            out = guarded("f4", 3 * len(m))
            cen = [guarded("f4", 1) for _ in range(3)]
            eq(call("get_group_coordinates", d, 7, "snap_test", ht, ft, ncell, last, nin, int(gn[j]), int(gf[j]), int(gl[j]), out, *cen), 0, "result")
            p = pos[m].astype("f8")
            rel = periodic(p - p[0], box)
            mean = rel.mean(axis=0)
            got = np.array([taken(x, 1, "centre")[0] for x in cen], "f8")
            ck(np.all(np.abs(periodic(got - (p[0] + mean), box)) <= tol), "centre %r, expected %r" % (got, p[0] + mean))
            ck(np.all((got >= 0) & (got <= box)), "centre outside the box: %r" % got)
            same_points(taken(out, 3 * len(m), "coordinates").reshape(-1, 3).astype("f8"), rel - mean, 2 * tol, "particles of the group")
            eq(ft[:ncell], wantft, "file table afterwards")
        # spheres
        some = False
        for x, y, z, r in c["spheres"]:
            cells = base // 2 - 1 if base > 2 else 0
            if cells < 1:
                break
            rad = np.float32(r * cells * box / base * 0.999)
            cen = [np.float32(min(q * box, box * 0.9999)) for q in (x, y, z)]
            args = ["snap_test", ht, ft, ncell, last, nin] + [float(q) for q in cen] + [float(rad)]
            cnt = call("get_spherical_region_count", d, 7, *args)
            ck(0 <= cnt <= n, "count %d" % cnt)
            out = guarded("f4", 3 * cnt)
            eq(call("get_spherical_region_coordinates", d, 7, *args, out), 0, "result")
            got = taken(out, 3 * cnt, "coordinates").reshape(-1, 3).astype("f8")
            rel = periodic(pos.astype("f8") - np.array(cen, "f8"), box)
            dist = np.sqrt((rel ** 2).sum(axis=1))
            inside = dist <= rad * (1 - 1e-5)
            # every particle of the sphere once, and others at most once; half a box away either sign will do
            used = np.zeros(n, int)
            for g in got:
                e = np.abs(periodic(g - rel, box)).max(axis=1)
                e[used > 0] = np.inf
                q = int(np.argmin(e))
                ck(e[q] <= tol, "%r is not a particle of the snapshot (or was returned before)" % g.tolist())
                ck(np.all(np.abs(g) <= 0.5 * box + tol), "%r is not the nearest image" % g.tolist())
                used[q] += 1
            ck(np.all(used[inside] == 1), "%d particles in the sphere were not returned" % int((used[inside] == 0).sum()))
            some |= 0 < inside.sum() < n
            event("sphere")
        if c["lost"]:
            fn = os.path.join(d, "group_tab_007.%d" % (c["seed"] % c["gfiles"]) if c["lost"] == "group" else "snap_test_007.%d" % (c["seed"] % nf))
            os.remove(fn)
            if c["lost"] == "group":
                eq(call("get_group_catalogue", d, 7, guarded("i4", total), guarded("i4", total), guarded("i4", total)), -1, "result without " + fn)
            else:
                eq(call("get_hash_table", d, 7, "snap_test", ht, ft, last, nin), -1, "result without " + fn)
        return bool(some or len({f for f, _, _ in info}) > 1)
    finally:
        paths.drop(top)
