"""P19: BinaryFile.write_hdf5 / write_binary / hash / all_bytes_used."""
import hashlib, os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.util import check as ck, eq, must_raise

check = Check("P19", quick_scale=5, shards=6, rule=(
    "Random nested layouts (datasets, groups, attributes of root, groups and datasets; scalars, zero-size and 1-3 d blocks; "
    "either byte order; native and explicit types; declared in any order; optional gaps) over random data, copied with write_hdf5 (all compression settings, into files or groups) and "
    "write_binary (any byte order), hashed with several algorithms. Oracle: contents compared item by item through h5py / "
    "numpy, hashlib of the raw file. Non-trivial: at least three blocks including a dataset and an attribute, in a sub-group."))

DT = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "S3", ">i4", ">f8", "<u2", "<f4", ">u8"]


@st.composite
def layouts(draw, gaps=False):
    ops, seen = [], set()
    for _ in range(draw(st.integers(1, 9))):
        kind = draw(st.sampled_from(["ds", "ds", "attr"]))
        path = draw(st.sampled_from(["", "", "G/", "G/H/", "K/"]))
        ds = [o[1] for o in ops if o[0] == "ds"]
        if kind == "ds":
            nm = path + draw(st.sampled_from(["a", "b", "c", "d"]))
        else:
            on = draw(st.sampled_from([path] + [p + "/" for p in ds if "/" not in p]))
            nm = on + draw(st.sampled_from(["p", "q", "r"]))
        if nm in seen:
            continue
        seen.add(nm)
        ops.append([kind, nm, draw(st.sampled_from(DT)), draw(st.lists(st.sampled_from([0, 1, 2, 3, 7]), max_size=3))
                    if kind == "ds" else draw(st.sampled_from([[], [], [3]]))])
        if gaps and draw(st.integers(0, 5)) == 0:
            ops.append(["skip", draw(st.integers(0, 5))])
    # attributes of a dataset can only be declared after it
    shuffle = draw(st.sampled_from([0, 1, 2, 3])) if all(len(o[1].rsplit("/", 1)) < 2 or o[1].rsplit("/", 1)[0] not in seen
                                                         for o in ops if o[0] == "attr") else 0
    if any(0 in o[3] for o in ops if o[0] != "skip"):
        shuffle = 0                     # whether an empty block uses its place is not specified
    return {"ops": ops, "endian": draw(st.sampled_from("<>=")), "seed": draw(st.integers(0, 999)), "shuffle": shuffle}


def blob_for(c, extra=0):
    rng = np.random.default_rng(c["seed"])
    out, vals = [], {}
    e = ">" if c["endian"] == ">" else "<"
    for o in c["ops"]:
        if o[0] == "skip":
            out.append(rng.integers(1, 256, o[1]).astype("u1").tobytes())
            continue
        t = np.dtype(o[2])
        if t.kind == "S":
            v = np.array([b"%03d" % x for x in rng.integers(0, 999, int(np.prod(o[3])))], dtype=t).reshape(o[3])
        elif t.kind == "f":
            v = rng.uniform(-100, 100, o[3])
            v = np.asarray(v).astype(t)
        else:
            info = np.iinfo(t)
            v = np.asarray(rng.integers(info.min, info.max, o[3], dtype=t.newbyteorder("="), endpoint=True)).astype(t)
        vals[o[1]] = v
        out.append(v.astype(t.newbyteorder(e)).tobytes())
    return b"".join(out) + b"\1" * extra, vals


def describe(f, c):
    """Declare the blocks, in the order in which they are in the file or in any other order."""
    ops, where, pos = [], [], 0
    for o in c["ops"]:
        if o[0] == "skip":
            if not c.get("shuffle"):
                ops.append(o)
            pos += o[1]
        else:
            if c.get("shuffle"):
                where.append((o, pos))
            else:
                ops.append(o)
            pos += np.dtype(o[2]).itemsize * int(np.prod(o[3], dtype=int))
    now = 0
    for k in np.random.default_rng(c["shuffle"]).permutation(len(where)) if c.get("shuffle") else []:
        o, at = where[k]
        ops += [["skip", at - now], o]
        now = at + np.dtype(o[2]).itemsize * int(np.prod(o[3], dtype=int))
    for o in ops:
        if o[0] == "ds":
            f.add_dataset(o[1], o[2], o[3])
        elif o[0] == "attr":
            f.add_attribute(o[1], o[2], o[3])
        else:
            f.skip_bytes(o[1])


def open_file(fn, c, endian=None, late=False):
    from virgo.util.read_binary import BinaryFile
    f = BinaryFile(fn)
    if late:
        describe(f, c)
    f.set_endian(endian or c["endian"])
    if not late:
        describe(f, c)
    return f


def attr_owner(nm):
    parts = nm.rsplit("/", 1)
    return ("", parts[0]) if len(parts) == 1 else (parts[0], parts[1])


@st.composite
def hdf5_cases(draw):
    c = draw(layouts(gaps=True))
    c["gzip"] = draw(st.sampled_from([0, 1, 6, 9, None]))
    c["into"] = draw(st.sampled_from(["file", "file", "group", "existing"]))
    return c


@check.sub(hdf5_cases(), 900, 20000)
def to_hdf5(c):
    d = paths.fresh_dir()
    try:
        blob, vals = blob_for(c)
        if not blob:
            return False
        fn, out = os.path.join(d, "in.dat"), os.path.join(d, "out.hdf5")
        with open(fn, "wb") as g:
            g.write(blob)
        f = open_file(fn, c, late=c["seed"] % 2 == 0)
        kw = {} if c["gzip"] is None else {"gzip": c["gzip"]}
        if c["into"] == "group":
            with h5py.File(out, "w") as h:
                h["Before"] = 1
                f.write_hdf5(h5group=h.create_group("Sub"), **kw)
        elif c["into"] == "existing":
            with h5py.File(out, "w") as h:
                h["Before"] = 1
            must_raise(OSError, f.write_hdf5, out, **kw)
            f.write_hdf5(out, mode="r+", **kw)
        else:
            f.write_hdf5(out, **kw)
        f.close()
        with h5py.File(out, "r") as h:
            if c["into"] != "file":
                ck(h["Before"][()] == 1, "existing contents")
            root = h["Sub"] if c["into"] == "group" else h
            nds, nat = set(), set()

            def visit(g, path):
                for k in g.attrs:
                    nat.add(path + k)
                for k in g:
                    if path + k == "Before":
                        continue
                    if isinstance(g[k], h5py.Dataset):
                        nds.add(path + k)
                        for a in g[k].attrs:
                            nat.add(path + k + "/" + a)
                    else:
                        visit(g[k], path + k + "/")
            visit(root, "")
            ck(nds == {o[1] for o in c["ops"] if o[0] == "ds"}, "datasets written: %r" % sorted(nds))
            ck(nat == {o[1] for o in c["ops"] if o[0] == "attr"}, "attributes written: %r" % sorted(nat))
            for o in c["ops"]:
                if o[0] == "ds":
                    got, want = root[o[1]][()], vals[o[1]]
                    ck(root[o[1]].dtype.newbyteorder("=") == want.dtype.newbyteorder("="), "%s: type %s" % (o[1], root[o[1]].dtype))
                    eq(got, want, "dataset " + o[1])
                elif o[0] == "attr":
                    own, a = attr_owner(o[1])
                    got = (root[own] if own else root).attrs[a]
                    eq(got, vals[o[1]], "attribute " + o[1])
        return len(vals) >= 3 and any("/" in k for k in vals)
    finally:
        paths.drop(d)


@st.composite
def binary_cases(draw):
    c = draw(layouts(gaps=True))
    c["out"] = draw(st.sampled_from([None, "<", ">", "="]))
    c["mode"] = draw(st.sampled_from([None, "wb"]))
    return c


@check.sub(binary_cases(), 900, 20000)
def to_binary(c):
    d = paths.fresh_dir()
    try:
        blob, vals = blob_for(c)
        if not blob:
            return False
        fn, out = os.path.join(d, "in.dat"), os.path.join(d, "out.dat")
        with open(fn, "wb") as g:
            g.write(blob)
        f = open_file(fn, c, late=c["seed"] % 2 == 0)
        kw = {} if c["mode"] is None else {"mode": c["mode"]}
        f.write_binary(out, endian=c["out"], **kw)
        if c["out"] is None:            # byte order of the types as declared
            with open(out, "rb") as g:
                copy = g.read()
            pos = 0
            for o in c["ops"]:
                if o[0] == "skip":
                    pos += o[1]
                    continue
                v = vals[o[1]].astype(o[2])
                ck(copy[pos:pos + v.nbytes] == v.tobytes(), "%s in a copy in the byte order of the declared types" % o[1])
                pos += v.nbytes
        f2 = open_file(out, c, endian=c["out"] or "=")
        for o in c["ops"]:
            if o[0] == "skip" or vals[o[1]].size == 0:
                continue                # nothing to copy
            if c["out"] is None and not np.dtype(o[2]).isnative:
                continue
            if o[0] == "ds":
                eq(f2[o[1]][...], vals[o[1]], "dataset %s in the copy" % o[1])
            elif o[0] == "attr":
                own, a = attr_owner(o[1])
                eq((f2[own] if own else f2).attrs[a], vals[o[1]], "attribute %s in the copy" % o[1])
        if not any(o[0] == "skip" for o in c["ops"]) and (c["out"] or "=").replace("=", "<") == c["endian"].replace("=", "<") \
                and (c["out"] or all(np.dtype(o[2]).isnative for o in c["ops"])):
            with open(out, "rb") as g:
                ck(g.read() == blob, "copy in the same byte order differs from the original")
        if c["mode"] is None:
            must_raise(OSError, f.write_binary, out)
        f.close()
        f2.close()
        return len(vals) >= 3 and any("/" in k for k in vals)
    finally:
        paths.drop(d)


@st.composite
def hash_cases(draw):
    c = draw(layouts(gaps=draw(st.booleans())))
    c["extra"] = draw(st.sampled_from([0, 0, 0, 1, 4]))
    c["alg"] = draw(st.sampled_from([None, "sha1", "md5", "sha256"]))
    c["flip"] = draw(st.integers(0, 10 ** 6))
    return c


@check.sub(hash_cases(), 900, 20000)
def hashing(c):
    d = paths.fresh_dir()
    try:
        c1, c2 = dict(c, endian="<"), dict(c, endian=">")
        b1, vals = blob_for(c1, c["extra"])
        b2, _ = blob_for(c2, c["extra"])
        if not b1:
            return False
        fns = [os.path.join(d, "%d.dat" % i) for i in range(3)]
        k = c["flip"] % len(b1)
        b3 = b1[:k] + bytes([b1[k] ^ 5]) + b1[k + 1:]
        for fn, b in zip(fns, (b1, b2, b3)):
            with open(fn, "wb") as g:
                g.write(b)
        fs = [open_file(fns[0], c1), open_file(fns[1], c2, late=True), open_file(fns[2], c1)]
        tiled = c["extra"] == 0 and not any(o[0] == "skip" and o[1] > 0 for o in c["ops"])
        kw = {} if c["alg"] is None else {"hash_type": c["alg"]}
        for f in fs:
            used = f.all_bytes_used()
            ck(bool(used) == tiled, "all_bytes_used() is %r, expected %r" % (used, tiled))
        if not tiled:
            must_raise(IOError, fs[0].hash, **kw)
            return True
        h = [f.hash(**kw) for f in fs]
        ck(h[0] == hashlib.new(c["alg"] or "sha1", b1).hexdigest(), "hash of a little endian file is not that of its bytes")
        ck(h[1] == h[0], "hash depends on byte order")
        ck(h[2] != h[0], "files with different contents have the same hash")
        return len(vals) >= 3 and any("/" in k for k in vals)
    finally:
        for f in locals().get("fs", []):
            f.close()
        paths.drop(d)


@st.composite
def overlaps(draw):
    n = draw(st.integers(1, 5))
    return [[draw(st.sampled_from([-4, -1, 0, 0, 0, 0, 2])), draw(st.integers(0, 5))] for _ in range(n)] + [
        [draw(st.sampled_from([0, 0, 0, 1, -1])), 0]]


@check.sub(overlaps(), 500, 10000)
def bytes_used_exactly(c):
    """all_bytes_used means: every byte belongs to exactly one block."""
    from virgo.util.read_binary import BinaryFile
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "x.dat")
        f = BinaryFile(fn)
        pos, blocks = 0, []
        for i, (jump, n) in enumerate(c[:-1]):
            if pos + jump < 0:
                jump = 0
            f.skip_bytes(jump)
            pos += jump
            f.add_dataset("d%d" % i, "u1", (n,))
            blocks.append((pos, n))
            pos += n
        size = max([o + n for o, n in blocks] + [0])
        size = max(0, size + c[-1][0])
        with open(fn, "wb") as g:
            g.write(b"x" * size)
        cover = np.zeros(size + 10, dtype=int)
        for o, n in blocks:
            cover[o:o + n] += 1
        want = bool(np.all(cover[:size] == 1) and np.all(cover[size:] == 0))
        if any(n == 0 for _, n in blocks):
            # an empty block may sit anywhere without covering bytes: only demand no false positive
            ck(want or not f.all_bytes_used(), "all_bytes_used() true although coverage is %r" % cover.tolist())
        else:
            ck(bool(f.all_bytes_used()) == want, "all_bytes_used() wrong for coverage %r" % cover.tolist())
        return len(blocks) >= 2
    finally:
        paths.drop(d)
