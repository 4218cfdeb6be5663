"""P38: datasets written and read through the Fortran HDF5 wrapper."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, fortran as ft
from vt.util import check as ck, eq

check = Check("P38", quick_scale=2.5, shards=6, rule=(
    "Histories of whole and partial writes (creation with offset, initial size, chunk size, compression, extension, overwriting) and reads "
    "(whole, hyperslab, larger or differently shaped arrays, array sections) of all five types with 0-7 dimensions of size 0-5, in "
    "1-2 files which are closed and reopened, executed by a generated Fortran program linked with the wrapper; optionally one misuse at the end. "
    "Oracle: numpy arrays as model, the files read with h5py, and an error stop that loses nothing for misuse. Non-trivial: a partial "
    "write or read of a dataset with at least two dimensions, or an extension, or an overwrite."),
    setup=ft.build)

PATHS = ["x", "G/x", "G/H/y", "/G/z", "K/L/M/w", "p"]


@st.composite
def histories(draw):
    ops = []
    i8 = st.integers(0, 10 ** 6)
    for _ in range(draw(st.integers(1, 9))):
        op = draw(st.sampled_from(["new", "new", "new", "part", "part", "part", "over", "read", "read", "read", "readpart", "readpart", "readpart",
                                   "reopen", "info", "readonly"]))
        ops.append({"op": op, "path": draw(st.integers(0, len(PATHS) - 1)), "file": draw(st.sampled_from([0, 0, 0, 1])),
                    "type": draw(st.integers(0, 4)), "rank": draw(st.sampled_from([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7])),
                    "seed": draw(i8), "size": draw(st.sampled_from([1, 2, 2, 3, 3, 3, 0])), "stride": draw(st.integers(0, 3)) == 0,
                    "gzip": draw(st.sampled_from([None, None, 0, 1, 6, 9, 11, 16])), "ext": draw(st.sampled_from([None, True, True, False])),
                    "how": draw(st.sampled_from(["plain", "plain", "offset", "init", "initonly", "bigger"])),
                    "chunk": draw(st.sampled_from([None, None, 1, 2, 100])), "over": draw(st.sampled_from([None, None, False])),
                    "shape": draw(st.sampled_from(["same", "same", "same", "bigger", "squeeze", "insert"]))})
    return {"ops": ops, "end": draw(st.sampled_from(["ok", "ok", "ok", "missing", "type", "nostart", "noext", "readonly", "small", "nofile", "outside", "rank"])),
            "endop": draw(st.integers(0, 1000))}


class DSet:
    def __init__(self, t, slen, dims, ext):
        self.t, self.slen, self.ext = t, slen, ext
        self.data = np.zeros(dims, dtype=dtype_of(t, slen), order="F")
        self.known = np.zeros(dims, dtype=bool)

    def extend(self, dims):
        if tuple(dims) != self.data.shape:
            old = self.data, self.known
            self.data = np.zeros(dims, dtype=self.data.dtype, order="F")
            self.known = np.zeros(dims, dtype=bool)
            if old[0].size:
                s = tuple(slice(0, n) for n in old[0].shape)
                self.data[s], self.known[s] = old


def dtype_of(t, slen):
    return np.dtype("S%d" % slen if t == 4 else ft.NP[ft.TYPES[t]])


def values(rng, t, slen, dims):
    n = int(np.prod(dims, dtype=int))
    if t == 4:
        letters = np.frombuffer(b"abcdefghijklmnopqrstuvwxyzABCD  /", dtype="S1")
        return np.frombuffer(rng.choice(letters, n * slen).tobytes(), dtype="S%d" % slen, count=n).reshape(dims, order="F")
    d = dtype_of(t, slen)
    if d.kind == "i":
        a = rng.integers(np.iinfo(d).min, np.iinfo(d).max, n, dtype=d, endpoint=True)
    else:
        a = rng.normal(size=n).astype(d)
    return a.reshape(dims, order="F")


def raw(a, slen=None):
    """Bytes of an array in Fortran order; strings padded with blanks."""
    if a.dtype.kind == "S":
        return b"".join(x.ljust(a.dtype.itemsize) for x in a.ravel(order="F").tolist())
    return np.asfortranarray(a).tobytes(order="F")


def unraw(b, t, slen, dims):
    d = dtype_of(t, slen)
    n = int(np.prod(dims, dtype=int))
    ck(len(b) == n * d.itemsize, "length of reply")
    return np.frombuffer(b, dtype=d, count=n).reshape(dims, order="F")


def strip(a):
    """Trailing blanks and nulls do not matter in strings."""
    a = np.asarray(a)
    if a.dtype.kind == "S" and a.size:
        return np.asarray([x.rstrip(b" \0") for x in a.ravel(order="F").tolist()], dtype=object).reshape(a.shape, order="F")
    return a


def array_shape(rng, how, count, nmax=7):
    """Shape of an array in memory which can hold count elements, and the part of it they occupy."""
    count = list(count)
    if how == "bigger" and count:
        shape = [c + int(rng.integers(0, 3)) for c in count]
        return shape, tuple(slice(0, c) for c in count)
    if how == "squeeze":
        keep = [i for i, c in enumerate(count) if c != 1 or rng.integers(0, 3) == 0]
        return [count[i] for i in keep], None
    if how == "insert" and len(count) < nmax:
        shape = list(count)
        for _ in range(int(rng.integers(1, nmax - len(count) + 1))):
            shape.insert(int(rng.integers(0, len(shape) + 1)), 1)
        return shape, None
    return count, None


class World:
    def __init__(self, d):
        self.d = d
        self.s = ft.Script()
        self.files = {}
        self.open = {}
        self.expect = []
        self.nontriv = False

    def path(self, i):
        return PATHS[i]

    def need(self, f, write=True):
        if f not in self.files:
            self.s.add(2, f, "f%d.hdf5" % f)
            self.expect.append(None)
            self.files[f], self.open[f] = {}, "rw"
        elif self.open.get(f) is None or (write and self.open[f] == "ro"):
            if self.open.get(f) is not None:
                self.close(f)
            self.s.add(1, f, "f%d.hdf5" % f, flag=-1 if len(self.expect) % 2 else 0)
            self.expect.append(None)
            self.open[f] = "rw"
        return self.files[f]

    def close(self, f):
        if self.open.get(f) is not None:
            self.s.add(3, f)
            self.expect.append(None)
            self.open[f] = None

    def write(self, o):
        rng = np.random.default_rng(o["seed"])
        f = self.need(o["file"])
        p = self.path(o["path"])
        key = p.strip("/")
        old = f.get(key)
        kw = {}
        if old is None or o["op"] == "over":
            t, slen, rank = o["type"], int(rng.integers(1, 9)), o["rank"]
            count = [int(rng.integers(1 if o["size"] else 0, o["size"] + 2 if rank < 5 else 3)) for _ in range(rank)]
            start, init = [1] * rank, None
            how = o["how"] if rank else "plain"
            if how in ("offset", "init", "bigger"):
                start = [int(rng.integers(1, 4)) for _ in count]
            dims = [s + c - 1 for s, c in zip(start, count)]
            if how in ("init", "initonly"):
                dims = [n + int(rng.integers(0, 3)) for n in dims]
                kw["initial_size"] = dims
            if how in ("offset", "init", "bigger"):
                kw["start"], kw["count"] = start, count
            shape, part = array_shape(rng, "bigger" if how == "bigger" else "same", count)
            if o["gzip"] is not None and rank:
                kw["gzip"] = o["gzip"]
            # only arrays can be extensible
            ext = bool(o["ext"]) and rank > 0
            if o["ext"] is not None and rank:
                kw["extensible"] = o["ext"]
            if o["chunk"] is not None and rank:
                kw["chunk_size"] = [o["chunk"]] * rank
            if o["op"] == "over":
                kw["overwrite"] = True
                self.nontriv |= old is not None
            elif o["over"] is not None:
                kw["overwrite"] = o["over"]
            f[key] = ds = DSet(t, slen, dims, ext)
        else:
            ds = old
            t = ds.t
            slen = int(rng.integers(1, ds.slen + 1)) if t == 4 else 1
            rank = ds.data.ndim
            if rank == 0:
                return
            if ds.ext and rng.integers(0, 2):
                start = [int(rng.integers(1, n + 2)) for n in ds.data.shape]
                count = [int(rng.integers(1, 4 if rank < 5 else 3)) for _ in range(rank)]
                if int(np.prod([max(n, s + c - 1) for n, s, c in zip(ds.data.shape, start, count)])) > 20000:
                    return
            else:
                if 0 in ds.data.shape:
                    return
                start = [int(rng.integers(1, n + 1)) for n in ds.data.shape]
                count = [int(rng.integers(1, n - s + 2)) for n, s in zip(ds.data.shape, start)]
            pad = int(rng.integers(0, 2)) if rank < 7 else 0
            kw["start"], kw["count"] = start + [99] * pad, count + [99] * pad
            if o["ext"] is not None:
                kw["extensible"] = o["ext"]
            if o["over"] is not None:
                kw["overwrite"] = o["over"]
            shape, part = array_shape(rng, o["shape"], count)
            self.nontriv |= any(s + c - 1 > n for n, s, c in zip(ds.data.shape, start, count))
            ds.extend([max(n, s + c - 1) for n, s, c in zip(ds.data.shape, start, count)])
            self.nontriv |= rank > 1
        a = values(rng, t, slen, shape)
        self.s.add(4, o["file"], p, type=t, rank=len(shape), dims=shape, slen=slen, stride=o["stride"] and len(shape) > 0, data=raw(a), **kw)
        self.expect.append(None)
        sel = tuple(slice(s - 1, s - 1 + c) for s, c in zip(start, count))
        v = a if part is None else a[part]
        ds.data[sel] = v.reshape(count, order="F") if count else v
        ds.known[sel] = True

    def read(self, o, partial):
        rng = np.random.default_rng(o["seed"])
        f = self.need(o["file"], write=False)
        if not f:
            return
        key = sorted(f)[o["path"] % len(f)]
        p = [q for q in PATHS if q.strip("/") == key][0]
        ds = f[key]
        rank = ds.data.ndim
        kw = {}
        start, count = [1] * rank, list(ds.data.shape)
        if partial and rank:
            if 0 in ds.data.shape:
                return
            start = [int(rng.integers(1, n + 1)) for n in ds.data.shape]
            count = [int(rng.integers(1, n - s + 2)) for n, s in zip(ds.data.shape, start)]
            pad = int(rng.integers(0, 2)) if rank < 7 else 0
            kw["start"], kw["count"] = start + [99] * pad, count + [99] * pad
            self.nontriv |= rank > 1
        shape, part = array_shape(rng, o["shape"], count)
        slen = ds.slen + int(rng.integers(0, 3)) if ds.t == 4 else 1
        fill = values(rng, ds.t, slen, shape)
        want, known = fill.copy(order="F"), np.ones(shape, dtype=bool)
        sel = tuple(slice(s - 1, s - 1 + c) for s, c in zip(start, count))
        sub = tuple(shape) if part is None else None
        got, gk = ds.data[sel], ds.known[sel]
        if part is None:
            want = got.astype(fill.dtype).reshape(sub, order="F")
            known = gk.reshape(sub, order="F")
        else:
            want[part], known[part] = got, gk
        self.s.add(5, o["file"], p, type=ds.t, rank=len(shape), dims=shape, slen=slen, stride=o["stride"] and len(shape) > 0, data=raw(fill),
                   reply=int(np.prod(shape, dtype=int)) * fill.dtype.itemsize, **kw)

        def verify(b):
            a = unraw(b, ds.t, slen, shape)
            x, y = strip(a), strip(want)
            k = np.asarray(known)
            eq(np.asarray(x)[k], np.asarray(y)[k], "data read from %s (start %r count %r into %r)" % (p, kw.get("start"), kw.get("count"), shape))
        self.expect.append(verify)

    def info(self, o):
        f = self.need(o["file"], write=False)
        if not f:
            return
        key = sorted(f)[o["path"] % len(f)]
        ds = f[key]
        dims = list(ds.data.shape)
        self.s.add(9, o["file"], key, reply=36)

        def verify(b):
            a = np.frombuffer(b, dtype="i4")
            ck(a[0] == len(dims) and list(a[1:1 + len(dims)]) == dims and all(x == -7 for x in a[1 + len(dims):]),
               "dimensions %r of %s, expected %r" % (list(a), key, dims))
        self.expect.append(verify)

    def check_files(self):
        for n, f in self.files.items():
            with h5py.File(os.path.join(self.d, "f%d.hdf5" % n), "r") as h:
                found = []
                h.visititems(lambda name, obj: found.append(name) if isinstance(obj, h5py.Dataset) else None)
                ck(sorted(found) == sorted(f), "datasets in file %r, expected %r" % (sorted(found), sorted(f)))
                for key, ds in f.items():
                    x = h[key]
                    ck(x.shape == ds.data.shape[::-1], "%s has shape %r in the file, expected %r" % (key, x.shape, ds.data.shape[::-1]))
                    ck(x.dtype.kind == ds.data.dtype.kind and x.dtype.itemsize == ds.data.dtype.itemsize, "%s has type %s, expected %s" % (key, x.dtype, ds.data.dtype))
                    if ds.data.ndim:
                        # the dataset can be extended exactly if this was asked for
                        ck((x.maxshape == (None,) * ds.data.ndim) == ds.ext, "%s: maximum shape %r, extensible %r" % (key, x.maxshape, ds.ext))
                    a = np.asarray(x[()]).T
                    eq(strip(a)[ds.known], strip(ds.data)[ds.known], "contents of %s in the file" % key)


def misuse(w, c):
    """Add a last command which must stop the program with an error."""
    kind, n = c["end"], c["endop"]
    rng = np.random.default_rng(n)

    def pick(k):
        # an independent choice for every question asked
        return int(rng.integers(k))

    if kind == "nofile":
        w.s.add(1, 9, "does_not_exist.hdf5", flag=pick(3) - 1)
        return True
    if not w.files:
        return False
    f = sorted(w.files)[n % len(w.files)]
    ds = w.need(f)
    sets = sorted(k for k in ds if ds[k].data.ndim and ds[k].data.size > 1)
    one = np.zeros(1, dtype="i4").tobytes()
    if kind == "missing":
        w.s.add(5, f, "no/such/thing", type=0, rank=1, dims=[1], data=one)
        return True
    if not sets:
        return False
    key = sets[pick(len(sets))]
    d = ds[key]
    dims = list(d.data.shape)
    a = values(rng, d.t, d.slen, dims)
    if kind == "type":
        t = (d.t + 1 + pick(4)) % 5
        w.s.add(4 + pick(2), f, key, type=t, rank=len(dims), dims=dims, slen=d.slen, data=raw(values(rng, t, d.slen, dims)),
                start=[1] * len(dims), count=dims)
        return True
    if kind == "nostart":
        w.s.add(4, f, key, type=d.t, rank=len(dims), dims=dims, slen=d.slen, data=raw(a))
        return True
    if kind == "noext" and not d.ext:
        w.s.add(4, f, key, type=d.t, rank=len(dims), dims=dims, slen=d.slen, data=raw(a), start=[2] * len(dims), count=dims,
                extensible=[None, True, False][pick(3)])
        return True
    if kind == "outside":
        w.s.add(5, f, key, type=d.t, rank=len(dims), dims=dims, slen=d.slen, data=raw(a), start=[2] * len(dims), count=dims)
        return True
    if kind == "small":
        big = [i for i, x in enumerate(dims) if x > 1]
        i = big[pick(len(big))]
        less = [x - (j == i) for j, x in enumerate(dims)]
        b = values(rng, d.t, d.slen, less)
        if pick(2):
            w.s.add(5, f, key, type=d.t, rank=len(dims), dims=less, slen=d.slen, data=raw(b))
        else:
            w.s.add(4, f, key, type=d.t, rank=len(dims), dims=less, slen=d.slen, data=raw(b), start=[1] * len(dims), count=dims)
        return True
    if kind == "rank":
        # one more dimension which is not of size 1
        if len(dims) == 7:
            return False
        b = values(rng, d.t, d.slen, dims + [2])
        w.s.add(5, f, key, type=d.t, rank=len(dims) + 1, dims=dims + [2], slen=d.slen, data=raw(b))
        return True
    if kind == "readonly":
        w.close(f)
        w.s.add(1, f, "f%d.hdf5" % f, flag=1)
        w.expect.append(None)
        how = pick(4)
        if how == 0:
            w.s.add(8, f, "NewGroup")
        elif how == 1:
            w.s.add(6, f, "%s/attr" % key, type=0, rank=1, dims=[1], data=one)
        elif how == 2:
            w.s.add(4, f, "newdata", type=0, rank=1, dims=[1], data=one)
        else:
            w.s.add(4, f, key, type=d.t, rank=len(dims), dims=dims, slen=d.slen, data=raw(a), start=[1] * len(dims), count=dims)
        return True
    return False


@check.sub(histories(), 900, 30000)
def history(c):
    d = paths.fresh_dir()
    try:
        w = World(d)
        for o in c["ops"]:
            if o["op"] in ("new", "part", "over"):
                w.write(o)
            elif o["op"] in ("read", "readpart"):
                w.read(o, o["op"] == "readpart")
            elif o["op"] == "info":
                w.info(o)
            elif o["op"] in ("reopen", "readonly") and o["file"] in w.files:
                w.close(o["file"])
                if o["op"] == "readonly":
                    w.s.add(1, o["file"], "f%d.hdf5" % o["file"], flag=1)
                    w.expect.append(None)
                    w.open[o["file"]] = "ro"
        bad = c["end"] != "ok" and misuse(w, c)
        if not bad:
            for f in w.files:
                w.close(f)
        r = w.s.run(ft.build(), d)
        for v, b in zip(w.expect, r.replies):
            if v is not None:
                v(b)
        if bad:
            event("misuse: " + c["end"])
            ck(r.aborted and len(r.replies) == r.n - 1, "expected the last command (%s) to stop with an error; %s" % (c["end"], r.what()))
        else:
            ck(r.complete, r.what())
        w.check_files()
        return w.nontriv
    finally:
        paths.drop(d)
