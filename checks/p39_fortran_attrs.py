"""P39: attributes written and read through the Fortran HDF5 wrapper."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, fortran as ft
from vt.util import check as ck, eq
from checks.p38_fortran_data import values, raw, unraw, strip, dtype_of

check = Check("P39", quick_scale=2.5, shards=6, rule=(
    "Histories of attribute writes (all five types, 0-7 dimensions, contiguous arrays and array sections, with and without overwrite), reads and "
    "queries of dimensions, type and names, on the root group, nested groups and datasets of one or two files which are closed and reopened, executed by "
    "a generated Fortran program linked with the wrapper; optionally one misuse at the end. Oracle: numpy arrays as model, the files read with h5py, "
    "and an error stop which loses nothing for misuse. Non-trivial: an attribute was overwritten, or has at least two dimensions, or is on the root group."),
    setup=ft.build)

PARENTS = ["", "G", "/G/H", "x", "G/y", "K/L/M"]
NAMES = ["a", "b", "Attribute name", "c.d"]


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append({"op": draw(st.sampled_from(["write", "write", "write", "over", "over", "read", "read", "dims", "type", "list", "reopen"])),
                    "file": draw(st.sampled_from([0, 0, 0, 1])), "parent": draw(st.integers(0, len(PARENTS) - 1)),
                    "name": draw(st.integers(0, len(NAMES) - 1)), "type": draw(st.integers(0, 4)),
                    "rank": draw(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7])), "seed": draw(st.integers(0, 10 ** 6)),
                    "size": draw(st.sampled_from([1, 2, 3, 3])), "stride": draw(st.integers(0, 3)) == 0,
                    "over": draw(st.sampled_from([None, False]))})
    return {"ops": ops, "end": draw(st.sampled_from(["ok", "ok", "ok", "exists", "noparent", "missing", "noslash", "readonly", "class"])), "endop": draw(st.integers(0, 1000))}


def h5name(parent, name):
    return (parent.strip("/"), name)


class World:
    def __init__(self, d):
        self.d, self.s, self.files, self.open, self.expect, self.nontriv = d, ft.Script(), {}, {}, [], False

    def add(self, *a, verify=None, **k):
        self.s.add(*a, **k)
        self.expect.append(verify)

    def need(self, f):
        if f not in self.files:
            self.files[f], self.open[f] = {}, True
            self.add(2, f, "f%d.hdf5" % f)
            self.add(8, f, "/K/L/M")
            one = np.arange(3, dtype="f4").tobytes()
            for n in ("x", "G/y"):
                self.add(4, f, n, type=2, rank=1, dims=[3], data=one)
            self.add(8, f, "G/H")
        elif not self.open[f]:
            self.add(1, f, "f%d.hdf5" % f, flag=(-1, 0)[len(self.expect) % 2])
            self.open[f] = True
        return self.files[f]

    def close(self, f):
        if self.open.get(f):
            self.add(3, f)
            self.open[f] = False


def write(w, o):
    rng = np.random.default_rng(o["seed"])
    f = w.need(o["file"])
    parent, name = PARENTS[o["parent"]], NAMES[o["name"]]
    key = h5name(parent, name)
    over = True if o["op"] == "over" or key in f else o["over"]
    t, slen = o["type"], int(rng.integers(1, 9))
    shape = [int(rng.integers(1, o["size"] + 2 if o["rank"] < 5 else 3)) for _ in range(o["rank"])]
    a = values(rng, t, slen, shape)
    w.add(6, o["file"], parent + "/" + name, type=t, rank=len(shape), dims=shape, slen=slen, stride=o["stride"] and len(shape) > 0, data=raw(a), overwrite=over)
    w.nontriv |= key in f or len(shape) > 1 or parent == ""
    f[key] = (t, slen, a, parent)


def pick(w, o):
    f = w.need(o["file"])
    if not f:
        return None
    key = sorted(f)[o["seed"] % len(f)]
    t, slen, a, parent = f[key]
    return key[0] + "/" + key[1] if o["stride"] else parent + "/" + key[1], t, slen, a


def read(w, o):
    got = pick(w, o)
    if not got:
        return
    rng = np.random.default_rng(o["seed"])
    path, t, slen, a = got
    shape = list(a.shape)
    n = slen + int(rng.integers(0, 3)) if t == 4 else 1
    if len(shape) == 1:
        shape[0] += int(rng.integers(0, 3))
    fill = values(rng, t, n, shape)
    want = fill.copy(order="F")
    want[tuple(slice(0, s) for s in a.shape)] = a

    def verify(b):
        eq(strip(unraw(b, t, n, shape)), strip(want), "attribute %s read into array of shape %r" % (path, shape))
    w.add(7, o["file"], path, type=t, rank=len(shape), dims=shape, slen=n, stride=o["stride"] and len(shape) > 0, data=raw(fill),
          reply=int(np.prod(shape, dtype=int)) * fill.dtype.itemsize, verify=verify)


def query(w, o):
    got = pick(w, o)
    if not got:
        return
    path, t, slen, a = got
    if o["op"] == "dims":
        def verify(b):
            x = np.frombuffer(b, dtype="i4")
            ck(x[0] == a.ndim and tuple(x[1:1 + a.ndim]) == a.shape, "dimensions %r of attribute %s, expected %r" % (list(x), path, a.shape))
        w.add(9, o["file"], path, reply=36, verify=verify)
    else:
        def verify(b):
            name, size = b[:32].decode().strip(), int(np.frombuffer(b[32:], dtype="i4")[0])
            # the documentation calls it STRING and the code CHARACTER
            ck(name in (("INTEGER",), ("INTEGER",), ("REAL",), ("REAL",), ("STRING", "CHARACTER"))[t], "type of attribute %s is %r" % (path, name))
            ck(size == dtype_of(t, slen).itemsize, "size of attribute %s is %d" % (path, size))
        w.add(10, o["file"], path, reply=36, verify=verify)


def listing(w, o):
    f = w.need(o["file"])
    parent = PARENTS[o["parent"]]
    want = sorted(k[1] for k in f if k[0] == parent.strip("/"))
    withnames = o["seed"] % 3 != 0
    n = len(want) + o["seed"] % 2 + 1 if withnames else 0

    def verify(b):
        m = int(np.frombuffer(b[:4], dtype="i4")[0])
        ck(m == len(want), "%d attributes of %r, expected %d" % (m, parent, len(want)))
        if withnames:
            names = [b[4 + 64 * i:68 + 64 * i].decode().rstrip() for i in range(n)]
            ck(sorted(names[:m]) == want and names[m:] == ["?"] * (n - m), "names of attributes of %r: %r, expected %r" % (parent, names, want))
    w.add(13, o["file"], parent or "/", flag=n, reply=4 + 64 * n, verify=verify)


def misuse(w, c):
    kind, n = c["end"], c["endop"]
    pick = np.random.default_rng(n)             # independent choices
    f = int(pick.integers(2))
    at = w.need(f)
    if not at and kind in ("exists", "class"):
        write(w, {"op": "over", "file": f, "parent": n % len(PARENTS), "name": 0, "type": n % 5, "rank": n % 3, "seed": n, "size": 2,
                  "stride": False, "over": True})
    one = np.zeros(1, dtype="i4").tobytes()
    keys = sorted(at)
    key = keys[pick.integers(len(keys))] if keys else None
    path = key[0] + "/" + key[1] if key else None
    if kind == "exists" and key:
        w.s.add(6, f, path, type=0, rank=1, dims=[1], data=one, overwrite=[None, False][pick.integers(2)])
        return True
    if kind == "noparent":
        w.s.add(6 + int(pick.integers(2)), f, "No/such/parent", type=0, rank=1, dims=[1], data=one)
        return True
    if kind == "missing":
        w.s.add(7, f, PARENTS[pick.integers(len(PARENTS))] + "/missing", type=0, rank=1, dims=[1], data=one)
        return True
    if kind == "noslash":
        w.s.add(6 + int(pick.integers(2)), f, "attr", type=0, rank=1, dims=[1], data=one)
        return True
    if kind == "class" and key:
        t, slen, a, parent = at[key]
        u = 0 if t == 4 else 4
        w.s.add(7, f, path, type=u, rank=a.ndim, dims=a.shape, slen=8, data=raw(values(np.random.default_rng(n), u, 8, a.shape)))
        return True
    if kind == "readonly":
        w.close(f)
        w.add(1, f, "f%d.hdf5" % f, flag=1)
        w.s.add(6, f, path if key and pick.integers(3) else "x/new", type=0, rank=1, dims=[1], data=one, overwrite=True)
        return True
    return False


@check.sub(histories(), 700, 30000)
def history(c):
    d = paths.fresh_dir()
    try:
        w = World(d)
        for o in c["ops"]:
            if o["op"] in ("write", "over"):
                write(w, o)
            elif o["op"] == "read":
                read(w, o)
            elif o["op"] in ("dims", "type"):
                query(w, o)
            elif o["op"] == "list":
                listing(w, o)
            else:
                w.close(o["file"])
        bad = c["end"] != "ok" and misuse(w, c)
        if not bad:
            for f in w.files:
                w.close(f)
        r = w.s.run(ft.build(), d)
        for v, b in zip(w.expect, r.replies):
            if v is not None:
                v(b)
        if bad:
            event("misuse: " + c["end"])
            ck(r.aborted and len(r.replies) == r.n - 1, "expected the last command (%s) to stop with an error; %s" % (c["end"], r.what()))
        else:
            ck(r.complete, r.what())
        for n, f in w.files.items():
            with h5py.File(os.path.join(d, "f%d.hdf5" % n), "r") as h:
                found = [("", k) for k in h.attrs]
                h.visititems(lambda name, obj: found.extend((name, k) for k in obj.attrs))
                ck(sorted(found) == sorted(f), "attributes in file %r, expected %r" % (sorted(found), sorted(f)))
                for (parent, name), (t, slen, a, _) in f.items():
                    at = h[parent or "/"].attrs.get_id(name)
                    ck(at.shape == a.shape[::-1], "attribute %s/%s has shape %r in the file, expected %r" % (parent, name, at.shape, a.shape[::-1]))
                    ck(at.dtype.kind == a.dtype.kind and at.dtype.itemsize == a.dtype.itemsize, "attribute %s/%s has type %s, expected %s" % (parent, name, at.dtype, a.dtype))
                    x = np.empty(at.shape, dtype=at.dtype)
                    at.read(x)
                    eq(strip(np.asarray(x).T), strip(a), "attribute %s/%s in the file" % (parent, name))
        return w.nontriv
    finally:
        paths.drop(d)
