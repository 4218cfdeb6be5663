"""P40: groups, listings, foreign files and file handles of the Fortran HDF5 wrapper."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, fortran as ft
from vt.util import check as ck, eq
from checks.p38_fortran_data import values, raw, unraw, strip

check = Check("P40", quick_scale=2.5, shards=6, rule=(
    "Histories over up to 12 simultaneously open files (created, opened with or without readonly, the same file open twice, closed, handles reused) "
    "of group creation, listing of groups and datasets, type and dimension queries and reads; the files either start empty or were made by h5py "
    "with a generated tree of groups and datasets of any byte order, string padding, layout and type (including types the wrapper "
    "cannot read, which must stop with an error). Oracle: model of handles, tree and contents. Non-trivial: two files open at once, or a group path with "
    "at least three components, or a foreign file with at least three objects."),
    setup=ft.build)

GROUPS = ["A", "/A", "B/C", "/B/C/", "A/B/C/D", "G with space", "x/y", "a/b/c/d/e/f/g/h/i/j", "a/b/c/d/e/f/g/h/i/j/k/l/m"]
# numpy type, fortran type or None if the wrapper must refuse it, name, size
FOREIGN = [("<i4", 0, "INTEGER", 4), (">i4", 0, "INTEGER", 4), ("<i8", 1, "INTEGER", 8), (">i8", 1, "INTEGER", 8), ("<f4", 2, "REAL", 4), (">f4", 2, "REAL", 4),
           ("<f8", 3, "REAL", 8), (">f8", 3, "REAL", 8), ("S5", 4, "STRING", 5), ("S1", 4, "STRING", 1), ("space", 4, "STRING", 6),
           ("<i2", None, "INTEGER", 2), ("<i1", None, "INTEGER", 1), ("<f2", None, "REAL", 2), ("bool", None, "OTHER", 1), ("compound", None, "OTHER", 12)]


@st.composite
def histories(draw):
    ops = []
    nfile = draw(st.sampled_from([1, 2, 3, 12]))
    for _ in range(draw(st.integers(1, 16))):
        ops.append({"op": draw(st.sampled_from(["open", "open", "close", "close", "group", "group", "group", "list", "list", "dims", "type", "read", "read", "id", "write"])),
                    "h": draw(st.integers(0, nfile)), "file": draw(st.integers(0, nfile - 1)), "ro": draw(st.sampled_from([None, False, True])),
                    "i": draw(st.integers(0, 1000)), "path": draw(st.sampled_from(GROUPS))})
    foreign = []
    for _ in range(nfile):
        if draw(st.booleans()):
            foreign.append([{"name": draw(st.sampled_from(["d0", "d1", "A/d2", "B/C/d3", "d4", "Q/d5"])), "type": draw(st.integers(0, len(FOREIGN) - 1)),
                             "shape": draw(st.lists(st.integers(1, 3), max_size=3)), "seed": draw(st.integers(0, 1000)),
                             "chunk": draw(st.booleans())} for _ in range(draw(st.integers(0, 5)))])
        else:
            foreign.append(None)
    return {"ops": ops, "foreign": foreign, "end": draw(st.sampled_from(["ok", "ok", "ok", "refuse", "closed", "rogroup", "nogroup", "handle"])), "endop": draw(st.integers(0, 1000))}


def make_foreign(fn, items):
    tree = {"groups": set(), "sets": {}}
    with h5py.File(fn, "w") as h:
        for it in items:
            name, (dt, t, tname, size) = it["name"], FOREIGN[it["type"]]
            if name in tree["sets"]:
                continue
            rng = np.random.default_rng(it["seed"])
            shape = tuple(it["shape"])
            kw = {"chunks": True, "compression": "gzip"} if it["chunk"] and shape else {}
            if dt == "space":
                a = values(rng, 4, 6, shape[::-1]).T
                tid = h5py.h5t.C_S1.copy()
                tid.set_size(6)
                tid.set_strpad(h5py.h5t.STR_SPACEPAD)
                h.require_group(os.path.dirname("/" + name))
                sp = h5py.h5s.create_simple(shape) if shape else h5py.h5s.create(h5py.h5s.SCALAR)
                d = h5py.h5d.create(h.id, name.encode(), tid, sp)
                d.write(h5py.h5s.ALL, h5py.h5s.ALL, np.frombuffer(raw(a.T), dtype="S6").reshape(shape).copy(), tid)
            elif dt == "compound":
                a = None
                h.create_dataset(name, data=np.zeros(shape, dtype=[("a", "i4"), ("b", "f8")]), **kw)
            elif dt == "bool":
                a = None
                h.create_dataset(name, data=np.zeros(shape, dtype=bool), **kw)
            elif t is None:
                a = None
                h.create_dataset(name, data=np.ones(shape).astype(dt), **kw)
            else:
                a = values(rng, t, int(dt[1:]) if t == 4 else 1, shape[::-1]).T
                h.create_dataset(name, data=a.astype(dt), dtype=dt, **kw)
            tree["sets"][name] = {"a": a if a is None else np.asarray(a).T, "t": t, "type": tname, "size": size, "shape": shape[::-1]}
            p = os.path.dirname(name)
            while p:
                tree["groups"].add(p)
                p = os.path.dirname(p)
    return tree


class World:
    def __init__(self, d, c):
        self.d, self.s, self.expect, self.nontriv = d, ft.Script(), [], False
        self.trees, self.handles = {}, {}
        for i, items in enumerate(c["foreign"]):
            if items is not None:
                self.trees[i] = make_foreign(self.fn(i), items)
                self.nontriv |= len(self.trees[i]["groups"]) + len(self.trees[i]["sets"]) > 2

    def fn(self, i):
        return os.path.join(self.d, "file%d.hdf5" % i)

    def add(self, *a, verify=None, **k):
        self.s.add(*a, **k)
        self.expect.append(verify)

    def open(self, h, file, ro):
        """Open file under handle slot h; HDF5 does not allow the same file to be open in different modes."""
        if h in self.handles:
            self.close(h)
        modes = [r for f, r in self.handles.values() if f == file]
        if modes:
            ro = modes[0]
        if file not in self.trees:
            self.add(2, h, "file%d.hdf5" % file)
            self.trees[file] = {"groups": set(), "sets": {}}
            ro = False
        else:
            self.add(1, h, "file%d.hdf5" % file, flag=1 if ro else (0 if ro is False else -1))
        self.handles[h] = (file, bool(ro))
        self.nontriv |= len(self.handles) > 1

    def close(self, h):
        if h in self.handles:
            self.add(3, h)
            del self.handles[h]


def members(tree, group, what):
    g = group.strip("/")
    items = tree["groups"] if what == 12 else tree["sets"]
    return sorted(os.path.basename(x) for x in items if os.path.dirname(x) == g)


def act(w, o):
    op, h = o["op"], o["h"]
    if op == "open":
        return w.open(h, o["file"], o["ro"])
    if not w.handles:
        return w.open(h, o["file"], o["ro"])
    hs = sorted(w.handles)
    h = hs[h % len(hs)]
    file, ro = w.handles[h]
    tree = w.trees[file]
    if op == "close":
        return w.close(h)
    if op == "id":
        return w.add(14, h, reply=4, verify=lambda b: ck(b == np.int32(1).tobytes(), "invalid file id"))
    if op == "group":
        if ro:
            return
        p = o["path"].strip("/")
        parts = p.split("/")
        pre = ["/".join(parts[:i + 1]) for i in range(len(parts))]
        if any(x in tree["sets"] for x in pre):
            return
        w.add(8, h, o["path"])
        tree["groups"].update(pre)
        w.nontriv |= len(parts) > 2
        return
    if op == "write":
        if ro:
            return
        gs = [""] + sorted(tree["groups"])
        name = (gs[o["i"] % len(gs)] + "/w%d" % (o["i"] % 5)).strip("/")
        if name in tree["sets"] or name in tree["groups"]:
            return
        a = values(np.random.default_rng(o["i"]), 1, 1, (2, 2))
        w.add(4, h, name, type=1, rank=2, dims=(2, 2), data=raw(a))
        tree["sets"][name] = {"a": a, "t": 1, "type": "INTEGER", "size": 8, "shape": (2, 2)}
        return
    if op == "list":
        gs = ["/"] + sorted(tree["groups"])
        g = gs[o["i"] % len(gs)]
        what = 11 + o["i"] // 7 % 2
        want = members(tree, g, what)
        n = 0 if o["i"] % 3 == 0 else len(want) + 1 + o["i"] // 3 % 3

        def verify(b):
            m = int(np.frombuffer(b[:4], dtype="i4")[0])
            ck(m == len(want), "%d members of %r, expected %r" % (m, g, want))
            if n:
                names = [b[4 + 64 * i:68 + 64 * i].decode().rstrip() for i in range(n)]
                ck(sorted(names[:m]) == sorted(want) and names[m:] == ["?"] * (n - m), "members of %r: %r, expected %r" % (g, names, want))
        return w.add(what, h, g, flag=n, reply=4 + 64 * n, verify=verify)
    if not tree["sets"]:
        return
    key = sorted(tree["sets"])[o["i"] % len(tree["sets"])]
    ds = tree["sets"][key]
    if op == "dims":
        return w.add(9, h, key, reply=36, verify=lambda b: ck(
            list(np.frombuffer(b, dtype="i4")[:1 + len(ds["shape"])]) == [len(ds["shape"])] + list(ds["shape"]), "dimensions of %s" % key))
    if op == "type":
        def verify(b):
            name, size = b[:32].decode().strip(), int(np.frombuffer(b[32:], dtype="i4")[0])
            # the documentation calls strings STRING and the code CHARACTER
            ck(name == ds["type"] or (ds["type"], name) == ("STRING", "CHARACTER"), "type of %s is %r, expected %s" % (key, name, ds["type"]))
            ck(size == ds["size"], "element size of %s is %d, expected %d" % (key, size, ds["size"]))
        return w.add(10, h, key, reply=36, verify=verify)
    if op == "read" and ds["t"] is not None:
        shape, slen = ds["shape"], ds["size"] if ds["t"] == 4 else 1
        fill = values(np.random.default_rng(o["i"]), ds["t"], slen, shape)
        w.add(5, h, key, type=ds["t"], rank=len(shape), dims=shape, slen=slen, data=raw(fill), reply=int(np.prod(shape, dtype=int)) * fill.dtype.itemsize,
              verify=lambda b: eq(strip(unraw(b, ds["t"], slen, shape)), strip(ds["a"]), "dataset %s of a foreign file" % key))


def misuse(w, c):
    kind, n = c["end"], c["endop"]
    pick = np.random.default_rng(n)             # independent choices
    one = np.zeros(1, dtype="i8").tobytes()
    if kind == "handle":
        # slot 100 was never used: the handle is -1
        w.s.add([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][n % 11], 100, "x/y", type=1, rank=1, dims=[1], data=one, flag=0 if n % 11 > 5 else None)
        return True
    if kind == "closed":
        if not w.handles:
            return False
        h = sorted(w.handles)[pick.integers(len(w.handles))]
        if len(w.handles) == 1:
            w.open(50, [f for f in range(12) if f != w.handles[h][0]][0], False)
        # close the file but keep the handle's number
        w.add(3, h, flag=1)
        w.s.add([3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14][n % 11], h, "x/y", type=1, rank=1, dims=[1], data=one, flag=1 if n % 11 in (0, 5, 6, 7, 8, 9, 10) else None)
        return True
    if not w.handles:
        return False
    h = sorted(w.handles)[pick.integers(len(w.handles))]
    file, ro = w.handles[h]
    tree = w.trees[file]
    if kind == "refuse":
        bad = sorted(k for k, d in tree["sets"].items() if d["t"] is None)
        if not bad:
            return False
        key = bad[pick.integers(len(bad))]
        shape = tree["sets"][key]["shape"]
        t = n % 4
        w.s.add(5, h, key, type=t, rank=len(shape), dims=shape, data=raw(values(np.random.default_rng(n), t, 1, shape)))
        return True
    if kind == "nogroup":
        w.s.add([11, 12, 13][n % 3], h, "Not/there", flag=int(pick.integers(2)))
        return True
    if kind == "rogroup":
        if not ro:
            return False
        w.s.add(8, h, "New/Group")
        return True
    return False


@check.sub(histories(), 700, 30000)
def history(c):
    d = paths.fresh_dir()
    try:
        w = World(d, c)
        for o in c["ops"]:
            act(w, o)
        bad = c["end"] != "ok" and misuse(w, c)
        if not bad:
            for h in sorted(w.handles):
                w.close(h)
        r = w.s.run(ft.build(), d)
        for v, b in zip(w.expect, r.replies):
            if v is not None:
                v(b)
        if bad:
            event("misuse: " + c["end"])
            ck(r.aborted and len(r.replies) == r.n - 1, "expected the last command (%s) to stop with an error; %s" % (c["end"], r.what()))
        else:
            ck(r.complete, r.what())
        for n, tree in w.trees.items():
            with h5py.File(w.fn(n), "r") as f:
                groups, sets = [], []
                f.visititems(lambda name, obj: (sets if isinstance(obj, h5py.Dataset) else groups).append(name))
                ck(sorted(groups) == sorted(tree["groups"]), "groups in file %r, expected %r" % (sorted(groups), sorted(tree["groups"])))
                ck(sorted(sets) == sorted(tree["sets"]), "datasets in file %r, expected %r" % (sorted(sets), sorted(tree["sets"])))
                for k, ds in tree["sets"].items():
                    if ds["a"] is not None:
                        eq(strip(np.asarray(f[k][()]).T), strip(ds["a"]), "contents of %s" % k)
        return w.nontriv
    finally:
        paths.drop(d)
