"""P17: BinaryFile layout, indexing and byte order."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.util import check as ck, eq, must_raise

check = Check("P17", quick_scale=6, shards=6, rule=(
    "Histories of add_dataset / add_attribute (nested paths, attributes of datasets) / skip_bytes / read_and_skip / "
    "set_endian / enable_byteswap / toggle_byteswap over a random byte string, with numeric, fixed-string and explicitly "
    "endian types, interleaved with reads by random index expressions; sparse files with sizes and offsets beyond 2^32; repeated names. Oracle: numpy.frombuffer at the modelled offset and "
    "byte order. Non-trivial: a multi-byte block not at offset 0 read in non-native order."))

DT = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "S3", "S7", ">i4", "<i4", ">f8", "<u2", "c8"]
NAMES = ["A", "B", "Pos", "Grp/X", "Grp/Y", "G2/H/Z", "/Lead", "Grp/Sub/W", "M"]


@st.composite
def index_for(draw, shape):
    """A random index expression for an array of this shape, as plain data."""
    kind = draw(st.sampled_from(["all", "empty", "ints", "slices", "mixed", "fancy"]))
    if kind == "all" or len(shape) == 0:
        return ["..."] if draw(st.booleans()) else []
    if kind == "empty":
        return []
    out = []
    for i in range(draw(st.integers(1, len(shape)))):
        n = shape[i]
        k = kind if kind != "mixed" else draw(st.sampled_from(["ints", "slices", "fancy"]))
        if k == "ints" and n > 0:
            out.append(draw(st.integers(-n, n - 1)))
        elif k == "fancy" and n > 0 and i == 0:
            out.append(draw(st.lists(st.integers(-n, n - 1), max_size=5)))
        else:
            b = st.none() | st.integers(-n - 2, n + 2)
            out.append(["s", draw(b), draw(b), draw(st.none() | st.sampled_from([1, 2, -1, 3]))])
    return out


def to_index(ix):
    out = []
    for i in ix:
        if i == "...":
            out.append(Ellipsis)
        elif isinstance(i, list) and i and i[0] == "s":
            out.append(slice(*i[1:]))
        elif isinstance(i, list):
            out.append(np.array(i, dtype=int))
        else:
            out.append(i)
    return out[0] if len(out) == 1 else tuple(out)


@st.composite
def histories(draw):
    ops = []
    names = {}
    shapes = st.lists(st.sampled_from([0, 1, 2, 3, 5, 9, 1, 2, 3]), max_size=3)
    attrs = set()
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(["ds", "ds", "ds", "attr", "attr", "skip", "ras", "endian", "swap", "toggle", "read", "read"]))
        if op == "ds":
            free = [n for n in NAMES if n not in names]
            if not free:
                continue
            nm = draw(st.sampled_from(free))
            sh = draw(shapes)
            names[nm] = sh
            ops.append(["ds", nm, draw(st.sampled_from(DT)), sh])
        elif op == "attr":
            base = draw(st.sampled_from(["", "Grp/", "Head/"] + [n + "/" for n in names]))
            nm = base + draw(st.sampled_from(["a1", "a2"]))
            if nm.strip("/") in attrs or "/" in base[:-1].strip("/") and base[:-1] in names:
                continue
            attrs.add(nm.strip("/"))
            ops.append(["attr", nm, draw(st.sampled_from(DT)), draw(st.sampled_from([[], [], [2], [6]]))])
        elif op == "skip":
            ops.append(["skip", draw(st.integers(0, 9))])
        elif op == "ras":
            ops.append(["ras", draw(st.sampled_from(DT)), draw(st.sampled_from([[], [2], [2, 2]]))])
        elif op == "endian":
            ops.append(["endian", draw(st.sampled_from("<>="))])
        elif op == "swap":
            ops.append(["swap", draw(st.booleans())])
        elif op == "toggle":
            ops.append(["toggle"])
        elif names:
            nm = draw(st.sampled_from(sorted(names)))
            ops.append(["read", nm, draw(index_for(names[nm]))])
    return {"ops": ops, "seed": draw(st.integers(0, 999)), "dims": draw(st.sampled_from(["", "", "i4", "u4", "i8", "u8", "u1"])),
            "short": draw(st.sampled_from([0, 0, 0, 0, 1, 5]))}


def layout_size(ops):
    n = 0
    for o in ops:
        if o[0] in ("ds", "attr"):
            n += np.dtype(o[2]).itemsize * int(np.prod(o[3], dtype=int))
        elif o[0] == "ras":
            n += np.dtype(o[1]).itemsize * int(np.prod(o[2], dtype=int))
        elif o[0] == "skip":
            n += o[1]
    return n


def same(got, want, what):
    got = np.asarray(got)
    ck(got.shape == want.shape, "%s: shape %r, expected %r" % (what, got.shape, want.shape))
    if want.dtype.kind == "S":                  # numpy drops trailing nulls from single strings
        ck(got.dtype.kind == "S" and np.all(got == want), "%s: got %r, expected %r" % (what, got, want))
        return
    ck(got.dtype == want.dtype or got.dtype.newbyteorder("=") == want.dtype.newbyteorder("="),
       "%s: dtype %s, expected %s" % (what, got.dtype, want.dtype))
    n = want.dtype.newbyteorder("=")
    if got.astype(n).tobytes() != want.astype(n).tobytes():
        raise AssertionError("%s: got %r, expected %r" % (what, got, want))


@check.sub(histories(), 3000, 80000)
def layout(c):
    from virgo.util.read_binary import BinaryFile, BinaryDataset, BinaryGroup
    d = paths.fresh_dir()
    try:
        rng = np.random.default_rng(c["seed"])
        size = layout_size(c["ops"])
        total = max(1, size + 3 - (c["short"] + 3 if c["short"] else 0))
        blob = rng.integers(0, 256, total).astype("u1").tobytes()
        fn = os.path.join(d, "data.bin")
        with open(fn, "wb") as f:
            f.write(blob)
        model = {}       # path -> (offset, dtype, shape)
        mattr = {}
        order = []
        pos, endian = 0, "="
        nontrivial = False

        def expect(off, dt, shape):
            t = np.dtype(dt)
            n = int(np.prod(shape, dtype=int))
            if off + n * t.itemsize > len(blob):
                return None
            disk = t if t.byteorder == "|" else t.newbyteorder(endian)
            raw = np.frombuffer(blob, dtype=np.uint8, count=n * t.itemsize, offset=off).tobytes()
            return np.frombuffer(raw, dtype=disk).reshape(shape) if n else np.zeros(shape, dtype=disk)

        def compare(get, off, dt, shape, index, what):
            nonlocal nontrivial
            want = expect(off, dt, shape)
            if want is None:
                must_raise(IOError, get)
                event("read past end rejected")
                return
            same(get(), np.asarray(want[index]), what)
            if off > 0 and want.dtype.itemsize > 1 and not want.dtype.isnative and want.size:
                nontrivial = True

        def dims(s):                 # shapes are often numpy integers read from a header
            return s if not c.get("dims") else np.array(s, dtype=c["dims"]) if c["seed"] % 2 else tuple(np.dtype(c["dims"]).type(x) for x in s)

        f = BinaryFile(fn)
        for o in c["ops"]:
            if o[0] == "ds":
                f.add_dataset(o[1], o[2], dims(o[3]))
                model[o[1]] = (pos, o[2], tuple(o[3]))
                pos += np.dtype(o[2]).itemsize * int(np.prod(o[3], dtype=int))
            elif o[0] == "attr":
                f.add_attribute(o[1], o[2], dims(o[3]))
                mattr[o[1]] = (pos, o[2], tuple(o[3]))
                pos += np.dtype(o[2]).itemsize * int(np.prod(o[3], dtype=int))
            elif o[0] == "skip":
                f.skip_bytes(o[1])
                pos += o[1]
            elif o[0] == "ras":
                if expect(pos, o[1], o[2]) is None:
                    must_raise(IOError, f.read_and_skip, o[1], dims(o[2]))
                    return nontrivial
                compare(lambda: f.read_and_skip(o[1], dims(o[2])), pos, o[1], tuple(o[2]), (), "read_and_skip")
                pos += np.dtype(o[1]).itemsize * int(np.prod(o[2], dtype=int))
            elif o[0] == "endian":
                f.set_endian(o[1])
                endian = o[1]
            elif o[0] == "swap":
                f.enable_byteswap(o[1])
                endian = ">" if o[1] else "<"       # this machine is little endian
            elif o[0] == "toggle":
                f.toggle_byteswap()
                endian = "<" if endian == ">" else ">"
            elif o[0] == "read":
                off, dt, sh = model[o[1]]
                ix = to_index(o[2])
                compare(lambda: f[o[1]][ix], off, dt, sh, ix, "%s[%r]" % (o[1], ix))
        for nm, (off, dt, sh) in model.items():
            ds = f[nm]
            ck(isinstance(ds, BinaryDataset) and ds.shape == sh and ds.dtype == np.dtype(dt), "%s: shape or type" % nm)
            ck(ds.size == int(np.prod(sh, dtype=int)), "%s: size" % nm)
            ck(nm in f, "%s not in file" % nm)
            if sh:
                ck(len(ds) == sh[0] and ds.len() == sh[0], "%s: length" % nm)
            else:
                must_raise(TypeError, len, ds)
                must_raise(TypeError, ds.len)
                must_raise(TypeError, list, ds)
            compare(lambda: ds[...], off, dt, sh, Ellipsis, nm)
            compare(lambda: ds.value, off, dt, sh, (), nm + ".value")
            if expect(off, dt, sh) is not None:
                same(np.asarray(ds), expect(off, dt, sh), "asarray(%s)" % nm)
                if sh:
                    rows = list(ds)
                    ck(len(rows) == sh[0], "%s: iteration length" % nm)
                    for i, row in enumerate(rows):
                        same(row, np.asarray(expect(off, dt, sh)[i]), "%s row %d" % (nm, i))
        for nm, (off, dt, sh) in mattr.items():
            parts = nm.strip("/").rsplit("/", 1)
            obj = f if len(parts) == 1 else f[parts[0]]
            compare(lambda: obj.attrs[parts[-1]], off, dt, sh, (), "attribute " + nm)
        # group structure
        tops = {p.strip("/").split("/")[0] for p in model} | {p.strip("/").split("/")[0] for p in mattr if "/" in p.strip("/")}
        ck(set(f.keys()) == tops and len(f) == len(tops), "top level names %r, expected %r" % (sorted(f), sorted(tops)))
        for nm in ("Nope", "Grp/Nope", "Nope/X"):
            ck(nm not in f, "%s reported present" % nm)
        f.close()
        for nm, (off, dt, sh) in model.items():
            compare(lambda: f[nm][...], off, dt, sh, Ellipsis, nm + " after close")
        f.close()
        return nontrivial
    finally:
        paths.drop(d)


@st.composite
def declarations(draw):
    return [[draw(st.sampled_from(["ds", "ds", "attr"])), draw(st.sampled_from(["A", "B", "A/X", "B/X", "A/X/Y"]))]
            for _ in range(draw(st.integers(2, 6)))]


@check.sub(declarations(), 500, 10000)
def names_are_unique(decl):
    """A name can be used once, as a dataset or as a group, never both; attributes have names of their own."""
    from virgo.util.read_binary import BinaryFile
    f = BinaryFile(__file__)            # any file long enough: values do not matter
    have, groups, attrs = set(), set(), set()
    for kind, nm in decl:
        parents = {nm[:i] for i, ch in enumerate(nm) if ch == "/"}
        if kind == "attr":
            own = nm.rpartition("/")[0]
            if any(q in have for q in parents if q != own):
                return False                        # below a dataset, but not an attribute of it: not defined
            if nm in attrs:
                must_raise(KeyError, f.add_attribute, nm, "i4", (2,))
                return True
            f.add_attribute(nm, "i4", (2,))
            attrs.add(nm)
            groups |= parents - have
        else:
            if nm in have or nm in groups or (parents & have):
                must_raise(KeyError, f.add_dataset, nm, "i4", (2,))
                return True
            f.add_dataset(nm, "i4", (2,))
            have.add(nm)
            groups |= parents
        for q in have | groups:
            ck(q in f, "%s not found" % q)
        for q in attrs:
            own, _, last = q.rpartition("/")
            ck(last in list((f[own] if own else f).attrs), "attribute %s not found" % q)
    return False


@st.composite
def large(draw):
    """Blocks whose sizes and offsets exceed 32 bits, in a sparse file; sizes given as any kind of integer."""
    blocks = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["ds", "ds", "ds", "attr", "skip", "ras"]))
        if op == "skip":
            blocks.append([op, draw(st.sampled_from([0, 5, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32 + 3])), draw(st.sampled_from(["int", "i8", "u4"]))])
        elif op in ("attr", "ras"):
            blocks.append([op, draw(st.sampled_from(["i4", "f8", ">i4", "S3"]))])
        else:
            shape = draw(st.sampled_from([[2 ** 29 + 1], [2 ** 30, 3], [2 ** 16, 2 ** 16], [3, 2 ** 15, 2 ** 15], [2 ** 31 - 1], [7], [2 ** 32 + 5]]))
            blocks.append([op, draw(st.sampled_from(["i1", "i4", "f4", "i8", ">f4"])), shape, draw(st.sampled_from(["int", "i4", "u4", "i8"]))])
    return {"blocks": blocks, "endian": draw(st.sampled_from("<>=")), "seed": draw(st.integers(0, 999)),
            "cut": draw(st.sampled_from([0, 0, 0, 1, 2 ** 31]))}


@check.sub(large(), 60, 3000)
def beyond_32_bits(c):
    from virgo.util.read_binary import BinaryFile
    d = paths.fresh_dir()
    try:
        rng = np.random.default_rng(c["seed"])
        fn = os.path.join(d, "sparse.bin")
        e = {"=": "<"}.get(c["endian"], c["endian"])
        pos, plan, marks = 0, [], []
        for b in c["blocks"]:
            if b[0] == "skip":
                n = np.uint32 if b[2] == "u4" and b[1] < 2 ** 32 else np.int64 if b[2] == "i8" else int
                plan.append(["skip", n(b[1])])
                pos += b[1]
                continue
            t = np.dtype(b[1])
            shape = tuple(b[2]) if b[0] == "ds" else ()
            given = shape
            if b[0] == "ds" and b[3] != "int" and max(shape) <= np.iinfo(b[3]).max:
                given = tuple(np.array(x, b[3])[()] for x in shape)
            disk = t if t.byteorder == "|" else t.newbyteorder(e)
            n = int(np.prod([int(x) for x in shape], dtype=object)) if shape else 1
            where = sorted({0, n - 1, int(rng.integers(0, n)), int(rng.integers(0, n))})
            raw = rng.integers(1, 120, (len(where), t.itemsize)).astype("u1")
            vals = np.frombuffer(raw.tobytes(), dtype=disk).astype(t)
            marks += [(pos + k * t.itemsize, v.tobytes()) for k, v in zip(where, raw)]
            plan.append([b[0], b[1], shape, given, pos, where, vals])
            pos += n * t.itemsize
        if pos > 2 ** 40:
            return False
        end = max(pos - c["cut"], 1)
        with open(fn, "wb") as f:
            for at, v in marks:
                f.seek(at)
                f.write(v)
            f.truncate(end)
        f = BinaryFile(fn)
        f.set_endian(c["endian"])
        nontrivial, total = False, 0
        for i, b in enumerate(plan):
            if b[0] == "skip":
                f.skip_bytes(b[1])
                continue
            op, t, shape, given, at, where, vals = b
            n = int(np.prod([int(x) for x in shape], dtype=object)) if shape else 1
            size = n * np.dtype(t).itemsize
            if op == "ras":
                if at + size > end:
                    must_raise((IOError, ValueError), f.read_and_skip, t)
                    return nontrivial
                same(f.read_and_skip(t), np.asarray(vals[0]), "read_and_skip at %d" % at)
                continue
            if op == "ds":
                f.add_dataset("D%d" % i, t, given)
                ds = f["D%d" % i]
                ck(ds.shape == shape and ds.size == n and ds.nbytes == size, "shape %r size %r nbytes %r, expected %r %d %d" % (ds.shape, ds.size, ds.nbytes, shape, n, size))

                def get(k):
                    return ds[np.unravel_index(k, shape)]
            else:
                f.add_attribute("A%d" % i, t)

                def get(k):
                    return f.attrs["A%d" % i]
            for k, v in zip(where, vals):
                if at + size > end:
                    must_raise(IOError, get, k)
                    event("past the end")
                else:
                    same(get(k), np.asarray(v), "element %d of block at %d" % (k, at))
                    nontrivial |= at + k > 2 ** 31
        skipped = any(b[0] == "skip" and b[1] > 0 for b in plan)
        ck(f.all_bytes_used() == (end == pos and not skipped), "all_bytes_used: %r" % f.all_bytes_used())
        f.close()
        return nontrivial
    finally:
        paths.drop(d)
