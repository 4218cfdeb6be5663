"""P37: database tables from Dhalo merger trees."""
import os, re
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import fill
from vt.util import check as ck, eq, must_raise
from checks import p36_branch_mass as p36

check = Check("P37", quick_scale=6, shards=6, rule=(
    "Dictionaries of scalar, (n,3) and string columns of every supported type (and unsupported ones) written as native file and "
    "create-table script, both parsed back independently; SQL/numpy type conversions both ways; whole multi-file HDF5 forests "
    "converted end to end. Oracle: the input columns, and the tree properties of P35/P36. Non-trivial: at least two rows and "
    "a vector or string column, or at least two input files."))

SQL = {"integer": "i4", "bigint": "i8", "real": "f4", "float": "f8"}


def parse(script, data_file):
    """Independent reader: column types from the SQL, packed little-endian rows from the data file."""
    with open(script) as f:
        text = f.read()
    m = re.match(r"\s*create\s+table\s+(\S+)\s*\((.*)\)\s*;?\s*$", text, re.S | re.I)
    ck(m is not None, "not a create table statement: %r" % text)
    cols = []
    for line in m.group(2).split("\n"):
        line = line.strip().rstrip(",")
        if not line:
            continue
        w = line.split()
        ck(len(w) == 4 and w[2:] == ["NOT", "NULL"], "column definition %r" % line)
        k = re.match(r"char\((\d+)\)$", w[1])
        cols.append((w[0], "S" + k.group(1) if k else "<" + SQL[w[1]]))
    dt = np.dtype(cols, align=False)
    with open(data_file, "rb") as f:
        b = f.read()
    ck(len(b) % dt.itemsize == 0, "data file has %d bytes, rows have %d" % (len(b), dt.itemsize))
    return m.group(1), np.frombuffer(b, dtype=dt)


def expected(data):
    out = []
    for k, v in data.items():
        if v.ndim == 1:
            out.append((k, v))
        else:
            out += [(k + "_" + s, v[:, i]) for i, s in enumerate("xyz")]
    return out


@st.composite
def tables(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 10, 10, 300]))
    cols = []
    for i in range(draw(st.integers(1, 6))):
        cols.append(["col%d" % i if i % 2 else "nodeQ%d" % i, draw(st.sampled_from(["i4", "i8", "f4", "f8", "S1", "S7", "f4", "i8"])),
                     draw(st.sampled_from([1, 1, 3]))])
    return {"n": n, "cols": cols, "seed": draw(st.integers(0, 999)), "bad": draw(st.sampled_from([None, None, None, "len", "shape", "type", "shape3"])),
            "order": draw(st.sampled_from(["C", "F", "strided", "reversed"])), "old": draw(st.booleans()), "table": draw(st.sampled_from(["T", "MPAHalo..Trees", "dhalo_trees"])), "i": draw(st.integers(0, 99))}


def make(c):
    rng = np.random.default_rng(c["seed"])
    data = {}
    for nm, t, m in c["cols"]:
        sh = (c["n"], 3) if m == 3 else (c["n"],)
        if t[0] == "S":
            a = np.array(["".join(chr(x) for x in rng.integers(65, 91, int(t[1:]))) for _ in range(int(np.prod(sh)))], dtype=t).reshape(sh)
        else:
            a = fill(rng, t, sh)
        if c["order"] == "F":
            a = np.asfortranarray(a)
        elif c["order"] == "strided":
            b = np.empty((2 * len(a),) + a.shape[1:], dtype=a.dtype)
            b[::2], b[1::2] = a, a[::-1]
            a = b[::2]
        elif c["order"] == "reversed":
            a = a[::-1].copy()[::-1]
        data[nm] = a
    return data


@check.sub(tables(), 900, 25000)
def native_file(c):
    from virgo.database.make_dtrees_table import write_sql_server_native_file
    d = paths.fresh_dir()
    try:
        data = make(c)
        dat, sql = os.path.join(d, "t.dat"), os.path.join(d, "t.sql")
        if c["bad"]:
            n = c["n"]
            data["odd"] = {"len": np.zeros((n + 1, abs(n - 1) or 2, 1 if n > 1 else n + 2, 0 if n > 1 else 5)[c["i"] % 4]), "shape": np.zeros((n, 2)), "shape3": np.zeros((n, 3, 3)),
                           "type": np.zeros(n, dtype=["u4", "u8", "i2", "bool", "c8", "f2"][c["i"] % 6])}[c["bad"]]
            must_raise(ValueError, write_sql_server_native_file, c["table"], data, dat, sql)
            return True
        if c["old"]:
            # an earlier, longer table is replaced
            for fn in (dat, sql):
                with open(fn, "w") as f:
                    f.write("create table old (x real NOT NULL)\n" * 1000)
        write_sql_server_native_file(c["table"], data, dat, sql)
        name, got = parse(sql, dat)
        want = expected(data)
        ck(name == c["table"], "table name %r" % name)
        ck(list(got.dtype.names) == [k for k, _ in want], "columns %r" % (got.dtype.names,))
        ck(len(got) == c["n"], "%d rows" % len(got))
        for k, v in want:
            ck(got.dtype[k] == v.dtype, "%s has type %s" % (k, got.dtype[k]))
            eq(got[k], v, k)
        return c["n"] >= 2 and any(m == 3 or t[0] == "S" for _, t, m in c["cols"])
    finally:
        paths.drop(d)


@check.sub(st.fixed_dictionaries({"t": st.sampled_from(["i4", "i8", "f4", "f8"] + ["S%d" % i for i in (1, 2, 9, 10, 40, 100)]),
                                  "alt": st.booleans(), "pad": st.sampled_from(["", " ", "  "]),
                                  "bad": st.sampled_from([None, None, "u4", "i2", "bool", "U3", "c16", "f2", "varchar(3)", "chars", ""])}), 250, 2000)
def types(c):
    """The conversions are inverse to each other, and unsupported types are errors."""
    from virgo.database.make_dtrees_table import sql_type, numpy_type
    if c["bad"] is not None:
        if c["bad"] and "char" not in c["bad"]:
            must_raise(ValueError, sql_type, np.dtype(c["bad"]))
        else:
            must_raise(ValueError, numpy_type, c["bad"])
        return True
    t = np.dtype(c["t"])
    s = sql_type(t)
    ck(s == {"i4": "integer", "i8": "bigint", "f4": "real", "f8": "float"}.get(c["t"], "char(%s)" % c["t"][1:]), "sql type %r" % s)
    ck(np.dtype(numpy_type(s)) == t, "numpy_type(%r) is %r" % (s, numpy_type(s)))
    if c["alt"] and c["t"] == "i4":
        ck(np.dtype(numpy_type("int")) == t, "int")
    return True


@st.composite
def forests(draw):
    c = draw(p36.forests(25))
    c["nf"] = draw(st.sampled_from([1, 2, 3, 4] * 3 + [11, 13]))
    c["cut"] = sorted(draw(st.integers(0, len(c["desc"]))) for _ in range(c["nf"] - 1))
    c["extra"] = draw(st.sampled_from([[], ["pos"], ["pos", "name"]]))
    c["attr"] = draw(st.sampled_from(["scalar", "array"]))
    return c


@check.sub(forests(), 250, 6000)
def whole_table(c):
    from virgo.database import make_dtrees_table as mt
    d = paths.fresh_dir()
    try:
        ids, did, ptr, snap, m = p36.arrays(c)
        n = len(ids)
        rng = np.random.default_rng(c["seed"] + 1)
        data = {"nodeIndex": ids, "descendantIndex": did, "snapshotNumber": snap, "nodeMass": m}
        if "pos" in c["extra"]:
            data["position"] = fill(rng, "f4", (n, 3))
        if "name" in c["extra"]:
            data["fofName"] = np.array(["h%03d" % i for i in range(n)], dtype="S4")
        edges = [0] + c["cut"] + [n]
        for i in range(c["nf"]):
            with h5py.File(os.path.join(d, "trees.%d.hdf5" % i), "w") as f:
                # (length one arrays are what the tree builder writes)
                f.create_group("fileInfo").attrs["numberOfFiles"] = np.int32(c["nf"]) if c["attr"] == "scalar" else np.array([c["nf"]], "i4")
                for k, v in data.items():
                    f["haloTrees/" + k] = v[edges[i]:edges[i + 1]]
        got = mt.read_dhalo_trees(os.path.join(d, "trees"))
        ck(set(got) == set(data), "datasets %r" % sorted(got))
        for k, v in data.items():
            eq(got[k], v, k)
        mt.make_dtrees_table("Tab", os.path.join(d, "trees"), os.path.join(d, "out"))
        name, tab = parse(os.path.join(d, "out.sql"), os.path.join(d, "out.dat"))
        want = dict(expected(data))
        ck(name == "Tab", "table name")
        ck(set(tab.dtype.names) == set(want) | {"mBranch", "depthFirst", "endMainBranch", "lastProgenitor"}, "columns %r" % (tab.dtype.names,))
        for k, v in want.items():
            eq(tab[k], v, k)
        prog = p36.progenitors(ptr)
        mb = np.zeros(n)
        for i in np.argsort(snap, kind="stable"):
            mb[i] = float(m[i]) + max([mb[j] for j in prog[i]], default=0.0)
        p36.close(tab["mBranch"], mb, m, "mBranch")
        mb = tab["mBranch"]
        df = tab["depthFirst"]
        eq(np.sort(df), np.arange(1, n + 1), "depthFirst")
        for i in range(n):
            p = sorted(prog[i], key=lambda j: df[j])
            if p:
                ck(df[p[0]] == df[i] + 1 and mb[p[0]] == max(mb[j] for j in p), "main progenitor does not follow its descendant")
                ck(tab["lastProgenitor"][i] == max(tab["lastProgenitor"][j] for j in p), "lastProgenitor")
                ck(tab["endMainBranch"][i] == tab["endMainBranch"][p[0]], "endMainBranch")
            else:
                ck(tab["lastProgenitor"][i] == df[i] == tab["endMainBranch"][i], "leaf")
        # the trees as stored in the table: progenitors of i are exactly the rows in (depthFirst, lastProgenitor]
        for i in range(n):
            if ptr[i] >= 0:
                j = ptr[i]
                ck(df[j] < df[i] <= tab["lastProgenitor"][j], "progenitor outside its descendant's range")
        return c["nf"] >= 2 and n >= 2
    finally:
        paths.drop(d)
