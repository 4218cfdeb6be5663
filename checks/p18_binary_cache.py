"""P18: many BinaryFiles open at once; closing, reopening and replacing files."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.util import check as ck, eq

check = Check("P18", quick_scale=6, shards=6, rule=(
    "Histories of open / read (dataset, attribute, read_and_skip, whole-file) / close / close one dataset / replace file on disk (when "
    "nothing has it open) / forget objects, over 3-45 files with names of their own or in directories of their own (the reader keeps at most 32 open). Oracle: a dictionary of current "
    "file contents; open descriptors never exceed the limit and closing a file releases it. Non-trivial: more than 32 files "
    "touched, or a file is replaced and read again."))


@st.composite
def histories(draw):
    nf = draw(st.sampled_from([3, 3, 33, 34, 40, 45]))
    ops = []
    if nf > 30 and draw(st.booleans()):
        ops.append(["sweep", draw(st.sampled_from(["fwd", "rev"]))])
    f = st.integers(0, nf - 1)
    hot = st.sampled_from(draw(st.lists(f, min_size=1, max_size=3)))
    for _ in range(draw(st.integers(3, 25))):
        op = draw(st.sampled_from(["open", "read", "read", "read", "ras", "close", "replace", "replace", "forget", "dclose", "sweep", "with"]))
        if op == "sweep" and draw(st.booleans()):
            op = "read"
        if op == "sweep":
            ops.append(["sweep", draw(st.sampled_from(["fwd", "rev"]))])
        else:
            ops.append([op, draw(hot | f), draw(st.integers(0, 3))])
    return {"nf": nf, "ops": ops, "names": draw(st.sampled_from(["flat", "flat", "dirs", "dirs2", "prefix"]))}


def name_for(kind, i):
    if kind == "dirs":                  # one file name, many directories
        return "run%d/snap.dat" % i
    if kind == "dirs2":                 # as before, and the last directory has the same name as well
        return "run%d/data/snap.%d.dat" % (i // 2, i % 2)
    if kind == "prefix":                # names which start with other names
        return "f%s.dat" % ("0" * i)
    return "f%d.dat" % i


def contents(i, gen):
    return (np.arange(20, dtype="<i4") + 1000 * i + 7 * gen)


@check.sub(histories(), 900, 30000)
def history(c):
    from virgo.util.read_binary import BinaryFile
    d = paths.fresh_dir()
    try:
        names = [os.path.join(d, name_for(c.get("names"), i)) for i in range(c["nf"])]
        for fn in names:
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        gen = [0] * c["nf"]
        for i, fn in enumerate(names):
            contents(i, 0).tofile(fn)
        objs = {i: [] for i in range(c["nf"])}
        touched, replaced = set(), False

        def new(i):
            f = BinaryFile(names[i])
            f.add_attribute("n", "i4")
            f.add_dataset("x", "i4", (4,))
            f.add_attribute("x/u", "i4")
            f.add_dataset("g/y", "i4", (7, 2))
            objs[i].append(f)
            return f

        def read(i, how):
            f = objs[i][-1] if objs[i] else new(i)
            want = contents(i, gen[i])
            if how == 0:
                eq(f["x"][...], want[1:5], "x of file %d" % i)
            elif how == 1:
                ck(int(f.attrs["n"]) == want[0], "attribute of file %d" % i)
                ck(int(f["x"].attrs["u"]) == want[5], "dataset attribute of file %d" % i)
            elif how == 2:
                eq(f["g/y"][1:3, 1], want[6:20].reshape(7, 2)[1:3, 1], "g/y of file %d" % i)
            else:
                a, b = f["x"], f["g/y"]
                eq(b[...], want[6:20].reshape(7, 2), "g/y of file %d" % i)
                eq(a[::-1], want[1:5][::-1], "x of file %d" % i)
            touched.add(i)

        for o in c["ops"]:
            if o[0] == "sweep":
                order = range(c["nf"]) if o[1] == "fwd" else range(c["nf"] - 1, -1, -1)
                for i in order:
                    read(i, 0)
                continue
            op, i, k = o
            f = None
            if op == "open":
                new(i)
            elif op == "read":
                read(i, k)
            elif op == "ras":
                f = BinaryFile(names[i])
                got = f.read_and_skip("i4", (3,))
                eq(got, contents(i, gen[i])[:3], "read_and_skip of file %d" % i)
                objs[i].append(f)
                if k < 2:
                    f.close()
                # give it the usual layout as well
                f.offset = 0
                f.add_attribute("n", "i4")
                f.add_dataset("x", "i4", (4,))
                f.add_attribute("x/u", "i4")
                f.add_dataset("g/y", "i4", (7, 2))
                touched.add(i)
            elif op == "close":
                for f in objs[i]:
                    f.close()
            elif op == "dclose":
                if objs[i]:
                    objs[i][-1]["x"].close()
            elif op == "forget":
                objs[i] = []
            elif op == "with":
                with BinaryFile(names[i]) as f:
                    f.add_dataset("x", "i4", (20,))
                    eq(f["x"][...], contents(i, gen[i]), "file %d in with block" % i)
                ck(names[i] not in fds() or any(x for x in objs[i]), "file still open after with block")
            elif op == "replace":
                # nothing has the file open: everything which referred to it is closed
                for f in objs[i]:
                    f.close()
                ck(names[i] not in fds(), "file %d is still open after close()" % i)
                gen[i] += 1
                if k % 2:
                    tmp = names[i] + ".tmp"
                    contents(i, gen[i]).tofile(tmp)
                    os.replace(tmp, names[i])
                else:
                    contents(i, gen[i]).tofile(names[i])
                read(i, k)
                replaced = True
            f = None
            nopen = len(fds())
            ck(nopen <= 32, "%d files open at once" % nopen)
        return len(touched) > 32 or replaced
    finally:
        for fs in objs.values():
            for f in fs:
                f.close()
        paths.drop(d)


def fds():
    out = set()
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue
        if t.endswith(".dat") or t.endswith(".dat (deleted)"):
            out.add(t.replace(" (deleted)", ""))
    return out
