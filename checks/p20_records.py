"""P20: Fortran records in BinaryFile."""
import os, struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.util import check as ck, eq, must_raise

check = Check("P20", quick_scale=6, shards=6, rule=(
    "Files of 1-6 Fortran records (lengths 0..70000 bytes, palindromic lengths too) in either byte order, read with automatic "
    "or explicit byte order; then one marker or record damaged, the file truncated, or the layout given a wrong length. "
    "Oracle: the records as written; damaged files must raise IOError. Non-trivial: byte order differs from the "
    "reader's initial setting, or damage is present."))


@st.composite
def files(draw):
    nrec = draw(st.integers(1, 6))
    recs = []
    for _ in range(nrec):
        recs.append([[draw(st.sampled_from(["i4", "f8", "i2", "u1", "f4", "i8"])),
                      draw(st.sampled_from([0, 1, 2, 3, 10, 64, 257]))] for _ in range(draw(st.integers(0, 3)))])
    return {"recs": recs, "endian": draw(st.sampled_from("<>")), "start": draw(st.sampled_from("<>=")),
            "auto": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
            "damage": draw(st.sampled_from(["none", "none", "head", "tail", "both", "short", "layout"])),
            "where": draw(st.integers(0, 5)), "delta": draw(st.sampled_from([1, -1, 4, 8, 256, 1 << 16, 1 << 24, "negated", "sign bit", "swapped", "zero"]))}


def damaged(n, c):
    """The marker of a record of n bytes after it was damaged."""
    d = c["delta"]
    if d == "negated":
        return -n
    if d == "sign bit":
        return n - 2 ** 31
    if d == "swapped":      # if both are swapped the record is valid with the other byte order
        return struct.unpack(">i", struct.pack("<i", n))[0] if c["damage"] != "both" else n + 1
    return 0 if d == "zero" else n + d


def build(c):
    rng = np.random.default_rng(c["seed"])
    out, vals = [], []
    k = c["where"] % len(c["recs"])
    for i, rec in enumerate(c["recs"]):
        body, v = b"", []
        for dt, n in rec:
            a = rng.integers(0, 100, n).astype(dt)
            v.append(a)
            body += a.astype(a.dtype.newbyteorder(c["endian"])).tobytes()
        head = tail = len(body)
        if i == k and c["damage"] in ("head", "both"):
            head = damaged(head, c)
        if i == k and c["damage"] in ("tail", "both"):
            tail = damaged(tail, c)
        if i == k and c["damage"] in ("head", "tail", "both") and head == tail == len(body):
            c = dict(c, damage="none")
        out.append(struct.pack(c["endian"] + "i", head) + body + struct.pack(c["endian"] + "i", tail))
        vals.append(v)
    return out, vals, c["damage"]


@check.sub(files(), 2500, 60000)
def records(c):
    from virgo.util.read_binary import BinaryFile
    d = paths.fresh_dir()
    try:
        recs, vals, dmg = build(c)
        blob = b"".join(recs)
        k = c["where"] % len(recs)
        step = c["delta"] if isinstance(c["delta"], int) else 3
        if dmg == "short":
            cut = sum(map(len, recs[:k + 1])) - 1 - (abs(step) % 4)
            blob = blob[:cut]
        # A reader that neither detects nor is told the byte order must reject records, unless they look the same
        right = c["start"] == c["endian"] or (c["start"] == "=" and c["endian"] == "<")
        fn = os.path.join(d, "x.dat")
        with open(fn, "wb") as g:
            g.write(blob)
        f = BinaryFile(fn)
        start = c["start"] if c["auto"] else c["endian"]
        f.set_endian(start)
        raised = False
        i = -1
        try:
            for i, rec in enumerate(c["recs"]):
                f.start_fortran_record(auto_byteswap=c["auto"])
                for j, (dt, n) in enumerate(rec):
                    f.add_dataset("R%d/D%d" % (i, j), dt, (n,))
                if dmg == "layout" and i == k:
                    f.skip_bytes(abs(step))
                f.end_fortran_record()
        except IOError:
            raised = True
        if dmg != "none":
            ck(raised, "damaged record %d (%s) was accepted" % (k, dmg))
            ck(i <= k, "damage in record %d only noticed in record %d" % (k, i))
            ck(i == k, "undamaged record %d rejected" % i)
            return True
        ck(not raised, "valid record %d rejected" % i)
        # byte order is settled by the first record whose length is not palindromic
        lens = [sum(np.dtype(dt).itemsize * n for dt, n in rec) for rec in c["recs"]]
        settled = any(struct.pack("<i", m) != struct.pack(">i", m) for m in lens)
        if not c["auto"] or right or settled:
            for i, rec in enumerate(c["recs"]):
                for j, (dt, n) in enumerate(rec):
                    got = f["R%d/D%d" % (i, j)][...]
                    ck(got.dtype == np.dtype(dt), "dtype")
                    eq(got, vals[i][j], "record %d item %d" % (i, j))
        ck(f.all_bytes_used() or not blob, "record markers and data should cover the file")
        f.close()
        return c["auto"] and not right
    finally:
        paths.drop(d)


@check.sub(st.tuples(st.booleans(), st.sampled_from(["start", "end"]), st.sampled_from([65535, 65536, 70000, 66000])), 60, 400)
def misuse(c):
    """Nested or unmatched record calls, and automatic byte order for records too long for it, are errors."""
    from virgo.util.read_binary import BinaryFile
    swapped, which, n = c
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "x.dat")
        m = struct.pack(">i" if swapped else "<i", n)
        with open(fn, "wb") as g:
            g.write(m + b"x" * n + m)
        f = BinaryFile(fn)
        if which == "end":
            must_raise(IOError, f.end_fortran_record)
        f.start_fortran_record(auto_byteswap=True)
        if which == "start":
            must_raise(IOError, f.start_fortran_record)
        f.add_dataset("x", "u1", (n,))
        if n > 65535:
            must_raise(IOError, f.end_fortran_record)
        else:
            f.end_fortran_record()
            must_raise(IOError, f.end_fortran_record)
        f.close()
        f = BinaryFile(fn)
        f.enable_byteswap(swapped)
        f.start_fortran_record()
        f.add_dataset("x", "u1", (n,))
        f.end_fortran_record()
        ck(f.all_bytes_used(), "long record not covered")
        f.close()
        return True
    finally:
        paths.drop(d)
