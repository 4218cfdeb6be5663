"""P15: assign_ranges and sum_ranges."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt.util import check as ck, eq

check = Check("P15", quick_scale=5, shards=6, rule=(
    "Sorted non-overlapping ranges with gaps, zero-length ranges and 0..8 ranges over 1-3 dimensional integer/float arrays, "
    "any offset integer type, weights, dtype and normalisation; exactly representable values. (small values, or values near the limits of the input type with a wider result type). Oracle: a loop over the "
    "ranges. Non-trivial: at least two non-empty ranges."))


@st.composite
def ranges(draw):
    nr = draw(st.integers(0, 8))
    off, length, pos = [], [], 0
    for _ in range(nr):
        pos += draw(st.sampled_from([0, 0, 1, 3]))
        m = draw(st.sampled_from([0, 1, 2, 5]))
        off.append(pos)
        length.append(m)
        pos += m
    n = pos + draw(st.sampled_from([0, 0, 1, 4]))
    return {"off": off, "len": length, "n": n, "inner": draw(st.sampled_from([[], [], [3], [2, 2], [1]])),
            "idt": draw(st.sampled_from(["int64", "int32", "uint32", "uint64", "list", "int16"])),
            "dtype": draw(st.sampled_from(["int32", "int64", "float32", "float64", "uint8", "int16"])),
            "seed": draw(st.integers(0, 1000))}


def idx(c, k):
    return c[k] if c["idt"] == "list" else np.array(c[k], dtype=c["idt"])


@check.sub(ranges(), 1500, 40000)
def assign(c):
    from virgo.util.ranges import assign_ranges
    rng = np.random.default_rng(c["seed"])
    nr = len(c["off"])
    arr = rng.integers(0, 100, [c["n"]] + c["inner"]).astype(c["dtype"])
    val = rng.integers(100, 200, [nr] + c["inner"]).astype(c["dtype"])
    want = arr.copy()
    for o, l, v in zip(c["off"], c["len"], val):
        want[o:o + l] = v
    keep = val.copy()
    assign_ranges(arr, idx(c, "off"), idx(c, "len"), val)
    eq(arr, want, "array after assign_ranges")
    eq(val, keep, "values")
    return sum(1 for l in c["len"] if l) >= 2


@st.composite
def sums(draw):
    c = draw(ranges())
    c["calc"] = draw(st.sampled_from([None, None, "int64", "float64", "float32"]))
    c["weight"] = draw(st.sampled_from([None, None, "int32", "float64"]))
    c["normalize"] = draw(st.booleans())
    if c["normalize"] and (c["calc"] or c["dtype"])[0] != "f":
        c["calc"] = "float64"
    # values which need the requested type's precision and range (a sum in single precision is only exact for small ones)
    c["big"] = "float32" not in (c["calc"], None if c["calc"] else c["dtype"]) and draw(st.booleans())
    return c


@check.sub(sums(), 3000, 80000)
def summed(c):
    from virgo.util.ranges import sum_ranges
    rng = np.random.default_rng(c["seed"])
    arr = rng.integers(0, 20, [c["n"]] + c["inner"]).astype(c["dtype"])
    if c["big"]:
        top = min(2 ** 30, np.iinfo(c["dtype"]).max) if c["dtype"][0] in "iu" else 2 ** 24
        arr = rng.integers(0, 2, arr.shape) * int(top) + rng.integers(-3 if c["dtype"][0] != "u" else 0, 1, arr.shape)
        arr = np.clip(arr, 0 if c["dtype"][0] == "u" else None, top).astype(c["dtype"])
    w = None if c["weight"] is None else rng.integers(1, 5, c["n"]).astype(c["weight"])
    out = sum_ranges(arr, idx(c, "off"), idx(c, "len"), dtype=c["calc"], weight=w, normalize=c["normalize"])
    dt = np.dtype(c["calc"] or c["dtype"])
    ck(out.dtype == dt, "result has dtype %s, expected %s" % (out.dtype, dt))
    ck(list(out.shape) == [len(c["off"])] + c["inner"], "result has shape %r" % (out.shape,))
    for i, (o, l) in enumerate(zip(c["off"], c["len"])):
        ww = np.ones(l) if w is None else w[o:o + l].astype(float)
        tot = np.zeros(c["inner"])                      # small whole numbers: exact in double precision
        for j in range(l):
            tot = tot + arr[o + j].astype(float) * ww[j]
        got = np.asarray(out[i]).astype(float)
        if c["normalize"] and l:
            ok = np.all(np.abs(got - tot / ww.sum()) <= (1e-6 if dt == np.float32 else 1e-12) * (1 + np.abs(got)))
        else:
            if dt.kind in "iu":                         # wraps round like any integer sum of this type
                tot = tot.astype("int64").astype(dt).astype(float)
            ok = np.all(got == tot)
        ck(bool(ok), "sum over range %d (%d,%d): got %r, expected %r" % (i, o, l, out[i], tot))
    event("weighted" if w is not None else "plain")
    return sum(1 for l in c["len"] if l) >= 2


@check.sub(ranges(), 500, 10000)
def bad_input_rejected(c):
    """Mismatched or overlapping ranges raise ValueError and leave the array alone."""
    from virgo.util.ranges import assign_ranges
    nr = len(c["off"])
    arr = np.zeros([c["n"]], dtype="int64")
    for args in ((c["off"] + [0], c["len"], [1] * nr), (c["off"], c["len"] + [1], [1] * nr),
                 (c["off"], c["len"], [1] * (nr + 1))):
        try:
            assign_ranges(arr, *args)
        except ValueError:
            pass
        else:
            raise AssertionError("inconsistent arguments accepted")
    eq(arr, np.zeros(c["n"]), "array after rejected call")
    return nr >= 2
