"""P16: Peano-Hilbert keys."""
import ctypes, os, subprocess
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.util import check as ck, eq

_lib = {}


def c_lib():
    """The Millennium example's own C implementation, as an independent reference."""
    if "lib" not in _lib:
        src = os.path.join(paths.REPO, "examples/millennium/fortran/peano_keys.c")
        so = os.path.join(paths.scratch(), "libpeano.so")
        try:
            subprocess.run(["/usr/bin/gcc", "-w", "-O1", "-shared", "-fPIC", "-o", so, src], check=True, timeout=100,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            lib = ctypes.CDLL(so)
            lib.peano_hilbert_key_.restype = ctypes.c_int
            _lib["lib"] = lib
        except (OSError, subprocess.SubprocessError):
            _lib["lib"] = None
    return _lib["lib"]


check = Check("P16", quick_scale=5, shards=6, rule=(
    "1..20 bits per dimension, cell coordinates random / at corners, arrays of 0..~25000 elements crossing the internal "
    "10000-element blocks, scalars, several integer types; particle positions in boxes of any size. Oracle: bijection and "
    "inverse, complete enumeration of the curve for <= 4 bits (consecutive keys are adjacent cells), nesting of coarser "
    "keys, and the C implementation shipped with the examples. Non-trivial: at least 8 distinct cells or > 1 block."))


@st.composite
def coords(draw):
    bits = draw(st.sampled_from([1, 2, 3, 5, 8, 10, 13, 16, 20]) | st.integers(1, 20))
    n = draw(st.sampled_from([0, 1, 8, 50, 8, 50]))
    if draw(st.integers(0, 40)) == 40:
        n = draw(st.sampled_from([9999, 10000, 10001, 20000, 25001]))
    return {"bits": bits, "n": n, "seed": draw(st.integers(0, 10 ** 6)), "corner": draw(st.booleans()),
            "idt": draw(st.sampled_from(["int32", "int64", "uint32", "int64"])),
            "kdt": draw(st.sampled_from(["int64", "uint64"]))}


def cells(c):
    rng = np.random.default_rng(c["seed"])
    m = (1 << c["bits"]) - 1
    x = rng.integers(0, m, (3, c["n"]), endpoint=True)
    if c["corner"] and c["n"]:
        x = np.where(rng.integers(0, 2, x.shape) == 0, x, rng.choice([0, m, m // 2, m // 2 + 1], x.shape))
    return [a.astype(c["idt"]) for a in x]


@check.sub(coords(), 800, 20000)
def inverse(c):
    from virgo.util import peano
    x, y, z = cells(c)
    keep = [a.copy() for a in (x, y, z)]
    key = peano.peano_hilbert_keys(x, y, z, c["bits"])
    for a, b in zip(keep, (x, y, z)):
        eq(b, a, "coordinates (must not change)")
    ck(key.shape == x.shape and key.dtype.kind == "i" and key.dtype.itemsize == 8, "key array")
    ck(np.all((key >= 0) & (key < (1 << (3 * c["bits"])))), "key out of range")
    xi, yi, zi = peano.peano_hilbert_key_inverses(key.astype(c["kdt"]) if c["bits"] < 20 else key, c["bits"])
    for a, b, nm in ((x, xi, "x"), (y, yi, "y"), (z, zi, "z")):
        eq(b, a, nm + " from key")
    # Coarser keys are prefixes of finer ones
    if c["bits"] > 1:
        eq(peano.peano_hilbert_keys(x >> 1, y >> 1, z >> 1, c["bits"] - 1), key >> 3, "coarse key")
    # The block functions and scalars agree
    eq(peano.peano_hilbert_keys_block(x, y, z, c["bits"]), key, "block keys")
    for i in range(min(2, c["n"])):
        k = peano.peano_hilbert_keys_block(int(x[i]), int(y[i]), int(z[i]), c["bits"])
        ck(int(k) == int(key[i]), "scalar key %r, array key %r" % (k, key[i]))
        v = peano.peano_hilbert_key_inverses_block(int(key[i]), c["bits"])
        ck([int(t) for t in v] == [int(x[i]), int(y[i]), int(z[i])], "scalar inverse %r" % (v,))
    event("blocks" if c["n"] > 9000 else "single block")
    return c["n"] >= 8 and c["bits"] > 1


@check.sub(coords(), 300, 8000)
def curve(c):
    """Neighbouring keys are neighbouring cells, starting from any key."""
    from virgo.util import peano
    rng = np.random.default_rng(c["seed"])
    n = 1 << (3 * c["bits"])
    k0 = int(rng.integers(0, n))
    if c["corner"]:
        k0 = (k0 >> (3 * (c["bits"] // 2))) << (3 * (c["bits"] // 2))
    lo, hi = max(0, k0 - 70), min(n, k0 + 70)
    key = np.arange(lo, hi, dtype=c["kdt"] if c["bits"] < 20 else "int64")
    x = np.array(peano.peano_hilbert_key_inverses(key, c["bits"]), dtype=np.int64)
    ck(np.all((x >= 0) & (x < (1 << c["bits"]))), "cell outside grid")
    ck(np.all(np.abs(np.diff(x, axis=1)).sum(axis=0) == 1), "consecutive keys are not adjacent cells near key %d" % k0)
    eq(peano.peano_hilbert_keys(x[0], x[1], x[2], c["bits"]), key.astype("int64"), "keys from inverse")
    return c["bits"] > 1


@check.sub(st.sampled_from([1, 2, 3, 4, 5]), 3, 5, examples=[1, 2, 3, 4, 5])
def whole_curve(bits):
    """Complete enumeration of small grids: every cell exactly once."""
    from virgo.util import peano
    n = 1 << (3 * bits)
    x = np.array(peano.peano_hilbert_key_inverses(np.arange(n), bits), dtype=np.int64)
    flat = (x[0] << (2 * bits)) | (x[1] << bits) | x[2]
    eq(np.sort(flat), np.arange(n), "cells visited")
    ck(np.all(np.abs(np.diff(x, axis=1)).sum(axis=0) == 1), "curve is not continuous")
    g = np.indices((1 << bits,) * 3).reshape(3, -1)
    key = peano.peano_hilbert_keys(g[0], g[1], g[2], bits)
    eq(np.sort(key), np.arange(n), "keys of all cells")
    eq(x[:, key], g, "key then cell")
    return True


@check.sub(coords(), 300, 8000)
def c_reference(c):
    """Same keys as the C code distributed for reading the Millennium snapshots."""
    from virgo.util import peano
    lib = c_lib()
    if lib is None:
        return False
    c = dict(c, n=min(c["n"], 50), bits=(c["bits"] - 1) % 10 + 1)      # the C keys are 32 bit
    x, y, z = cells(c)
    key = peano.peano_hilbert_keys(x, y, z, c["bits"])
    I = ctypes.c_int
    for i in range(c["n"]):
        k = lib.peano_hilbert_key_(ctypes.byref(I(int(x[i]))), ctypes.byref(I(int(y[i]))), ctypes.byref(I(int(z[i]))),
                                   ctypes.byref(I(c["bits"])))
        ck(k == int(key[i]), "cell (%d,%d,%d): python key %d, C key %d" % (x[i], y[i], z[i], key[i], k))
    return c["n"] >= 8


@st.composite
def positions(draw):
    c = draw(coords())
    c["box"] = draw(st.sampled_from([1.0, 500.0, 62.5, 100, 3000.0, 0.1]))
    c["pdt"] = draw(st.sampled_from(["float32", "float64", "float64"]))
    return c


@check.sub(positions(), 300, 8000)
def from_positions(c):
    """A particle's key is that of the cell containing it."""
    from virgo.util import peano
    rng = np.random.default_rng(c["seed"])
    x = np.array(cells(c)).T.astype("int64")
    frac = rng.uniform(0.2, 0.8, x.shape)
    if c["pdt"] == "float32" and c["bits"] > 16:
        c = dict(c, pdt="float64")
    size = float(c["box"]) / (1 << c["bits"])
    pos = ((x + frac) * size).astype(c["pdt"])
    key = peano.peano_hilbert_keys_from_coords(pos, c["box"], c["bits"])
    eq(key, peano.peano_hilbert_keys(x[:, 0], x[:, 1], x[:, 2], c["bits"]), "keys from positions")
    return c["n"] >= 8
