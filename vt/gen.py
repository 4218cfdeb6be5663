"""Shared Hypothesis strategies.  Every case is plain data (repr/eval round-trips)."""
import numpy as np
from hypothesis import strategies as st

INT_DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLOAT_DTYPES = ["float32", "float64"]


@st.composite
def comms(draw, max_n=8, pool=8):
    """Number of ranks and which world ranks (in which order) form the communicator."""
    n = draw(st.sampled_from([k for k in (2, 3, 1, 4, 5, 6, 7, 8) if k <= max_n]))
    style = draw(st.sampled_from(["id", "rev", "rot"]))
    if style == "id":
        order = list(range(n))
    elif style == "rev":
        order = list(range(n))[::-1]
    else:
        order = [(k + 3) % pool for k in range(n)]
    dflt = False
    if n == pool and style == "id":
        dflt = draw(st.booleans())
    return {"order": order, "default": dflt}


def counts(n, big=30):
    c = st.one_of(st.just(0), st.integers(0, 4), st.integers(0, big))
    return st.lists(c, min_size=n, max_size=n)


def values(dtype, mode):
    """Strategy for one element of the given dtype, as a python number."""
    dt = np.dtype(dtype)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if mode == "small":
            return st.integers(0, 4)
        if mode == "mid":
            return st.integers(max(int(info.min), -60), min(int(info.max), 60))
        if mode == "extreme":
            return st.sampled_from([int(info.min), int(info.min) + 1, 0, 1, int(info.max) - 1, int(info.max)])
        return st.integers(int(info.min), int(info.max))
    if mode == "small":
        return st.sampled_from([-0.5, 0.0, 0.5, 1.0, 1.5])
    if mode == "mid":
        return st.integers(-60, 60).map(lambda v: v * 0.25)
    if mode == "extreme":
        m = float(np.finfo(dt).max)
        return st.sampled_from([-np.inf, -m, -1.0, 0.0, float(np.finfo(dt).tiny), m, np.inf])
    return st.floats(allow_nan=False, width=dt.itemsize * 8)


MODES = ["small", "mid", "extreme", "wide"]


@st.composite
def distributed(draw, n, dtype, mode=None, big=30, bulk=True):
    """One list of values per rank; occasionally a bulk array described by a seed."""
    if mode is None:
        mode = draw(st.sampled_from(MODES))
    cnt = draw(counts(n, big))
    if bulk and draw(st.integers(0, 9)) == 9:
        seed = draw(st.integers(0, 10 ** 6))
        hi = draw(st.sampled_from([1, 3, 50, 10 ** 6]))
        mult = draw(st.sampled_from([1, 7, 40, 40, 1200]))
        return {"seed": seed, "hi": hi, "counts": [c * mult for c in cnt]}
    v = values(dtype, mode)
    return {"vals": [draw(st.lists(v, min_size=c, max_size=c)) for c in cnt]}


def expand(d, dtype):
    """numpy array per rank from a `distributed` case."""
    dt = np.dtype(dtype)
    if "vals" in d:
        return [np.array(v, dtype=dt) for v in d["vals"]]
    rng = np.random.default_rng(d["seed"])
    hi = d["hi"]
    if dt.kind in "iu":
        hi = min(hi, int(np.iinfo(dt).max))
    return [rng.integers(0, hi, c, endpoint=True).astype(dt) for c in d["counts"]]


def nranks_with_data(arrs):
    return sum(1 for a in arrs if len(a) > 0)
