"""P44: sort_index of the Millennium Fortran routines."""
import ctypes, os, subprocess
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import millennium as ml, paths
from vt.util import check as ck, eq

TYPES = {"real4": ("real*4", "f4"), "real8": ("real*8", "f8"), "int4": ("integer*4", "i4"), "int8": ("integer*8", "i8"),
         "string": ("character(len=slen)", None)}
_lib = []


def source():
    out = []
    for t, (decl, _) in TYPES.items():
        for k in (4, 8):
            out.append("""
subroutine w_%s_%d(arr, n, m, idx, stride, slen)
  use sort
  implicit none
  integer, intent(in) :: n, m, stride, slen
  %s :: arr(stride*n)
  integer*%d :: idx(stride*m)
  if(stride.eq.1)then
     call sort_index(arr, idx)
  else
     call sort_index(arr(1::stride), idx(1::stride))
  endif
end subroutine
""" % (t, k, decl, k))
    return "".join(out)


def build():
    d = paths.fresh_dir("sort")
    with open(os.path.join(d, "w.f90"), "w") as f:
        f.write(source())
    lib = os.path.join(d, "libsort.so")
    r = subprocess.run(["/usr/bin/gfortran", "-g", "-O2", "-w", "-fPIC", "-shared", "-o", lib, ml.source("sort.f90", d), "w.f90"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ck(r.returncode == 0, "sort.f90 does not compile: " + r.stdout.decode(errors="replace")[-2000:])
    _lib[:] = [ctypes.CDLL(lib)]


check = Check("P44", quick_scale=4, shards=6, setup=build, rule=(
    "Arrays of every supported type (4 and 8 byte reals and integers, strings of 0-40 characters) with 0-6000 elements (clustered around the switch from "
    "shell to heap sort and powers of two), with few or many distinct values, sorted, reversed, extreme and infinite, contiguous or strided, indexed with 4 or 8 "
    "byte integers, index array longer than necessary or too short. Oracle: numpy. Non-trivial: more than two elements, unsorted, with ties."))


@check.probe
def sort_compiles():
    ml.compiles([], "sort.f90")


@st.composite
def arrays(draw):
    t = draw(st.sampled_from(sorted(TYPES)))
    n = draw(st.one_of(st.integers(0, 12), st.integers(90, 130), st.sampled_from([31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 4096, 6000]),
                       st.integers(0, 700)))
    c = {"type": t, "idx": draw(st.sampled_from([4, 8])), "n": n, "stride": draw(st.sampled_from([1, 1, 2, 3])), "seed": draw(st.integers(0, 10 ** 6)),
         "more": draw(st.sampled_from([0, 0, 0, 1, 50])), "slen": draw(st.sampled_from([0, 1, 2, 7, 40])),
         "kind": draw(st.sampled_from(["any", "few", "sorted", "reversed", "same", "extreme", "organ", "swap"]))}
    if n <= 12:
        c["values"] = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    return c


def values(c):
    rng = np.random.default_rng(c["seed"])
    n, t = c["n"], c["type"]
    if t == "string":
        dt = np.dtype("S%d" % max(1, c["slen"]))
        if "values" in c:
            b = [(b"%d" % v).ljust(c["slen"])[:c["slen"]] for v in c["values"]]
        else:
            alpha = np.frombuffer(b"ab" if c["kind"] == "few" else b" !AZaz09_\xe4\xff\x01", dtype="u1")
            b = [bytes(alpha[rng.integers(0, len(alpha), c["slen"])]) for _ in range(n)]
            if c["kind"] == "same":
                b = [b[0]] * n
        a = np.zeros((n, c["slen"]), dtype="u1")
        for i, x in enumerate(b):
            a[i] = np.frombuffer(x, dtype="u1") if c["slen"] else a[i]
        order = None
        if c["kind"] in ("sorted", "reversed"):
            order = sorted(range(n), key=lambda i: a[i].tobytes(), reverse=c["kind"] == "reversed")
            a = a[order]
        return a
    dt = np.dtype(TYPES[t][1])
    if "values" in c:
        a = np.array(c["values"])
        if c["kind"] == "extreme":
            top = np.iinfo(dt).max if dt.kind == "i" else np.inf
            a = np.where(a == 3, top, np.where(a == -3, -top, a))
        return a.astype(dt)
    if dt.kind == "f":
        a = rng.standard_normal(n) * 10.0 ** rng.integers(-30, 30, n)
    else:
        ii = np.iinfo(dt)
        a = rng.integers(ii.min, ii.max, n, endpoint=True)
    if c["kind"] == "few":
        a = rng.integers(-4, 4, n)
    elif c["kind"] == "same":
        a = np.full(n, 7)
    elif c["kind"] == "extreme" and n:
        a[rng.integers(0, n, n // 3)] = np.inf if dt.kind == "f" else np.iinfo(dt).max
        a[rng.integers(0, n, n // 3)] = -np.inf if dt.kind == "f" else np.iinfo(dt).min
    a = a.astype(dt)
    if c["kind"] in ("sorted", "swap"):
        a = np.sort(a)
    if c["kind"] == "swap" and n > 1:
        i, j = rng.integers(0, n, 2)
        a[[i, j]] = a[[j, i]]
    if c["kind"] == "reversed":
        a = np.sort(a)[::-1].copy()
    if c["kind"] == "organ":
        a = np.concatenate([np.sort(a[::2]), np.sort(a[1::2])[::-1]])
    return a


def call(c, a, m):
    """Returns the index array after the call (with everything around it) and the array."""
    s = c["stride"]
    n = len(a)
    big = np.zeros((s * n + 4,) + a.shape[1:], dtype=a.dtype)
    big[:s * n:s] = a
    before = big.copy()
    idx = np.full(s * m + 4, -99, dtype="i%d" % c["idx"])
    f = getattr(_lib[0], "w_%s_%d_" % (c["type"], c["idx"]))
    p = [big.ctypes.data_as(ctypes.c_void_p)] + [ctypes.byref(ctypes.c_int(x)) for x in (n, m)] + [idx.ctypes.data_as(ctypes.c_void_p)]
    p += [ctypes.byref(ctypes.c_int(x)) for x in (s, c["slen"])]
    if c["type"] == "string":
        p.append(ctypes.c_size_t(c["slen"]))
    f(*p)
    eq(big, before, "array which was sorted through an index")
    return idx


@check.sub(arrays(), 3000, 150000)
def sorts(c):
    a = values(c)
    n, s, m = len(a), c["stride"], len(a) + c["more"]
    idx = call(c, a, m)
    eq(idx[s * m:], np.full(4, -99), "memory after the index array")
    for k in range(1, s):
        eq(idx[k:s * m:s], np.full(m, -99), "elements between those of a strided index array")
    i = idx[:s * n:s].astype("i8")
    eq(np.sort(i), np.arange(1, n + 1), "indexes returned")
    key = [x.tobytes() for x in a] if c["type"] == "string" else a
    bad = [k for k in range(1, n) if key[i[k - 1] - 1] > key[i[k] - 1]]
    ck(not bad, "element %r is out of order in %r" % (bad[:1], i[:20]))
    event("%s index %d" % (c["type"], c["idx"]))
    if n < 3:
        return False
    k = sorted(key)
    return any(key[j] > key[j + 1] for j in range(n - 1)) and any(k[j] == k[j + 1] for j in range(n - 1))


@check.sub(arrays(), 30, 400)
def too_small(c):
    """An index array which is too small has to be refused."""
    a = values(dict(c, kind="few"))
    if len(a) == 0:
        return False
    m = c["seed"] % len(a)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            call(dict(c, stride=1), a, m)
            os.write(w, b"returned")
        finally:
            os._exit(0)
    os.close(w)
    got = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    ck(got == b"", "sort_index accepted an index array with %d elements for %d values" % (m, len(a)))
    return False
