"""Operations executed on every MPI rank: op(comm, payload) -> picklable result."""
import os
import numpy as np


def _comm(comm, p):
    """Some cases leave the communicator to the default (COMM_WORLD)."""
    return None if p.get("default_comm") else comm


def _wrap(a, how):
    """ndarray subclasses which the package itself produces or is documented to work with."""
    if how == "unyt":
        import unyt
        return unyt.unyt_array(a, "kg")
    if how == "attr":
        from virgo.mpi.parallel_hdf5 import AttributeArray
        return AttributeArray(a, attrs={"x": 1})
    return a


def relayout(a, how):
    """Same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    return a


def _unwrap(a, how):
    """(plain array, was the wrapper kept)"""
    if how == "unyt":
        import unyt
        return np.array(a), isinstance(a, unyt.unyt_array) and a.units == unyt.kg
    if how == "attr":
        from virgo.mpi.parallel_hdf5 import AttributeArray
        return np.array(a), isinstance(a, AttributeArray)
    return a, True


def echo(comm, p):
    return (comm.Get_rank(), comm.Get_size(), comm.allreduce(1), p)


def parallel_sort(comm, p):
    import virgo.mpi.parallel_sort as ps
    arr = _wrap(p["arr"], p["wrap"])
    idx = ps.parallel_sort(arr, return_index=p["index"], comm=_comm(comm, p), verbose=p["verbose"])
    arr = np.array(arr)
    fetched = None
    if p["index"]:
        fetched = ps.fetch_elements(p["orig"], idx, comm=_comm(comm, p))
    return arr, idx, fetched


def alltoallv(comm, p):
    import virgo.mpi.parallel_sort as ps
    recv = p["recv"]
    ps.my_alltoallv(p["send"], p["sc"], p["so"], recv, p["rc"], p["ro"], comm=_comm(comm, p), method=p["method"])
    return recv, p["send"]


def sendrecv_ring(comm, p):
    """Pairwise sendrecv between rank and its partner."""
    import virgo.mpi.parallel_sort as ps
    if p["dest"] is not None:
        ps.sendrecv(p["dest"], p["send"], p["recv"], comm=_comm(comm, p), nchunk=p["nchunk"])
    return p["recv"]


def repartition(comm, p):
    import virgo.mpi.parallel_sort as ps
    arr = _wrap(relayout(p["arr"], p["layout"]), p["wrap"])
    out = ps.repartition(arr, p["ndesired"], comm=_comm(comm, p))
    out, kept = _unwrap(out, p["wrap"])
    return out, np.array(arr), kept


def gather(comm, p):
    from virgo.mpi.gather_array import gather_array, allgather_array
    c = _comm(comm, p)
    a = p["arr"]
    p["arr"] = relayout(a, p["layout"])
    if p["all"]:
        if p["root"] is None:
            return allgather_array(p["arr"], comm=c, axis=p["axis"])
        return gather_array(p["arr"], root=None, comm=c, axis=p["axis"])
    return gather_array(p["arr"], root=p["root"], comm=c, axis=p["axis"])


def fetch(comm, p):
    import virgo.mpi.parallel_sort as ps
    arr = _wrap(relayout(p["arr"], p["layout"]), p["wrap"])
    if p["result"] is not None:
        p["result"] = relayout(p["result"], p["rlayout"])
    out = ps.fetch_elements(arr, p["index"], result=p["result"], comm=_comm(comm, p))
    if p["result"] is not None:
        return p["result"], out is None, np.array(arr), p["index"]
    out, kept = _unwrap(out, p["wrap"])
    return out, kept, np.array(arr), p["index"]


def match(comm, p):
    import virgo.mpi.parallel_sort as ps
    c = _comm(comm, p)
    a1, a2 = p["arr1"], p["arr2"]
    if p["presort"]:
        a2 = a2.copy()
        ps.parallel_sort(a2, comm=c)
        return ps.parallel_match(a1, a2, arr2_sorted=True, comm=c), a1, a2
    return ps.parallel_match(a1, a2, comm=c), a1, a2


def unique(comm, p):
    import virgo.mpi.parallel_sort as ps
    c = _comm(comm, p)
    a = _wrap(p["arr"], p["wrap"])
    if p["presort"]:
        ps.parallel_sort(a, comm=c)
    r = ps.parallel_unique(a, comm=c, arr_sorted=p["presort"], return_counts=p["return_counts"],
                           repartition_output=p["repartition"])
    if not p["return_counts"]:
        r = (r, None)
    u, kept = _unwrap(r[0], p["wrap"])
    return u, r[1], np.array(a), kept


def reduce(comm, p):
    import virgo.mpi.parallel_sort as ps
    from mpi4py import MPI
    ops = {"np.add": np.add, "np.maximum": np.maximum, "np.minimum": np.minimum, "np.multiply": np.multiply,
           "np.bitwise_or": np.bitwise_or,
           "MPI.SUM": MPI.SUM, "MPI.MAX": MPI.MAX, "MPI.MIN": MPI.MIN, "MPI.PROD": MPI.PROD, "MPI.BOR": MPI.BOR}
    arr = relayout(p["arr"], p["layout"])
    ps.reduce_elements(arr, relayout(p["updates"], p["layout"]), p["index"], ops[p["op"]], comm=_comm(comm, p))
    return arr


def bincount(comm, p):
    import virgo.mpi.parallel_sort as ps
    r = p["result"]
    out = ps.parallel_bincount(p["x"], weights=p["weights"], minlength=p["minlength"], result=r, comm=_comm(comm, p))
    return out, (r if r is not None else None)


def group_index(comm, p):
    from virgo.mpi.util import group_index_from_length_and_offset as f
    out = f(p["length"], p["offset"], p["nids"], return_rank=p["return_rank"], comm=_comm(comm, p))
    if not p["return_rank"]:
        out = (out, None)
    return out


def none_to_zero(comm, p):
    from virgo.mpi.util import replace_none_with_zero_size as f
    return f(p["arr"], comm=_comm(comm, p))


def match_halos(comm, p):
    from virgo.mpi.merger_tree import match_halos as f
    return f(p["grnr1"], p["ids1"], p["grnr2"], p["ids2"], p["nhalo"], comm=_comm(comm, p))


def consistent(comm, p):
    from virgo.mpi.merger_tree import consistent_match as f
    return f(p["m12"], p["m21"], comm=_comm(comm, p))


def match_both(comm, p):
    from virgo.mpi.merger_tree import match_halos, consistent_match
    c = _comm(comm, p)
    m12 = match_halos(p["grnr1"], p["ids1"], p["grnr2"], p["ids2"], p["nhalo1"], comm=c)
    m21 = match_halos(p["grnr2"], p["ids2"], p["grnr1"], p["ids1"], p["nhalo2"], comm=c)
    return m12, m21, consistent_match(m12, m21, comm=c)


def big_move(comm, p):
    """Move more than one internal chunk (100MB) between ranks; verified where the data is."""
    import virgo.mpi.parallel_sort as ps
    rank, size = comm.Get_rank(), comm.Get_size()
    item = p["itemsize"]
    dt = np.dtype([("x", "u1", (item,))]) if item > 8 else np.dtype("u%d" % item)

    def pattern(first, num):
        if item > 8:
            a = np.zeros(num, dtype=dt)
            v = a.view("u1").reshape(num, item)
            g = (np.arange(first, first + num) % 251).astype("u1")
            v[:, 0] = g
            v[:, item // 2] = g + 1
            v[:, item - 1] = g + 2
            return a
        return (np.arange(first, first + num, dtype=np.int32) % 251).astype(dt)
    nin = p["nin"]
    nout = p["nout"]
    first = sum(nin[:rank])
    a = pattern(first, nin[rank])
    if p["what"] == "repartition":
        out = ps.repartition(a, nout, comm=comm)
        want = pattern(sum(nout[:rank]), nout[rank])
    elif p["what"] == "sendrecv":
        dest = size - 1 - rank
        out = np.zeros(nin[dest], dtype=dt)
        ps.sendrecv(dest, a, out, comm=comm)
        want = pattern(sum(nin[:dest]), nin[dest])
    else:
        # async: everything shifts to the next rank
        dest, src = (rank + 1) % size, (rank - 1) % size
        sc = np.zeros(size, dtype=int); sc[dest] = nin[rank]
        rc = np.zeros(size, dtype=int); rc[src] = nin[src]
        z = np.zeros(size, dtype=int)
        out = np.zeros(nin[src], dtype=dt)
        ps.my_alltoallv(a, sc, z, out, rc, z, comm=comm, method=p["what"])
        want = pattern(sum(nin[:src]), nin[src])
    return out.shape == want.shape and out.tobytes() == want.tobytes()


def coll_write(comm, p):
    import h5py
    from virgo.mpi.parallel_hdf5 import collective_write
    with h5py.File(p["file"], "w", driver="mpio", comm=comm) as f:
        loc = f.create_group(p["group"]) if p["group"] else f
        if not p["create"]:
            loc.create_dataset(p["name"], shape=p["full_shape"], dtype=p["data"].dtype)
        kw = {} if p["create"] else {"create_dataset": False}
        kw.update(p["extra"])
        data = relayout(p["data"], p["layout"])
        ds = collective_write(loc, p["name"], data, comm, buffer_size=p["buffer"], **kw)
        shape = tuple(ds.shape)
    return shape


def coll_read(comm, p):
    import h5py
    from virgo.mpi.parallel_hdf5 import collective_read
    with h5py.File(p["file"], "r", driver="mpio", comm=comm) as f:
        return collective_read(f[p["name"]], comm, buffer_size=p["buffer"])


def _multifile(comm, p):
    from virgo.mpi.parallel_hdf5 import MultiFile
    return MultiFile(p["files"], comm=comm, **p["kw"])


def mf_read(comm, p):
    mf = _multifile(comm, p)
    for kw in p.get("before", []):      # other uses of the same object make no difference
        mf.read(**kw)
        mf.get_elements_per_file(p["datasets"] if isinstance(p["datasets"], str) else p["datasets"][0], group=kw["group"])
    r = mf.read(p["datasets"], **p["read_kw"])
    fn = None
    if p["read_kw"].get("return_file_nr") not in (None, False):
        r, fn = r

    def conv(a):
        if a is None:
            return None
        at = getattr(a, "attrs", None)
        return np.array(a), (dict(at) if at is not None else None), a.dtype.isnative
    if isinstance(r, dict):
        r = {k: conv(v) for k, v in r.items()}
    elif isinstance(r, list):
        r = [conv(v) for v in r]
    else:
        r = conv(r)
    return r, fn


def mf_round_trip(comm, p):
    mf = _multifile(comm, p)
    data = mf.read(p["datasets"], group=p["group"])
    epf = mf.get_elements_per_file(p["datasets"][0], group=p["group"])
    data = {k: v for k, v in data.items() if v is not None}
    extra = None
    if p["derived"] and data:
        first = data[p["datasets"][0]]
        data["Derived"] = np.arange(len(first), dtype=np.int64) * 0 + first[(slice(None),) + (0,) * (first.ndim - 1)].astype(np.int64)
    extra = dict(p["extra"])
    if extra.pop("dcpl", None):
        import h5py
        extra["dcpl"] = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        extra["dcpl"].set_obj_track_times(False)
    if data and p.get("twice"):         # the arrays one by one
        mode = p["mode"]
        for k in data:
            mf.write({k: data[k]}, epf, p["out"], mode, group=p["outgroup"], attrs=p["attrs"], **extra)
            mode = "r+"
    elif data:
        mf.write(data, epf, p["out"], p["mode"], group=p["outgroup"], attrs=p["attrs"], **extra)
    return sorted(data), {int(k): int(v) for k, v in epf.items()}


def commas(s):
    return tuple(int(x) for x in s.split(","))


def arg_types():
    import pathlib
    return {"int": int, "float": float, "str": str, "path": pathlib.Path, "complex": complex, "commas": commas, "bytes": str.encode}


def parse_args(comm, p):
    """Run MPIArgumentParser with this rank's own argument list."""
    import sys, io, mpi4py.MPI as M
    from virgo.mpi.util import MPIArgumentParser
    conv = arg_types()
    old = sys.argv, sys.stderr, sys.stdout, M.Finalize, os.environ.get("COLUMNS")
    called = []
    err, out = io.StringIO(), io.StringIO()
    try:
        # MPI must survive for the next case: record the call instead
        M.Finalize = lambda: called.append(1)
        sys.stderr, sys.stdout = err, out
        sys.argv = ["prog"] + p["argv"]
        parser = MPIArgumentParser(comm, prog="prog", description="test")
        for names, kw in p["spec"]:
            kw = dict(kw)
            if "type" in kw:
                kw["type"] = conv[kw["type"]]
            parser.add_argument(*names, **kw)
        try:
            ns = parser.parse_args(p["argv"]) if p["explicit"] else parser.parse_args()
            res = ("ok", vars(ns))
        except SystemExit as e:
            res = ("exit", e.code)
    finally:
        sys.argv, sys.stderr, sys.stdout, M.Finalize = old[:4]
    return res, len(called), err.getvalue(), out.getvalue()


class Aborted(BaseException):
    """Raised by the stand-in for MPI_Abort, which never returns."""


def stand_in(comm):
    """The communicator `comm` as COMM_WORLD, with an Abort which does not take the pool down."""
    from mpi4py import MPI
    calls = []

    class World(MPI.Intracomm):
        def Abort(self, errorcode=0):
            calls.append(errorcode)
            raise Aborted(errorcode)
    return World(comm), calls


EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "IOError": OSError, "KeyError": KeyError,
       "MemoryError": MemoryError, "AssertionError": AssertionError, "StopIteration": StopIteration,
       "UnicodeError": UnicodeError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError,
       "Exception": Exception}


def errchk(comm, p):
    """Call a decorated function; report what it returned, what it was given and whether the job was aborted."""
    import sys, io, importlib
    from mpi4py import MPI
    import virgo.mpi.errchk as module
    world, aborts = stand_in(comm)
    keep = MPI.COMM_WORLD
    try:
        MPI.COMM_WORLD = world
        mpi_errchk = importlib.reload(module).mpi_errchk
    finally:
        MPI.COMM_WORLD = keep
    given = []
    value = object()

    def inner(*args, **kwargs):
        given.append((args, kwargs))
        if p["exc"] is not None:
            raise EXC[p["exc"]](*p["excargs"])
        return value if p["value"] == "object" else p["value"]
    f = inner
    for _ in range(p["nested"]):
        f = mpi_errchk(f)
    if p["method"]:
        class C:
            go = f
        obj = C()
        call = obj.go
    else:
        obj, call = None, f
    old = MPI.COMM_WORLD, sys.stdout, sys.stderr
    err, out = io.StringIO(), io.StringIO()
    result = None
    try:
        MPI.COMM_WORLD, sys.stderr, sys.stdout = world, err, out
        results = []
        for _ in range(p["times"]):
            r = call(*p["args"], **p["kwargs"])
            results.append("same" if r is value else ("value", r))
        result = ("returned", results)
    except Aborted:
        result = ("aborted",)
    except BaseException as e:
        result = ("raised", type(e).__name__, str(e))
    finally:
        MPI.COMM_WORLD, sys.stdout, sys.stderr = old
    if p["method"]:
        ok = all(a and a[0] is obj for a, k in given)
        given = [(a[1:], k) for a, k in given] if ok else "self was not passed"
    return result, given, aborts, err.getvalue(), out.getvalue()


def script(comm, p):
    """Run a script as a program on the ranks of comm."""
    import sys, io, runpy
    from mpi4py import MPI
    world, aborts = stand_in(comm)
    old = MPI.COMM_WORLD, MPI.Finalize, sys.stdout, sys.stderr, sys.argv, os.getcwd()
    err, out = io.StringIO(), io.StringIO()
    finalized = []
    try:
        MPI.COMM_WORLD, MPI.Finalize = world, lambda: finalized.append(1)
        sys.stdout, sys.stderr, sys.argv = out, err, [p["script"]] + list(p["argv"])
        os.chdir(p["cwd"])
        try:
            runpy.run_path(p["script"], run_name="__main__")
            res = ("done",)
        except Aborted:
            res = ("aborted",)
        except SystemExit as e:
            res = ("exit", e.code)
    finally:
        os.chdir(old[5])
        MPI.COMM_WORLD, MPI.Finalize, sys.stdout, sys.stderr, sys.argv = old[:5]
    if res[0] == "aborted":
        # the other ranks may be waiting for this one
        raise RuntimeError("job aborted: " + err.getvalue() + out.getvalue())
    return res, out.getvalue(), err.getvalue(), len(finalized)
