"""P41: an exception on any rank stops the whole MPI job."""
import os, subprocess, sys, time
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi, paths
from vt.util import check as ck

check = Check("P41", quick_scale=1.5, shards=2, rule=(
    "Functions (and methods, nested decorators, repeated calls) returning or raising on any subset of 1-8 real MPI ranks, with arbitrary arguments, "
    "return values and exceptions (KeyboardInterrupt included); MPI_Abort replaced by a stand-in which records the call. In addition whole "
    "mpirun jobs in which one rank raises while the others wait in a collective, wait for a message, compute, or have finished. Oracle: without an "
    "exception the call is transparent and nothing is aborted; with one, the job is aborted exactly once with a non-zero status, the message and the "
    "failing rank are reported and no rank carries on. Non-trivial: some but not all ranks raise, or a whole job is stopped."))

EXC = ["ValueError", "KeyboardInterrupt", "IOError", "KeyError", "MemoryError", "AssertionError", "StopIteration", "UnicodeError",
       "ZeroDivisionError", "RuntimeError", "Exception"]
VALUES = st.one_of(st.sampled_from(["object", None, 0, False, "", 1.5, "text"]), st.lists(st.integers(-5, 5), max_size=3),
                   st.integers(), st.tuples(st.booleans(), st.just("x")))
MSG = st.sampled_from([[], [""], ["broken"], ["na\u00efve \u03b1"], ["100%s {0} %d"], ["two", 2], ["line 1\nline 2"]])


@st.composite
def cases(draw):
    c = draw(gen.comms())
    c["ranks"] = [{
        "exc": draw(st.one_of(st.none(), st.sampled_from(EXC))), "excargs": draw(MSG), "value": draw(VALUES),
        "nested": draw(st.sampled_from([1, 1, 1, 2])), "method": draw(st.booleans()),
        "times": draw(st.sampled_from([1, 1, 3])),
        "args": draw(st.lists(st.one_of(st.integers(), st.none(), st.text("ab", max_size=3)), max_size=4)),
        "kwargs": draw(st.dictionaries(st.sampled_from(["a", "b", "func", "args", "kwargs", "comm"]), st.integers(), max_size=3)),
    } for _ in c["order"]]
    return c


@check.sub(cases(), 500, 20000)
def call(c):
    out = mpi.pool().call("errchk", c["ranks"], c["order"])
    for r, (p, (res, given, aborts, err, text)) in enumerate(zip(c["ranks"], out)):
        want = (tuple(p["args"]), p["kwargs"])
        if p["exc"] is None:
            ck(res[0] == "returned", "rank %d: %r although nothing was raised" % (r, res))
            for v in res[1]:
                ck(v == "same" if p["value"] == "object" else (v == ("value", p["value"]) and type(v[1]) is type(p["value"])),
                   "rank %d returned %r, expected %r" % (r, v, p["value"]))
            ck(aborts == [], "rank %d aborted the job although nothing was raised" % r)
            ck(given == [want] * p["times"], "rank %d: function was called with %r, expected %r" % (r, given, [want] * p["times"]))
            ck(err == "" and text == "", "rank %d wrote %r" % (r, err + text))
        else:
            ck(res == ("aborted",), "rank %d raised %s but %r" % (r, p["exc"], res))
            ck(len(aborts) == 1 and isinstance(aborts[0], int) and aborts[0] % 256 != 0, "rank %d: Abort calls %r" % (r, aborts))
            ck(given == [want], "rank %d: function was called with %r, expected %r" % (r, given, want))
            said = err + text
            if p["excargs"]:
                for a in p["excargs"]:
                    ck(str(a).split("\n")[0] in said, "rank %d: the message %r is not in %r" % (r, a, said))
            ck(str(r) in said, "the failing rank %d is not named in %r" % (r, said))
            event("raised " + p["exc"])
    n = sum(p["exc"] is not None for p in c["ranks"])
    return 0 < n < len(c["ranks"])


JOB = '''
import os, sys, time
from mpi4py import MPI
from virgo.mpi.errchk import mpi_errchk
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
bad, what, exc, delay, where = int(sys.argv[1]), sys.argv[2], sys.argv[3], float(sys.argv[4]), sys.argv[5]
import builtins
class Custom(Exception):
    pass

def fail():
    time.sleep(delay)
    if exc == "signal":
        import signal
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(100)
    raise (Custom if exc == "Custom" else getattr(builtins, exc))("rank went wrong")

@mpi_errchk
def main(*a, **k):
    if rank == bad:
        fail()
    if what == "barrier":
        comm.barrier()
    elif what == "recv":
        comm.recv(source=bad)
    elif what == "bcast":
        comm.bcast(None, root=bad)
    elif what == "busy":
        t = time.time()
        while time.time() < t + 100:
            sum(range(1000))
    elif what == "done":
        return
    open(os.path.join(where, "survived%d" % rank), "w").close()

main(1, x=2)
comm.barrier()
open(os.path.join(where, "after%d" % rank), "w").close()
'''


@st.composite
def jobs(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "bad": draw(st.integers(0, n - 1)), "what": draw(st.sampled_from(["barrier", "recv", "bcast", "busy", "done"])),
            "exc": draw(st.sampled_from(["ValueError", "KeyboardInterrupt", "Custom", "signal", "OSError"])),
            "delay": draw(st.sampled_from([0.0, 0.0, 0.1]))}


@check.sub(jobs(), 8, 400)
def whole_job(c):
    d = paths.fresh_dir("job")
    try:
        with open(os.path.join(d, "job.py"), "w") as f:
            f.write(JOB)
        env = dict(os.environ, PYTHONPATH=os.path.join(paths.REPO, "python"), TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d,
                   OMPI_MCA_btl_vader_backing_directory=d)
        p = subprocess.Popen(["mpirun", "--oversubscribe", "-np", str(c["n"]), sys.executable, os.path.join(d, "job.py"), str(c["bad"]),
                              c["what"], c["exc"], str(c["delay"]), d], env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out = p.communicate(timeout=60)[0].decode("utf8", "replace")
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
            p.terminate()
            try:
                out = p.communicate(timeout=10)[0].decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                p.kill()
                out = p.communicate()[0].decode("utf8", "replace")
        ck(not hung, "the job went on for 60 s after rank %d raised: %s" % (c["bad"], out[-1500:]))
        ck(p.returncode != 0, "the job ended with status 0: " + out[-1500:])
        left = sorted(x for x in os.listdir(d) if x.startswith("survived") or x.startswith("after"))
        ck(not any(x.startswith("after") for x in left), "ranks carried on: %r" % left)
        if c["what"] != "done":
            ck(left == [], "ranks carried on: %r" % left)
        if c["exc"] not in ("signal",):
            ck("rank went wrong" in out, "the message is missing: " + out[-1500:])
        event("job " + c["what"])
        return True
    finally:
        paths.drop(d)
