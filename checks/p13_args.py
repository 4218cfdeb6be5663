"""P13: MPIArgumentParser."""
import argparse, contextlib, io, os
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi
from vt.mpi_ops import arg_types
from vt.util import check as ck, eq

check = Check("P13", quick_scale=3, shards=2, rule=(
    "Random argument specifications (options, flags, positionals, types, choices, nargs, defaults, required) and command "
    "lines, valid or not, some asking for help, different on every rank, on 1-8 ranks. Oracle: argparse.ArgumentParser on rank 0's command line. "
    "Non-trivial: >= 2 ranks and the command lines differ or are in error."),
    assumptions=["MPI.Finalize is replaced by a recorder so that the pool of ranks survives a rejected command line."])

NAMES = ["alpha", "beta", "gamma", "delta"]


@st.composite
def specs(draw):
    spec = []
    for nm in NAMES[:draw(st.integers(1, 4))]:
        kind = draw(st.sampled_from(["opt", "flag", "pos", "opt"]))
        kw = {}
        if kind == "flag":
            kw["action"] = draw(st.sampled_from(["store_true", "store_false", "count"]))
            spec.append([["--" + nm], kw])
            continue
        kw["type"] = draw(st.sampled_from(["int", "float", "str", "int", "float", "str", "path", "complex", "commas", "bytes"]))
        if kw["type"] in ("int", "float", "str") and draw(st.integers(0, 4)) == 0:
            kw["choices"] = [1, 2, 5] if kw["type"] == "int" else ([1.0, 2.5] if kw["type"] == "float" else ["x", "yy"])
        na = draw(st.sampled_from([None, None, None, "?", "*", 2]))
        if na is not None and not (kind == "pos" and "choices" in kw):
            kw["nargs"] = na
        if draw(st.booleans()):
            kw["default"] = {"int": 7, "float": 0.5, "str": "dflt"}.get(kw["type"], "1")
        if kind == "opt":
            if draw(st.integers(0, 4)) == 0:
                kw["required"] = True
            spec.append([["-" + nm[0], "--" + nm], kw])
        else:
            spec.append([[nm], kw])
    return spec


@st.composite
def argv(draw, spec):
    out = []
    vals = st.sampled_from(["1", "2", "5", "2.5", "1e3", "x", "yy", "file.hdf5", "0"])
    for names, kw in spec:
        if draw(st.integers(0, 7)) == 0:
            continue
        good = {"int": ["1", "2", "5"], "float": ["1.0", "2.5"], "str": ["x", "yy"], "path": ["/tmp/x"], "complex": ["1j", "2"],
                "commas": ["1,2", "3"], "bytes": ["x"], None: ["1"]}[kw.get("type")]
        v = st.sampled_from(good) if draw(st.integers(0, 9)) else vals
        vals_here = []
        if "action" not in kw:
            n = {None: 1, "?": draw(st.integers(0, 1)), "*": draw(st.integers(0, 3)), 2: 2}[kw.get("nargs")]
            vals_here = [draw(v) for _ in range(n)]
        if names[0].startswith("-"):
            nm = draw(st.sampled_from(names + [names[-1][:4]]))
            if len(vals_here) == 1 and draw(st.integers(0, 3)) == 0:        # --name=value or -nvalue
                out.append(nm + ("=" if nm.startswith("--") else "") + vals_here.pop())
            else:
                out.append(nm)
        out += vals_here
    k = draw(st.integers(0, 15))
    if k == 0:
        out.append(draw(st.sampled_from(["--bogus", "extra", "-3"])))
    elif k == 1:
        out.insert(draw(st.integers(0, len(out))), draw(st.sampled_from(["-h", "--help", "--he"])))
    return out


@st.composite
def cases(draw):
    c = draw(gen.comms())
    c["spec"] = draw(specs())
    c["argv0"] = draw(argv(c["spec"]))
    c["others"] = draw(st.sampled_from(["same", "own", "none"]))
    n = len(c["order"])
    if c["others"] == "own":
        c["rest"] = [draw(argv(c["spec"])) for _ in range(n - 1)]
    else:
        c["rest"] = [c["argv0"] if c["others"] == "same" else [] for _ in range(n - 1)]
    c["explicit"] = draw(st.booleans())
    return c


class Bad(Exception):
    pass


class Ref(argparse.ArgumentParser):
    def error(self, message):
        raise Bad(message)


def reference(spec, args):
    conv = arg_types()
    p = Ref(prog="prog", description="test")
    for names, kw in spec:
        kw = dict(kw)
        if "type" in kw:
            kw["type"] = conv[kw["type"]]
        p.add_argument(*names, **kw)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return "ok", vars(p.parse_args(args))
    except Bad as e:
        return "error", str(e)
    except SystemExit:
        return "help", out.getvalue()


@check.sub(cases(), 800, 20000)
def parse(c):
    n = len(c["order"])
    os.environ["COLUMNS"] = "80"
    kind, want = reference(c["spec"], c["argv0"])
    out = mpi.pool().call("parse_args", [
        {"spec": c["spec"], "argv": (c["argv0"] if r == 0 else c["rest"][r - 1]), "explicit": c["explicit"]}
        for r in range(n)], c["order"])
    for r, (res, finalized, err, text) in enumerate(out):
        ck(text == (want if kind == "help" and r == 0 else ""), "rank %d wrote to stdout: %r" % (r, text))
        if kind == "ok":
            ck(res[0] == "ok", "rank %d exited although rank 0's arguments are valid" % r)
            ck(res[1] == want, "rank %d got %r, expected %r" % (r, res[1], want))
            ck(finalized == 0, "MPI finalized on success")
        else:
            ck(res[0] == "exit", "rank %d returned %r although rank 0's arguments are invalid or ask for help (%s)" % (r, res[1], want))
            ck(finalized == 1 or kind == "help", "MPI was finalized %d times" % finalized)
        if r > 0:
            ck(err == "", "rank %d wrote to stderr: %r" % (r, err))
        elif kind != "error":
            ck(err == "", "rank 0 wrote to stderr: %r" % err)
        else:
            ck(want in err, "rank 0's error message %r does not contain %r" % (err, want))
    event(kind)
    return n >= 2 and (kind != "ok" or any(a != c["argv0"] for a in c["rest"]))
