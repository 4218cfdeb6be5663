"""P47: Millennium-2 and Millennium-WMAP7 example programs in C, Fortran and Python."""
import os, subprocess, sys
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import fortran, paths
from vt.binfmt import Out
from vt.util import check as ck
from checks.p45_millennium_f90 import same_rows

built = {}


def build():
    fortran.build()
    obj = os.path.join(paths.scratch(), "fortran")
    ex = os.path.join(paths.REPO, "examples")
    d = paths.fresh_dir("m2")
    wrap = "%s/*.o" % obj
    hdf = "-L%s -Wl,-rpath,%s" % (fortran.LIB, fortran.LIB)
    for name, cmd in (
            ("m2c", "gcc -w -g %s/millennium2/c/read_mill2_snapshot_file.c -o m2c" % ex),
            ("m2f", "gfortran -w -g %s/millennium2/fortran/read_m2_snapshot_file.f90 -o m2f" % ex),
            ("r7c", "gcc -w -g -I%s %s/millennium-wmap7/c/read_mr7_snapshot_file.c %s -lhdf5_hl -lhdf5 -o r7c" % (fortran.INC, ex, hdf)),
            ("r7f", "gfortran -w -g -I%s -I%s %s/millennium-wmap7/fortran/read_mr7_snapshot_file.f90 %s %s -lhdf5_fortran -lhdf5 -o r7f"
             % (fortran.INC, obj, ex, wrap, hdf))):
        r = subprocess.run(["/bin/sh", "-c", cmd], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ck(r.returncode == 0, "example program does not compile: " + r.stdout.decode(errors="replace")[-3000:])
        built[name] = os.path.join(d, name)


check = Check("P47", quick_scale=1.5, shards=3, setup=build, rule=(
    "One-file Millennium-2 (Gadget binary) and Millennium-WMAP7 (HDF5) snapshots with 0-300 particles, values from the whole float range, 64-bit "
    "identifiers and totals above 2^32, written with struct and h5py; files with a wrong record marker and missing files. The C and Fortran "
    "example programs are compiled, run on them and their output parsed. Oracle: the arrays written. Non-trivial: at least two particles."))


@st.composite
def cases(draw):
    return {"program": draw(st.sampled_from(["m2c", "m2f", "r7c", "r7f"])), "n": draw(st.sampled_from([0, 1, 2, 3, 7, 30, 300])),
            "seed": draw(st.integers(0, 2 ** 31)), "wide": draw(st.booleans()),
            "tot": draw(st.sampled_from([1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 10077696000])), "high": draw(st.sampled_from([None, 0, 2, 5])),
            "box": draw(st.sampled_from([100.0, 500.0, 0.125, 137.123456])), "boxint": draw(st.booleans()),
            "bits": draw(st.sampled_from([20, 33, 49])), "f8": draw(st.booleans()), "gzip": draw(st.booleans()),
            "bad": draw(st.sampled_from(["", "", "", "", "marker", "tail", "missing"]))}


def number(x):
    """a floating point number as Fortran or C writes it: three-digit exponents lose the letter in Fortran"""
    if "e" not in x.lower():
        for s in "+-":
            if s in x[1:]:
                x = x[0] + x[1:].replace(s, "e" + s)
    return x


@check.sub(cases(), 700, 20000)
def examples(c):
    d = paths.fresh_dir()
    try:
        rng = np.random.default_rng(c["seed"])
        n, p = c["n"], c["program"]
        pos = rng.random((n, 3)).astype("f4")
        vel = rng.normal(0, 500, (n, 3)).astype("f4")
        if c["wide"]:
            pos = (pos * 10.0 ** rng.integers(-30, 30, (n, 3))).astype("f4")
        ids = rng.integers(1, 2 ** c["bits"], n).astype("u8")
        npart = np.zeros(6, "u4")
        npart[1] = n
        total = max(c["tot"], n)
        high = np.zeros(6, "u4")
        fn = os.path.join(d, "snap_067.0")
        bad = c["bad"]
        if bad in ("marker", "tail") and p != "m2c":       # the Fortran library accepts records longer than what is read
            bad = ""
        binary = p[0] == "m"
        if binary:
            tot = np.zeros(6, "u4")
            tot[1], high[1] = total & 0xffffffff, total >> 32
            tot[0], tot[4] = 17, 2 ** 32 - 3
            h = Out("=")
            h.put(npart).put(rng.random(6)).put(rng.random(2)).put(np.zeros(2, "i4")).put(tot).put(np.array([0, 512], "i4"))
            h.put(np.array([c["box"], 0.25, 0.75, 0.73])).put(np.zeros(2, "i4")).put(high).raw(bytes(rng.integers(0, 256, 64).astype("u1")))
            o = Out("=")
            o.record(np.frombuffer(h.bytes(), "u1")).record(pos).record(vel).record(ids)
            b = bytearray(o.bytes())
            if bad == "marker":
                b[0:4] = np.int32(260).tobytes()
            elif bad == "tail":
                b[260:264] = np.int32(252).tobytes()
            with open(fn, "wb") as f:
                f.write(b)
        else:
            with h5py.File(fn, "w") as f:
                g = f.create_group("Header")
                # other particle types do not matter in this format
                g.attrs["NumPart_ThisFile"] = np.array([5, n, 0, 1, 0, 2], "u4" if c["high"] is None else "i4")
                g.attrs["BoxSize"] = int(c["box"]) if c["boxint"] else c["box"]
                kw = dict(compression="gzip", chunks=True) if c["gzip"] and n else {}
                q = f.create_group("PartType1")
                t = "f8" if c["f8"] and p == "r7c" else "f4"       # the Fortran wrapper does not convert to less precision
                q.create_dataset("Coordinates", data=pos.astype(t), **kw)
                q.create_dataset("Velocities", data=vel.astype(t), **kw)
                q.create_dataset("ParticleIDs", data=ids, **kw)
                f.create_group("PartType0")["Coordinates"] = np.zeros((5, 3))
        if bad == "missing":
            fn += ".x"
        r = subprocess.run([built[p], fn], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        out = r.stdout.decode(errors="replace")
        event("%s %s" % (p, bad))
        if bad:
            # the Fortran programs rely on the Fortran library and on the HDF5 wrapper to stop
            ck(r.returncode != 0 or "Abort" in out, "%s returned %d on a file with a wrong %s: %s" % (p, r.returncode, bad, out[-500:]))
            ck(not n or len(out.split("\n")) < n + 3 or "vz" not in out, "particles were written for a bad file: " + out[-500:])
            return False
        ck(r.returncode == 0, "%s: status %d: %s" % (p, r.returncode, out[-500:]))
        lines = out.split("\n")
        ck(lines[-1] == "", "last line incomplete")
        lines = lines[:-1]
        at = [i for i, x in enumerate(lines) if "vz" in x]
        ck(len(at) == 1, "no heading: " + out[:500])
        head, lines = " ".join(" ".join(lines[:at[0]]).split()), lines[at[0] + 1:]
        if p[-1] == "c":
            rows = [[y.strip() for y in x.split(",")] for x in lines]
            want = "Number of particles in this file = %d" % n if binary else "Number of particles to read = %d" % n
            ck(want in head, "heading %r, expected %r" % (head, want))
            if not binary:
                ck("Box size = %f" % (int(c["box"]) if c["boxint"] else c["box"]) in head, "box size in " + head)
            digits = 7
        else:
            rows = []
            for x in lines:
                ck(len(x) == 100, "line %r" % x)
                rows.append([number(x[14 * i:14 * i + 14].strip()) for i in range(6)] + [x[84:].strip()])
            if binary:
                ck("Total number of particles = %d Box size = " % total in head, "heading %r, total is %d" % (head, total))
                ck(float(head.split("=")[-1]) == c["box"], "box size in " + head)
            digits = 6
        want = [list(a) + list(b) + [i] for a, b, i in zip(pos, vel, ids)]
        same_rows(rows, want, digits, p)
        return n > 1
    finally:
        paths.drop(d)
