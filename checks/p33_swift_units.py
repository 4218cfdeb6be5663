"""P33: units of SWIFT snapshots and SOAP catalogues (unyt mode) and the file wrapper."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, swift as sw
from vt.util import check as ck, eq, must_raise

check = Check("P33", quick_scale=2, shards=6, rule=(
    "1-3 snapshots or catalogues open at once, in different unit systems and at different expansion factors, with datasets of any shape, type, "
    "unit exponents (zero, fractional, negative, all five dimensions), a and h exponents and extra factors, "
    "in nested groups, read in random order with random indexes. Oracle: stored values times the CGS conversion factor of the attributes, and "
    "dimensions from the exponents. Non-trivial: a dataset with at least two of dimensions, a and h."))


@st.composite
def cases(draw):
    fs = [draw(sw.files()) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    reads = []
    for _ in range(draw(st.integers(2, 10))):
        i = draw(st.integers(0, len(fs) - 1))
        reads.append([i, draw(st.integers(0, len(fs[i]["ds"]) - 1)), draw(st.sampled_from(["all", "all", "empty", "slice", "int"])),
                      draw(st.sampled_from(["full", "nested", "values"]))])
    return {"files": fs, "reads": reads, "soap": draw(st.booleans())}


def open_file(c, fn, mode, soap):
    from virgo.formats.swift import SwiftFile, SwiftSnapshot
    from virgo.formats.soap import SOAPCatalogue
    if c["meta"] != "/":
        return SwiftFile(mode, c["meta"], fn, "r")
    kw = {} if mode == "soap" and c["seed"] % 2 else {"mode": mode}
    return (SOAPCatalogue if soap else SwiftSnapshot)(fn, "r", **kw)


def get(f, path, how):
    """Open a dataset by its full path, group by group, or by iterating over the groups."""
    if how == "full":
        return f[path]
    obj = f
    for p in path.split("/"):
        if how == "nested":
            obj = obj[p]
        else:
            found = [v for k, v in obj.items() if k == p]
            ck(len(found) == 1 and p in obj and p in list(obj.keys()) and len(obj) == len(list(obj)), "mapping interface inconsistent at " + p)
            obj = found[0]
    return obj


def key_for(kind, shape):
    if len(shape) == 0:
        return ()
    return {"all": Ellipsis, "empty": (), "slice": slice(1, None, 2), "int": 0 if shape[0] else slice(0, 1)}[kind]


DIM = {"M": "mass", "L": "length", "t": "time", "T": "temperature", "I": "current_mks"}


def dims(exps):
    import unyt.dimensions as d
    r = d.dimensionless
    for k, e in exps.items():
        r = r * getattr(d, DIM[k]) ** (int(e) if e == int(e) else e)
    return r


def close(a, b, what, rtol=1e-8):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    ck(a.shape == b.shape, "%s: shape %r, expected %r" % (what, a.shape, b.shape))
    ck(np.allclose(a, b, rtol=rtol, atol=0), "%s: got %r, expected %r" % (what, a, b))


def check_attrs(ds, c, i):
    with h5py.File(c["fn"], "r") as f:
        raw = f[c["ds"][i]["path"]]
        ck(set(ds.attrs) == set(raw.attrs), "attributes of dataset %r" % sorted(ds.attrs))
        for n in raw.attrs:
            eq(ds.attrs[n], raw.attrs[n], n)
    ck(ds.shape == tuple(c["ds"][i]["shape"]) and ds.dtype == np.dtype(c["ds"][i]["dtype"]), "shape or type of dataset")


@check.sub(cases(), 260, 8000)
def soap_mode(c):
    import unyt
    d = paths.fresh_dir()
    opened = []
    nontriv = False
    try:
        for i, f in enumerate(c["files"]):
            f["fn"] = os.path.join(d, "s%d.hdf5" % i)
            sw.write(f["fn"], f)
            opened.append(open_file(f, f["fn"], "soap", c["soap"]))
        seen = []
        for i, j, key, how in c["reads"]:
            f, ds = c["files"][i], c["files"][i]["ds"][j]
            obj = get(opened[i], ds["path"], how)
            check_attrs(obj, f, j)
            k = key_for(key, ds["shape"])
            arr = obj[k]
            want = sw.data_of(f, j)[k]
            nontriv |= (len(ds["exps"]) > 0) + (ds["ae"] != 0) + (ds["he"] != 0) > 1
            seen.append((f, ds, want, arr))
        # only now, so that any interference between files would show
        for f, ds, want, arr in seen:
            com, phys = sw.factors(f, ds)
            eq(np.asarray(arr), want, "stored values of " + ds["path"])
            ck(np.asarray(arr).dtype.newbyteorder("=") == np.dtype(ds["dtype"]).newbyteorder("="), "type %s for %s" % (arr.dtype, ds["dtype"]))
            ck(arr.units.dimensions == dims(ds["exps"]) or (arr.units.dimensions / dims(ds["exps"])).simplify() == 1,
               "dimensions %s of %s, exponents %r" % (arr.units.dimensions, arr.units, ds["exps"]))
            x = unyt.unyt_array(np.asarray(arr, dtype="f8"), arr.units)
            cgs = unyt.dimensionless
            for k, u in (("M", unyt.g), ("L", unyt.cm), ("t", unyt.s), ("T", unyt.K), ("I", unyt.A)):
                cgs = cgs * u ** ds["exps"].get(k, 0)
            close(x.to(cgs), np.asarray(want, dtype="f8") * phys, "physical CGS values of %s in %s" % (ds["path"], arr.units))
            # the units it is documented to have
            names = {"M": "snap_mass", "L": "snap_length", "t": "snap_time", "T": "snap_temperature", "I": "snap_current"}
            s = "*".join(["%s**(%r)" % (names[k], float(e)) for k, e in ds["exps"].items()] + ["a**(%r)" % float(ds["ae"]), "h**(%r)" % float(ds["he"])])
            unit = opened[c["files"].index(f)].get_unit(s)
            close(x.to(unit), np.asarray(want, dtype="f8") * ds["factor"], "%s in %s" % (ds["path"], s))
            powers = {str(b): float(e) for b, e in arr.units.expr.as_powers_dict().items()}
            for sym, e in (("a", ds["ae"]), ("h", ds["he"])):
                ck(powers.get(sym, 0.0) == e, "%s has %s**%r, exponent is %r" % (arr.units, sym, powers.get(sym, 0.0), e))
            if ds["factor"] == 1.0:
                ck(all(str(v) in str(arr.units) for v in [names[k] for k in ds["exps"]]), "units %s of %r" % (arr.units, ds["exps"]))
            b = x.in_base()
            close(b.to(cgs), np.asarray(want, dtype="f8") * phys, "after conversion to base units")
        for f, o in zip(c["files"], opened):
            named_units(f, o)
    finally:
        for o in opened:
            o.close()
        paths.drop(d)
    return nontriv


def named_units(f, o):
    s = sw.SYSTEMS[f["sys"]]
    for name, value, cgs in (("snap_length", s["L"], "cm"), ("snap_mass", s["M"], "g"), ("snap_time", s["t"], "s"), ("snap_temperature", s["T"], "K"),
                             ("snap_current", s["I"], "A"), ("a", f["a"], ""), ("h", f["h"], ""), ("swift_mpc", 1e6 * sw.CONST["parsec"], "cm"),
                             ("swift_msun", sw.CONST["solar_mass"], "g"), ("newton_G", sw.CONST["newton_G"], "cm**3/g/s**2")):
        close((1.0 * o.get_unit(name)).to(cgs), value, "unit " + name)
    if f["code"] is not None:
        s = sw.SYSTEMS[f["code"]]
        for name, value, cgs in (("code_length", s["L"], "cm"), ("code_mass", s["M"], "g"), ("code_time", s["t"], "s"), ("code_temperature", s["T"], "K"),
                                 ("code_current", s["I"], "A")):
            close((1.0 * o.get_unit(name)).to(cgs), value, "unit " + name)
    close((1.0 * o.get_unit("a*swift_mpc")).to("cm"), f["a"] * 1e6 * sw.CONST["parsec"], "comoving Mpc")


@check.sub(sw.files(), 80, 2000)
def wrapper(c):
    """The wrapped file behaves like the HDF5 file."""
    d = paths.fresh_dir()
    try:
        c["fn"] = os.path.join(d, "s.hdf5")
        sw.write(c["fn"], c)
        with h5py.File(c["fn"], "r") as raw:
            o = open_file(c, c["fn"], "soap", False)

            def walk(r, g):
                ck(list(g) == list(r) and len(g) == len(r) and list(g.keys()) == list(r.keys()) and g.name == r.name, "members of " + r.name)
                ck(sorted(g.attrs) == sorted(r.attrs), "attributes of " + r.name)
                ck("no such thing" not in g and g.get("no such thing") is None, "missing item found")
                must_raise(KeyError, g.__getitem__, "no such thing")
                for n in r:
                    ck(n in g, n + " not found")
                    if isinstance(r[n], h5py.Group):
                        walk(r[n], g[n])
                        ck(g[n].get_unit("snap_length") == o.get_unit("snap_length"), "units of " + n)
                    else:
                        ck(len(g[n].shape) == 0 or len(g[n]) == len(r[n]), "length of " + n)
                        ck(g[n].name == r[n].name and g[n].shape == r[n].shape and g[n].dtype == r[n].dtype, "dataset " + n)
            walk(raw["/"], o["/"])
            walk(raw["/"], o)
            ck(o.filename == c["fn"], "filename")
            o.close()
            bad = open_file(c, c["fn"], "no_such_mode", False)
            must_raise(ValueError, bad[c["ds"][0]["path"]].__getitem__, ())
            bad.close()
    finally:
        paths.drop(d)
    return len(c["ds"]) > 1
