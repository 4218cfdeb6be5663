"""P34: swiftsimio mode and the cosmology of SWIFT files."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, swift as sw
from vt.util import check as ck, eq, must_raise
from checks.p33_swift_units import open_file, get, key_for, close, check_attrs

check = Check("P34", quick_scale=4, shards=6, rule=(
    "Snapshots and catalogues as in P33 opened in swiftsimio mode, and cosmologies with or without radiation temperature, dark energy "
    "evolution and neutrino species. Oracle: stored values times the attributes' comoving CGS factor, the physical values after "
    "conversion, comoving flag from the exponents, ValueError for h-dependent or undeterminable data; cosmological parameters as "
    "stored. Non-trivial: a comoving dataset, or a cosmology with neutrinos."))


@st.composite
def cases(draw):
    f = draw(sw.files())
    for d in f["ds"]:
        d["exps"].pop("I", None)
        if draw(st.integers(0, 3)):
            d["he"] = 0
            le = d["exps"].get("L", 0)
            d["ae"] = draw(st.sampled_from([0, 0, le, le, le, le, le + 0.5, le + 0.25, le - 0.5, 0.5, -0.25, 0.001, -le]))
    return {"file": f, "reads": draw(st.lists(st.tuples(st.integers(0, len(f["ds"]) - 1), st.sampled_from(["all", "all", "empty", "slice"]),
                                                         st.sampled_from(["full", "nested", "values"])), min_size=1, max_size=6)),
            "soap": draw(st.booleans())}


@check.sub(cases(), 220, 8000)
def swiftsimio_mode(c):
    import unyt
    d = paths.fresh_dir()
    f = c["file"]
    nontriv = False
    try:
        f["fn"] = os.path.join(d, "s.hdf5")
        sw.write(f["fn"], f)
        o = open_file(f, f["fn"], "swiftsimio", c["soap"])
        for j, key, how in c["reads"]:
            ds = f["ds"][j]
            obj = get(o, ds["path"], how)
            check_attrs(obj, f, j)
            k = key_for(key, ds["shape"])
            le = ds["exps"].get("L", 0)
            if ds["he"] != 0 or (ds["ae"] != 0 and ds["ae"] != le):
                must_raise(ValueError, obj.__getitem__, k)
                event("rejected")
                continue
            arr = obj[k]
            want = sw.data_of(f, j)[k]
            eq(np.asarray(arr), want, "stored values of " + ds["path"])
            ck(np.asarray(arr).dtype.newbyteorder("=") == np.dtype(ds["dtype"]).newbyteorder("="), "type %s for %s" % (arr.dtype, ds["dtype"]))
            ck(bool(arr.comoving) == (ds["ae"] != 0), "comoving=%r for exponents a %r L %r" % (arr.comoving, ds["ae"], le))
            cgs = unyt.dimensionless
            for s, u in (("M", unyt.g), ("L", unyt.cm), ("t", unyt.s), ("T", unyt.K)):
                cgs = cgs * u ** ds["exps"].get(s, 0)
            com, phys = sw.factors(f, ds)
            x = unyt.unyt_array(np.asarray(arr, dtype="f8"), arr.units)
            close(x.to(cgs), np.asarray(want, dtype="f8") * com, "comoving CGS values of %s in %s" % (ds["path"], arr.units))
            close(arr.cosmo_factor.a_factor, float(f["a"]) ** ds["ae"], "cosmological factor")
            close(arr.cosmo_factor.scale_factor, f["a"], "scale factor")
            p = arr.astype("f8").to_physical() if arr.dtype.kind == "f" and arr.size else None
            if p is not None:
                ck(not p.comoving, "physical array is comoving")
                close(unyt.unyt_array(np.asarray(p), p.units).to(cgs), np.asarray(want, dtype="f8") * phys, "physical CGS values")
            nontriv |= ds["ae"] != 0
        o.close()
    finally:
        paths.drop(d)
    return nontriv


@check.sub(sw.files(1), 80, 3000)
def cosmology(c):
    import astropy.units as au
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "s.hdf5")
        sw.write(fn, c)
        o = open_file(c, fn, "soap", c["seed"] % 2)
        for f in (o, o["/"], o["/" + c["ds"][0]["path"].split("/")[0]]):
            cos, w = f.cosmology, c["cosmo"]
            close(cos.H0.to(au.km / au.s / au.Mpc).value, 100.0 * c["h"], "H0", 1e-4)
            for a, n in (("Om0", "Omega_m"), ("Ode0", "Omega_lambda"), ("Ob0", "Omega_b"), ("w0", "w_0"), ("wa", "w_a")):
                close(getattr(cos, a), w[n], n)
            if "T_CMB_0 [K]" in w:
                close(cos.Tcmb0.to(au.K).value, w["T_CMB_0 [K]"], "Tcmb0")
            else:
                close(cos.Ogamma0, w["Omega_r"], "radiation density", 1e-3)
            if "N_eff" in w:
                close(cos.Neff, w["N_eff"], "Neff")
            if "M_nu_eV" in w:
                m = sorted(sum([[x] * int(g) for x, g in zip(w["M_nu_eV"], w["deg_nu"])], []) + [0.0] * int(w["N_ur"]))
                close(sorted(cos.m_nu.to(au.eV).value), m, "neutrino masses")
            close(f.expansion_factor, c["a"], "expansion factor")
        o.close()
    finally:
        paths.drop(d)
    return "N_eff" in c["cosmo"]
