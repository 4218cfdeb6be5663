"""Generator and independent writer of HDF5 files with SWIFT style unit metadata."""
import numpy as np
import h5py
from hypothesis import strategies as st

UNIT_NAMES = {"M": "Unit mass in cgs (U_M)", "L": "Unit length in cgs (U_L)", "t": "Unit time in cgs (U_t)",
              "I": "Unit current in cgs (U_I)", "T": "Unit temperature in cgs (U_T)"}
SYSTEMS = [
    {"M": 1.98841e43, "L": 3.08567758149e24, "t": 3.08567758149e19, "I": 1.0, "T": 1.0},
    {"M": 1.98848e43, "L": 3.08567758149e21, "t": 3.08567758149e16, "I": 2.088431e13, "T": 1.0},
    {"M": 1.0, "L": 1.0, "t": 1.0, "I": 1.0, "T": 1.0},
    {"M": 5.9724e27, "L": 6.371e8, "t": 1.0, "I": 1.0, "T": 2.5},
    {"M": 1.98841e33, "L": 3.08567758149e18, "t": 3.15576e7, "I": 0.5, "T": 1.0e4},
]
PATHS = ["PartType0/Coordinates", "PartType0/Velocities", "PartType1/ParticleIDs", "SO/200_crit/TotalMass", "SO/200_crit/Centre",
         "X", "BoundSubhalo/Deep/er/Energy", "PartType4/Masses"]
PHYSICAL = "Conversion factor to physical CGS (including cosmological corrections)"
OLD_PHYSICAL = "Conversion factor to CGS (including cosmological corrections)"
COMOVING = "Conversion factor to CGS (not including cosmological corrections)"
EXPS = [{}, {"L": 1}, {"L": 1, "t": -1}, {"M": 1}, {"M": 1, "L": -3}, {"T": 1}, {"M": 1, "L": 2, "t": -2}, {"L": 2, "t": -2}, {"t": -1},
        {"M": 1, "t": -1}, {"L": 0.5}, {"M": 1.5, "L": -2.25, "t": 1}, {"T": -0.5, "L": 3}, {"L": -1}, {"M": -1}, {"L": 3},
        {"M": 1, "t": -2, "I": -1}, {"I": 1}, {"M": 1, "L": 1, "T": 1, "t": 1, "I": 1}]


@st.composite
def files(draw, ndset=5):
    """Description of one file."""
    ds = []
    for path in draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=ndset, unique=True)):
        exps = dict(draw(st.sampled_from(EXPS)))
        ae = draw(st.sampled_from([0, 0, exps.get("L", 0), exps.get("L", 0), 1, -3, -2, 0.5, -1.5, 2]))
        ds.append({"path": path, "exps": exps, "ae": ae, "he": draw(st.sampled_from([0, 0, 0, -1, 1, 2, -0.5])),
                   "factor": draw(st.sampled_from([1.0, 1.0, 1.0, 2.5, 1e10, 1.0e-3, 3.0])),
                   "dtype": draw(st.sampled_from(["f8", "f4", "i8", "i4", "u8", ">f8"])),
                   "shape": draw(st.sampled_from([[0], [1], [4], [5, 3], [2, 3], [3, 2, 2], []])),
                   "old": draw(st.booleans()), "f4attr": draw(st.booleans())})
    return {"sys": draw(st.integers(0, len(SYSTEMS) - 1)), "code": draw(st.sampled_from([None, None, 0, 2, 3])),
            "a": draw(st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.3333, 0.04761904761904762])), "h": draw(st.sampled_from([0.7, 0.6777, 1.0, 0.5])),
            "cosmo": draw(cosmologies()), "ds": ds, "meta": draw(st.sampled_from(["/", "/", "/", "SWIFT", "Header/Meta"])),
            "seed": draw(st.integers(0, 999))}


@st.composite
def cosmologies(draw):
    c = {"Omega_b": draw(st.sampled_from([0.0486, 0.02])), "Omega_lambda": draw(st.sampled_from([0.693922, 0.7, 0.6])),
         "Omega_r": draw(st.sampled_from([9.38e-5, 5.0e-5])), "Omega_m": draw(st.sampled_from([0.304611, 0.25, 0.3])),
         "w_0": draw(st.sampled_from([-1.0, -0.9, -1.1])), "w_a": draw(st.sampled_from([0.0, 0.1, -0.2]))}
    if draw(st.booleans()):
        c["T_CMB_0 [K]"] = draw(st.sampled_from([2.7255, 2.5]))
    nu = draw(st.sampled_from(["none", "one", "massive", "two", "massless"]))
    if nu == "one":
        c.update({"N_eff": 3.046, "N_ur": 2.0308, "M_nu_eV": [0.06], "deg_nu": [1.0]})
    elif nu == "massive":
        c.update({"N_eff": 3.046, "N_ur": 0.0, "M_nu_eV": [0.02], "deg_nu": [3.0]})
    elif nu == "two":
        c.update({"N_eff": 3.046, "N_ur": 0.0, "M_nu_eV": [0.02, 0.05], "deg_nu": [1.0, 2.0]})
    elif nu == "massless":
        c.update({"N_eff": 3.046, "N_ur": 3.046})
    return c


def h0_internal(c):
    s = SYSTEMS[c["sys"]]
    return c["h"] * 100.0 * 1.0e5 / 3.08567758149e24 * s["t"]


CONST = {"parsec": 3.08567758149e18, "solar_mass": 1.98841e33, "newton_G": 6.6743e-8}


def data_of(c, i):
    d = c["ds"][i]
    n = int(np.prod(d["shape"], dtype=int))
    a = (np.arange(n) * 37 + i + c["seed"]) % 1009
    if np.dtype(d["dtype"]).kind == "f":
        a = a * 0.75 - 1
    return a.reshape(d["shape"]).astype(d["dtype"])


def base_cgs(c, exps):
    """Conversion factor of a product of powers of the file's base units."""
    s = SYSTEMS[c["sys"]]
    f = 1.0
    for k in "MLtIT":
        f *= float(s[k]) ** float(exps.get(k, 0))
    return f


def write(fn, c):
    s = SYSTEMS[c["sys"]]
    with h5py.File(fn, "w") as f:
        g = f.require_group(c["meta"])
        u = g.create_group("Units")
        for k in "MLtIT":
            u.attrs[UNIT_NAMES[k]] = np.asarray([s[k]])
        if c["code"] is not None:
            u = g.create_group("InternalCodeUnits")
            for k in "MLtIT":
                u.attrs[UNIT_NAMES[k]] = np.asarray([SYSTEMS[c["code"]][k]])
        co = g.create_group("Cosmology")
        co.attrs["Scale-factor"] = np.asarray([c["a"]])
        co.attrs["Redshift"] = np.asarray([1.0 / c["a"] - 1.0])
        co.attrs["h"] = np.asarray([c["h"]])
        co.attrs["Cosmological run"] = np.asarray([1], dtype="i4")
        co.attrs["H0 [internal units]"] = np.asarray([h0_internal(c)])
        for n, v in c["cosmo"].items():
            co.attrs[n] = np.asarray(v if isinstance(v, list) else [v])
        p = g.create_group("PhysicalConstants/CGS")
        for n, v in CONST.items():
            p.attrs[n] = np.asarray([v])
        for i, d in enumerate(c["ds"]):
            x = f.create_dataset(d["path"], data=data_of(c, i))
            x.attrs["Description"] = np.bytes_("dataset %d" % i)
            dt = "f4" if d["f4attr"] else "f8"
            for k in "MLtIT":
                x.attrs["U_%s exponent" % k] = np.asarray([d["exps"].get(k, 0)], dtype=dt)
            x.attrs["a-scale exponent"] = np.asarray([d["ae"]], dtype=dt)
            x.attrs["h-scale exponent"] = np.asarray([d["he"]], dtype=dt)
            com, phys = factors(c, d)
            x.attrs[COMOVING] = np.asarray([com])
            x.attrs[OLD_PHYSICAL if d["old"] else PHYSICAL] = np.asarray([phys])


def factors(c, d):
    """CGS conversion factors of a dataset without and with cosmological corrections."""
    com = base_cgs(c, d["exps"]) * d["factor"]
    return com, com * float(c["a"]) ** d["ae"] * float(c["h"]) ** d["he"]
