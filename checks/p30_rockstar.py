"""P30: Rockstar and VELOCIraptor binary halo files."""
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths
from vt.binfmt import Out, compare, fill, dataset_names
from vt.util import check as ck, eq, must_raise

check = Check("P30", quick_scale=6, shards=6, rule=(
    "halos files for both format revisions, with and without hydro fields, written field by field with C struct alignment; "
    "VELOCIraptor properties files with any header length and ikeepfof; 0-6 halos; random field selections and index "
    "expressions; damaged particle ranges, wrong hydro flag, truncated files. Oracle: the values written. Non-trivial: at least two "
    "halos."), assumptions=["Files are in native byte order (the formats' readers do not detect byte order)."])

F, L, I = "f4", "i8", "i4"
BASE = [("id", L, 0), ("pos", F, 6), ("corevel", F, 3), ("bulkvel", F, 3), ("m", F, 0), ("r", F, 0), ("child_r", F, 0), ("vmax_r", F, 0),
        ("mgrav", F, 0), ("vmax", F, 0), ("rvmax", F, 0), ("rs", F, 0), ("klypin_rs", F, 0), ("vrms", F, 0), ("J", F, 3), ("energy", F, 0),
        ("spin", F, 0), ("alt_m", F, 4), ("Xoff", F, 0), ("Voff", F, 0), ("b_to_a", F, 0), ("c_to_a", F, 0), ("A", F, 3), ("b_to_a2", F, 0),
        ("c_to_a2", F, 0), ("A2", F, 3), ("bullock_spin", F, 0), ("kin_to_pot", F, 0), ("m_pe_b", F, 0), ("m_pe_d", F, 0)]
TAIL = [("num_p", L, 0), ("num_child_particles", L, 0), ("p_start", L, 0), ("desc", L, 0), ("flags", L, 0), ("n_core", L, 0),
        ("min_pos_err", F, 0), ("min_vel_err", F, 0), ("min_bulkvel_err", F, 0)]
HYDRO = [("type", I, 0), ("sm", F, 0), ("gas", F, 0), ("bh", F, 0), ("peak_density", F, 0), ("av_density", F, 0)]


def rock_fields(c):
    return BASE + ([("halfmass_radius", F, 0)] if c["rev"] >= 2 else []) + TAIL + (HYDRO if c["hydro"] else [])


def pack(fields, vals, n, aligned):
    """Array of C structs, with natural alignment or packed."""
    out = b""
    for i in range(n):
        b, big = b"", 1
        for nm, t, m in fields:
            size = np.dtype(t).itemsize
            big = max(big, size)
            if aligned:
                b += b"\xee" * (-len(b) % size)
            b += vals[nm][i].tobytes()
        if aligned:
            b += b"\xee" * (-len(b) % big)
        out += b
    return out


@st.composite
def rocks(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 6]))
    return {"n": n, "np": [draw(st.sampled_from([0, 1, 4, 9])) for _ in range(n)], "rev": draw(st.sampled_from([1, 2, 3])),
            "hydro": draw(st.booleans()), "seed": draw(st.integers(0, 999)), "i": draw(st.integers(0, 10 ** 6)),
            "how": draw(st.sampled_from(["ok", "ok", "ok", "big", "neg", "negnum", "wrap", "cut", "flag", "huge"]))}


def rock_file(c, fn):
    rng = np.random.default_rng(c["seed"])
    n, npart = c["n"], np.array(c["np"], dtype="i8")
    ntot = int(npart.sum())
    head = [("magic", "u8", 0), ("snap", L, 0), ("chunk", L, 0), ("scale", F, 0), ("om", F, 0), ("ol", F, 0), ("h0", F, 0), ("bounds", F, 6),
            ("num_halos", L, 0), ("num_particles", L, 0), ("box_size", F, 0), ("particle_mass", F, 0), ("particle_type", L, 0),
            ("format_revision", I, 0)]
    hv = {nm: fill(rng, t, (m,) if m else ()) for nm, t, m in head}
    hv["num_halos"], hv["num_particles"], hv["format_revision"] = np.int64(n), np.int64(ntot), np.int32(c["rev"])
    b = b"".join(np.asarray(hv[nm], dtype=t).tobytes() for nm, t, m in head)
    b += b"0.99.9-RC3+".ljust(12, b"\0")
    hv["rockstar_version"] = np.bytes_(b"0.99.9-RC3+")
    assert len(b) == 112
    b += b"\0" * 144
    fields = rock_fields(c)
    vals = {nm: fill(rng, t, (n, m) if m else (n,)) for nm, t, m in fields}
    vals["num_p"], vals["p_start"] = npart.copy(), np.cumsum(npart) - npart
    if c["how"] == "big":
        vals["p_start"][c["i"] % n] += ntot + 1 if c["i"] % 3 else ntot - vals["p_start"][c["i"] % n] - npart[c["i"] % n] + 1
    elif c["how"] == "neg":
        vals["p_start"][c["i"] % n] = -1 - c["i"] % 5
    elif c["how"] == "negnum":
        vals["num_p"][c["i"] % n] = -1 - c["i"] % 5
    elif c["how"] == "wrap":
        # as read with the wrong layout: the sum does not fit in 64 bits
        vals["p_start"][c["i"] % n] = [2 ** 63 - 1, 5 * 10 ** 18, 2 ** 63 - 1][c["i"] % 3]
        vals["num_p"][c["i"] % n] = [1 + c["i"] % 9, 6 * 10 ** 18, 2 ** 63 - 1][c["i"] % 3]
    if c["how"] == "huge":
        # a sparse file with more particles than fit in 32 bits
        vals["num_p"][-1] += 2 ** 32 + 7
        hv["num_particles"] = np.int64(ntot + 2 ** 32 + 7)
        o = 112 - 12 - 4 - 8 - 4 - 4 - 8
        b = b[:o] + np.int64(ntot + 2 ** 32 + 7).tobytes() + b[o + 8:]
    ids = fill(rng, L, (ntot,))
    b += pack(fields, vals, n, True) + ids.tobytes()
    if c["how"] == "cut":
        b = b[:len(b) - 1 - c["i"] % (len(b) - 1)]
    with open(fn, "wb") as f:
        f.write(b)
        if c["how"] == "huge":
            f.truncate(len(b) + 8 * (2 ** 32 + 7))
    return hv, vals, ids


@check.sub(rocks(), 1200, 30000)
def rockstar(c):
    from virgo.formats.rockstar import HalosFile
    from virgo.util.exceptions import SanityCheckFailedException
    if c["n"] == 0 and c["how"] in ("big", "neg", "negnum", "wrap", "flag", "huge"):
        return False
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "halos_0.0.bin")
        hv, vals, ids = rock_file(c, fn)
        hydro = c["hydro"] ^ (c["how"] == "flag")
        kw = {"hydro": hydro} if hydro or c["seed"] % 2 else {}

        def read_all():
            f = HalosFile(fn, **kw)
            for nm, v in hv.items():
                eq(f["Header"].attrs[nm], v, "Header/" + nm)
            h = f["Halo"][...]
            fields = rock_fields(c)
            if c["how"] != "flag":
                ck(h.dtype.names == tuple(x[0] for x in fields), "fields %r" % (h.dtype.names,))
                for nm, v in vals.items():
                    eq(h[nm], v, nm)
                ntot = int(hv["num_particles"])
                eq(f["IDs"][:len(ids)], ids, "IDs")
                if c["how"] == "huge":
                    eq(f["IDs"][ntot - 3:], np.zeros(3, "i8"), "last IDs")
                else:
                    eq(f["IDs"][...], ids, "IDs")
                ck(f["IDs"].shape == (ntot,) and f["Halo"].shape == (c["n"],), "shapes")
                if c["n"] > 1:
                    k = c["i"] % c["n"]
                    eq(f["Halo"][k:k + 2]["pos"], vals["pos"][k:k + 2], "slice of halos")
                    eq(f["Halo"][k]["m"], vals["m"][k], "one halo")
                ck(f.all_bytes_used(), "file not covered")
            return f
        if c["how"] == "cut":
            must_raise((IOError, ValueError), read_all)
        elif c["how"] in ("ok", "huge"):
            f = read_all()
            ck(f.sanity_check() is None, "valid file rejected")
            f.close()
        elif c["how"] in ("big", "neg", "negnum", "wrap"):
            f = read_all()
            must_raise(SanityCheckFailedException, f.sanity_check)
            f.close()
        else:
            # wrong struct: either unreadable, or the layout does not cover the file
            try:
                f = read_all()
                used = f.all_bytes_used()
                f.close()
            except (IOError, ValueError):
                used = False
            ck(not used, "wrong hydro flag but every byte accounted for")
        event(c["how"])
        return c["n"] >= 2
    finally:
        paths.drop(d)


D = "f8"
V1 = [("haloid", "u8", ()), ("ibound", "u8", ()), ("hostid", "u8", ()), ("numsubs", "u8", ()), ("num", "u8", ()), ("stype", "u4", ())]
VK = [("directhostid", "u8", ()), ("hostfofid", "u8", ())]
V2 = [("gMvir", D, ()), ("gcm", D, (3,)), ("gpos", D, (3,)), ("gcmvel", D, (3,)), ("gvel", D, (3,)), ("gmass", D, ()), ("gMFOF", D, ()),
      ("gM200m", D, ()), ("gM200c", D, ()), ("gMvir_again", D, ()), ("Efrac", D, ()), ("gRvir", D, ()), ("gsize", D, ()),
      ("gR200m", D, ()), ("gR200c", D, ()), ("gRvir_again", D, ()), ("gRhalfmass", D, ()), ("gRmaxvel", D, ()), ("gmaxvel", D, ()),
      ("gsigma_v", D, ()), ("gveldisp", D, (3, 3)), ("glambda_B", D, ()), ("gJ", D, (3,)), ("gq", D, ()), ("gs", D, ()),
      ("geigvec", D, (3, 3)), ("cNFW", D, ()), ("Krot", D, ()), ("T", D, ()), ("Pot", D, ()), ("RV_sigma_v", D, ()),
      ("RV_veldisp", D, (3, 3)), ("RV_lambda_B", D, ()), ("RV_J", D, (3,)), ("RV_q", D, ()), ("RV_s", D, ()), ("RV_eigvec", D, (3, 3))]


@st.composite
def velos(draw):
    return {"n": draw(st.sampled_from([0, 1, 2, 5])), "hsize": draw(st.sampled_from([0, 1, 3, 60, 120])), "keep": draw(st.sampled_from([0, 1, 1, 2])),
            "seed": draw(st.integers(0, 999)), "i": draw(st.integers(0, 10 ** 6)), "how": draw(st.sampled_from(["ok", "ok", "cut", "flag"]))}


@check.sub(velos(), 500, 12000)
def velociraptor(c):
    from virgo.formats.velociraptor import PropertiesFile
    d = paths.fresh_dir()
    try:
        fn = os.path.join(d, "x.properties")
        rng = np.random.default_rng(c["seed"])
        n = c["n"]
        hv = {"ThisTask": np.int32(c["i"] % 7), "NProcs": np.int32(8), "ng": np.uint64(n), "ngtot": np.uint64(n + 100),
              "hsize": np.int64(c["hsize"])}
        b = b"".join(v.tobytes() for v in hv.values())
        for i in range(c["hsize"]):
            s = ("Quantity_%d" % (i * 7 + c["seed"])).encode()
            hv["entry%03d" % i] = np.bytes_(s)
            b += s.ljust(40, b"\0")
        fields = V1 + (VK if c["keep"] else []) + V2
        vals = {nm: fill(rng, t, (n,) + sh) for nm, t, sh in fields}
        b += pack([(nm, t, 0) for nm, t, sh in fields], vals, n, False)
        if c["how"] == "cut":
            b = b[:len(b) - 1 - c["i"] % (len(b) - 1)]
        with open(fn, "wb") as f:
            f.write(b)
        if c["how"] == "flag":
            must_raise(NotImplementedError, PropertiesFile, fn, **{["GASON", "STARON", "BHON", "HIGHRES"][c["i"] % 4]: True})
            return True

        def read_all():
            f = PropertiesFile(fn, ikeepfof=c["keep"]) if c["keep"] or c["i"] % 2 else PropertiesFile(fn)
            for nm, v in hv.items():
                eq(f["Header"].attrs[nm], v, "Header/" + nm)
            h = f["Halo"][...]
            ck(h.dtype.names == tuple(x[0] for x in fields), "fields %r" % (h.dtype.names,))
            for nm, v in vals.items():
                eq(h[nm], v, nm)
            ck(f["Halo"].shape == (n,), "shape")
            ck(f.all_bytes_used(), "file not covered")
            f.close()
        if c["how"] == "cut":
            must_raise((IOError, ValueError), read_all)
        else:
            read_all()
        return n >= 2
    finally:
        paths.drop(d)
