"""Independent description and generator of subfind catalogue files."""
import numpy as np
from hypothesis import strategies as st
from .binfmt import Out, fill

F, I, ID = "float", "i4", "id"

L3_HEAD = [("Ngroups", "i4"), ("TotNgroups", "i8"), ("Nids", "i4"), ("TotNids", "i8"), ("NTask", "i4"), ("Nsubgroups", "i4"),
           ("TotNsubgroups", "i8")]
L3_GROUP = [("GroupLen", "i4", 0), ("GroupOffset", "i4", 0), ("GroupNr", "i8", 0), ("GroupCofM", F, 3), ("GroupVel", F, 3),
            ("GroupPos", F, 3), ("Halo_M_Mean200", F, 0), ("Halo_M_Crit200", F, 0), ("Halo_M_TopHat200", F, 0),
            ("GroupVelDisp", F, 0), "VELDISP", ("Nsubs", "i4", 0), ("FirstSub", "i4", 0)]
VELDISP = [("VelDisp_Mean200", F, 0), ("VelDisp_Crit200", F, 0), ("VelDisp_TopHat200", F, 0)]
L3_SUB = [("SubLen", "i4", 0), ("SubOffset", "i4", 0), ("SubGrNr", "i8", 0), ("SubNr", "i8", 0), ("SubPos", F, 3), ("SubVel", F, 3),
          ("SubCofM", F, 3), ("SubSpin", F, 3), ("SubVelDisp", F, 0), ("SubVmax", F, 0), ("SubRVmax", F, 0), ("SubHalfMass", F, 0),
          "SHAPE", ("SubBindingEnergy", F, 0), ("SubPotentialEnergy", F, 0), ("SubProfile", F, 9)]
P3_HEAD = [("Ngroups", "i4"), ("TotNgroups", "i4"), ("Nids", "i4"), ("TotNids", "i8"), ("NTask", "i4"), ("Nsubgroups", "i4"),
           ("TotNsubgroups", "i4")]
P3_GROUP = [("GroupLen", "i4", 0), ("GroupOffset", "u4", 0), ("GroupMass", F, 0), ("GroupPos", F, 3), ("Halo_M_Mean200", F, 0),
            ("Halo_R_Mean200", F, 0), ("Halo_M_Crit200", F, 0), ("Halo_R_Crit200", F, 0), ("Halo_M_TopHat200", F, 0),
            ("Halo_R_TopHat200", F, 0), "VELDISP", ("ContaminationLen", "i4", 0), ("ContaminationMass", F, 0), ("Nsubs", "i4", 0),
            ("FirstSub", "i4", 0)]
P3_SUB = [("SubLen", "i4", 0), ("SubOffset", "i4", 0), ("SubParent", "i4", 0), ("SubMass", F, 0), ("SubPos", F, 3), ("SubVel", F, 3),
          ("SubCofM", F, 3), ("SubSpin", F, 3), ("SubVelDisp", F, 0), ("SubVmax", F, 0), ("SubRVmax", F, 0), ("SubHalfMass", F, 0),
          ("SubMostBoundID", ID, 0), ("SubGrNr", "i4", 0)]
G4_GROUP = [("GroupLen", "i4", 0), ("GroupMass", F, 0), ("GroupPos", F, 3), ("GroupVel", F, 3), ("GroupLenType", "i4", 6),
            ("GroupMassType", F, 6), ("Halo_M_Mean200", F, 0), ("Halo_R_Mean200", F, 0), ("Halo_M_Crit200", F, 0),
            ("Halo_R_Crit200", F, 0), ("Halo_M_TopHat200", F, 0), ("Halo_R_TopHat200", F, 0), ("Nsubs", "i4", 0), ("FirstSub", "i4", 0)]
G4_SUB = [("SubLen", "i4", 0), ("SubMass", F, 0), ("SubPos", F, 3), ("SubVel", F, 3), ("SubLenType", "i4", 6), ("SubMassType", F, 6),
          ("SubCofM", F, 3), ("SubSpin", F, 3), ("SubVelDisp", F, 0), ("SubVmax", F, 0), ("SubRVmax", F, 0), ("SubHalfMassRad", F, 0),
          ("SubHalfMassRadType", F, 6), ("SubMassInRad", F, 0), ("SubMassInRadType", F, 6), ("SubMostBoundID", ID, 0),
          ("SubGrNr", "i4", 0), ("SubParent", "i4", 0)]


@st.composite
def catalogues(draw, maxfiles=4, min_groups=0):
    """Groups with subgroups, spread over files."""
    ng = draw(st.sampled_from([n for n in (0, 1, 2, 3, 5, 9) if n >= min_groups]))
    nsub = [draw(st.sampled_from([0, 0, 1, 2, 3])) for _ in range(ng)]
    nf = draw(st.integers(1, maxfiles))
    if maxfiles > 4 and draw(st.integers(0, 5)) == 0:
        nf = draw(st.integers(10, 13))          # file 10 comes after file 9
    return {"len": [draw(st.sampled_from([1, 2, 3, 7, 20])) for _ in range(ng)], "nsub": nsub,
            "gfile": sorted(draw(st.integers(0, nf - 1)) for _ in range(ng)),
            "sfile": sorted(draw(st.integers(0, nf - 1)) for _ in range(sum(nsub))), "nf": nf,
            "endian": draw(st.sampled_from("<>")), "id_bytes": draw(st.sampled_from([4, 8])),
            "float_bytes": draw(st.sampled_from([4, 8])), "veldisp": draw(st.booleans()), "shape": draw(st.booleans()),
            "seed": draw(st.integers(0, 999)), "ntask": draw(st.sampled_from([0, 0, 256, 65535])),
            "nofirst": draw(st.sampled_from([None, -1, 0, "past", 2 ** 31 - 1])),       # FirstSub of groups without subgroups
            # particles, groups and subgroups in files before the first
            "before": draw(st.sampled_from([0, 0, 0, 2 ** 30, "max", "over", 2 ** 31 - 5, 2 ** 31, 3 * 2 ** 30])),
            "gbefore": draw(st.sampled_from([0, 0, 3, 2 ** 30, 2 ** 31 - 100])),
            "sbefore": draw(st.sampled_from([0, 0, 5, 2 ** 30, 2 ** 31 - 100]))}


def expand(fields, c):
    out = []
    for f in fields:
        if f == "VELDISP":
            out += VELDISP if c["veldisp"] else []
        elif f == "SHAPE":
            out += [("SubShape", F, 6)] if c["shape"] else []
        else:
            out.append(f)
    return out


def typ(t, c):
    return {F: "f%d" % c["float_bytes"], ID: "u%d" % c["id_bytes"]}.get(t, t)


def totals(c):
    """Total numbers of particles, groups and subgroups."""
    n = sum(c["len"])
    before = c.get("before", 0)
    before = {"max": 2 ** 31 - 1 - n, "over": 2 ** 31 - n}.get(before, before)
    return before + n, c.get("gbefore", 0) + len(c["len"]), c.get("sbefore", 0) + sum(c["nsub"])


def whole(c, group, sub):
    """The full catalogue: name -> array, consistent and passing every documented sanity condition."""
    tot = totals(c)
    rng = np.random.default_rng(c["seed"])
    ln = np.array(c["len"], dtype="i8")
    nsub = np.array(c["nsub"], dtype="i8")
    ng, ns = len(ln), int(nsub.sum())
    off = np.cumsum(ln) - ln + tot[0] - int(ln.sum())
    parent = np.repeat(np.arange(ng), nsub)
    sublen, suboff = np.zeros(ns, "i8"), np.zeros(ns, "i8")
    used = np.zeros(ng, "i8")
    for i, p in enumerate(parent):
        sublen[i] = rng.integers(0, ln[p] - used[p] + 1)
        suboff[i] = off[p] + used[p]
        used[p] += sublen[i]
    known = {"GroupLen": ln, "GroupOffset": off, "Nsubs": nsub, "FirstSub": np.cumsum(nsub) - nsub + tot[2] - ns, "SubLen": sublen,
             "SubOffset": suboff, "SubGrNr": parent + tot[1] - ng, "GroupNr": np.arange(ng) + tot[1] - ng,
             "SubNr": np.arange(ns) + tot[2] - ns}
    if c.get("nofirst") is not None:
        known["FirstSub"] = np.where(nsub > 0, known["FirstSub"], min(tot[2] + 1, 2 ** 31 - 1) if c["nofirst"] == "past" else c["nofirst"])
    g, s = {}, {}
    for fields, out, n in ((group, g, ng), (sub, s, ns)):
        for nm, t, m in expand(fields, c):
            tt = typ(t, c)
            sh = (n, m) if m else (n,)
            v = known[nm] if nm in known else fill(rng, tt, sh)
            if nm not in known and t == F and nm not in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
                v = np.abs(v)
                if len(v) and rng.random() < 0.3:
                    v[rng.integers(0, len(v))] = 0
            out[nm] = np.asarray(v).astype(tt).reshape(sh)
    return g, s, ln


def split(c, g, s):
    """Per-file (groups, subgroups) dictionaries."""
    out = []
    gf, sf = np.array(c["gfile"], int), np.array(c["sfile"], int)
    for i in range(c["nf"]):
        out.append(({k: v[gf == i] for k, v in g.items()}, {k: v[sf == i] for k, v in s.items()}))
    return out


def write_plain(fn, c, head, *tables):
    """L-/P-Gadget3 style: a bare concatenation of arrays."""
    o = Out(c["endian"])
    for v in head.values():
        o.put(v)
    for t in tables:
        for v in t.values():
            o.put(v)
    o.save(fn)
    return o.bytes()


def gadget4_file(fn, c, g, s, tot, fl, wrong=None):
    o = Out(c["endian"])
    ng, ns = len(g["GroupLen"]), len(s["SubLen"])
    rng = np.random.default_rng(c["seed"] + 5)
    head = {"Ngroups": np.int32(ng), "Nsubgroups": np.int32(ns), "Nids": np.int32(fl), "TotNgroups": np.int32(tot[0]),
            "TotNsubgroups": np.int32(tot[1]), "TotNids": np.int32(tot[2]), "NFiles": np.int32(c["nf"]), "padding1": np.int32(77),
            "Time": np.float64(rng.uniform()), "Redshift": np.float64(rng.uniform()), "HubbleParam": np.float64(rng.uniform()),
            "BoxSize": np.float64(rng.uniform()), "Omega0": np.float64(rng.uniform()), "OmegaLambda": np.float64(rng.uniform()),
            "flag_dp": np.int32(c["float_bytes"] == 8), "padding2": np.int32(-3)}
    o.record(*head.values())
    want = dict(head)
    if ng:
        for k, v in g.items():
            o.record(v)
        want.update(g)
    if ns:
        for k, v in s.items():
            o.record(v)
        want.update(s)
    o.save(fn)
    return o, want


@st.composite
def big_cases(draw, ndim):
    """Numbers of objects for which some offsets in the file exceed 32 bits."""
    big = draw(st.integers(0, ndim - 1))
    n = []
    for i in range(ndim):
        n.append(draw(st.sampled_from([2 ** 31 - 1, 1431655766, 715827883, 357913942, draw(st.integers(3 * 10 ** 8, 2 ** 31 - 1))])) if i == big else
                 draw(st.sampled_from([0, 1, 5, 10 ** 6, 4 * 10 ** 8])))
    return {"n": n, "pick": [[draw(st.integers(0, 999)), draw(st.sampled_from([0.0, 1.0, draw(st.floats(0, 1))]))] for _ in range(8)],
            "seed": draw(st.integers(0, 99)), "endian": draw(st.sampled_from("<>")), "id_bytes": draw(st.sampled_from([4, 8])),
            "float_bytes": draw(st.sampled_from([4, 8])), "veldisp": draw(st.booleans()), "shape": draw(st.booleans())}


def big_file(fn, c, items, scale, header):
    """Sparse file with the layout of the small example in items, whose arrays of length k get length scale[k].

    Returns [(name, index, value)] for the few elements which are stored and {name: length}."""
    sizes, at, pos = {}, {}, 0
    for nm, v in items.items():
        v = np.asarray(v)
        n = scale[v.shape[0]] if v.ndim and v.shape[0] in scale else v.shape[0] if v.ndim else None
        at[nm] = (pos, v, n)
        if n is not None:
            sizes[nm] = n
        pos += v.dtype.itemsize * (int(np.prod(v.shape[1:])) * n if n is not None else 1)
    names = [nm for nm, (_, v, n) in at.items() if n]
    probes = {}
    with open(fn, "wb") as f:
        for nm, (off, v, n) in at.items():
            if n is None:
                f.seek(off)
                f.write(np.asarray(header.get(nm, v), dtype=v.dtype).astype(v.dtype.newbyteorder(c["endian"])).tobytes())
        for k, frac in c["pick"]:
            nm = names[k % len(names)]
            off, v, n = at[nm]
            i = min(int(frac * n), n - 1)
            x = fill(np.random.default_rng(k + i), v.dtype, v.shape[1:])
            f.seek(off + i * x.nbytes)
            f.write(np.asarray(x, dtype=v.dtype).astype(v.dtype.newbyteorder(c["endian"])).tobytes())
            probes[nm, i] = x
        f.truncate(pos)
    return probes, sizes


def big_verify(f, probes, sizes):
    from .util import check as ck, eq
    for nm, n in sizes.items():
        ck(f[nm].shape[0] == n, "%s has %d elements, expected %d" % (nm, f[nm].shape[0], n))
    for (nm, i), x in probes.items():
        eq(f[nm][i], x, "element %d of %s" % (i, nm))
        eq(f[nm][i:i + 1][0], x, "element %d of %s" % (i, nm))
    ck(f.all_bytes_used(), "file not covered")
    f.close()
