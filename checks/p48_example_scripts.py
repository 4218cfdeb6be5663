"""P48: the Python example scripts, run on generated simulation files."""
import ast, contextlib, io, os, sys, tokenize, types
import numpy as np
import h5py
from hypothesis import strategies as st
from vt.core import Check, event
from vt import paths, subfind as sf
from vt.binfmt import Out, fill
from vt.util import check as ck, eq
from checks import p23_gadget as p23, p24_lgadget2 as p24, p45_millennium_f90 as p45

check = Check("P48", quick_scale=3, shards=6, rule=(
    "The seven Python example scripts for Millennium, Millennium-2 and WMAP7 data, with the paths at their top pointing at generated runs (8-512 files, either byte order, 0-12 groups, "
    "subhalos spanning the box edge, empty files) and a plotting library that only records. The settings at the top of each script are read from its "
    "source. Oracle: the arrays written, selected and averaged by brute force. Non-trivial: at least two subhalos in different files, "
    "or a selection with some but not all particles."))


class Recorder(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*args, **kw):
            self.calls.append((name, args, kw))
            return Recorder("anything")
        return f


def parse(name, convert=True):
    """The syntax tree, after the conversion of Python 2 print statements (a known finding) where it has any."""
    with open(os.path.join(paths.REPO, "examples", name)) as f:
        text = f.read()
    try:
        return ast.parse(text)
    except SyntaxError:
        if not convert:
            raise
    lines = text.split("\n")
    insert, start, last = [], None, None
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NEWLINE:
            if start:
                insert += [(start, "("), (last, ")")]
            start = None
        elif t.type == tokenize.NAME and t.string == "print":
            start = t.end
        elif t.type != tokenize.COMMENT:
            last = t.end
    for (row, col), s in sorted(insert, reverse=True):
        lines[row - 1] = lines[row - 1][:col] + s + lines[row - 1][col:]
    return ast.parse("\n".join(lines))


@check.probe
def python2():
    for name in ("millennium/python/read_subhalo_catalogue.py", "millennium2/python/compute_rvmax.py", "millennium-wmap7/python/read_mr7_snapshot_file.py"):
        parse(name, False)


class Script:
    def __init__(self, name):
        self.tree = parse(name)
        self.name = name
        self.const, self.nfiles = {}, None
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                with contextlib.suppress(ValueError, TypeError, SyntaxError):
                    self.const[n.targets[0].id] = ast.literal_eval(n.value)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "range" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant):
                self.nfiles = n.args[0].value

    def run(self, root, **given):
        """Returns the variables of the script, what it printed and the calls of the plotting library."""
        class Move(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, str) and n.value.startswith(("/gpfs/", "/virgo/")):
                    return ast.copy_location(ast.Constant(root + n.value), n)
                return n
        import copy
        code = compile(ast.fix_missing_locations(Move().visit(copy.deepcopy(self.tree))), self.name, "exec")
        plt = Recorder("matplotlib.pyplot")
        mpl = Recorder("matplotlib")
        mpl.pyplot = plt
        old = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
        sys.modules.update({"matplotlib": mpl, "matplotlib.pyplot": plt})
        out, g = io.StringIO(), dict(given, __name__="__main__")
        try:
            with contextlib.redirect_stdout(out):
                exec(code, g)
        finally:
            for k, v in old.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        return g, out.getvalue(), plt.calls


_scripts = {}


def script(name):
    if name not in _scripts:
        _scripts[name] = Script(name)
    return _scripts[name]


def fill_up(d, base, n, one):
    """Files which have no data of their own are links to an empty one."""
    for i in range(n):
        fn = os.path.join(d, "%s.%d" % (base, i))
        if not os.path.exists(fn):
            os.symlink(one, fn)


def numbers(line):
    return [float(x) for x in line.replace("(", " ").replace("]", " ").replace("[", " ").replace(",", " ").split()]


@st.composite
def catalogues(draw):
    c = draw(p24.cats())
    c["id_bytes"] = 8
    c["where"] = sorted(draw(st.sets(st.sampled_from([0, 1, 7, 99, 100, 510, 511]), min_size=1, max_size=3)))
    c["empty"] = draw(st.booleans())
    return c


@check.sub(catalogues(), 40, 1500)
def read_subhalo_catalogue(c):
    s = script("millennium/python/read_subhalo_catalogue.py")
    isnap = s.const["isnap"]
    root = paths.fresh_dir()
    try:
        d = os.path.join(root, "virgo/data/Millennium/postproc_%03d" % isnap)
        os.makedirs(d)
        base = "sub_tab_%03d" % isnap
        rows = []
        for k, i in enumerate(c["where"]):
            if i >= s.nfiles:
                continue
            t = p24.build(dict(c, seed=c["seed"] + k, len=c["len"][k:], nsub=c["nsub"][k:]))["sub_tab"]
            p24.write(os.path.join(d, "%s.%d" % (base, i)), c, t)
            for j in range(len(t["SubLen"])):
                rows.append([t["SubParentHalo"][j], t["SubLen"][j]] + t["SubPos"][j].tolist() + t["SubVel"][j].tolist())
        one = os.path.join(root, "none")
        p24.write(one, c, p24.build(dict(c, len=[], nsub=[]))["sub_tab"])
        fill_up(d, base, s.nfiles, one)
        _, out, _ = s.run(root)
        lines = out.splitlines()
        ck(lines and "halo" in lines[0], "no header: %r" % lines[:1])
        ck(len(lines) == len(rows) + 1, "%d lines for %d subhalos" % (len(lines) - 1, len(rows)))
        for l, w in zip(lines[1:], rows):
            got = numbers(l)
            ck(len(got) == 8 and np.allclose(got, np.array(w, "f8"), rtol=0, atol=6e-7), "line %r for %r" % (l, w))
        return sum(1 for i in c["where"] if i < s.nfiles) > 1 and len(rows) > 1
    finally:
        paths.drop(root)


@st.composite
def sims(draw):
    c = draw(p45.sims())
    c["box"] = draw(st.sampled_from([62.5, 40.0, 25.0, 500.0]))
    c["n"] = draw(st.sampled_from([30, 120]))
    c["groups"] = [draw(st.sampled_from([1, 2, 3, 5])) for _ in range(draw(st.integers(12, 14)))]
    c["nsub"] = [draw(st.integers(0, 2)) for _ in range(len(c["groups"]))]
    return c


def millennium(c, root, isnap):
    d = os.path.join(root, "virgo/data/Millennium")
    os.makedirs(d)
    s = p45.Sim(c, d)
    for sub in ("snapdir", "postproc"):
        if isnap != 7:
            os.rename(os.path.join(d, sub + "_007"), os.path.join(d, "%s_%03d" % (sub, isnap)))
        e = os.path.join(d, "%s_%03d" % (sub, isnap))
        for f in os.listdir(e):
            kind, _, i = f.replace("snap_test", "snap_millennium").rpartition("_")
            os.rename(os.path.join(e, f), os.path.join(e, "%s_%03d.%s" % (kind, isnap, i.split(".")[1])))
    return s


@check.sub(sims(), 120, 4000)
def plot_fof_group(c):
    s = script("millennium/python/plot_fof_group.py")
    k = s.const
    root = paths.fresh_dir()
    try:
        c = dict(c, ifile=k["ifile"])
        sim = millennium(c, root, k["isnap"])
        lens = sim.w["group_tab"]["GroupLen"]
        if len(lens) <= k["ifof"]:
            return False
        _, out, calls = s.run(root)
        lo = int(lens[:k["ifof"]].sum())
        m = sim.sub_member[lo:lo + lens[k["ifof"]]]
        plots = [x for x in calls if x[0] == "plot"]
        ck(len(plots) == 1, "%d plots" % len(plots))
        eq(np.asarray(plots[0][1][0]), sim.pos[m, 0], "x")
        eq(np.asarray(plots[0][1][1]), sim.pos[m, 1], "y")
        titles = [x[1][0] for x in calls if x[0] == "title"]
        ck(all(str(v) in titles[0] for v in (k["ifof"], k["ifile"], k["isnap"])), "title %r" % titles)
        return len(m) > 1 and sim.nf > 1
    finally:
        paths.drop(root)


@check.sub(sims(), 120, 4000)
def read_region(c):
    s = script("millennium/python/read_region.py")
    co = s.const["coords"]
    root = paths.fresh_dir()
    try:
        sim = millennium(c, root, s.const["isnap"])
        g, _, _ = s.run(root)
        nc = 1 << c["bits"]
        size = c["box"] / nc
        sel, inside = np.ones(len(sim.pos), bool), np.ones(len(sim.pos), bool)
        for ax in range(3):
            a, b = co[2 * ax:2 * ax + 2]
            sel &= np.isin(sim.cell[:, ax], np.arange(int(np.floor(a / size)), int(np.floor(b / size)) + 1) % nc)
            inside &= (sim.pos[:, ax] >= a) & (sim.pos[:, ax] <= b)
        at = {int(x): j for j, x in enumerate(sim.ids)}
        rows = [at[int(x)] for x in g["ids"]]
        ck(len(set(rows)) == len(rows), "a particle was returned twice")
        ck(set(np.flatnonzero(inside)) <= set(rows), "particles in the region are missing")
        ck(set(rows) <= set(np.flatnonzero(sel)), "particles from other cells returned")
        eq(np.asarray(g["pos"]).reshape(-1, 3), sim.pos[rows], "positions")
        eq(np.asarray(g["vel"]).reshape(-1, 3), sim.vel[rows], "velocities")
        event("some" if 0 < len(rows) < len(sim.pos) else "all or none")
        return 0 < len(rows) < len(sim.pos)
    finally:
        paths.drop(root)


@st.composite
def halos(draw):
    """Subhalos of particles around centres, some next to the edge of the box."""
    ng = draw(st.integers(1, 4))
    return {"len": [draw(st.sampled_from([1, 2, 5, 20])) for _ in range(ng)], "nsub": [draw(st.integers(1, 3)) for _ in range(ng)],
            "endian": draw(st.sampled_from("<>")), "redshift": draw(st.sampled_from([0.0, 0.5, 3.0, 9.0])),
            "box": draw(st.sampled_from([62.5, 100.0, 500.0])), "field": draw(st.sampled_from([0, 4])), "seed": draw(st.integers(0, 9999)),
            "edge": draw(st.booleans()), "id_bytes": draw(st.sampled_from([4, 8])), "key": draw(st.booleans()),
            "spread": draw(st.integers(0, 3)), "isub": draw(st.integers(0, 50))}


class Halos:
    """Particles grouped by subhalo: group order, and the shuffled order of the snapshot."""
    def __init__(self, c, total=None):
        rng = self.rng = np.random.default_rng(c["seed"])
        self.c = c
        ln = np.array(c["len"], "i4") * 3
        nsub = np.array(c["nsub"], "i4")
        off = np.cumsum(ln, dtype="i4") - ln
        self.parent = np.repeat(np.arange(len(ln), dtype="i4"), nsub)
        sublen, suboff, used = [], [], np.zeros(len(ln), "i4")
        for p in self.parent:
            n = int(rng.integers(0, ln[p] - used[p] + 1)) if len(sublen) else int(ln[p])
            sublen.append(n)
            suboff.append(off[p] + used[p])
            used[p] += n
        self.ln, self.nsub, self.off = ln, nsub, off
        self.sublen, self.suboff = np.array(sublen, "i4"), np.array(suboff, "i4")
        n = self.nbound = int(ln.sum())
        self.n = n + c["field"]
        box = c["box"]
        self.pos = np.zeros((self.n, 3))
        self.centre = np.zeros((len(self.sublen), 3))
        self.rel = rng.uniform(-0.02, 0.02, (self.n, 3)) * box
        self.subnr = np.full(self.n, -1)
        self.pos[:] = rng.uniform(0, box, (self.n, 3))
        for i, (o, l) in enumerate(zip(self.suboff, self.sublen)):
            self.centre[i] = rng.choice([0.001, 0.999], 3) * box if c["edge"] else rng.uniform(0.1, 0.9, 3) * box
            self.pos[o:o + l] = (self.centre[i] + self.rel[o:o + l]) % box
            self.subnr[o:o + l] = i
        self.pos = self.pos.astype("f4")
        self.vel = rng.uniform(-500, 500, (self.n, 3)).astype("f4")
        self.idt = "u%d" % c["id_bytes"]
        self.ids = rng.permutation(self.n).astype(self.idt) + (rng.integers(0, 2 ** 29, dtype=self.idt))
        self.mass = float(rng.uniform(0.01, 0.2))
        self.a = 1.0 / (1.0 + c["redshift"])

    def write_snap(self, d, base, nf, order, cuts):
        os.makedirs(d)
        e = [0] + cuts + [self.n]
        head = {"NumPart_Total": np.array([0, self.n, 0, 0, 0, 0], "u4"), "NumFilesPerSnapshot": np.int32(nf),
                "MassTable": np.array([0, self.mass, 0, 0, 0, 0]), "BoxSize": self.c["box"], "Redshift": self.c["redshift"]}
        one = None
        for i in range(nf):
            r = order[e[i]:e[i + 1]] if i + 1 < len(e) else order[:0]
            fn = os.path.join(d, "%s.%d" % (base, i))
            if len(r) == 0 and one:
                os.symlink(one, fn)
                continue
            o, h = Out(self.c["endian"]), Out(self.c["endian"])
            vals = dict(head, NumPart_ThisFile=np.array([0, len(r), 0, 0, 0, 0], "i4"))
            for nm, ty, m in p23.HEAD:
                h.put(vals[nm] if nm in vals else np.zeros((m,) if m else ()), ty)
            hb = h.bytes()
            o.record(np.frombuffer(hb + b"\0" * (256 - len(hb)), "u1"))
            if len(r):
                o.record(self.pos[r]).record(self.vel[r]).record(self.ids[r])
            else:
                one = fn
            o.save(fn)

    def cuts(self, nf):
        return sorted(self.rng.integers(0, self.n + 1, nf - 1).tolist())

    def averages(self):
        """Mean position relative to the centre, mean velocity and angular momentum per unit mass of every subhalo."""
        x, v, am = [], [], []
        for o, l in zip(self.suboff, self.sublen):
            r = self.rel[o:o + l]
            u = self.vel[o:o + l].astype("f8") * np.sqrt(self.a)
            x.append(r.mean(axis=0) if l else np.zeros(3))
            v.append(u.mean(axis=0) if l else np.zeros(3))
            am.append(np.cross((r - x[-1]) * self.a, u - v[-1]).mean(axis=0) if l else np.zeros(3))
        return np.array(x), np.array(v), np.array(am)

    def verify(self, g):
        x, v, am = self.averages()
        box = self.c["box"]
        k = np.max(np.flatnonzero(self.sublen)) + 1
        for nm, w in (("mean_pos", x), ("mean_vel", v), ("am", am)):
            ck(g[nm].shape == (k, 3), "%s has shape %r for %d subhalos" % (nm, g[nm].shape, k))
        has = np.flatnonzero(self.sublen)
        d = g["mean_pos"][has] - self.centre[has] - x[has]
        d = (d + box / 2) % box - box / 2
        ck(np.all(np.abs(d) < 1e-5 * box), "mean positions %r, expected %r" % (g["mean_pos"][has], self.centre[has] + x[has]))
        ck(np.allclose(g["mean_vel"][has], v[has], rtol=1e-4, atol=1e-2), "mean velocities %r, expected %r" % (g["mean_vel"][has], v[has]))
        ck(np.allclose(g["am"][has], am[has], rtol=1e-3, atol=1e-5 * box * 500 * self.a ** 1.5),
           "angular momentum %r, expected %r" % (g["am"][has], am[has]))


CASE = {"len": [2], "nsub": [1], "endian": "<", "redshift": 0.0, "box": 100.0, "field": 0, "seed": 0, "edge": False, "id_bytes": 8, "key": False, "spread": 0,
        "isub": 0}


@check.probe
def millennium_check_units():
    check_units_millennium(CASE, given={})


@check.probe
def rvmax_subnr():
    for seed in range(5):
        compute_rvmax(dict(CASE, len=[5], nsub=[1], seed=seed), help=False)


@check.sub(halos(), 100, 4000)
def check_units_millennium(c, given={"np": np, "sqrt": np.sqrt}):
    # the script uses np and sqrt without importing them (a known finding)
    s = script("millennium/python/check_units.py")
    isnap = s.const["snapnum"]
    root = paths.fresh_dir()
    try:
        c = dict(c, id_bytes=8)
        h = Halos(c)
        d = os.path.join(root, "gpfs/data/jch/MilliMillennium/Snapshots")
        h.write_snap(os.path.join(d, "snapdir_%03d" % isnap), "snap_milli_%03d" % isnap, 8, h.rng.permutation(h.n), h.cuts(8))
        # whole groups with their subhalos are kept together in one file
        where = np.sort(h.rng.integers(0, 8, len(h.ln)) * c["spread"] // 3)
        p = os.path.join(d, "postproc_%03d" % isnap)
        os.makedirs(p)
        key = h.rng.integers(0, 2 ** 30 if c["key"] else 1, h.n).astype("u8") << np.uint64(34)
        for i in range(8):
            gr = np.flatnonzero(where == i)
            su = np.isin(h.parent, gr)
            first = int(h.off[gr[0]]) if len(gr) else 0
            nids = int(h.ln[gr].sum())
            w = p24.build(dict(c, len=[int(x) for x in h.ln[gr]], nsub=[int(x) for x in h.nsub[gr]], ntask=8, minlen=0))
            w["sub_tab"]["SubLen"], w["sub_tab"]["SubOffset"] = h.sublen[su], h.suboff[su] - np.int32(first)
            w["sub_ids"]["GroupIDs"] = key[first:first + nids] | h.ids[first:first + nids]
            for nm in ("sub_tab", "sub_ids"):
                p24.write(os.path.join(p, "%s_%03d.%d" % (nm, isnap, i)), c, w[nm])
        g, _, _ = s.run(root, **given)
        h.verify(g)
        return len(set(where)) > 1
    finally:
        paths.drop(root)


@check.sub(halos(), 60, 2000)
def check_units_millennium2(c):
    s = script("millennium2/python/check_units.py")
    isnap = s.const["snapnum"]
    root = paths.fresh_dir()
    try:
        c = dict(c, id_bytes=4)
        h = Halos(c)
        d = os.path.join(root, "gpfs/data/jch/Millennium2/SmallRun")
        h.write_snap(os.path.join(d, "snapdir_%03d" % isnap), "snap_newtest432_%03d" % isnap, 128, h.rng.permutation(h.n), h.cuts(4))
        spin = groups(h, os.path.join(d, "groups_%03d" % isnap), isnap, 128)
        g, _, calls = s.run(root)
        h.verify(g)
        plots = [x[1] for x in calls if x[0] == "plot"]
        k = len(g["am"])
        x, y = np.asarray(plots[0][0]), np.asarray(plots[0][1])
        ck(np.allclose(x, np.linalg.norm(g["am"], axis=1), rtol=1e-5, equal_nan=True), "angular momentum plotted")
        ck(np.allclose(y[:k], np.linalg.norm(spin, axis=1)[:k], rtol=1e-5), "spin plotted")
        return len(h.sublen) > 1
    finally:
        paths.drop(root)


def groups(h, d, isnap, nf, **more):
    """P-Gadget3 files, the first few with groups or subhalos; returns the spins."""
    c = dict(h.c, float_bytes=4, veldisp=False, shape=False, nf=nf, ntask=nf)
    os.makedirs(d)
    ng, ns = len(h.ln), len(h.sublen)
    c["gfile"] = np.sort(h.rng.integers(0, c["spread"] + 1, ng)).tolist()
    c["sfile"] = np.sort(h.rng.integers(0, c["spread"] + 1, ns)).tolist()
    g, s, _ = sf.whole(dict(c, len=[int(x) for x in h.ln]), sf.P3_GROUP, sf.P3_SUB)
    s["SubLen"], s["SubOffset"] = h.sublen.astype(s["SubLen"].dtype), h.suboff.astype(s["SubOffset"].dtype)
    s["SubGrNr"] = h.parent.astype(s["SubGrNr"].dtype)
    s.update({k: v.astype("f4") for k, v in more.items()})
    idcut = [0] + np.sort(h.rng.integers(0, h.nbound + 1, c["spread"])).tolist() + [h.nbound]
    one = {}
    for i, (gg, ss) in enumerate(sf.split(c, g, s)):
        a, b = idcut[i:i + 2] if i + 1 < len(idcut) else (0, 0)
        tot = {"Ngroups": np.int32(len(gg["GroupLen"])), "TotNgroups": np.int32(ng), "Nids": np.int32(b - a), "TotNids": np.int64(h.nbound),
               "NTask": np.int32(nf)}
        for kind, head, tables in (("tab", dict(tot, Nsubgroups=np.int32(len(ss["SubLen"])), TotNsubgroups=np.int32(ns)), (gg, ss)),
                                   ("ids", dict(tot, Send_offset=np.int32(a)), ({"GroupIDs": h.ids[a:b]},))):
            fn = os.path.join(d, "subhalo_%s_%03d.%d" % (kind, isnap, i))
            if i > c["spread"] and kind in one:
                os.symlink(one[kind], fn)
            else:
                sf.write_plain(fn, c, head, *tables)
                if i > c["spread"]:
                    one[kind] = fn
    return s["SubSpin"]


@contextlib.contextmanager
def subhalo_numbers(h):
    """The script uses the subhalo numbers of the particles in a FoF group, which the reader does not return (a known finding)."""
    from virgo.formats.subfind_pgadget3 import GroupOrderedSnapshot as G
    old = G.read_fof_group

    def read_fof_group(self, grnr, *args, **kw):
        data = old(self, grnr, *args, **kw)
        if "SubNr" not in data:
            data["SubNr"] = h.subnr[h.off[grnr]:h.off[grnr] + h.ln[grnr]]
        return data
    G.read_fof_group = read_fof_group
    try:
        yield
    finally:
        G.read_fof_group = old


@check.sub(halos(), 100, 4000)
def compute_rvmax(c, help=True):
    s = script("millennium2/python/compute_rvmax.py")
    k = s.const
    isub = k["isub"]
    root = paths.fresh_dir()
    try:
        c = dict(c, id_bytes=8)
        # enough subhalos before the one of interest, in groups with a single particle each
        rng = np.random.default_rng(c["seed"] + 1)
        c["len"] = [1] * 9 + c["len"] + [3]
        c["nsub"] = [1] * 9 + c["nsub"] + [0]
        lack = isub + 1 + c["isub"] % 3 - sum(c["nsub"])
        if lack > 0:
            c["len"], c["nsub"] = [1] * lack + c["len"], [1] * lack + c["nsub"]
        h = Halos(c)
        # the subhalo of interest gets particles
        if h.sublen[isub] == 0:
            return False
        d = os.path.join(root, "virgo/data/Millennium2/BigRun")
        nf = c["spread"] + 1
        h.write_snap(os.path.join(d, "snapdir_%03d" % k["snapnum"]), "%s_%03d" % (k["basename"], k["snapnum"]), nf, np.arange(h.n), h.cuts(nf))
        ns = len(h.sublen)
        extra = {"SubPos": h.centre, "SubRVmax": rng.uniform(0, 10, ns), "SubVmax": rng.uniform(0, 500, ns)}
        groups(h, os.path.join(d, "groups_%03d" % k["snapnum"]), k["snapnum"], nf, **extra)
        with (subhalo_numbers(h) if help else contextlib.nullcontext()):
            _, out, _ = s.run(root)
        got = [float(l.split("=")[1]) for l in out.splitlines() if "=" in l]
        ck(len(got) == 4, "printed %r" % out)
        o, l = h.suboff[isub], h.sublen[isub]
        r = np.sort(np.linalg.norm(h.rel[o:o + l], axis=1))
        v = np.sqrt(43.0071 * h.mass * np.arange(l) / (r * h.a))       # G in (km/s)^2 Mpc / (10^10 solar masses)
        j = int(np.argmax(v))
        close = np.flatnonzero(v >= v[j] * (1 - 2e-4))
        ck(any(abs(got[0] - r[i] * h.a) <= 1e-3 * r[i] * h.a + 2e-6 * c["box"] * h.a for i in close), "RVmax from particles %r, expected %r" % (got[0], r[close] * h.a))
        tol = 2e-3 + 2e-6 * c["box"] / r[j]
        ck(abs(got[2] - v[j]) <= tol * v[j], "Vmax from particles %r, expected %r" % (got[2], v[j]))
        ck(np.isclose(got[1], extra["SubRVmax"][isub], rtol=1e-5) and np.isclose(got[3], extra["SubVmax"][isub], rtol=1e-5),
           "from catalogue: %r, expected %r" % (got, (extra["SubRVmax"][isub], extra["SubVmax"][isub])))
        return bool(l > 2)
    finally:
        paths.drop(root)


@st.composite
def wmap7(draw):
    return {"n": draw(st.sampled_from([0, 1, 5])), "seed": draw(st.integers(0, 999)), "box": draw(st.sampled_from([500.0, 62.5]))}


@check.sub(wmap7(), 30, 500)
def read_mr7_snapshot_file(c):
    s = script("millennium-wmap7/python/read_mr7_snapshot_file.py")
    rng = np.random.default_rng(c["seed"])
    root = paths.fresh_dir()
    try:
        fn = root + s.const["fname"]
        os.makedirs(os.path.dirname(fn))
        w = {"pos": fill(rng, "f4", (c["n"], 3)), "vel": fill(rng, "f4", (c["n"], 3)), "ids": fill(rng, "u8", (c["n"],))}
        with h5py.File(fn, "w") as f:
            h = f.create_group("Header")
            h.attrs["BoxSize"] = c["box"]
            h.attrs["NumPart_ThisFile"] = np.array([0, c["n"], 0, 0, 0, 0], "i4")
            for k, nm in (("pos", "Coordinates"), ("vel", "Velocities"), ("ids", "ParticleIDs")):
                f["PartType1/" + nm] = w[k]
        g, out, _ = s.run(root)
        for k, v in w.items():
            eq(g[k], v, k)
        ck(str(c["box"]) in out and str(c["n"]) in out.splitlines()[1].split(), "printed %r" % out)
        return c["n"] > 1
    finally:
        paths.drop(root)
