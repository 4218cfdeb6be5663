"""P42: hash_dirs_mpi.py hashes every file of a directory tree once."""
import fnmatch, hashlib, os, sqlite3
import numpy as np
from hypothesis import strategies as st
from vt.core import Check, event
from vt import gen, mpi, paths
from vt.util import check as ck

check = Check("P42", quick_scale=2, shards=3, rule=(
    "Random directory trees (nested, empty and linked directories; empty, small and more than 10 MB long files; dangling links as unreadable "
    "files; odd names; files which look like output files), hashed on 1-8 ranks with any combination of hash type, per-directory "
    "files, an output file inside or outside the tree, include and exclude patterns and a database; then changed in random ways and hashed again, "
    "with and without --resume. Oracle: hashlib over the files selected by fnmatch; rows, lines and files must be exactly those. "
    "Non-trivial: at least two directories with selected files and at least two ranks, or a resumed run which reuses and computes hashes."))

SCRIPT = os.path.join(paths.REPO, "consistency_check", "hash", "hash_dirs_mpi.py")
OUTPUTS = ("hashes", "sums.txt", "out.md5")
FILES = ["a", "b.txt", "snap.0", "snap.1.hdf5", "snap.10.hdf5", "with space", ".hidden", "hashes", "out.md5", "n\u00e4me", "a#b", "A"]
DIRS = ["d", "e", "data.dir", ".h", "sp ace"]
PATTERNS = ["*", "*.hdf5", "snap*", "d/*", "*/a", "?", "[ab]*", "d/e/*", "*.txt", "nothing", "*/d/*", "./d/a"]


@st.composite
def trees(draw):
    """Paths of directories and files: ["dir", path] or [kind, path, seed]"""
    dirs = [""]
    out = []
    for _ in range(draw(st.integers(0, 6))):
        p = os.path.join(draw(st.sampled_from(dirs)), draw(st.sampled_from(DIRS)))
        if p not in dirs and p.count("/") < 4:
            dirs.append(p)
            out.append(["dir", p])
    used = set()
    for _ in range(draw(st.integers(0, 12))):
        p = os.path.join(draw(st.sampled_from(dirs)), draw(st.sampled_from(FILES)))
        if p in used or p in dirs:
            continue
        used.add(p)
        kind = draw(st.sampled_from(["small", "small", "small", "empty", "bad", "big", "link", "same"]))
        if os.path.basename(p) in OUTPUTS and kind in ("bad", "link"):
            kind = "small"      # outputs are never written through links
        out.append([kind, p, draw(st.integers(0, 100))])
    if draw(st.booleans()) and len(dirs) > 1:
        out.append(["dirlink", "linked", draw(st.integers(0, 3))])
    return out


@st.composite
def histories(draw):
    runs = []
    c = draw(gen.comms())
    patterns = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=3))
    opts = {"type": draw(st.sampled_from([None, "md5", "sha1", "sha256"])),
            "outfile": draw(st.sampled_from([None, "out.md5", "d/out.md5", "../result"])),
            "dirfile": draw(st.sampled_from([None, None, "hashes", "sums.txt"])),
            "include": draw(patterns), "exclude": draw(patterns), "database": draw(st.sampled_from([True, True, False]))}
    for k in range(draw(st.sampled_from([1, 2, 2, 3]))):
        runs.append({"resume": k > 0 and opts["database"] and draw(st.sampled_from([True, True, False])),
                     # later runs may use other options
                     "type": draw(st.sampled_from(["same", "same", None, "md5", "sha1"])) if k else "same",
                     "include": draw(patterns) if k and draw(st.booleans()) else "same",
                     "cwd": draw(st.sampled_from(["same", "same", "abs", "rel"])) if k else "same",
                     "foreign": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])) if k else 0,
                     "lose": draw(st.sampled_from([0, 0, 1, 2, 100])),
                     "change": draw(st.lists(st.tuples(st.sampled_from(["edit", "new", "remove"]), st.integers(0, 1000)), max_size=3)) if k else []})
    return {"order": c["order"], "tree": draw(trees()), "opts": opts, "runs": runs, "cwd": draw(st.sampled_from(["abs", "rel", "dot", "slash"]))}


def content(kind, seed):
    if kind == "empty":
        return b""
    if kind == "big":
        n = [10486000, 20971000, 31456000, 10 << 20, 20 << 20, (10 << 20) + 1, (10 << 20) - 1][seed % 7]
        return (np.random.default_rng(seed).bytes(1000) * 31457)[:n]
    if kind == "same":
        return b"the same everywhere"
    return np.random.default_rng(seed).bytes(1 + seed * 7)


def build(base, tree):
    os.mkdir(base)
    top = os.path.dirname(base)
    with open(os.path.join(top, "target"), "w") as f:
        f.write("the target of links")
    bigs = 0
    for e in tree:
        p = os.path.join(base, e[1])
        if e[0] == "dir":
            os.makedirs(p, exist_ok=True)
        elif e[0] == "bad":
            os.symlink(os.path.join(top, "nothing"), p)
        elif e[0] == "link":
            os.symlink(os.path.join(top, "target"), p)
        elif e[0] == "dirlink":
            target = os.path.join(top, "elsewhere")
            os.mkdir(target)
            for i in range(e[2]):
                with open(os.path.join(target, "f%d" % i), "wb") as f:
                    f.write(b"x" * i)
            os.symlink(target, p)
        else:
            kind = e[0]
            if kind == "big":
                bigs += 1
                if bigs > 1:
                    kind = "small"
            with open(p, "wb") as f:
                f.write(content(kind, e[2]))


def hash_of(path, kind):
    try:
        with open(path, "rb") as f:
            return hashlib.new(kind, f.read()).hexdigest()
    except OSError:
        return None


def selected(rel, o):
    ok = True
    if o["include"] is not None:
        ok = any(fnmatch.fnmatchcase(rel, os.path.normpath(p)) for p in o["include"])
    if o["exclude"] is not None and any(fnmatch.fnmatchcase(rel, os.path.normpath(p)) for p in o["exclude"]):
        ok = False
    return ok


def read_list(path):
    """(header lines, {name: hash}) of an output file"""
    with open(path) as f:
        lines = f.read().split("\n")
    ck(lines[-1] == "", "%s does not end with a new line" % path)
    head = [x for x in lines[:-1] if x.startswith("# ")]
    body = [x for x in lines[:-1] if not x.startswith("# ")]
    pairs = [x.split(" ", 1)[::-1] for x in body]
    ck(len(set(n for n, _ in pairs)) == len(pairs), "names repeated in %s: %r" % (path, body))
    return head, dict(pairs)


def change(base, how, n):
    every = sorted(os.path.join(p, f) for p, _, fs in os.walk(base) for f in fs)
    if how == "new":
        q = os.path.join(base, "new%d" % n)
    elif every:
        q = every[n % len(every)]
    else:
        return
    if os.path.islink(q):
        return
    if how == "remove":
        os.remove(q)
    else:
        with open(q, "wb") as f:
            f.write(b"changed %d" % n)


@check.sub(histories(), 220, 12000)
def history(c):
    d = paths.fresh_dir()
    try:
        base = os.path.join(d, "tree")
        build(base, c["tree"])
        o = dict(c["opts"])
        db = os.path.join(d, "hashes.db")
        outfile = None
        if o["outfile"] is not None:
            outfile = os.path.join(base, o["outfile"])
            if not os.path.isdir(os.path.dirname(outfile)):
                outfile = os.path.join(base, "out.md5")
        every = {}                  # rows of the database: {(hash type, basedir): {path: hash}}
        nontrivial = False
        how_cwd = c["cwd"]
        for run in c["runs"]:
            for k in ("type", "include"):
                if run.get(k, "same") != "same":
                    o[k] = run[k]
            if run.get("cwd", "same") != "same":
                how_cwd = run["cwd"]
            kind = o["type"] or "md5"
            cwd, arg = {"abs": (d, base), "rel": (d, "tree"), "dot": (base, "."), "slash": (d, "tree/")}[how_cwd]
            rows = every.get((kind, arg), {})
            for how, n in run["change"]:
                change(base, how, n)
            resume = run["resume"]
            if resume:
                con = sqlite3.connect(db)
                for name in sorted(rows)[:run["lose"]]:
                    con.execute("delete from hashes where path=? and hash_type=? and basedir=?", (name, kind, arg))
                    rows.pop(name)
                con.commit()
                con.close()
                if run.get("foreign"):      # rows of another run, with other hashes of the same files
                    (t, b) = [("md5", arg), ("sha1", arg), ("sha256", arg), (kind, arg + "x"), (kind, "")][run["foreign"] % 5]
                    if (t, b) != (kind, arg):
                        con = sqlite3.connect(db)
                        names = sorted(os.path.normpath(os.path.relpath(os.path.join(p, f), base)) for p, _, fs in os.walk(base) for f in fs)
                        have = every.setdefault((t, b), {})
                        for name in names[:4]:
                            if name not in have:
                                have[name] = hashlib.new(t, b"foreign").hexdigest()
                                con.execute("insert into hashes values(?,?,?,?)", (b, name, t, have[name]))
                        con.commit()
                        con.close()
                resume = len(rows) > 0      # with nothing to resume from the program has to stop
                if not resume and any(every.values()) and run is c["runs"][-1] and not (o["dirfile"] or o["outfile"]):
                    # nothing of this kind: the program has to stop, and to leave the database alone
                    before = sqlite3.connect(db).execute("select * from hashes order by 1, 2, 3, 4").fetchall()
                    argv = [arg, "--database", db, "--resume"] + (["--type", o["type"]] if o["type"] else [])
                    res = mpi.pool().run("script", [{"script": SCRIPT, "argv": argv if r == 0 else [], "cwd": cwd}
                                                    for r in range(len(c["order"]))], c["order"])
                    for r, x in enumerate(res):
                        ck(x[0] == "err" and "job aborted" in x[1], "resumed from nothing on rank %d: %r" % (r, x[:2]))
                    ck(sqlite3.connect(db).execute("select * from hashes order by 1, 2, 3, 4").fetchall() == before, "the database changed")
                    event("nothing to resume from, but rows of other runs")
                    return True
            if not resume:
                rows = {}
                every = {}
            if len(every) > 1:
                event("resumed with rows of other runs in the database")
            # what has to happen
            want = {}
            for p, ds, fs in os.walk(base, followlinks=True):
                for f in fs:
                    full = os.path.join(p, f)
                    rel = os.path.normpath(os.path.relpath(full, base))
                    if outfile is not None and os.path.normpath(full) == os.path.normpath(outfile):
                        continue
                    if o["dirfile"] is not None and f == o["dirfile"]:
                        continue
                    if selected(rel, o):
                        want[rel] = rows[rel] if rel in rows else hash_of(full, kind)
            argv = [arg]
            for k in ("type", "dirfile"):
                if o[k] is not None:
                    argv += ["--" + k, o[k]]
            for k in ("include", "exclude"):
                if o[k] is not None:
                    argv += ["--" + k, ",".join(o[k])]
            if outfile is not None:
                argv += ["--outfile", outfile if how_cwd == "abs" else os.path.relpath(outfile, cwd)]
            if o["database"]:
                argv += ["--database", db]
            if resume:
                argv += ["--resume"]
            res = mpi.pool().call("script", [{"script": SCRIPT, "argv": argv if r == 0 else [], "cwd": cwd}
                                             for r in range(len(c["order"]))], c["order"])
            for r, (how, text, err, fin) in enumerate(res):
                ck(how == ("done",), "rank %d: %r %s" % (r, how, err))
                ck(fin == 1, "rank %d finalized MPI %d times" % (r, fin))
            shown = {k: (v if v is not None else "UNREADABLE") for k, v in want.items()}
            # every selected file was handled exactly once
            text = "".join(x[1] for x in res)
            for rel, h in shown.items():
                n = sum(1 for line in text.split("\n") if line.endswith(" %s %s" % (h, rel)) or line.endswith(" %s %s (Cached)" % (h, rel)))
                ck(n == 1, "%r was reported %d times:\n%s" % (rel, n, text))
            if outfile is not None:
                head, got = read_list(outfile)
                ck(got == shown, "output file lists %r, expected %r" % (got, shown))
                ck(any(kind in h for h in head), "the hash type is not in the header %r" % head)
            if o["dirfile"] is not None:
                for p, ds, fs in os.walk(base, followlinks=True):
                    rel = os.path.relpath(p, base)
                    f = os.path.join(p, o["dirfile"])
                    ck(os.path.isfile(f), "no %s in %s" % (o["dirfile"], rel))
                    head, got = read_list(f)
                    mine = {os.path.basename(k): v for k, v in shown.items() if os.path.dirname(k) == ("" if rel == "." else rel)}
                    ck(got == mine, "%s lists %r, expected %r" % (os.path.relpath(f, base), got, mine))
            if o["database"]:
                con = sqlite3.connect(db)
                got = sorted(con.execute("select path, hash, hash_type, basedir from hashes").fetchall())
                con.close()
                kept = dict(rows)
                kept.update({k: v for k, v in want.items() if v is not None})
                others = [(k, v, t, b) for (t, b), r in every.items() if (t, b) != (kind, arg) for k, v in r.items()]
                ck(got == sorted([(k, v, kind, arg) for k, v in kept.items()] + others), "database has %r, expected %r and %r" % (got, kept, others))
                if resume and any(k in rows for k in want) and any(k not in rows for k in want):
                    nontrivial = True
                    event("resumed with cached and new files")
                every[(kind, arg)] = kept
            if len(set(os.path.dirname(k) for k in want)) > 1 and len(c["order"]) > 1:
                nontrivial = True
        return nontrivial
    finally:
        paths.drop(d)


@check.sub(st.tuples(gen.comms(max_n=4), st.sampled_from(["unknown", "none", "resume"])), 20, 300)
def refused(x):
    """Wrong arguments, or nothing to resume from: every rank stops, nothing is written."""
    c, how = x
    d = paths.fresh_dir()
    try:
        os.mkdir(os.path.join(d, "tree"))
        with open(os.path.join(d, "tree", "f"), "w") as f:
            f.write("x")
        out = ["--outfile", os.path.join(d, "out")]
        argv = {"unknown": [d + "/tree", "--nope"] + out, "none": out,
                "resume": [d + "/tree", "--database", os.path.join(d, "db"), "--resume"] + out}[how]
        res = mpi.pool().run("script", [{"script": SCRIPT, "argv": argv if r == 0 else [], "cwd": d} for r in range(len(c["order"]))], c["order"])
        for r, o in enumerate(res):
            if how == "resume":
                ck(o[0] == "err" and "job aborted" in o[1], "rank %d: %r" % (r, o[:2]))
            else:
                ck(o[0] == "ok" and o[1][0][0] in ("done", "exit") and o[1][3] == 1, "rank %d: %r" % (r, o[:2]))
        ck(not os.path.exists(os.path.join(d, "out")), "an output file was written")
        return len(c["order"]) > 1
    finally:
        paths.drop(d)
