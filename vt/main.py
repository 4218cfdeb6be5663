import os, sys, json, importlib, traceback, time

from . import paths
paths.setup_import()


def load(pid):
    import glob
    c = sorted(glob.glob(os.path.join(paths.VERIF, "checks", pid.lower() + "_*.py")))
    if len(c) != 1:
        print("no check for", pid)
        sys.exit(2)
    name = os.path.basename(c[0])[:-3]
    sys.path.insert(0, paths.VERIF)
    mod = importlib.import_module("checks." + name)
    return mod.check


def known_findings(pid):
    fn = os.path.join(paths.VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main():
    from . import core, mpi
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        check = load(pid)
    except core.HarnessError:
        raise
    except Exception:
        # the modules under test cannot even be imported
        err = traceback.format_exc()
        report(pid, "import", "None", err)
        return 1
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        sub = [s for s in check.subs if s.name == rep["sub"]][0]
        if check.setup:
            check.setup()
        try:
            sub.fn(core.case_eval(rep["case"]))
        except (Exception, SystemExit):
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
            return 1
        print("replay passed")
        return 0
    tier = "quick"
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    only = [a[4:] for a in sys.argv if a.startswith("sub=")]
    ev, failures, herr = core.run_check(check, tier, seed, only)
    # known findings: reproduced by their own recorded input
    for k in known_findings(pid):
        try:
            check.probes[k["probe"]]()
        except Exception:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    os.makedirs(os.path.join(paths.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(paths.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" %
          (pid, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    if failures:
        for i, (sub, case, err) in enumerate(failures[:3]):
            report(pid, sub, case, err, i)
        return 1
    if herr:
        print("HARNESS ERROR\n" + "\n".join(herr))
        return 2
    return 0


def report(pid, sub, case, err, i=0):
    d = os.path.join(paths.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s-%d.json" % (pid, sub, i))
    with open(fn, "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "error": err}, f, indent=1)
    print("--- %s/%s fails on %s" % (pid, sub, case[:1500]))
    print(err[-2500:])
    print("VIOLATION property=%s replay=%s" % (pid, fn), flush=True)


if __name__ == "__main__":
    from . import core as _core
    code = 2
    try:
        code = main()
    except _core.HarnessError as e:
        traceback.print_exc()
        print("HARNESS ERROR", e)
        code = 2
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
    finally:
        from . import mpi
        mpi.shutdown_all()
        paths.cleanup()
        sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
