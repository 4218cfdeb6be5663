"""Check runner: drives each sub-property with Hypothesis, shrinks, counts, writes evidence."""
import os, sys, json, time, mmap, signal, select, struct, hashlib, traceback, math, random, pickle, importlib

from . import paths
paths.setup_import()

import hypothesis
from hypothesis import settings, HealthCheck, Phase, given, strategies as st
from hypothesis.errors import Flaky


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, examples=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.examples = list(examples)


class Check:
    """One property: a set of generated-input sub-checks."""
    def __init__(self, pid, rule, shards=1, assumptions=(), level="exploration", setup=None, quick_scale=1.0):
        self.pid, self.rule, self.shards = pid, rule, shards
        self.assumptions = list(assumptions)
        self.level = level
        self.subs = []
        self.probes = {}
        self.setup = setup
        self.quick_scale = quick_scale        # multiplies the numbers of cases of the quick tier

    def sub(self, strategy, quick, thorough, name=None, examples=()):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strategy, fn, quick, thorough, examples))
            return fn
        return deco

    def probe(self, fn):
        """A defect recorded in known_findings.json: fails as long as the defect is there."""
        self.probes[fn.__name__] = fn
        return fn


def case_eval(text):
    return eval(text, {"__builtins__": {}}, {"nan": math.nan, "inf": math.inf,
                                            "True": True, "False": False, "None": None})


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.events = {}
        self.per_sub = {}
        self.truncated = []


_current = None
_last_case = None       # shared memory holding the case being run (to report a crash)
LAST_SZ = 1 << 18


CASE_LIMIT_S = 240.0    # a single case takes milliseconds; a case this slow does not terminate


def case_done():
    if _last_case is not None:
        _last_case[:8] = struct.pack("d", 0.0)


def event(label):
    """Count a class of cases (for evidence)."""
    if _current is not None:
        _current.events[label] = _current.events.get(label, 0) + 1


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Failure(Exception):
    def __init__(self, sub, case_repr, err):
        super().__init__(err)
        self.sub, self.case_repr, self.err = sub, case_repr, err


def run_sub(sub, stats, nmax, seed, deadline):
    """Run one sub-check; raises Failure on a violation."""
    global _current
    _current = stats
    count = {"n": 0, "nt": 0}
    failing = {}          # repr(case) -> traceback
    state = {"last": None, "first_fail": None}
    limit = float(os.environ.get("VT_SHRINK_S", "45"))

    def one(case):
        r = repr(case)
        now = time.time()
        if _last_case is not None:
            b = struct.pack("d", now) + ("%s\0%s\0" % (sub.name, r)).encode()[:LAST_SZ - 8]
            _last_case.seek(0)
            _last_case.write(b)
        if state["first_fail"] is not None:
            if now - state["first_fail"] > limit and r not in failing:
                return
        elif now > deadline:
            if not stats.truncated or stats.truncated[-1] != sub.name:
                stats.truncated.append(sub.name)
            return
        stats.evaluations += 1
        count["n"] += 1
        try:
            nt = sub.fn(case)
            case_done()
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:
            case_done()
            failing[r] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
            state["last"] = r
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            if isinstance(e, SystemExit):
                raise AssertionError("SystemExit %r" % (e.code,)) from e
            raise
        if nt:
            h = hashlib.md5((sub.name + r).encode()).digest()
            if h not in stats.nontrivial:
                stats.nontrivial.add(h)
                count["nt"] += 1
                if count["nt"] in (1, 20, 200):
                    stats.samples.append({"sub": sub.name, "case": r[:600]})

    def fail(r, err):
        raise Failure(sub.name, r, err)

    for ex in sub.examples:
        try:
            one(ex)
        except HarnessError:
            raise
        except Exception:
            fail(repr(ex), failing.get(repr(ex), ""))

    if nmax > 0:
        test = given(sub.strategy)(one)
        test = settings(max_examples=nmax, database=None, deadline=None,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink],
                        report_multiple_bugs=False, print_blob=False,
                        derandomize=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except HarnessError:
            raise
        except hypothesis.errors.Unsatisfiable as e:
            raise HarnessError("unsatisfiable generator for %s" % sub.name)
        except Exception as e:
            if state["last"] is None:
                raise HarnessError("generator error in %s: %s" % (sub.name, traceback.format_exc()))
            r = state["last"]
            note = ""
            if isinstance(e, Flaky):
                note = "(not deterministic) "
            fail(r, note + failing[r])
    s = stats.per_sub.setdefault(sub.name, {"evaluations": 0, "distinct_nontrivial": 0})
    s["evaluations"] += count["n"]
    s["distinct_nontrivial"] += count["nt"]


def run_shard(check, tier, seed, shard, nshards, deadline, only=None):
    stats = Stats()
    failures = []
    if check.setup is not None:
        try:
            check.setup()
        except HarnessError:
            raise
        except Exception:
            failures.append(("setup", "None", traceback.format_exc()[-6000:]))
            return stats, failures
    scale = float(os.environ.get("VT_SCALE", "1"))
    nsub = len(check.subs)
    t_start = time.time()
    for k, sub in enumerate(check.subs):
        if only and sub.name not in only:
            continue
        n = sub.quick * check.quick_scale if tier == "quick" else sub.thorough
        n = max(1, int(math.ceil(n * scale / nshards))) if n > 0 else 0
        # share the remaining time between the remaining sub-checks
        now = time.time()
        dl = now + max(5.0, (deadline - now) / max(1, (nsub - k)) * (2.0 if nsub - k > 1 else 1.0))
        try:
            run_sub(sub, stats, n, derive(seed, check.pid, sub.name, shard), min(dl, deadline))
        except Failure as f:
            failures.append((f.sub, f.case_repr, f.err))
            break
    return stats, failures


def descendants(pid):
    out = []
    try:
        with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
            for c in f.read().split():
                out += descendants(int(c)) + [int(c)]
    except OSError:
        pass
    return out


def run_check(check, tier, seed, only=None):
    t0 = time.time()
    budget = float(os.environ.get("VT_BUDGET_S", "300" if tier == "quick" else "800"))
    deadline = t0 + budget
    nshards = check.shards
    if os.environ.get("VT_SHARDS"):
        nshards = int(os.environ["VT_SHARDS"])
    results = []
    harness_errors = []
    global _last_case
    failures = []
    procs = []
    for s in range(nshards):
        r, w = os.pipe()
        shm = mmap.mmap(-1, LAST_SZ)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                paths.in_shard()
                _last_case = shm
                from . import mpi
                try:
                    out = ("ok", run_shard(check, tier, seed, s, nshards, deadline, only))
                except BaseException:
                    out = ("harness", traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
                mpi.shutdown_all()
                paths.cleanup()
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r, shm))
    blobs = {r: b"" for _, r, _ in procs}
    hung = set()
    waiting = {r: (pid, shm) for pid, r, shm in procs}
    while waiting:
        ready = select.select(list(waiting), [], [], 1.0)[0]
        for r in ready:
            b = os.read(r, 1 << 20)
            blobs[r] += b
            if not b:
                os.close(r)
                del waiting[r]
        for r, (pid, shm) in waiting.items():
            started = struct.unpack("d", shm[:8])[0]
            if started and time.time() - started > CASE_LIMIT_S and pid not in hung:
                hung.add(pid)
                for child in descendants(pid):
                    os.kill(child, signal.SIGKILL)
                os.kill(pid, signal.SIGKILL)
    for pid, r, shm in procs:
        blob = blobs[r]
        status = os.waitpid(pid, 0)[1]
        try:
            kind, val = pickle.loads(blob)
        except Exception:
            # the code under test took the whole process down (exit, abort, segfault)
            kind = "died"
            parts = bytes(shm[8:]).split(b"\0")
            failures.append((parts[0].decode() or "setup", parts[1].decode(errors="replace"),
                             "this case did not finish in %d s" % CASE_LIMIT_S if pid in hung else
                             "the process running this case died, wait status %d" % status))
        if kind == "ok":
            results.append(val)
        elif kind == "harness":
            harness_errors.append(val)
    tot = Stats()
    for stats, fl in results:
        tot.evaluations += stats.evaluations
        tot.nontrivial |= stats.nontrivial
        tot.samples += stats.samples
        tot.truncated += stats.truncated
        for k, v in stats.events.items():
            tot.events[k] = tot.events.get(k, 0) + v
        for k, v in stats.per_sub.items():
            d = tot.per_sub.setdefault(k, {"evaluations": 0, "distinct_nontrivial": 0})
            for kk in v:
                d[kk] += v[kk]
        failures += fl
    samples, seen = [], {}
    for s in tot.samples:
        seen[s["sub"]] = seen.get(s["sub"], 0) + 1
        if seen[s["sub"]] <= 3:
            samples.append(s)
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": check.level,
          "coverage": {"evaluations": tot.evaluations,
                       "distinct_nontrivial": len(tot.nontrivial),
                       "rule": check.rule,
                       "samples": samples,
                       "per_sub": tot.per_sub,
                       "classes": dict(sorted(tot.events.items()))},
          "assumptions": check.assumptions,
          "wall_s": round(time.time() - t0, 2),
          "violations": len(failures)}
    if tot.truncated:
        ev["coverage"]["stopped_by_time_budget"] = sorted(set(tot.truncated))
    return ev, failures, harness_errors
