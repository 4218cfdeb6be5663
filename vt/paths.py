"""Paths, scratch space and import setup shared by the controller and the MPI workers."""
import importlib.machinery, os, sys, atexit, shutil, tempfile

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None
_owner = None


def setup_import():
    """Import virgo from the tree under test, and hypothesis from the tool venv."""
    p = os.path.join(REPO, "python")
    if p not in sys.path:
        sys.path.insert(0, p)
    if not any(isinstance(f, ToolFinder) for f in sys.meta_path):
        sys.meta_path.append(ToolFinder())


class ToolFinder:
    """Finds hypothesis (and nothing else the code under test might notice) in the tool venv."""
    TOOLS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in ("hypothesis", "sortedcontainers", "attr", "attrs") or top.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, self.TOOLS, target)
        return None


def scratch():
    """A scratch directory owned (and removed) by this process."""
    global _scratch, _owner
    if _scratch is None:
        base = os.environ.get("VT_SCRATCH_BASE")
        if base is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="vt.", dir=base)
        _owner = os.getpid()
        atexit.register(cleanup)
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None and _owner == os.getpid():
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def in_shard():
    """Called in a forked shard: forget the parent's scratch space."""
    global _scratch
    _scratch = None


_counter = 0


def fresh_dir(prefix="d"):
    global _counter
    _counter += 1
    d = os.path.join(scratch(), "%s%d" % (prefix, _counter))
    os.mkdir(d)
    return d


def drop(d):
    shutil.rmtree(d, ignore_errors=True)
