"""A pool of MPI ranks (real mpirun) which execute operations sent by the controller.

Every rank has its own unix socket to the controller, so an exception on one rank and a
hang on the others are told apart.  A case picks how many ranks take part and in which
order; the communicator handed to the code under test is built from exactly those ranks.
"""
import os, sys, socket, pickle, struct, subprocess, time, signal, select, atexit

from . import paths

_pools = []
hang_confirmed = False


class RankError(AssertionError):
    pass


class Hang(AssertionError):
    pass


def shutdown_all():
    for p in list(_pools):
        p.kill()


def _send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<q", len(b)) + b)


def _recv_exact(sock, n):
    out = bytearray()
    while len(out) < n:
        c = sock.recv(min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return bytes(out)


def _recv(sock):
    n = struct.unpack("<q", _recv_exact(sock, 8))[0]
    return pickle.loads(_recv_exact(sock, n))


class Pool:
    def __init__(self, n=8):
        self.n = n
        self.proc = None
        self.socks = None
        self.owner = os.getpid()

    def start(self):
        self.dir = paths.fresh_dir("mpi")
        path = os.path.join(self.dir, "s")
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(path)
        srv.listen(self.n)
        env = dict(os.environ)
        env["TMPDIR"] = self.dir
        env["OMPI_MCA_orte_tmpdir_base"] = self.dir
        env["OMPI_MCA_btl_vader_backing_directory"] = self.dir
        env["VT_REPO"] = paths.REPO
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen(
            ["mpirun", "--oversubscribe", "-np", str(self.n), sys.executable, "-m", "vt.mpi_worker", path],
            cwd=paths.VERIF, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
            start_new_session=True)
        _pools.append(self)
        self.socks = [None] * self.n
        self.pids = []
        srv.settimeout(120)
        try:
            for _ in range(self.n):
                c, _a = srv.accept()
                c.settimeout(None)
                rank, wpid = struct.unpack("<ii", _recv_exact(c, 8))
                self.pids.append(wpid)
                self.socks[rank] = c
        except (socket.timeout, EOFError):
            from .core import HarnessError
            with open(os.path.join(self.dir, "log")) as f:
                msg = f.read()[-3000:]
            self.kill()
            raise HarnessError("MPI ranks did not start: " + msg)
        srv.close()

    def kill(self):
        if self in _pools:
            _pools.remove(self)
        if self.proc is not None:
            for sig in (signal.SIGTERM, signal.SIGKILL):
                try:
                    os.killpg(self.proc.pid, sig)
                except ProcessLookupError:
                    break
                if sig == signal.SIGTERM:
                    try:
                        self.proc.wait(3)
                    except subprocess.TimeoutExpired:
                        continue
                    # mpirun is gone: ranks have their own process groups
                    break
            self.proc.wait()
        for pid in getattr(self, "pids", []):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if self.socks:
            for s in self.socks:
                if s is not None:
                    s.close()
        self.proc = None
        self.socks = None
        if getattr(self, "log", None):
            self.log.close()
        paths.drop(self.dir)

    def _once(self, op, order, payloads, timeout):
        """Returns list of per-participant outcomes: ('ok', v) | ('err', text) | ('hang',) | ('died',)."""
        if self.socks is None:
            self.start()
        for k, wr in enumerate(order):
            try:
                _send(self.socks[wr], (op, tuple(order), payloads[k]))
            except (BrokenPipeError, ConnectionResetError):
                pass
        out = [None] * len(order)
        pending = {self.socks[wr]: k for k, wr in enumerate(order)}
        end = time.time() + timeout
        bad = False
        while pending:
            left = end - time.time()
            if left <= 0:
                break
            ready, _, _ = select.select(list(pending), [], [], left)
            for s in ready:
                k = pending.pop(s)
                try:
                    out[k] = _recv(s)
                except (EOFError, ConnectionResetError):
                    out[k] = ("died",)
                    bad = True
                if out[k][0] != "ok":
                    # others may be blocked for ever in a collective: short grace period
                    end = min(end, time.time() + 3.0)
        if pending or bad:
            for s, k in pending.items():
                out[k] = ("hang",)
            self.kill()
        return out

    def run(self, op, payloads, order=None, timeout=30.0):
        """All outcomes, re-trying an apparent hang once in a fresh job with a long limit."""
        global hang_confirmed
        if order is None:
            order = list(range(len(payloads)))
        if hang_confirmed:
            return self._once(op, order, payloads, 8.0)
        out = self._once(op, order, payloads, timeout)
        if all(o[0] in ("ok", "hang") for o in out) and any(o[0] == "hang" for o in out):
            out = self._once(op, order, payloads, 4 * timeout)
            if any(o[0] == "hang" for o in out):
                hang_confirmed = True
        return out

    def call(self, op, payloads, order=None, timeout=30.0):
        """All ranks must return normally; their values."""
        out = self.run(op, payloads, order, timeout)
        if any(o[0] != "ok" for o in out):
            raise RankError("ranks did not all return: " + " | ".join(
                "rank %d %s" % (k, o[0] if o[0] != "err" else "raised " + o[1])
                for k, o in enumerate(out) if o[0] != "ok"))
        return [o[1] for o in out]


_default = {}


def pool(n=8):
    key = (os.getpid(), n)
    if key not in _default:
        _default[key] = Pool(n)
    return _default[key]
