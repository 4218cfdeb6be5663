"""One MPI rank: executes operations from vt.mpi_ops on request."""
import os, sys, socket, struct, pickle, traceback

from . import paths
paths.setup_import()

import numpy as np
from mpi4py import MPI
from .mpi import _send, _recv
from . import mpi_ops

world = MPI.COMM_WORLD
rank = world.Get_rank()
_comms = {}


def get_comm(order):
    """Communicator containing world ranks `order`, in that rank order."""
    if order == tuple(range(world.Get_size())):
        return world
    if order not in _comms:
        if len(_comms) > 200:
            # freeing is collective over the same members; keep it simple
            pass
        g = world.Get_group()
        sub = g.Incl(list(order))
        _comms[order] = world.Create_group(sub, tag=7)
        sub.Free()
        g.Free()
    return _comms[order]


def main():
    s = socket.socket(socket.AF_UNIX)
    s.connect(sys.argv[1])
    s.sendall(struct.pack("<ii", rank, os.getpid()))
    devnull = open(os.devnull, "w")
    while True:
        try:
            op, order, payload = _recv(s)
        except EOFError:
            os._exit(0)
        try:
            comm = get_comm(order)
            res = ("ok", getattr(mpi_ops, op)(comm, payload))
        except BaseException as e:
            res = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), type(e).__name__)
        _send(s, res)


main()
