"""Running a command of the program under a fault, in a process of its own."""
import os

import core
from core import Shim


def op_log(w, func, reads=False):
    """The operations of func on the world, as [(name, path)], in a child
    whose effects stay; the world must be reloaded afterwards."""
    fd = os.memfd_create("ops")

    def child():
        Shim.reset()
        Shim.reads(reads)
        Shim.log(fd)
        return repr(func())
    code, text = core.forked(child)
    size = os.fstat(fd).st_size
    os.lseek(fd, 0, os.SEEK_SET)
    data = b""
    while len(data) < size:
        data += os.read(fd, size)
    os.close(fd)
    ops = []
    for line in data.decode("utf-8", "replace").splitlines():
        n, name, path = line.split(" ", 2)
        ops.append((name, path))
    return code, text, ops


def run_faulted(w, func, k, act, arg=0, persist=0, reads=False):
    """(exit status, result text, did the fault happen)."""
    rd, wr = os.pipe()

    def child():
        Shim.reads(reads)
        Shim.arm(k, act, arg, persist)
        try:
            text = repr(func())
        finally:
            fired = Shim.fired()
            Shim.reset()
            os.write(wr, b"1" if fired else b"0")
        return text
    code, text = core.forked(child)
    os.close(wr)
    flag = os.read(rd, 1)
    os.close(rd)
    return code, text, code == 137 or flag == b"1"


def is_db(path):
    return ".db" in path.rsplit("/", 1)[-1]
