"""
The file system behind a seam: files below a process's directory can fail to
be written, and the process can be killed around every operation on them.

What an operation that returned did is durable; a write interrupted by a crash
may be torn.
"""

from __future__ import annotations

import builtins
import errno
import io
import os

from twisted.python import lockfile

from .core import SimCrash

DISK_KINDS = ["disk-full", "disk-error", "disk-crash"]

_active = []
_real = {
    "open": builtins.open,
    "rename": os.rename,
    "replace": os.replace,
    "unlink": os.unlink,
    "symlink": os.symlink,
    "kill": os.kill,
    "getpid": os.getpid,
}


class SimDisk:
    """
    :ivar prefix: the directory of the process
    :ivar pid: what the process believes to be its process id
    """

    def __init__(self, proc, prefix, swarm, pid=1):
        self.proc = proc
        self.sim = proc.sim
        self.prefix = os.path.realpath(prefix) + os.sep
        self.swarm = swarm
        self.ops = 0
        self.watch = None
        self.pid = pid
        _active.append(self)
        proc.on_kill.append(self.close)
        install()

    def close(self):
        if self in _active:
            _active.remove(self)

    def before(self, what, path):
        if not self.proc.alive:
            raise SimCrash()
        self.ops += 1
        if self.watch is not None:
            self.watch()
        sim = self.sim
        if not sim.faults_on:
            return
        name = os.path.basename(path)
        if sim.fault("disk-crash-before", self.swarm["disk-crash"] / 2):
            sim.log("disk", what)
            self.proc.crash("crash-disk")
        if what in ("open", "write", "symlink") and sim.fault("disk-full", self.swarm["disk-full"]):
            raise injected(OSError(errno.ENOSPC, "No space left on device", name))
        # Removing a file does not fail.
        if what != "unlink" and sim.fault("disk-error", self.swarm["disk-error"]):
            raise injected(OSError(errno.EIO, "Input/output error", name))

    def after(self, what):
        if self.watch is not None:
            self.watch()
        if self.sim.faults_on and self.sim.fault("disk-crash-after", self.swarm["disk-crash"] / 2):
            self.sim.log("disk", what)
            self.proc.crash("crash-disk")


def injected(e):
    e.injected = True
    return e


def which(path):
    if not _active or isinstance(path, int):
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    try:
        path = os.path.abspath(path)
    except TypeError:
        return None
    for d in _active:
        if path.startswith(d.prefix):
            return d
    return None


class File:
    """
    A file being written, with points of failure.  As usual, what was written
    is not in the file before there is a lot of it, or it is flushed, or the
    file is closed.
    """

    def __init__(self, disk, real, path):
        self._disk = disk
        self._file = real
        self._path = path
        self._pending = []
        self._size = 0

    def write(self, data):
        if self._file.closed:
            return self._file.write(data)
        if not self._disk.proc.alive:
            raise SimCrash()
        self._pending.append(data)
        self._size += len(data)
        if self._size >= 8192:
            self._push()
        return len(data)

    def _push(self):
        if not self._pending:
            return
        d, data = self._disk, self._pending[0][:0].join(self._pending)
        self._pending, self._size = [], 0
        try:
            d.before("write", self._path)
        except SimCrash:
            if len(data):
                self._file.write(data[: d.sim.ch.pick(len(data))])
                self._file.flush()
            raise
        except OSError:
            # A short write before the disk was full
            self._file.write(data[: d.sim.ch.pick(len(data) + 1)])
            self._file.flush()
            raise
        self._file.write(data)
        self._file.flush()

    def flush(self):
        self._push()
        self._file.flush()

    def close(self):
        try:
            if self._disk.proc.alive and not self._file.closed:
                self._push()
        finally:
            self._file.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, name):
        if self._disk.proc.alive and name not in ("closed", "name", "mode"):
            self._push()
        return getattr(self._file, name)

    def __iter__(self):
        self._push()
        return iter(self._file)


def _open(file, mode="r", *a, **kw):
    d = which(file)
    if d is None or not any(c in mode for c in "wax+"):
        if d is not None and not d.proc.alive:
            raise SimCrash()
        return _real["open"](file, mode, *a, **kw)
    d.before("open", os.fsdecode(file))
    return File(d, _real["open"](file, mode, *a, **kw), os.fsdecode(file))


def _wrap(name, position):
    real = _real[name]

    def call(*args, **kw):
        d = which(args[position])
        if d is None:
            return real(*args, **kw)
        d.before(name, os.fsdecode(args[position]))
        r = real(*args, **kw)
        d.after(name)
        return r

    return call


class _LockOS:
    """Process ids, for the lock files of Twisted: those of simulated processes."""

    def __getattr__(self, name):
        return getattr(os, name)

    def getpid(self):
        return _active[-1].pid if _active else _real["getpid"]()


def _kill(pid, sig):
    if not _active:
        return _real["kill"](pid, sig)
    if not any(d.pid == pid for d in _active):
        raise OSError(errno.ESRCH, "No such process")


_installed = []


def install():
    """Once per (worker) process.  Nothing is different outside of the active directories."""
    if _installed:
        return
    _installed.append(True)
    builtins.open = _open
    io.open = _open
    for name, position in (("rename", 1), ("replace", 1), ("unlink", 0), ("symlink", 1)):
        setattr(os, name, _wrap(name, position))
    os.remove = os.unlink
    for name, of in (("rename", "rename"), ("rmlink", "unlink"), ("symlink", "symlink")):
        if hasattr(lockfile, name):
            setattr(lockfile, name, getattr(os, of))
    lockfile.os = _LockOS()
    lockfile.kill = _kill
