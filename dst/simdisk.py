"""Simulated disk: a scratch directory whose every mutating call is a numbered event.

All Python-level file access to paths below `root` goes through this layer while it
is active.  At a chosen event the simulator kills the process (SimCrash: what user
space had buffered is lost, later writes of the dying process are dropped), or makes
the call fail (ENOSPC after a short write, EIO), or splits the write (short write).
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .core import SimCrash

_real_open = io.open
_real = {n: getattr(os, n) for n in (
    "remove", "unlink", "rename", "replace", "mkdir", "rmdir", "truncate", "fsync", "open", "write",
    "link", "symlink")}


class _Raw(io.FileIO):
    def __init__(self, disk, path, mode, opener=None):
        self._disk = disk
        self._gen = disk.gen
        self._proc = disk.proc()
        self._rel = disk.rel(path)
        super().__init__(path, mode, opener=opener)

    def write(self, b):
        d = self._disk
        if d.dead or d.gen != self._gen or self._proc in d.killed:  # the process that opened it is gone
            return len(b)
        act = d.tick("write", self._rel, len(b))
        mv = memoryview(b).cast("B")
        if act == "crash":
            k = int(len(mv) * d.frac)
            if k:
                super().write(mv[:k])
            d.crash()
        if act in ("enospc", "eio"):
            k = int(len(mv) * d.frac)
            if k:
                super().write(mv[:k])
            raise OSError(errno.ENOSPC if act == "enospc" else errno.EIO, os.strerror(
                errno.ENOSPC if act == "enospc" else errno.EIO), self._rel)
        if act == "short" and len(mv) > 1:
            d.probe.fault("short_write")
            return super().write(mv[: max(1, len(mv) // 2)])
        return super().write(mv)

    def truncate(self, size=None):
        d = self._disk
        if d.dead or d.gen != self._gen or self._proc in d.killed:
            return size
        act = d.tick("truncate", self._rel)
        if act == "crash":
            d.crash()
        if act in ("enospc", "eio"):
            raise OSError(errno.EIO, "I/O error", self._rel)
        return super().truncate(size)


class SimDisk:
    def __init__(self, probe, name="simdisk"):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dst_%s_" % name))
        self.probe = probe
        self.dead = False
        self.gen = 0
        self.events = 0
        self.at = None
        self.kind = None
        self.frac = 0.0
        self.bufsize = 8192
        self.short_every = 0
        self.fired = False
        self._saved = None
        self.trace = []
        # several processes: who is calling, which of them died, and a scheduling point before every access
        self.proc = lambda: 0
        self.killed = set()
        self.before = None

    # ------------------------------------------------------------- control
    def arm(self, kind, at, frac=0.0):
        """Inject `kind` at the at-th event from now (0 = the next one)."""
        self.kind, self.at, self.frac = kind, self.events + at, frac
        self.fired = False

    def disarm(self):
        self.kind = self.at = None

    def restart(self):
        self.dead = False
        self.gen += 1
        self.disarm()

    def rel(self, path):
        return os.path.relpath(os.fspath(path), self.root)

    def mine(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def crash(self):
        if self.proc():
            self.killed.add(self.proc())
        else:
            self.dead = True
        self.probe.event("crash", self.events)
        raise SimCrash()

    def tick(self, op, *what):
        if self.before:
            self.before()
        n = self.events
        self.events += 1
        self.probe.event("disk", op, *what)
        if self.at is not None and n == self.at and not self.fired:
            self.fired = True
            self.probe.fault("%s_during_%s" % (self.kind, op))
            return self.kind
        if self.short_every and op == "write" and n % self.short_every == 0:
            return "short"
        return None

    # --------------------------------------------------------------- calls
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        if not self.mine(file) or not isinstance(mode, str):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        if self.dead:
            raise SimCrash()
        if self.before:
            self.before()
        if writing:
            exists = os.path.exists(file)
            if "w" in mode or not exists:
                act = self.tick("open", self.rel(file), mode)
                if act == "crash":
                    self.crash()
                if act in ("enospc", "eio"):
                    raise OSError(errno.ENOSPC, "No space left on device", str(file))
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = _Raw(self, file, rawmode, opener)
        try:
            if buffering == 0:
                return raw
            size = self.bufsize
            if "+" in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif any(c in rawmode for c in "wax"):
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise

    def _wrap(self, name):
        real = _real[name]

        def call(path, *a, **k):
            if not self.mine(path):
                return real(path, *a, **k)
            if self.dead:
                raise SimCrash()
            act = self.tick(name, self.rel(path))
            if act == "crash":
                if self.frac >= 0.5:  # the call took effect before the process died
                    real(path, *a, **k)
                self.crash()
            if act in ("enospc", "eio"):
                raise OSError(errno.EIO, "I/O error", str(path))
            return real(path, *a, **k)

        return call

    def __enter__(self):
        self._saved = (builtins.open, io.open, {n: getattr(os, n) for n in _real})
        builtins.open = self._open
        io.open = self._open
        for n in ("remove", "unlink", "rename", "replace", "mkdir", "rmdir", "truncate", "link", "symlink"):
            setattr(os, n, self._wrap(n))
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, saved = self._saved
        for n, f in saved.items():
            setattr(os, n, f)
        return False

    def close(self):
        r = self.root
        if os.path.basename(r).startswith("dst_") and os.path.isdir(r):
            shutil.rmtree(r, ignore_errors=True)


def snapshot(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in sorted(files):
            p = os.path.join(base, f)
            with _real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out
