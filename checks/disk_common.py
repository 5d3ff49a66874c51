"""A directory on the real disk, with every change to it observed: each may be
the one at which the process is killed, or the one that fails."""
import builtins
import io
import os
import shutil
import tempfile

from twisted.python import lockfile


class Killed(BaseException):
    """The process is gone: nothing it would still do happens."""


class Disk:
    """A directory, and every change made to it."""

    def __init__(self, ctx, patcher, crash, fault):
        self.ctx = ctx
        self.crash = crash  # index of the change at which the process is killed
        self.fault = fault  # index of the change that fails
        self.root = tempfile.mkdtemp(prefix="verif-disk-")
        ctx.cleanup(lambda: shutil.rmtree(self.root, ignore_errors=True))
        os.mkdir(os.path.join(self.root, "private"))
        self.n = 0
        self.pid = 1000000
        self.dead = False
        self.armed = False
        self.faulted = None
        self.real = {
            name: getattr(os, name)
            for name in (
                "rename",
                "replace",
                "unlink",
                "remove",
                "symlink",
                "link",
                "mkdir",
                "rmdir",
                "truncate",
                "open",
            )
        }
        for name in self.real:
            wrapped = self.wrap(name)
            patcher.set(os, name, wrapped)
        patcher.set(lockfile, "symlink", os.symlink)
        patcher.set(lockfile, "rmlink", os.remove)
        patcher.set(os, "getpid", lambda: self.pid)
        for m in (os, lockfile):
            patcher.set(m, "kill", self.kill)
        self.real_open = io.open
        patcher.set(io, "open", self.open)
        patcher.set(builtins, "open", self.open)

    def kill(self, pid, sig):
        if pid != self.pid:
            raise ProcessLookupError(3, "No such process")

    def ours(self, p):
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        return isinstance(p, str) and p.startswith(self.root)

    def op(self, what, partly=None):
        """One change is about to be made."""
        if not self.armed:
            return
        if self.dead:
            raise Killed()
        self.n += 1
        if self.crash == self.n:
            if partly is not None and self.ctx.flag("partly"):
                partly()
            self.dead = True
            raise Killed()
        if self.fault == self.n:
            if partly is not None:
                partly()
            self.faulted = what
            raise OSError(28, "No space left on device")

    def wrap(self, name):
        real = self.real[name]

        def op(*a, **kw):
            paths = [p for p in a if self.ours(os.fspath(p) if hasattr(p, "__fspath__") else p)]
            if name == "open":
                mutates = a[1] & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR)
            else:
                mutates = True
            if paths and mutates:
                self.op((name, paths[-1]))
            return real(*a, **kw)

        return op

    def open(self, file, mode="r", *a, **kw):
        p = os.fspath(file) if hasattr(file, "__fspath__") else file
        if not self.ours(p) or not any(c in mode for c in "wax+"):
            return self.real_open(file, mode, *a, **kw)
        self.op(("open", p))
        return Written(self, self.real_open(file, mode, *a, **kw), p)

    def read(self, *path):
        """The content of a file, or None."""
        try:
            with self.real_open(os.path.join(self.root, *path), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None


class Written:
    def __init__(self, disk, f, path):
        self._disk, self._f, self._path = disk, f, path

    def write(self, data):
        def partly():
            self._f.write(data[: len(data) // 2])
            self._f.flush()

        self._disk.op(("write", self._path), partly)
        r = self._f.write(data)
        self._f.flush()
        return r

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._f.close()
