"""
The file system seam.

While active, every file system request the process makes below one scratch directory goes through
here as a numbered event, whatever Python API it came from (open, io.open, os.open, os.replace, ...).
The directory itself is a real one, so file contents and atomic renames are the kernel's; what the
simulator adds is the faults:

  crash_before / crash_after / torn   the process dies around (or half way through) a request
  ENOSPC / EIO / EACCES / EMFILE      the request fails; a write may have been half done
  short                               a read or a write transfers only part (legal, callers must cope)
  int                                 the user presses Ctrl-C during the request
  mem                                 an allocation fails during the request

A dead process changes nothing any more: buffered data that Python flushes while it unwinds is lost,
exactly as it would be.
"""
import builtins
import errno
import io
import os
import shutil
import threading

from dst.core import SimulatedStop

_real_open = io.open
_os = {n: getattr(os, n) for n in ("open", "replace", "rename", "remove", "unlink", "fsync", "truncate", "write", "read",
                                   "close", "listdir", "scandir", "ftruncate", "link", "symlink", "mkdir", "makedirs", "rmdir")
       if hasattr(os, n)}


class Crash(SimulatedStop):
    """The simulated process died."""


WRITES = {"write", "open_w", "replace", "remove", "truncate", "link"}


class FS:
    def __init__(self, root, plan=(), ctx=None, log=None):
        self.root = os.path.realpath(root) + os.sep
        self.plan = {}
        for n, kind in plan:
            self.plan.setdefault(n, []).append(kind)
        self.n = 0
        self.dead = False
        self.ctx = ctx
        self.events = []
        self.on_event = None  # called before each event (readers, schedulers)
        self.order = None  # function shuffling directory listings
        self.muted = 0
        self.fds = {}
        self.spare = ()  # kinds of request no fault strikes

    # ------------------------------------------------------------ faults
    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fsdecode(os.fspath(path)))
        except (TypeError, ValueError):
            return False
        return (p + os.sep).startswith(self.root)

    def event(self, kind, name):
        """Announce a request. Returns None, 'torn' or 'short'; or raises."""
        if self.muted:
            return None
        if self.dead:
            raise Crash("a dead process does nothing")
        if self.on_event is not None:
            self.muted += 1
            try:
                self.on_event(kind, name)
            finally:
                self.muted -= 1
        k = self.n
        self.n += 1
        self.events.append((kind, os.path.basename(str(name))))
        self.after = None
        for fault in self.plan.pop(k, ()):
            if kind in self.spare:
                continue
            done = self._fault(fault, kind)
            if done:
                return done
        return None

    def _fire(self, what, kind):
        if self.ctx is not None:
            self.ctx.fire(f"{what}@{kind}")
            self.ctx.fire(what)

    def _fault(self, fault, kind):
        if fault == "crash_before":
            self._fire(fault, kind)
            self.dead = True
            raise Crash(f"before {kind}")
        if fault == "crash_after":
            self._fire(fault, kind)
            return "crash_after"
        if fault == "int":
            self._fire(fault, kind)
            raise KeyboardInterrupt()
        if fault == "mem":
            self._fire(fault, kind)
            raise MemoryError("simulated allocation failure")
        if fault == "torn":
            if kind == "write":
                self._fire(fault, kind)
                return "torn"
            return None
        if fault == "short":
            if kind in ("write", "read"):
                self._fire(fault, kind)
                return "short"
            return None
        if fault == "ENOSPC":
            if kind in ("write", "open_w", "replace", "link"):
                self._fire(fault, kind)
                if kind == "write":
                    return "half"
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            return None
        if fault == "EMFILE":
            if kind in ("open_w", "open_r", "list"):
                self._fire(fault, kind)
                raise OSError(errno.EMFILE, os.strerror(errno.EMFILE))
            return None
        if fault == "EACCES":
            if kind in ("open_w", "open_r", "replace", "remove", "list"):
                self._fire(fault, kind)
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES))
            return None
        if fault == "EIO":
            self._fire(fault, kind)
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        raise ValueError(fault)

    def done(self, what):
        if what == "crash_after":
            self.dead = True
            raise Crash("after the request")

    # ------------------------------------------------------------ requests
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if self.muted or not self.inside(file):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw_mode = "".join(c for c in mode if c in "rwxa+")
        writing = any(c in raw_mode for c in "wxa+")
        what = None
        if not isinstance(file, int):
            what = self.event("open_w" if writing else "open_r", file)
        real = io.FileIO(file, raw_mode, closefd=closefd, opener=opener)
        raw = Raw(self, real, file if not isinstance(file, int) else self.fds.get(file, file))
        try:
            self.done(what)
        except Crash:
            real.close()
            raise
        binary = "b" in mode
        if buffering == 0:
            return raw
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw)
        elif writing:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def os_open(self, path, flags, *a, **k):
        if self.muted or not self.inside(path):
            return _os["open"](path, flags, *a, **k)
        w = flags & (os.O_WRONLY | os.O_RDWR)
        what = self.event("open_w" if w else "open_r", path)
        fd = _os["open"](path, flags, *a, **k)
        self.fds[fd] = path
        self.done(what)
        return fd

    def os_write(self, fd, data):
        if self.muted or fd not in self.fds:
            return _os["write"](fd, data)
        return self.write(lambda d: _os["write"](fd, d), data, self.fds[fd])

    def os_read(self, fd, n):
        if self.muted or fd not in self.fds:
            return _os["read"](fd, n)
        what = self.event("read", self.fds[fd])
        out = _os["read"](fd, max(1, n // 2) if what == "short" else n)
        self.done(what)
        return out

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return _os["close"](fd)

    def write(self, real, data, name):
        what = self.event("write", name)
        data = bytes(data)
        if what == "short" and len(data) > 1:
            return real(data[: len(data) // 2])
        if what == "torn":
            if len(data) > 1:
                real(data[: len(data) // 2])
            self.dead = True
            raise Crash("in the middle of a write")
        if what == "half":
            if len(data) > 1:
                real(data[: len(data) // 2])
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        n = real(data)
        self.done(what)
        return n

    def simple(self, name, kind):
        real = _os[name]

        def call(path, *a, **k):
            if self.muted or not self.inside(path):
                return real(path, *a, **k)
            what = self.event(kind, path)
            out = real(path, *a, **k)
            self.done(what)
            return out

        return call

    def os_fsync(self, fd):
        if self.muted:
            return None
        what = self.event("fsync", "fsync")
        self.done(what)

    def listing(self, name):
        real = _os[name]

        def call(path=".", *a, **k):
            if self.muted or isinstance(path, int) or not self.inside(path):
                return real(path, *a, **k)
            what = self.event("list", path)
            it = real(path, *a, **k)
            out = sorted(it, key=lambda e: getattr(e, "name", e))
            if self.order is not None:
                out = self.order(out)
            self.done(what)
            return Listing(out) if name == "scandir" else out

        return call

    # ------------------------------------------------------------ patching
    def __enter__(self):
        self.saved = []

        def patch(obj, name, val):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

        import _io

        for m in (builtins, io, _io):
            patch(m, "open", self.open)
        patch(os, "open", self.os_open)
        patch(os, "write", self.os_write)
        patch(os, "read", self.os_read)
        patch(os, "close", self.os_close)
        patch(os, "fsync", self.os_fsync)
        for n, kind in (("replace", "replace"), ("rename", "replace"), ("remove", "remove"), ("unlink", "remove"),
                        ("truncate", "truncate"), ("link", "link"), ("mkdir", "link")):
            patch(os, n, self.simple(n, kind))
        for n in ("listdir", "scandir"):
            patch(os, n, self.listing(n))
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            patch(shutil, "_USE_CP_SENDFILE", False)
        OPEN.append(self)
        return self

    def __exit__(self, *a):
        OPEN.remove(self)
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        return False

    class _Quiet:
        def __init__(self, fs):
            self.fs = fs

        def __enter__(self):
            self.fs.muted += 1

        def __exit__(self, *a):
            self.fs.muted -= 1
            return False

    def quiet(self):
        return FS._Quiet(self)


OPEN = []  # file systems being simulated


class unseen:
    """File requests made meanwhile (by qiskit itself) are not part of the simulation."""

    def __enter__(self):
        self.fs = list(OPEN)
        for fs in self.fs:
            fs.muted += 1

    def __exit__(self, *a):
        for fs in self.fs:
            fs.muted -= 1
        return False


class Listing(list):
    """What os.scandir returns: an iterator that is also a context manager."""

    def __init__(self, xs):
        super().__init__(xs)
        self._it = iter(xs)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Raw(io.RawIOBase):
    """One open file of the simulated process."""

    def __init__(self, fs, real, name):
        self._fs, self._real, self.name = fs, real, name

    def readable(self):
        return self._real.readable()

    def writable(self):
        return self._real.writable()

    def seekable(self):
        return True

    @property
    def mode(self):
        return self._real.mode

    def fileno(self):
        return self._real.fileno()

    def isatty(self):
        return False

    def tell(self):
        return self._real.tell()

    def seek(self, pos, whence=0):
        return self._real.seek(pos, whence)

    def truncate(self, size=None):
        what = self._fs.event("truncate", self.name)
        out = self._real.truncate(size)
        self._fs.done(what)
        return out

    def readinto(self, b):
        what = self._fs.event("read", self.name)
        if what == "short" and len(b) > 1:
            m = memoryview(b)[: max(1, len(b) // 2)]
            return self._real.readinto(m)
        out = self._real.readinto(b)
        self._fs.done(what)
        return out

    def readall(self):
        out = []
        buf = bytearray(65536)
        while True:
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        return self._fs.write(self._real.write, b, self.name)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._fs.fds.pop(None, None)
                self._real.close()
