"""The simulated disk: real files in one scratch directory behind open() with seeded faults, and a fence round it.

Faults (dicts): {"kind": "open"|"write"|"close"|"read"|"flush", "nth": k-th matching open (1 = first), "at": byte/character
offset or fraction for write/close, "errno": name, "crash": true}.  With "crash" the fault is a process crash at
that point: what was not yet written is gone and SimCrash (a BaseException) unwinds to the simulator."""
import builtins
import errno
import io
import os
import tempfile

real_open = io.open
real_os_open = os.open
FENCED = ("rename", "replace", "remove", "unlink", "mkdir", "rmdir", "truncate", "symlink", "link", "makedirs")


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimFile:
    """A file object whose write, read and close can fail."""

    def __init__(self, disk, f, path, mode, fault):
        self.__dict__.update(_disk=disk, _f=f, _path=path, _mode=mode, _fault=fault, _count=0, _closed=False)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        self._maybe_read()
        return iter(self._f)

    def __next__(self):
        self._maybe_read()
        return next(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    @property
    def closed(self):
        return self._f.closed

    def _fire(self, what):
        fault = self._fault
        self.__dict__["_fault"] = None
        self._disk.fired.append((fault["kind"], what))
        if fault.get("crash"):
            self._disk.crashed = True
            raise SimCrash(f"crash in {what} of {os.path.basename(self._path)}")
        raise OSError(getattr(errno, fault.get("errno", "EIO")), os.strerror(getattr(errno, fault.get("errno", "EIO"))),
                      self._path)

    def _maybe_read(self):
        if self._fault and self._fault["kind"] == "read":
            self._fire("read")

    def read(self, *a):
        if self._fault and self._fault["kind"] == "read":
            data = self._f.read(*a)
            if self._count + len(data) >= self._fault.get("at", 0):
                self._fire("read")
            self.__dict__["_count"] += len(data)
            return data
        return self._f.read(*a)

    def readline(self, *a):
        self._maybe_read()
        return self._f.readline(*a)

    def readlines(self, *a):
        self._maybe_read()
        return self._f.readlines(*a)

    def readinto(self, *a):
        self._maybe_read()
        return self._f.readinto(*a)

    def write(self, data):
        fault = self._fault
        if fault and fault["kind"] == "write":
            left = fault.get("at", 0) - self._count
            if len(data) > left:
                self._f.write(data[:max(0, left)])
                try:
                    self._f.flush()
                finally:
                    self._fire("write")
        n = self._f.write(data)
        self.__dict__["_count"] += len(data)
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if self._fault and self._fault["kind"] == "flush":
            self._cut()
            self._fire("flush")
        return self._f.flush()

    def _cut(self):
        """What was still buffered never reaches the disk."""
        self._f.flush()
        size = os.path.getsize(self._path)
        os.ftruncate(self._f.fileno(), int(size * self._fault.get("at", 0)) if size else 0)

    def close(self):
        if self._closed:
            return self._f.close()
        self.__dict__["_closed"] = True
        fault = self._fault
        if fault and fault["kind"] in ("close", "flush") and ("w" in self._mode or "a" in self._mode or "+" in self._mode or "x" in self._mode):
            try:
                self._cut()
            finally:
                self._f.close()
                self._fire("close")
        return self._f.close()


class Disk:
    def __init__(self, root, rec=None):
        self.root = os.path.realpath(root)
        self.faults = []
        self.fired = []
        self.escapes = []
        self.opens = []
        self.crashed = False
        self.rec = rec
        self._seen = {}
        self.on_open = None         # call-back(path, mode) before an open, for things that happen to files meanwhile
        self.extra_read = ()        # path prefixes outside the root whose reads can fail (templates)

    def arm(self, faults):
        self.faults = [dict(f) for f in faults or ()]
        self.fired = []
        self.opens = []
        self._seen = {}
        self.crashed = False

    def inside(self, path):
        p = os.path.realpath(os.path.join(os.getcwd(), path))
        return p == self.root or p.startswith(self.root + os.sep)

    def _pick(self, kind, path):
        for f in list(self.faults):
            group = "r" if f["kind"] == "read" or f.get("reading") else "w"
            if group != kind:
                continue
            key = id(f)
            self._seen[key] = self._seen.get(key, 0) + 1
            if self._seen[key] == f.get("nth", 1):
                if not f.get("sticky"):
                    self.faults.remove(f)
                else:
                    self._seen[key] -= 1
                return f
        return None

    def open(self, file, mode="r", *args, **kw):
        if isinstance(file, int):
            return real_open(file, mode, *args, **kw)
        path = os.fsdecode(os.fspath(file))
        writing = any(c in mode for c in "wax+")
        if self.on_open:
            self.on_open(path, mode)
        if writing:
            self.opens.append((path, mode))
            if "\0" not in path and not self.inside(path):
                self.escapes.append(path)
                raise PermissionError(errno.EACCES, "outside the simulated disk", path)
        elif "\0" in path or not (self.inside(path) or path.startswith(tuple(self.extra_read) or ("\0",))):
            return real_open(file, mode, *args, **kw)
        fault = self._pick("w" if writing else "r", path)
        if fault and fault["kind"] == "open":
            self.fired.append(("open", path))
            if fault.get("crash"):
                self.crashed = True
                raise SimCrash("crash in open")
            e = getattr(errno, fault.get("errno", "EACCES"))
            raise OSError(e, os.strerror(e), path)
        f = real_open(file, mode, *args, **kw)
        return SimFile(self, f, os.path.realpath(path), mode, fault)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and dir_fd is None and isinstance(path, (str, bytes, os.PathLike)):
            p = os.fsdecode(os.fspath(path))
            if not self.inside(p):
                self.escapes.append(p)
                raise PermissionError(errno.EACCES, "outside the simulated disk", p)
        return real_os_open(path, flags, mode, dir_fd=dir_fd)

    def __enter__(self):
        self._saved = [(builtins, "open", builtins.open), (io, "open", io.open), (os, "open", os.open)]
        builtins.open = self.open
        io.open = self.open
        os.open = self.os_open
        for name in FENCED:
            self._saved.append((os, name, getattr(os, name)))
            setattr(os, name, self._fence(getattr(os, name)))
        return self

    def _fence(self, f):
        def fenced(*args, **kw):
            for a in args[:2]:
                if isinstance(a, (str, bytes, os.PathLike)):
                    p = os.fsdecode(os.fspath(a))
                    if "\0" not in p and not self.inside(p):
                        self.escapes.append(p)
                        raise PermissionError(errno.EACCES, "outside the simulated disk", p)
            return f(*args, **kw)
        return fenced

    def __exit__(self, *exc):
        for mod, name, f in self._saved:
            setattr(mod, name, f)


def scratch_dir():
    """A fresh empty directory for one run."""
    return os.path.realpath(tempfile.mkdtemp(prefix="verif-run-", dir=os.environ.get("VERIF_SCRATCH")))


def snapshot(root):
    """Every file and directory under root with its content."""
    res = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            res[os.path.normpath(os.path.join(rel, d)) + "/"] = None
        for n in files:
            p = os.path.join(base, n)
            with real_open(p, "rb") as f:
                res[os.path.normpath(os.path.join(rel, n))] = f.read()
    return res


def clear(root):
    for base, dirs, files in os.walk(root, topdown=False):
        for n in files:
            os.unlink(os.path.join(base, n))
        for d in dirs:
            p = os.path.join(base, d)
            os.chmod(p, 0o700)
            os.rmdir(p)


def fill(root, files):
    """files: {relative path: text, or None for a directory}"""
    for name, text in files.items():
        p = os.path.join(root, name)
        if text is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with real_open(p, "w") as f:
            f.write(text)
