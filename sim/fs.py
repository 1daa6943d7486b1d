"""A simulated file system. Everything below ``/s/`` lives in memory; the calls
Python code uses to look at and read files are routed here for those paths.

Every call is counted (a place where a fault can be injected, or where another
process changes files), and can be a scheduling point. The modification times
come from a simulated clock.
"""
import builtins
import errno
import io
import os
import posixpath
import stat

PREFIX = "/s/"
ERRORS = ("ENOENT", "EACCES", "EIO", "EMFILE", "EINTR", "ELOOP", "ENOTDIR", "ESTALE", "ETIMEDOUT", "ENAMETOOLONG")

_real = {"open": builtins.open, "ioopen": io.open, "stat": os.stat, "lstat": os.lstat, "access": os.access,
         "readlink": os.readlink, "listdir": os.listdir, "osopen": os.open, "getcwd": os.getcwd}


class File:
    def __init__(self, data, mtime, kind="file"):
        self.data, self.mtime, self.kind = data, mtime, kind


class Raw(io.RawIOBase):
    """An open simulated file. Reads can be short, and can fail."""

    def __init__(self, fs, path, data, short=0):
        self.fs, self.path, self.data, self.pos, self.short = fs, path, data, 0, short
        self.name = path
        fs.handles += 1
        self._is_open = True

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, n, whence=0):
        self.pos = n if whence == 0 else self.pos + n if whence == 1 else len(self.data) + n
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        self.fs.call("read", self.path)
        n = len(b)
        if self.short:
            n = min(n, self.short)
            self.fs.shorts += 1
        chunk = self.data[self.pos:self.pos + n]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def readall(self):
        out = bytearray()
        buf = bytearray(65536)
        while True:
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def close(self):
        if self._is_open:
            self._is_open = False
            self.fs.handles -= 1
            super().close()
            self.fs.call("close", self.path)
        else:
            super().close()


class SimFS:
    def __init__(self, log=None):
        self.files = {}
        self.now = 1700000000.0
        self.log = log or (lambda *a: None)
        self.faults = {}        # (stage, path or "*", nth or None) -> errno name
        self.fired = []         # faults that occurred: (stage, path, name)
        self.calls = 0
        self.nth = {}           # (stage, path) -> number of calls
        self.hook = None        # called before every call with (stage, path)
        self.cwd = None         # a simulated working directory
        self.handles = 0
        self.short = 0          # reads return at most this many bytes
        self.shorts = 0

    # -- what other processes do

    def tick(self, n=1.0):
        self.now += n

    def write(self, path, data, mtime=None):
        self.tick()
        self.files[path] = File(data, self.now if mtime is None else mtime)

    def mkdir(self, path):
        self.tick()
        self.files[path] = File(b"", self.now, "dir")

    def remove(self, path):
        self.tick()
        self.files.pop(path, None)

    # -- faults

    def set_fault(self, stage, path, name):
        self.faults[stage, path] = name

    def clear_faults(self):
        self.faults.clear()
        self.fired = []

    def call(self, stage, path):
        self.calls += 1
        k = stage, path
        self.nth[k] = self.nth.get(k, 0) + 1
        if self.hook:
            self.hook(stage, path)
        self.log("io", stage, path)
        name = self.faults.get(k) or self.faults.get((stage, "*"))
        if name:
            self.fired.append((stage, path, name))
            self.log("fault", stage, path, name)
            if name == "ENOMEM!":
                raise MemoryError("injected")
            raise OSError(getattr(errno, name), os.strerror(getattr(errno, name)), path)

    # -- the calls

    def _path(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(PREFIX) or p + "/" == PREFIX:
            return p
        return None

    def _lookup(self, p):
        if "\0" in p:
            raise ValueError("embedded null byte")
        if any(len(x.encode("utf-8", "surrogateescape")) > 255 for x in p.split("/")):
            raise OSError(errno.ENAMETOOLONG, "File name too long", p)
        n = posixpath.normpath(p)
        f = self.files.get(n)
        # a component that is no directory
        d = posixpath.dirname(n)
        while len(d) > 2:
            g = self.files.get(d)
            if g and g.kind == "file":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
            d = posixpath.dirname(d)
        if f is None:
            if any(x.startswith(n + "/") for x in self.files):
                return File(b"", 1.0, "dir")
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if f.kind == "file" and p.endswith("/"):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
        return f

    def stat(self, path, *args, **kwargs):
        p = self._path(path)
        if p is None:
            return _real["stat"](path, *args, **kwargs)
        self.call("stat", p)
        f = self._lookup(p)
        mode = stat.S_IFDIR | 0o755 if f.kind == "dir" else stat.S_IFREG | 0o644
        t = int(f.mtime // 1)
        ns = int(f.mtime * 1000000000)
        # ino .. and the float and ns times are separate fields
        return os.stat_result((mode, 1, 1, 1, 0, 0, len(f.data), t, t, t, f.mtime, f.mtime, f.mtime, ns, ns, ns))

    def lstat(self, path, *args, **kwargs):
        if self._path(path) is None:
            return _real["lstat"](path, *args, **kwargs)
        return self.stat(path)

    def access(self, path, *args, **kwargs):
        if self._path(path) is None:
            return _real["access"](path, *args, **kwargs)
        try:
            self.stat(path)
            return True
        except OSError:
            return False

    def readlink(self, path, *args, **kwargs):
        p = self._path(path)
        if p is None:
            return _real["readlink"](path, *args, **kwargs)
        raise OSError(errno.EINVAL, "Invalid argument", p)

    def listdir(self, path="."):
        p = self._path(path)
        if p is None:
            return _real["listdir"](path)
        self.call("stat", p)
        n = posixpath.normpath(p) + "/"
        return sorted({x[len(n):].split("/")[0] for x in self.files if x.startswith(n)})

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self._path(file)
        if p is None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if any(c in mode for c in "wax+"):
            raise OSError(errno.EROFS, "Read-only file system", p)
        self.call("open", p)
        f = self._lookup(p)
        if f.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
        raw = Raw(self, p, f.data, self.short)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def getcwd(self):
        if self.cwd is None:
            return _real["getcwd"]()
        if self.cwd.endswith("gone"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        return self.cwd

    def osopen(self, path, *args, **kwargs):
        p = self._path(path)
        if p is None:
            return _real["osopen"](path, *args, **kwargs)
        raise OSError(errno.ENOSYS, "not simulated", p)

    def __enter__(self):
        builtins.open = io.open = self.open
        os.stat, os.lstat, os.access = self.stat, self.lstat, self.access
        os.readlink, os.listdir, os.open = self.readlink, self.listdir, self.osopen
        os.getcwd = self.getcwd
        return self

    def __exit__(self, *args):
        builtins.open, io.open = _real["open"], _real["ioopen"]
        os.stat, os.lstat, os.access = _real["stat"], _real["lstat"], _real["access"]
        os.readlink, os.listdir, os.open = _real["readlink"], _real["listdir"], _real["osopen"]
        os.getcwd = _real["getcwd"]
