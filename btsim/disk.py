"""Fault layer over a scratch directory: every file-system call made by the code under test on paths below the
scratch directory is numbered; a plan maps numbers to faults. Process crashes keep what reached the OS, nothing else."""
import builtins
import errno
import io
import os
import stat

from . import kernel

D = None
_r = dict(open=builtins.open, ioopen=io.open, makedirs=os.makedirs, mkdir=os.mkdir, replace=os.replace, rename=os.rename,
          remove=os.remove, unlink=os.unlink, fsync=os.fsync, osopen=os.open, oswrite=os.write, listdir=os.listdir,
          link=os.link, isfile=os.path.isfile, isdir=os.path.isdir, exists=os.path.exists, close=os.close,
          fdopen=os.fdopen, truncate=os.truncate, ftruncate=os.ftruncate, rmdir=os.rmdir)

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE,
       "ENOENT": errno.ENOENT}


class Disk:
    def __init__(self, world, root):
        global D
        self.w = world
        self.k = world.k
        self.root = root
        self.ops = 0
        self.log = []          # (n, kind, path)
        self.plan = {}         # op number -> fault
        self.kindplan = []     # [{"kind": "write", "nth": 2, "fault": "ENOSPC"}]
        self.kindcount = {}
        self.outside = []      # mutations attempted outside the scratch directory
        self.fired = {}
        self.fds = {}
        self.full = None       # bytes left, or None
        self.enabled = True
        self.watch = None      # called after every change of the stored files
        self.dirty = set()     # paths with data that was not fsynced
        self.hits = []         # (log position, thread, fault)
        D = self

    def changed(self, kind):
        if self.watch is not None:
            self.watch(kind)

    def crash(self, power):
        """power: the whole machine stops, data that was not synced is lost."""
        if power:
            for p in sorted(self.dirty):
                if _r["isfile"](p):
                    _r["truncate"](p, 0)
        self.k.rec("disk_crash", "power" if power else "process")
        self.changed("crash")
        self.dirty.clear()
        self.w.crash()

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + "/") or os.path.abspath(p) == self.root

    def active(self):
        t = kernel.current()
        return self.enabled and t is not None and t.proc is not None

    def op(self, kind, path):
        """Number a disk operation; returns the fault to apply (a dict) or None. May crash the process."""
        self.ops += 1
        n = self.ops
        c = self.kindcount[kind] = self.kindcount.get(kind, 0) + 1
        rel = os.fspath(path) if not isinstance(path, int) else f"fd{path}"
        rel = rel.replace(self.root, "/disk")
        self.log.append((n, kind, rel))
        self.k.rec("disk", n, kind, rel)
        f = self.plan.get(n)
        if f is None:
            for e in self.kindplan:
                if e["kind"] == kind and e["nth"] == c:
                    f = e
                    break
        d = None
        if f is not None:
            self.fired[f["fault"]] = self.fired.get(f["fault"], 0) + 1
            self.hits.append((len(self.k.log), kernel.current().name, f["fault"]))
            self.k.rec("disk_fault", n, kind, f["fault"])
            if f["fault"] in ("crash", "power"):
                self.crash(f["fault"] == "power")
            if f["fault"] == "stall":
                self.k.sleep(f.get("ns", kernel.SEC))
            elif f["fault"] in ERR:
                raise OSError(ERR[f["fault"]], os.strerror(ERR[f["fault"]]), rel)
            d = f
        else:
            self.k.pause()     # every disk operation is a scheduling point
        return d

    def special(self, path):
        """Opening a named pipe nobody uses blocks for ever."""
        try:
            fifo = stat.S_ISFIFO(os.stat(path).st_mode)
        except (OSError, ValueError):
            return
        while fifo:
            self.k.rec("open_blocks", os.fspath(path).replace(self.root, "/disk"))
            self.k.block(None, "fifo")

    def write(self, path, data, do):
        f = self.op_write(path)
        n = len(data)
        self.dirty.add(os.path.abspath(path))
        if f is not None and f["fault"] in ("short", "torn_crash", "torn_power", "torn_ENOSPC", "torn_EIO"):
            part = int(n * f.get("frac", 0.5))
            if f["fault"] == "short":
                part = max(part, 1)
            if part:
                do(bytes(data)[:part])
            self.changed("write")
            if f["fault"] == "short":
                return part
            if f["fault"] in ("torn_crash", "torn_power"):
                self.crash(f["fault"] == "torn_power")
            e = f["fault"].split("_")[1]
            raise OSError(ERR[e], os.strerror(ERR[e]))
        x = do(data)
        self.changed("write")
        return x

    def op_write(self, path):
        return self.op("write", path)


class SimFileIO(io.FileIO):
    def __init__(self, file, *a, **k):
        super().__init__(file, *a, **k)
        if isinstance(file, int):
            self.simpath = D.fds.get(file, f"fd{file}")
        else:
            self.simpath = os.fspath(file)
            D.fds[self.fileno()] = self.simpath

    def write(self, b):
        d = D
        if d is None or not d.active():
            return super().write(b)
        return d.write(self.simpath, memoryview(b).tobytes(), super().write)

    def close(self):
        d = D
        if not self.closed and d is not None:
            n = self.fileno()
            try:
                if d.active():
                    d.op("close", self.simpath)
            finally:
                d.fds.pop(n, None)
                super().close()
        return None

    def readall(self):
        d = D
        if d is not None and d.active():
            f = d.op("read", self.simpath)
            data = super().readall()
            if f and f["fault"] == "short_read":
                return data[:int(len(data) * f.get("frac", 0.5))]
            return data
        return super().readall()

    def read(self, n=-1):
        d = D
        if d is not None and d.active():
            d.op("read", self.simpath)
        return super().read(n)

    def readinto(self, b):
        d = D
        if d is not None and d.active():
            d.op("read", self.simpath)
        return super().readinto(b)

    def truncate(self, size=None):
        d = D
        if d is not None and d.active():
            d.op("truncate", self.simpath)
            n = super().truncate(size)
            d.changed("truncate")
            return n
        return super().truncate(size)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = D
    if d is None or not d.active():
        return _r["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    isfd = isinstance(file, int)
    if isfd:
        path = d.fds.get(file)
        if path is None:
            return _r["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        if not d.mine(file):
            if any(c in mode for c in "wax+"):
                d.outside.append(os.fspath(file))
                d.k.rec("write_outside", os.fspath(file).replace(d.root, "/disk"))
                raise PermissionError(errno.EACCES, "blocked by simulator", os.fspath(file))
            return _r["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        kind = "open_w" if any(c in mode for c in "wax+") else "open_r"
        d.op(kind, path)
        d.special(path)
    raw_mode = mode.replace("t", "").replace("b", "")
    raw = SimFileIO(file, raw_mode, closefd=closefd, opener=opener)
    if not isfd and kind == "open_w":
        d.changed("open")
    if "b" in mode and buffering == 0:
        return raw
    size = 8192 if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t


def _wrap(name, kind, nargs=1, mutate=True):
    real = _r[name]

    def f(*a, **k):
        d = D
        if d is None or not d.active():
            return real(*a, **k)
        paths = a[:nargs]
        if isinstance(paths[0], int):
            if paths[0] in d.fds:
                d.op(kind, d.fds[paths[0]])
                if name == "fsync":
                    d.dirty.discard(os.path.abspath(d.fds[paths[0]]))
            x = real(*a, **k)
            if mutate and name != "fsync":
                d.changed(kind)
            return x
        if not all(d.mine(p) for p in paths):
            if mutate:
                d.outside.append(str(paths))
                d.k.rec("write_outside", kind, str(paths).replace(d.root, "/disk"))
                raise PermissionError(errno.EACCES, "blocked by simulator", str(paths))
            return real(*a, **k)
        d.op(kind, paths[-1])
        r = real(*a, **k)
        if name == "listdir":
            r = sorted(r)
        elif name in ("rename", "replace"):
            a_, b_ = (os.path.abspath(os.fspath(p)) for p in paths)
            d.dirty.discard(b_)
            if a_ in d.dirty:
                d.dirty.discard(a_)
                d.dirty.add(b_)
        elif name in ("remove", "unlink"):
            d.dirty.discard(os.path.abspath(os.fspath(paths[0])))
        if mutate:
            d.changed(kind)
        return r
    f.__name__ = name
    return f


def _osopen(path, flags, mode=0o777, *, dir_fd=None):
    d = D
    if d is None or not d.active() or not isinstance(path, (str, os.PathLike)):
        return _r["osopen"](path, flags, mode, dir_fd=dir_fd)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if not d.mine(path):
        if wr:
            d.outside.append(os.fspath(path))
            raise PermissionError(errno.EACCES, "blocked by simulator", os.fspath(path))
        return _r["osopen"](path, flags, mode, dir_fd=dir_fd)
    d.op("open_w" if wr else "open_r", path)
    if not flags & os.O_NONBLOCK:
        d.special(path)
    fd = _r["osopen"](path, flags, mode, dir_fd=dir_fd)
    d.fds[fd] = os.fspath(path)
    if wr:
        d.changed("open")
    return fd


def _oswrite(fd, data):
    d = D
    if d is None or not d.active() or fd not in d.fds:
        return _r["oswrite"](fd, data)
    return d.write(d.fds[fd], data, lambda b: _r["oswrite"](fd, b))


def _osclose(fd):
    if D is not None:
        D.fds.pop(fd, None)
    return _r["close"](fd)


def _makedirs(name, mode=0o777, exist_ok=False):
    d = D
    if d is None or not d.active():
        return _r["makedirs"](name, mode, exist_ok)
    if not d.mine(name):
        # existing directories outside are harmless: makedirs would fail with EEXIST anyway
        if os.path.isdir(name):
            if exist_ok:
                return None
            raise FileExistsError(errno.EEXIST, "File exists", os.fspath(name))
        d.outside.append(os.fspath(name))
        d.k.rec("write_outside", "makedirs", os.fspath(name).replace(d.root, "/disk"))
        raise PermissionError(errno.EACCES, "blocked by simulator", os.fspath(name))
    if not _r["isdir"](name):
        d.op("mkdir", name)
    saved, d.enabled = d.enabled, False
    try:
        return _r["makedirs"](name, mode, exist_ok)
    finally:
        d.enabled = saved
        d.changed("mkdir")


def _stat_wrap(name):
    real = _r[name]

    def f(p):
        d = D
        if d is not None and d.active() and d.mine(p):
            d.k.pause()
        return real(p)
    return f


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.makedirs = _makedirs
    os.open = _osopen
    os.write = _oswrite
    os.close = _osclose
    os.mkdir = _wrap("mkdir", "mkdir")
    os.rmdir = _wrap("rmdir", "rmdir")
    os.replace = _wrap("replace", "rename", 2)
    os.rename = _wrap("rename", "rename", 2)
    os.link = _wrap("link", "link", 2)
    os.remove = _wrap("remove", "unlink")
    os.unlink = _wrap("unlink", "unlink")
    os.truncate = _wrap("truncate", "truncate")
    os.fsync = _wrap("fsync", "fsync")
    os.listdir = _wrap("listdir", "listdir", 1, False)
    os.path.isfile = _stat_wrap("isfile")
    os.path.isdir = _stat_wrap("isdir")
    os.path.exists = _stat_wrap("exists")
