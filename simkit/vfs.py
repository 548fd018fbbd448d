"""File and database seam.

Every file operation of the simulated process on a path below a watched root, and every SQLite
statement, is a yield point and may be made to fail by the fault plan.  The files themselves are
real files in a scratch directory, so that a killed process leaves behind exactly what it had
handed to the operating system.

Fault plan: list of {"op": class of operation, "nth": count of that class, "what": kind}
  op    : open_r open_w read write close replace unlink mkdir stat fsync db db_commit db_connect any
  what  : EIO ENOSPC EACCES short (write a prefix, then ENOSPC) vanish (remove the file first)
          crash (the process dies here; for write: after a prefix) ioerr full locked (database)
"""

import builtins
import errno
import io
import os
import sqlite3
import stat as _stat
import zlib

from simkit import kernel

_R = {n: getattr(os, n) for n in
      ("open", "replace", "rename", "unlink", "remove", "mkdir", "stat", "lstat", "fsync", "link", "listdir",
       "scandir", "rmdir", "write", "close", "read", "truncate", "ftruncate")}
_io_open = io.open
_connect = sqlite3.connect

STATE = None


class State:
    def __init__(self, root, faults=(), on=True, salt=0):
        self.salt = salt
        self.root = os.path.realpath(root) + os.sep
        self.faults = list(faults)
        self.n = {}
        self.total = 0
        self.on = on
        self.locked_until = None
        self.hit = []
        self.fds = {}  # descriptors opened through os.open: path, error that broke them

    def watch(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return (p + os.sep).startswith(self.root)

    def step(self, op, path=None):
        """Count the operation; returns the fault to apply here, if any."""
        sim = kernel.SIM
        if sim is None:
            return None
        sim.yield_point()
        k = self.n.get(op, 0)
        self.n[op] = k + 1
        t = self.total
        self.total += 1
        sim.count("io:" + op)
        for f in self.faults:
            if (f["op"] == op and f["nth"] == k) or (f["op"] == "any" and f["nth"] == t):
                pass
            elif f["op"] == op and f.get("from") is not None and f["from"] <= k < f["to"]:
                pass
            else:
                continue
            if f["what"] == "crash":
                if op == "write":
                    return f
                sim.do_crash()
            self.hit.append((op, k, f["what"]))
            sim.count("fault:" + ("db_" if op.startswith("db") else "file_") + f["what"])
            sim.event("iofault", op, k, f["what"])
            return f
        return None


def _raise(f, path):
    code = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "short": errno.ENOSPC,
            "EROFS": errno.EROFS, "EMFILE": errno.EMFILE}.get(f["what"])
    if code is not None:
        raise OSError(code, os.strerror(code), str(path))


def _st(path, dir_fd=None):
    s = STATE
    if s is None or kernel.SIM is None or not s.on:
        return None
    if dir_fd is not None and not os.path.isabs(path):
        return s if dir_fd in s.fds else None
    return s if s.watch(path) else None


class SimRaw(io.FileIO):
    """FileIO whose reads and writes are simulated device operations."""

    _s = None
    _path = None
    _broken = None

    def write(self, b):
        s = self._s
        if s is None or kernel.SIM is None or not s.on:
            return super().write(b)
        if self._broken is not None:
            _raise(self._broken, self._path)
        f = s.step("write", self._path)
        mv = memoryview(b).cast("B")
        if f is not None:
            cut = int(len(mv) * f.get("frac", 0.5))
            if f["what"] == "crash":
                if cut:
                    super().write(mv[:cut])
                kernel.SIM.do_crash()
            if f["what"] == "short":
                # the device accepts a part, then is full
                self._broken = f
                if cut:
                    return super().write(mv[:cut])
            _raise(f, self._path)
        # a large write is not atomic towards other processes (appending is)
        half = len(mv) // 2
        if half and "a" not in self.mode:
            n = super().write(mv[:half])
            kernel.SIM.yield_point()
            if n < half:
                return n
            return n + super().write(mv[half:])
        return super().write(mv)

    def _rd(self):
        s = self._s
        if s is not None and kernel.SIM is not None and s.on:
            f = s.step("read", self._path)
            if f is not None:
                _raise(f, self._path)

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def readall(self):
        self._rd()
        return super().readall()

    def read(self, n=-1):
        self._rd()
        return super().read(n)

    def close(self):
        s = self._s
        if s is not None and kernel.SIM is not None and s.on and not self.closed:
            f = s.step("close", self._path)
            super().close()
            if f is not None:
                _raise(f, self._path)
            return
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
    s = STATE
    known = isinstance(file, int) and s is not None and file in s.fds
    if s is None or kernel.SIM is None or not s.on or not (known or s.watch(file)):
        return _io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    f = s.step("open_w" if writing else "open_r", file) if not known else None
    if f is not None:
        if f["what"] == "vanish":
            try:
                _R["unlink"](file)
            except OSError:
                pass
        _raise(f, file)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(file, rawmode, closefd, opener)
    if known:
        raw._s, raw._path = s, s.fds.pop(file)[0] if closefd else s.fds[file][0]
    else:
        raw._s, raw._path = s, os.fspath(file) if not isinstance(file, int) else file
    kernel.SIM.yield_point()
    line = buffering == 1 and not binary
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering < 0 or line else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    text.mode = mode
    return text


def _wrap1(name, op):
    real = _R[name]

    def f(path, *a, **k):
        s = _st(path, k.get("dir_fd"))
        if s is not None:
            x = s.step(op, path)
            if x is not None:
                _raise(x, path)
        return real(path, *a, **k)

    f.__name__ = name
    return f


def _wrap_stat(name):
    real = _R[name]

    def f(path, *a, **k):
        s = _st(path, k.get("dir_fd"))
        if s is not None:
            x = s.step("stat", path)
            if x is not None:
                _raise(x, path)
        r = real(path, *a, **k)
        if s is not None and kernel.SIM is not None:
            kernel.SIM.yield_point()  # what was seen may be outdated before it is acted upon
        return r

    f.__name__ = name
    return f


def _wrap2(name, op):
    real = _R[name]

    def f(a, b, **k):
        s = _st(a) or _st(b)
        if s is not None:
            x = s.step(op, b)
            if x is not None:
                _raise(x, b)
        return real(a, b, **k)

    f.__name__ = name
    return f


def _order(s, name):
    """The order of the entries of a directory is arbitrary, but the same in every replay."""
    name = os.fsencode(name)
    return zlib.crc32(name, s.salt), name


def _listed(path):
    s = STATE
    if isinstance(path, int):
        return s if s is not None and kernel.SIM is not None and s.on and path in s.fds else None
    return _st(path)


def _listdir(path="."):
    s = _listed(path)
    if s is None:
        return _R["listdir"](path)
    x = s.step("stat", path)
    if x is not None:
        _raise(x, path)
    return sorted(_R["listdir"](path), key=lambda n: _order(s, n))


class _Entries:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it = iter(())

    close = __exit__


def _scandir(path="."):
    s = _listed(path)
    if s is None:
        return _R["scandir"](path)
    x = s.step("stat", path)
    if x is not None:
        _raise(x, path)
    with _R["scandir"](path) as it:
        return _Entries(sorted(it, key=lambda e: _order(s, e.name)))


def _os_open(path, flags, mode=0o777, **k):
    s = _st(path, k.get("dir_fd"))
    if s is not None:
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
        x = s.step("open_w" if wr else "open_r", path)
        if x is not None:
            _raise(x, path)
    fd = _R["open"](path, flags, mode, **k)
    if s is not None:
        at = k.get("dir_fd")
        s.fds[fd] = [os.fspath(path) if at not in s.fds else os.path.join(s.fds[at][0], path), None]
    return fd


def _fd(fd):
    s = STATE
    return s if s is not None and kernel.SIM is not None and s.on and fd in s.fds else None


def _os_write(fd, data):
    s = _fd(fd)
    if s is None:
        return _R["write"](fd, data)
    path, brk = s.fds[fd]
    if brk is not None:
        _raise(brk, path)
    f = s.step("write", path)
    mv = memoryview(data).cast("B")
    if f is not None:
        cut = int(len(mv) * f.get("frac", 0.5))
        if f["what"] == "crash":
            if cut:
                _R["write"](fd, mv[:cut])
            kernel.SIM.do_crash()
        if f["what"] == "short":  # the device accepts a part, then is full
            s.fds[fd][1] = f
            if cut:
                return _R["write"](fd, mv[:cut])
        _raise(f, path)
    return _R["write"](fd, mv)


def _os_read(fd, n):
    s = _fd(fd)
    if s is not None:
        f = s.step("read", s.fds[fd][0])
        if f is not None:
            _raise(f, s.fds[fd][0])
    return _R["read"](fd, n)


def _os_close(fd):
    s = STATE
    ent = s.fds.pop(fd, None) if s is not None else None
    if ent is not None and kernel.SIM is not None and s.on:
        f = s.step("close", ent[0])
        _R["close"](fd)
        if f is not None:
            _raise(f, ent[0])
        return
    return _R["close"](fd)


# ---------------------------------------------------------------------- SQLite
class SimCursor(sqlite3.Cursor):
    def execute(self, sql, params=()):
        return self.connection._sim_do("db", sql, lambda: sqlite3.Cursor.execute(self, sql, params))

    def executemany(self, sql, params):
        return self.connection._sim_do("db", sql, lambda: sqlite3.Cursor.executemany(self, sql, params))

    def executescript(self, sql):
        return self.connection._sim_do("db", sql, lambda: sqlite3.Cursor.executescript(self, sql))


class SimConnection(sqlite3.Connection):
    _sim_timeout = 5.0

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, params):
        return self.cursor().executemany(sql, params)

    def commit(self):
        return self._sim_do("db_commit", "COMMIT", super().commit)

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()  # as sqlite3 does
                raise
        else:
            self.rollback()
        return False

    def _sim_do(self, op, sql, fn):
        sim = kernel.SIM
        s = STATE
        if sim is None or s is None or not s.on:
            return fn()
        f = s.step(op, sql)
        if f is not None:
            w = f["what"]
            if w == "ioerr":
                raise sqlite3.OperationalError("disk I/O error")
            if w == "full":
                raise sqlite3.OperationalError("database or disk is full")
            if w == "locked":
                sim.sleep(self._sim_timeout)
                raise sqlite3.OperationalError("database is locked")
            if w == "readonly":
                raise sqlite3.OperationalError("attempt to write a readonly database")
        deadline = sim.now + self._sim_timeout
        wait = 0.001
        while True:
            try:
                r = fn()
                break
            except sqlite3.OperationalError as e:
                if "locked" not in str(e) and "busy" not in str(e):
                    raise
                if sim.now >= deadline:
                    raise
                sim.count("db_busy_wait")
                sim.sleep(wait)
                wait = min(wait * 2, 0.1)
        sim.yield_point()
        return r


def sim_connect(database, timeout=5.0, *a, **k):
    sim = kernel.SIM
    s = STATE
    if sim is None or s is None or not s.watch(database):
        return _connect(database, timeout, *a, **k)
    if s.on:
        f = s.step("db_connect", database)
        if f is not None:
            raise sqlite3.OperationalError("unable to open database file")
    k.setdefault("factory", SimConnection)
    c = _connect(database, 0, *a, **k)
    c._sim_timeout = timeout
    return c


_installed = False


def install():
    """Before the code under test is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    io.open = sim_open
    builtins.open = sim_open
    sqlite3.connect = sim_connect
    try:
        import sqlite3.dbapi2 as d2

        d2.connect = sim_connect
    except ImportError:
        pass
    os.open = _os_open
    os.write = _os_write
    os.read = _os_read
    os.close = _os_close
    for n, op in (("unlink", "unlink"), ("remove", "unlink"), ("mkdir", "mkdir"), ("rmdir", "unlink"),
                  ):
        setattr(os, n, _wrap1(n, op))
    os.listdir = _listdir
    os.scandir = _scandir
    for n in ("stat", "lstat"):
        setattr(os, n, _wrap_stat(n))
    for n in ("replace", "rename", "link"):
        setattr(os, n, _wrap2(n, "replace"))


def attach(root, faults=(), on=True, salt=0):
    global STATE
    STATE = State(root, faults, on, salt)
    return STATE


def detach():
    global STATE
    STATE = None


# ---------------------------------------------------------------------- damage between executions
def damage(path, how, frac=0.5):
    """Harness: damage a stored file as a disk or another program would."""
    st = _R["stat"](path)
    if not _stat.S_ISREG(st.st_mode):
        return False
    if how == "delete":
        _R["unlink"](path)
    elif how == "empty":
        with _io_open(path, "wb"):
            pass
    elif how == "truncate":
        n = int(st.st_size * frac)
        if n >= st.st_size:
            n = st.st_size - 1
        with _io_open(path, "r+b") as f:
            f.truncate(max(n, 0))
    elif how == "garbage":
        with _io_open(path, "wb") as f:
            f.write(b"\xff\x00garbage" * 3)
    return True
