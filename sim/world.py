"""The simulated machine: disk, console, clock, randomness, crashes.

One World is one machine with one scratch directory as its disk.  Every run of
the tool on it is a "process" (see proc.py).  Everything nondeterministic the
tool can reach goes through here:

  disk     files are real files in a private scratch directory, but every open,
           read, write, truncate, close, rename, unlink, mkdir, fsync goes
           through SimFileIO / patched os calls, below Python's own buffering.
           A fault plan decides errors, short transfers, stalls and crashes.
  clock    datetime/time read World.now; each I/O operation advances it.
  random   random and numpy.random are re-seeded per process by the scenario.
  console  stdout and stderr are SimConsole objects with faultable writes.

Nothing here draws from a PRNG that is shared with the code under test, and
the event log is written by the seams themselves, so logging cannot perturb a
schedule.
"""

import builtins
import datetime as _dt
import errno
import hashlib
import io
import os
import random
import shutil
import sys
import tempfile
import time as _time

REAL = dict(open=io.open, replace=os.replace, rename=os.rename, remove=os.remove,
            unlink=os.unlink, rmdir=os.rmdir, mkdir=os.mkdir, fsync=os.fsync,
            truncate=os.truncate, link=os.link, symlink=os.symlink,
            osopen=os.open, oswrite=os.write, osread=os.read, osclose=os.close,
            osftruncate=os.ftruncate, osfdatasync=os.fdatasync, time=_time.time, sleep=_time.sleep,
            localtime=_time.localtime, gmtime=_time.gmtime,
            strftime=_time.strftime, monotonic=_time.monotonic,
            perf_counter=_time.perf_counter,
            datetime=_dt.datetime, date=_dt.date,
            chmod=os.chmod, utime=os.utime, getpid=os.getpid, kill=os.kill,
            urandom=os.urandom, stat=os.stat, lstat=os.lstat,
            listdir=os.listdir, scandir=os.scandir, access=os.access)

ERR = {k: getattr(errno, k) for k in (
    "EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "ENFILE", "ENOENT", "EROFS",
    "EPIPE", "ENOMEM", "ESTALE", "EINTR", "EAGAIN", "ETIMEDOUT", "EISDIR")}


class SimCrash(BaseException):
    """The simulated machine loses power / the process is killed."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class World(object):

    current = None      # the world whose process is running, if any

    def __init__(self, root, keep_log=True):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.tmp = self.root + ".tmp"       # what the tool sees as /tmp
        os.makedirs(self.tmp, exist_ok=True)
        self.log = []
        self.keep_log = keep_log
        self.stats = {}
        self.dead = False
        self.running = False
        self.now = 1.2e9
        self.utc_offset = 0
        self.began = None
        self.sim_seconds = 0.0
        self.lo = self.hi = self.now
        self.faults = []
        self.io = {}
        self.op_no = 0
        self.clock_reads = 0
        self.escapes = []
        self.opened_write = []
        self.opened_read = []
        self.touched = []
        self.synced = set()
        self.handles = set()
        self.fds = {}
        self.on_op = None           # scheduler hook
        self.pid = 1000
        self.alive = ()             # other simulated processes
        self.rng_n = random.Random(0)
        self.rng_r = self.rng_w = self.rng_l = None
        self.console_text = {"<stdout>": [], "<stderr>": []}

    # ---------------------------------------------------------------- set-up

    def configure(self, faults=(), io=None, now=None, utc_offset=0):
        """Sets the fault plan and the I/O policy of the next process."""
        self.faults = [dict(f, _seen=0, _fired=0) for f in faults]
        self.io = dict(io or {})
        seed = self.io.get("seed", 0)
        self.rng_r = random.Random("r%s" % seed)
        self.rng_w = random.Random("w%s" % seed)
        self.rng_l = random.Random("l%s" % seed)
        self.pid += 1
        self.rng_n = random.Random("n%s/%s" % (seed, self.pid))
        self.dead = False
        self.op_no = 0
        self.clock_reads = 0
        self.escapes = []
        self.opened_write = []
        self.opened_read = []
        self.touched = []
        self.synced = set()
        self.console_text = {"<stdout>": [], "<stderr>": []}
        if now is not None:
            self.now = float(now)
        self.utc_offset = utc_offset
        self.began = self.now
        self.mark()

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def event(self, *what):
        if self.keep_log:
            self.log.append(what)

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "backslashreplace"))
        return h.hexdigest()

    # ----------------------------------------------------------------- paths

    def rel(self, path):
        """Path relative to the disk, or None if it is elsewhere."""
        if isinstance(path, int):
            try:
                path = os.readlink("/proc/self/fd/%d" % path)
            except OSError:
                return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.normpath(os.path.join(os.getcwd(), self.real(path)))
        if path == self.root:
            return "."
        if path.startswith(self.prefix):
            return path[len(self.prefix):]
        if path == self.tmp or path.startswith(self.tmp + os.sep):
            return "/tmp" + path[len(self.tmp):]
        return None

    def real(self, path):
        """Where a path is: /tmp is simulated, too."""
        if isinstance(path, int):
            return path
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        for d in ("/tmp", "/var/tmp"):
            if p == d or p.startswith(d + "/") and \
                    not p.startswith("/tmp/mtksim-"):
                return self.tmp + p[len(d):]
        return path

    # ------------------------------------------------------------ operations

    def tick(self):
        lat = self.io.get("latency", 0.001)
        if lat:
            self.now += self.rng_l.random() * lat
            self.seen()

    def mark(self):
        """Starts a window in which the extreme clock values are recorded."""
        self.lo = self.hi = self.now

    def seen(self):
        if self.now < self.lo:
            self.lo = self.now
        if self.now > self.hi:
            self.hi = self.now

    def years(self):
        """Local calendar years between which the clock was in the window."""
        return tuple((REAL["datetime"](1970, 1, 1) +
                      _dt.timedelta(seconds=t)).year for t in (self.lo, self.hi))

    def op(self, kind, name, size=0):
        """One operation at a seam. Returns the fault to apply, or None."""
        if self.on_op is not None:
            self.on_op(kind, name)
        self.op_no += 1
        self.tick()
        self.event(self.op_no, kind, name, size)
        hit = None
        for f in self.faults:
            if f["op"] != kind and f["op"] != "*":
                continue
            if not match(f.get("file", "*"), name):
                continue
            k = f["_seen"]
            f["_seen"] += 1
            if k == f["nth"] or (f.get("sticky") and k > f["nth"] and f["_fired"]):
                f["_fired"] += 1
                if hit is None or f["kind"] != "STALL":
                    if hit is not None:
                        self.apply_stall(hit)
                    hit = f
                elif f["kind"] == "STALL":
                    self.apply_stall(f)
        if hit is not None:
            self.count("fault:%s:%s" % (kind, hit["kind"]))
            self.event(self.op_no, "FAULT", kind, name, hit["kind"])
            if hit["kind"] == "STALL":
                self.apply_stall(hit)
                return None
            if hit["kind"] == "CRASH" and not hit.get("partial") and \
                    not hit.get("after"):
                self.crash()
        return hit

    def apply_stall(self, f):
        if f["kind"] == "STALL":
            self.now += f.get("seconds", 60.0)
            self.seen()

    def crash(self):
        self.dead = True
        self.event(self.op_no, "CRASH")
        raise SimCrash()

    def check_dead(self):
        if self.dead:
            raise SimCrash()

    def raise_errno(self, f, name):
        raise OSError(ERR[f["kind"]], os.strerror(ERR[f["kind"]]), name)

    def fired(self):
        return [f for f in self.faults if f["_fired"]]

    # ----------------------------------------------------------------- clock

    def read_clock(self):
        self.clock_reads += 1
        for j in self.io.get("clock_jumps", ()):
            if j[0] == self.clock_reads:
                self.now += j[1]
                self.count("fault:clock:JUMP")
                self.event("CLOCKJUMP", j[1])
        self.now += 1e-6
        self.seen()
        return self.now

    # ----------------------------------------------------------------- patch

    def install(self):
        if World.current is not None:
            raise HarnessError("a world is already running")
        World.current = self
        self.running = True
        builtins.open = io.open = sim_open
        _np_openers()[None] = sim_open
        for name in ("replace", "rename", "remove", "unlink", "rmdir", "mkdir",
                     "fsync", "truncate", "link", "symlink", "chmod", "utime"):
            setattr(os, name, _OS[name])
        os.open = sim_os_open
        os.write, os.read, os.close = sim_os_write, sim_os_read, sim_os_close
        os.ftruncate, os.fdatasync = sim_os_ftruncate, _OS["fsync"]
        for name in LOOK:
            setattr(os, name, _LOOK[name])
        tempfile.tempdir = self.tmp
        os.getpid, os.kill = (lambda: World.current.pid), sim_kill
        os.urandom = lambda n: World.current.rng_n.randbytes(n)
        tempfile._name_sequence = _Names()
        shutil._USE_CP_SENDFILE = False
        _dt.datetime = SimDateTime
        _dt.date = SimDate
        _time.time = lambda: World.current.read_clock()
        _time.monotonic = _time.perf_counter = _time.time
        _time.sleep = _sim_sleep
        _time.localtime = lambda s=None: REAL["gmtime"](
            World.current.read_clock() if s is None else s)
        _time.gmtime = lambda s=None: REAL["gmtime"](
            World.current.read_clock() - World.current.utc_offset
            if s is None else s)
        _time.strftime = lambda fmt, t=None: REAL["strftime"](
            fmt, _time.localtime() if t is None else t)

    def uninstall(self):
        builtins.open = io.open = REAL["open"]
        _np_openers()[None] = REAL["open"]
        for name in ("replace", "rename", "remove", "unlink", "rmdir", "mkdir",
                     "fsync", "truncate", "link", "symlink", "chmod", "utime"):
            setattr(os, name, REAL[name])
        os.open = REAL["osopen"]
        os.write, os.read, os.close = (REAL["oswrite"], REAL["osread"],
                                       REAL["osclose"])
        os.ftruncate, os.fdatasync = REAL["osftruncate"], REAL["osfdatasync"]
        for name in LOOK:
            setattr(os, name, REAL[name])
        tempfile.tempdir = None
        os.getpid, os.kill = REAL["getpid"], REAL["kill"]
        os.urandom = REAL["urandom"]
        tempfile._name_sequence = None
        shutil._USE_CP_SENDFILE = True
        for fd in self.fds:
            # descriptors the process left open end with it
            try:
                REAL["osclose"](fd)
            except OSError:
                pass
        self.fds = {}
        _dt.datetime = REAL["datetime"]
        _dt.date = REAL["date"]
        for name in ("time", "monotonic", "perf_counter", "sleep", "localtime",
                     "gmtime", "strftime"):
            setattr(_time, name, REAL[name])
        World.current = None
        self.running = False
        if self.began is not None:
            self.sim_seconds += abs(self.now - self.began)
            self.began = None

    # ------------------------------------------------- files, for the harness

    def path(self, rel):
        if rel == "/tmp" or rel.startswith("/tmp/"):
            return self.tmp + rel[4:]
        return os.path.join(self.root, rel)

    def put(self, rel, data, mtime=None):
        if isinstance(data, str):
            data = data.encode("utf-8")
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with REAL["open"](p, "wb") as f:
            f.write(data)
        t = self.now if mtime is None else mtime
        REAL["utime"](p, (t, t))

    def delete(self, rel):
        try:
            REAL["unlink"](self.path(rel))
        except FileNotFoundError:
            pass

    def settle(self):
        """Files the last process touched carry simulated time stamps."""
        for rel in self.touched:
            p = self.path(rel)
            if os.path.isfile(p) and not os.path.islink(p):
                REAL["utime"](p, (self.now, self.now))

    def get(self, rel):
        try:
            with REAL["open"](self.path(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def snapshot(self):
        out = {}
        for path, dirs, files in os.walk(self.root):
            dirs.sort()
            for name in sorted(files):
                p = os.path.join(path, name)
                rel = p[len(self.prefix):]
                if os.path.islink(p):
                    out[rel] = b"LINK:" + os.fsencode(os.readlink(p))
                else:
                    with REAL["open"](p, "rb") as f:
                        out[rel] = f.read()
            if path != self.root and not dirs and not files:
                out[path[len(self.prefix):] + "/"] = b""
        for path, dirs, files in os.walk(self.tmp):
            dirs.sort()
            for name in sorted(files):
                rel = "/tmp" + os.path.join(path, name)[len(self.tmp):]
                out[rel] = self.get(rel)
        return out


def match(pattern, name):
    if pattern == "*":
        return True
    if isinstance(pattern, list):
        return any(match(p, name) for p in pattern)
    if pattern.startswith("!"):
        return not match(pattern[1:], name)
    return pattern == name


def _np_openers():
    import numpy.lib._datasource as ds
    ds._file_openers._load()
    return ds._file_openers._file_openers


# -------------------------------------------------------------------- files

class SimFileIO(io.FileIO):
    """The raw layer under every Python file object on the simulated disk."""

    def __init__(self, world, rel, file, mode, closefd=True, opener=None):
        self._w = world
        self._rel = rel
        self._done = False
        self._wrote = False
        io.FileIO.__init__(self, file, mode, closefd, opener)

    def readinto(self, buf):
        w = self._w
        w.check_dead()
        view = memoryview(buf).cast("B")
        f = w.op("read", self._rel, len(view))
        if f is not None:
            if f["kind"] == "CRASH":
                w.crash()
            w.raise_errno(f, self._rel)
        cap = w.io.get("read_max")
        if cap and len(view) > 1:
            n = w.rng_r.randint(1, cap)
            if n < len(view):
                view = view[:n]
                w.count("fault:read:SHORT")
        n = io.FileIO.readinto(self, view)
        w.event("got", n)
        return n

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            data = self.read(65536)
            if not data:
                return b"".join(out)
            out.append(data)

    def write(self, data):
        w = self._w
        data = memoryview(data).cast("B")
        if w.dead:
            return len(data)
        f = w.op("write", self._rel, len(data))
        if f is not None:
            part = max(0, min(int(f.get("partial", 0) or 0), len(data) - 1))
            if f["kind"] == "CRASH":
                if f.get("after"):
                    io.FileIO.write(self, data)
                elif part:
                    io.FileIO.write(self, data[:part])
                w.crash()
            if part and not f.get("_parted"):
                f["_parted"] = True
                self._wrote = True
                io.FileIO.write(self, data[:part])
                w.event("put", part, "torn")
                # what still went through is reported as a short write, the
                # error comes with the next one
                f["nth"] = f["_seen"]
                if f["kind"] in ("ENOSPC", "EDQUOT"):
                    f["sticky"] = True
                return part
            w.raise_errno(f, self._rel)
        cap = w.io.get("write_max")
        if cap and len(data) > 1:
            n = w.rng_w.randint(1, cap)
            if n < len(data):
                data = data[:n]
                w.count("fault:write:SHORT")
        n = io.FileIO.write(self, data)
        self._wrote = True
        w.synced.discard(self._rel)
        return n

    def truncate(self, size=None):
        w = self._w
        if w.dead:
            return size
        f = w.op("truncate", self._rel, size or 0)
        if f is not None:
            if f["kind"] == "CRASH":
                w.crash()
            w.raise_errno(f, self._rel)
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed or self._done:
            return io.FileIO.close(self)
        self._done = True
        w = self._w
        w.handles.discard(id(self))
        if w.dead or not w.running:
            return io.FileIO.close(self)
        try:
            f = w.op("close", self._rel)
        except SimCrash:
            io.FileIO.close(self)
            raise
        io.FileIO.close(self)
        if f is not None:
            if f["kind"] == "CRASH":
                w.crash()
            w.raise_errno(f, self._rel)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    """open() of the simulated machine (same layering as io.open)."""
    w = World.current
    if w is not None:
        file = w.real(file)
    rel = None if w is None else w.rel(file)
    writing = any(c in mode for c in "wax+")
    if rel is None:
        if w is not None and writing and not isinstance(file, int) and \
                not _harmless(file):
            w.escapes.append(os.fspath(file))
            w.event("ESCAPE", str(file))
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), file)
        return REAL["open"](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    w.check_dead()
    binary = "b" in mode
    raw_mode = mode.replace("t", "").replace("b", "").replace("U", "")
    if len([c for c in raw_mode if c in "rwax"]) != 1 or (
            binary and ("t" in mode or encoding or errors or newline)):
        return REAL["open"](file, mode, buffering, encoding, errors, newline)
    kind = "openw" if writing else "open"
    f = w.op(kind, rel, 0)
    if f is not None:
        if f["kind"] == "CRASH":
            if not f.get("after"):
                w.crash()
        else:
            w.raise_errno(f, rel)
    raw = SimFileIO(w, rel, file, raw_mode, closefd, opener)
    if closefd or opener:
        # a descriptor of os.open belongs to the file object from now on
        w.fds.pop(raw.fileno(), None)
    (w.opened_write if writing else w.opened_read).append(rel)
    if writing and rel not in w.touched:
        w.touched.append(rel)
    if f is not None:
        w.crash()
    w.handles.add(id(raw))
    result = raw
    try:
        size = w.io.get("bufsize", io.DEFAULT_BUFFER_SIZE)
        if buffering > 1:
            size = buffering
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        result = buf
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                buffering == 1)
        chunk = w.io.get("text_chunk")
        if chunk:
            text._CHUNK_SIZE = chunk
        result = text
        text.mode = mode
        return text
    except BaseException:
        result.close()
        raise


def _harmless(file):
    p = os.fspath(file)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p in ("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr") or \
        "__pycache__" in p


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = World.current
    if w is not None and dir_fd is None:
        path = w.real(path)
    if w is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                                  os.O_TRUNC | os.O_APPEND):
        rel = w.rel(path) if dir_fd is None else None
        if rel is None:
            if not _harmless(path):
                w.escapes.append(str(path))
                raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)
        else:
            w.check_dead()
            f = w.op("openw", rel, 0)
            if f is not None:
                if f["kind"] == "CRASH":
                    w.crash()
                w.raise_errno(f, rel)
            w.opened_write.append(rel)
            if rel not in w.touched:
                w.touched.append(rel)
            fd = REAL["osopen"](path, flags, mode, dir_fd=dir_fd)
            w.fds[fd] = rel
            return fd
    elif w is not None and not flags & os.O_DIRECTORY and dir_fd is None:
        rel = w.rel(path)
        if rel is not None and not os.path.isdir(path):
            w.check_dead()
            f = w.op("open", rel, 0)
            if f is not None:
                if f["kind"] == "CRASH":
                    w.crash()
                w.raise_errno(f, rel)
            fd = REAL["osopen"](path, flags, mode, dir_fd=dir_fd)
            w.opened_read.append(rel)
            w.fds[fd] = rel
            return fd
    return REAL["osopen"](path, flags, mode, dir_fd=dir_fd)


def _fd_rel(fd):
    """The file of the simulated disk behind a bare descriptor, or None."""
    w = World.current
    if w is None or not isinstance(fd, int):
        return None
    return w.fds.get(fd)


def sim_os_write(fd, data):
    rel = _fd_rel(fd)
    if rel is None:
        return REAL["oswrite"](fd, data)
    w = World.current
    w.check_dead()
    data = memoryview(data).cast("B")
    f = w.op("write", rel, len(data))
    if f is not None:
        part = max(0, min(int(f.get("partial", 0) or 0), len(data) - 1))
        if f["kind"] == "CRASH":
            if f.get("after"):
                REAL["oswrite"](fd, data)
            elif part:
                REAL["oswrite"](fd, data[:part])
            w.crash()
        if part and not f.get("_parted"):
            f["_parted"] = True
            f["nth"] = f["_seen"]
            if f["kind"] in ("ENOSPC", "EDQUOT"):
                f["sticky"] = True
            w.event("put", part, "torn")
            w.synced.discard(rel)
            return REAL["oswrite"](fd, data[:part])
        w.raise_errno(f, rel)
    cap = w.io.get("write_max")
    if cap and len(data) > 1:
        n = w.rng_w.randint(1, cap)
        if n < len(data):
            data = data[:n]
            w.count("fault:write:SHORT")
    w.synced.discard(rel)
    return REAL["oswrite"](fd, data)


def sim_os_read(fd, n):
    rel = _fd_rel(fd)
    if rel is None:
        return REAL["osread"](fd, n)
    w = World.current
    w.check_dead()
    f = w.op("read", rel, n)
    if f is not None:
        if f["kind"] == "CRASH":
            w.crash()
        w.raise_errno(f, rel)
    cap = w.io.get("read_max")
    if cap and n > 1:
        k = w.rng_r.randint(1, cap)
        if k < n:
            n = k
            w.count("fault:read:SHORT")
    return REAL["osread"](fd, n)


def sim_os_close(fd):
    rel = _fd_rel(fd)
    if rel is None:
        return REAL["osclose"](fd)
    w = World.current
    del w.fds[fd]
    if w.dead:
        return REAL["osclose"](fd)
    try:
        f = w.op("close", rel)
    finally:
        REAL["osclose"](fd)
    if f is not None:
        if f["kind"] == "CRASH":
            w.crash()
        w.raise_errno(f, rel)


def sim_os_ftruncate(fd, size):
    rel = _fd_rel(fd)
    if rel is None:
        return REAL["osftruncate"](fd, size)
    w = World.current
    w.check_dead()
    f = w.op("truncate", rel, size)
    if f is not None:
        if f["kind"] == "CRASH":
            w.crash()
        w.raise_errno(f, rel)
    return REAL["osftruncate"](fd, size)


def _os_wrap(name):
    real = REAL[name]

    def call(*a, **k):
        w = World.current
        if w is None:
            return real(*a, **k)
        if name == "fsync":
            if w.dead:
                raise SimCrash()
            rel = w.rel(a[0])
            if rel is None:
                return real(*a, **k)
            f = w.op("fsync", rel)
            if f is not None:
                if f["kind"] == "CRASH":
                    w.crash()
                w.raise_errno(f, rel)
            w.synced.add(rel)
            return real(*a, **k)
        n = 2 if name in ("replace", "rename", "link", "symlink") else 1
        a = tuple(w.real(p) for p in a[:n]) + a[n:]
        paths = a[:n]
        rels = [w.rel(p) for p in paths]
        if name == "symlink":
            rels = rels[1:]
        if any(r is None for r in rels):
            if all("__pycache__" in str(p) for p in paths):
                return real(*a, **k)
            w.escapes.append("%s %s" % (name, a))
            w.event("ESCAPE", name)
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), str(a[0]))
        if w.dead:
            raise SimCrash()
        f = w.op(name, rels[-1])
        if f is not None:
            if f["kind"] == "CRASH":
                if f.get("after"):
                    real(*a, **k)
                w.crash()
            w.raise_errno(f, rels[-1])
        for r in rels:
            if r not in w.touched:
                w.touched.append(r)
        done = real(*a, **k)
        if name in ("replace", "rename"):
            # the data keeps its state under the new name
            if rels[0] in w.synced:
                w.synced.discard(rels[0])
                w.synced.add(rels[1])
            else:
                w.synced.discard(rels[1])
        return done
    call.__name__ = name
    return call


LOOK = ("stat", "lstat", "listdir", "scandir", "access")


def _look(name):
    real = REAL[name]

    def call(*a, **k):
        w = World.current
        if w is not None and a and isinstance(a[0], (str, bytes, os.PathLike)) \
                and k.get("dir_fd") is None:
            a = (w.real(a[0]),) + a[1:]
        return real(*a, **k)
    call.__name__ = name
    return call


_LOOK = {name: _look(name) for name in LOOK}


_OS = {name: _os_wrap(name) for name in (
    "replace", "rename", "remove", "unlink", "rmdir", "mkdir", "fsync",
    "truncate", "link", "symlink", "chmod", "utime")}


# ------------------------------------------------------------------ console

def _reporting():
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        if f.f_code.co_name == "handleError" and \
                "logging" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


class SimConsole(io.TextIOBase):
    """stdout / stderr of the simulated process."""

    def __init__(self, world, name):
        self._w = world
        self._name = name
        self._sink = world.console_text[name]

    encoding = "utf-8"
    errors = "backslashreplace"

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, text):
        w = self._w
        if w.dead or not w.running:
            return len(text)
        if _reporting():
            # logging complains about a failed record, with a stack trace that
            # shows the harness: not an operation, but a lasting fault lasts
            for f in w.faults:
                if f["op"] == "cwrite" and f.get("sticky") and f["_fired"] \
                        and match(f.get("file", "*"), self._name):
                    w.raise_errno(f, self._name)
            self._sink.append(text)
            return len(text)
        f = w.op("cwrite", self._name, len(text))
        if f is not None:
            if f["kind"] == "CRASH":
                w.crash()
            w.raise_errno(f, self._name)
        self._sink.append(text)
        return len(text)

    def flush(self):
        pass


# -------------------------------------------------------------------- clock

class _MetaDT(type(REAL["datetime"])):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL["datetime"])


class SimDateTime(REAL["datetime"], metaclass=_MetaDT):

    @classmethod
    def now(cls, tz=None):
        w = World.current
        t = w.read_clock()          # local wall time
        base = REAL["datetime"](1970, 1, 1)
        if tz is not None:
            utc = base + _dt.timedelta(seconds=t - w.utc_offset)
            d = utc.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
        else:
            d = base + _dt.timedelta(seconds=t)
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second,
                   d.microsecond, d.tzinfo)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        w = World.current
        d = REAL["datetime"](1970, 1, 1) + _dt.timedelta(
            seconds=w.read_clock() - w.utc_offset)
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second,
                   d.microsecond)


class _MetaD(type(REAL["date"])):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL["date"])


class SimDate(REAL["date"], metaclass=_MetaD):

    @classmethod
    def today(cls):
        d = SimDateTime.now()
        return cls(d.year, d.month, d.day)


class _Names(object):
    """Names of temporary files, a function of the process."""

    def __iter__(self):
        return self

    def __next__(self):
        return "%08x" % World.current.rng_n.getrandbits(32)


def sim_kill(pid, sig):
    """Asking whether a process is there works; no signal is delivered."""
    w = World.current
    if pid != w.pid and pid not in w.alive:
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    if sig:
        w.escapes.append("kill %s %s" % (pid, sig))
        w.event("ESCAPE", "kill")


def _sim_sleep(seconds):
    w = World.current
    if w.on_op is not None:
        w.on_op("sleep", None)
    w.now += max(0.0, seconds)
    w.event("sleep", seconds)


def epoch(year, month=6, day=15, hour=12, minute=0, second=0):
    """Local wall-clock seconds of a date."""
    return (REAL["datetime"](year, month, day, hour, minute, second) -
            REAL["datetime"](1970, 1, 1)).total_seconds()
