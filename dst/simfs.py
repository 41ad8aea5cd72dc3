"""File-system seam: real files in a scratch directory underneath, every raw operation of a simulated process is a
scheduling and fault point.  Also keeps a journal of operations on chosen directories (for machine crashes)."""
import errno
import fcntl
import io
import os
import shutil

from . import kernel as K

real_open = io.open
real_os_open = os.open
real_os_write = os.write
real_os_read = os.read
real_os_close = os.close
real_os_fsync = os.fsync
real_os_fdatasync = os.fdatasync
real_os_ftruncate = os.ftruncate
real_os_lseek = os.lseek
real_os_stat = os.stat
real_rename = os.rename
real_replace = os.replace
real_remove = os.remove
real_unlink = os.unlink
real_mkdir = os.mkdir
real_truncate = os.truncate
real_flock = fcntl.flock
real_lockf = fcntl.lockf
real_listdir = os.listdir
real_chdir = os.chdir


class Rec(object):
    """One open description of a simulated process."""
    __slots__ = ("path", "cls", "proc", "fd", "dead", "locked", "noyield", "rawfd", "ino", "append")

    def __init__(self, path, cls, proc, fd):
        self.path = path
        self.cls = cls
        self.proc = proc
        self.fd = fd
        self.dead = False
        self.locked = False
        self.noyield = False
        self.rawfd = False
        self.ino = None
        self.append = False


class FS(object):
    """Per-run state."""

    def __init__(self, world, root):
        self.world = world
        self.root = root if root.endswith("/") else root + "/"
        self.fds = {}
        self.order_dir = None
        self.data_dir = None
        self.jhook = None
        self.read_hook = None
        self.journal = None      # list of ops on data_dir when machine crashes are simulated
        self.lockf_owner = {}
        self.orphans = []

    def classify(self, path):
        base = path.rsplit("/", 1)[-1]
        if base.startswith("algoOrderStop_"):
            return "cancel"
        if base.startswith("algoOrder_"):
            return "order"
        if base.startswith("execResult_"):
            return "result"
        if base.startswith("orderUpdate_"):
            return "update"
        if base.startswith("assetInfo_"):
            return "asset"
        if base.startswith("positionInfo_"):
            return "position"
        if self.data_dir and path.startswith(self.data_dir):
            return "record"
        if base.endswith(".log"):
            return "log"
        return "other"

    def mine(self, path):
        if K.CUR is None:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        if not p.startswith("/"):
            p = os.path.abspath(p)
        if p.startswith(self.root) and "/code/" not in p:
            return p
        return None

    def register(self, fd, path, th):
        rec = Rec(path, self.classify(path), th.proc, fd)
        self.fds[fd] = rec
        th.proc.files.append(rec)
        try:
            rec.ino = os.fstat(fd).st_ino
        except OSError:
            pass
        return rec

    def forget(self, rec):
        self.fds.pop(rec.fd, None)
        try:
            rec.proc.files.remove(rec)
        except ValueError:
            pass

    def close_all(self, proc):
        """The process is gone: its locks are free and nothing it still buffers reaches the disk.  (The descriptors
        themselves go away with the file objects.)"""
        for rec in list(proc.files):
            rec.dead = True
            self.fds.pop(rec.fd, None)
            try:
                real_flock(rec.fd, fcntl.LOCK_UN)
            except OSError:
                pass
            if rec.rawfd:
                self.orphans.append(rec.fd)
        del proc.files[:]

    def j(self, *op):
        if self.journal is not None:
            self.journal.append(op)
            if self.jhook is not None:
                self.jhook(op)

    def jpath(self, path):
        return self.journal is not None and self.data_dir and path.startswith(self.data_dir)


FSYS = None


def check_fault(d, path=None):
    """Turn a fault directive into an error; 'short' is left to the caller."""
    if d is None:
        return None
    if d[0] == "err":
        raise OSError(d[1], os.strerror(d[1]), path)
    return d


class SimRaw(io.FileIO):
    """A raw file whose operations go through the simulator."""

    def __init__(self, file, mode, rec_path=None):
        self._rec = None
        th = K.CUR
        fs = FSYS
        if isinstance(file, int):
            super().__init__(file, mode, closefd=True)
            self._rec = fs.fds.get(file)
            return
        path = rec_path
        cls = fs.classify(path)
        # faults are not aimed at reading the order record back: what a start-up with an unreadable record has to do is unspecified
        d = th.world.seam("open", cls + ":" + mode, (path, "record_r" if cls == "record" and mode.strip("b") == "r" else cls))
        check_fault(d, path)
        existed = True
        size0 = None
        if fs.jpath(path):
            try:
                size0 = real_os_stat(path).st_size
            except OSError:
                existed = False
        super().__init__(file, mode)
        if cls == "record" and fs.read_hook is not None and mode.strip("b") == "r":
            fs.read_hook(path)
        rec = fs.register(self.fileno(), path, th)
        rec.append = "a" in mode
        self._rec = rec
        if fs.jpath(path) and "r" not in mode.replace("r+", "R"):
            if not existed:
                fs.j("create", path, rec.ino)
            elif "w" in mode and size0:
                fs.j("trunc", rec.ino, 0)

    def _gone(self):
        rec = self._rec
        return rec is not None and rec.dead

    def write(self, b):
        rec = self._rec
        if rec is None:
            return super().write(b)
        if rec.dead:
            return memoryview(b).nbytes
        th = K.CUR
        if th is None or th.proc is not rec.proc:
            # finalisation outside the process (garbage collection): nothing may reach the disk
            return memoryview(b).nbytes
        d = check_fault(th.world.seam("write", rec.cls, (rec.path, rec.cls)), rec.path)
        mv = memoryview(b).cast("B")
        if d is not None and d[0] == "short" and mv.nbytes > 1:
            mv = mv[:max(1, min(mv.nbytes - 1, int(mv.nbytes * d[1])))]
        off = None
        fs = FSYS
        if fs.jpath(rec.path):
            off = os.fstat(rec.fd).st_size if rec.append else real_os_lseek(rec.fd, 0, 1)
        n = super().write(mv)
        if off is not None:
            fs.j("write", rec.ino, off, bytes(mv[:n]))
        hook = th.world.write_hook
        if hook is not None:
            hook(th, rec, n)
        return n

    def readinto(self, buf):
        rec = self._rec
        if rec is None or K.CUR is None:
            return super().readinto(buf)
        if rec.dead:
            return 0
        th = K.CUR
        d = check_fault(th.world.seam("read", rec.cls, (rec.path, rec.cls), yields=not rec.noyield), rec.path)
        if d is not None and d[0] == "short":
            mv = memoryview(buf).cast("B")
            k = max(1, min(mv.nbytes, int(d[1] * 64) + 1))
            tmp = real_os_read(rec.fd, k)
            mv[:len(tmp)] = tmp
            return len(tmp)
        return super().readinto(buf)

    def read(self, size=-1):
        if self._rec is None or K.CUR is None:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        if self._rec is None or K.CUR is None:
            return super().readall()
        out = []
        while True:
            # one read(2) is not atomic with respect to a program rewriting a large file
            buf = bytearray(4096 if self._rec.cls in ("asset", "position") else 65536)
            n = self.readinto(buf)
            if not n:
                break
            out.append(bytes(buf[:n]))
        return b"".join(out)

    def truncate(self, size=None):
        rec = self._rec
        if rec is None:
            return super().truncate(size)
        if rec.dead or K.CUR is None:
            return size
        check_fault(K.CUR.world.seam("truncate", rec.cls, (rec.path, rec.cls)), rec.path)
        r = super().truncate(size)
        if FSYS.jpath(rec.path):
            FSYS.j("trunc", rec.ino, r)
        return r

    def seek(self, *a):
        if self._gone():
            return 0
        return super().seek(*a)

    def tell(self):
        if self._gone():
            return 0
        return super().tell()

    def fileno(self):
        return super().fileno()

    def close(self):
        rec = self._rec
        if rec is None or rec.dead:
            return super().close()
        FSYS.forget(rec)
        was = rec.locked
        rec.dead = True
        super().close()
        if was and K.CUR is not None and K.CUR.world.unlock_hook:
            K.CUR.world.unlock_hook(rec.path, rec.proc)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    th = K.CUR
    if th is None or FSYS is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        rec = FSYS.fds.get(file)
        if rec is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = rec.path
    else:
        path = FSYS.mine(file)
        if path is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("invalid mode: %r" % mode)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing = "x" in modes, "r" in modes, "w" in modes
    appending, updating = "a" in modes, "+" in modes
    text, binary = "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
    raw = SimRaw(file if isinstance(file, int) else path,
                 (creating and "x" or "") + (reading and "r" or "") + (writing and "w" or "") +
                 (appending and "a" or "") + (updating and "+" or ""), None if isinstance(file, int) else path)
    result = raw
    try:
        line_buffering = False
        if buffering == 1:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = io.BufferedRandom(raw, buffering)
        elif creating or writing or appending:
            buffer = io.BufferedWriter(raw, buffering)
        else:
            buffer = io.BufferedReader(raw, buffering)
        result = buffer
        if binary:
            return result
        encoding = io.text_encoding(encoding)
        t = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
        result = t
        t.mode = mode
        return result
    except BaseException:
        result.close()
        raise


# ---- os.* -------------------------------------------------------------------------------------------------------

def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = FSYS.mine(path) if (K.CUR is not None and FSYS is not None and not isinstance(path, int)) else None
    if p is None or dir_fd is not None:
        return real_os_open(path, flags, mode, dir_fd=dir_fd)
    th = K.CUR
    cls = FSYS.classify(p)
    check_fault(th.world.seam("open", cls + ":os", (p, cls)), p)
    existed, size0 = True, None
    try:
        size0 = real_os_stat(p).st_size
    except OSError:
        existed = False
    fd = real_os_open(p, flags, mode)
    rec = FSYS.register(fd, p, th)
    rec.append = bool(flags & os.O_APPEND)
    rec.rawfd = True
    if FSYS.jpath(p):
        if not existed:
            FSYS.j("create", p, rec.ino)
        elif flags & os.O_TRUNC and size0:
            FSYS.j("trunc", rec.ino, 0)
    return fd


def _rec(fd):
    if K.CUR is None or FSYS is None:
        return None
    return FSYS.fds.get(fd)


def sim_os_write(fd, data):
    rec = _rec(fd)
    if rec is None:
        return real_os_write(fd, data)
    th = K.CUR
    d = check_fault(th.world.seam("write", rec.cls, (rec.path, rec.cls)), rec.path)
    mv = memoryview(data).cast("B")
    if d is not None and d[0] == "short" and mv.nbytes > 1:
        mv = mv[:max(1, min(mv.nbytes - 1, int(mv.nbytes * d[1])))]
    off = None
    if FSYS.jpath(rec.path):
        off = os.fstat(fd).st_size if rec.append else real_os_lseek(fd, 0, 1)
    n = real_os_write(fd, mv)
    if off is not None:
        FSYS.j("write", rec.ino, off, bytes(mv[:n]))
    if th.world.write_hook is not None:
        th.world.write_hook(th, rec, n)
    return n


def sim_os_read(fd, n):
    rec = _rec(fd)
    if rec is None:
        return real_os_read(fd, n)
    check_fault(K.CUR.world.seam("read", rec.cls, (rec.path, rec.cls), yields=not rec.noyield), rec.path)
    return real_os_read(fd, n)


def sim_os_close(fd):
    rec = _rec(fd)
    if rec is not None:
        FSYS.forget(rec)
        rec.dead = True
    return real_os_close(fd)


def sim_fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    rec = _rec(fd)
    if rec is None:
        if K.CUR is not None:
            return None      # never spend real time flushing scratch files (also: directory handles)
        return real_os_fsync(fd)
    check_fault(K.CUR.world.seam("fsync", rec.cls, (rec.path, rec.cls)), rec.path)
    FSYS.j("fsync", rec.ino)


def sim_ftruncate(fd, size):
    rec = _rec(fd)
    if rec is None:
        return real_os_ftruncate(fd, size)
    check_fault(K.CUR.world.seam("truncate", rec.cls, (rec.path, rec.cls)), rec.path)
    real_os_ftruncate(fd, size)
    if FSYS.jpath(rec.path):
        FSYS.j("trunc", rec.ino, size)


def sim_truncate(path, size):
    if isinstance(path, int):
        return sim_ftruncate(path, size)
    p = FSYS.mine(path) if FSYS is not None else None
    if p is None:
        return real_truncate(path, size)
    cls = FSYS.classify(p)
    check_fault(K.CUR.world.seam("truncate", cls, (p, cls)), p)
    real_truncate(p, size)
    if FSYS.jpath(p):
        FSYS.j("trunc", real_os_stat(p).st_ino, size)


def _mk_rename(real, kind):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        p = FSYS.mine(dst) if FSYS is not None else None
        if p is None:
            return real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        s = FSYS.mine(src) or os.fspath(src)
        cls = FSYS.classify(p)
        check_fault(K.CUR.world.seam("rename", cls, (p, cls)), p)
        tmp = FSYS.root + "tmp/"
        if s.startswith(tmp) != p.startswith(tmp):
            # the temporary directory is a file system of its own
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
        real(src, dst)
        if FSYS.jpath(p):
            FSYS.j("rename", s, p)
    return f


sim_rename = _mk_rename(real_rename, "rename")
sim_replace = _mk_rename(real_replace, "replace")


def _mk_remove(real):
    def f(path, *, dir_fd=None):
        p = FSYS.mine(path) if FSYS is not None else None
        if p is None:
            return real(path, dir_fd=dir_fd)
        cls = FSYS.classify(p)
        check_fault(K.CUR.world.seam("unlink", cls, (p, cls)), p)
        real(path)
        if FSYS.jpath(p):
            FSYS.j("unlink", p)
    return f


sim_remove = _mk_remove(real_remove)
sim_unlink = _mk_remove(real_unlink)


def sim_mkdir(path, mode=0o777, *, dir_fd=None):
    p = FSYS.mine(path) if FSYS is not None else None
    if p is None:
        return real_mkdir(path, mode, dir_fd=dir_fd)
    check_fault(K.CUR.world.seam("mkdir", "dir", (p, "dir")), p)
    return real_mkdir(path, mode)


def sim_chdir(path):
    real_chdir(path)
    if K.CUR is not None:
        K.CUR.proc.cwd = os.getcwd()


def _fd_of(f):
    return f if isinstance(f, int) else f.fileno()


def sim_flock(f, op):
    fd = _fd_of(f)
    rec = _rec(fd)
    if rec is None:
        if K.CUR is not None and K.CUR.proc.dead:
            raise K.ProcessKilled()
        return real_flock(fd, op)
    th = K.CUR
    w = th.world
    if op & fcntl.LOCK_UN:
        check_fault(w.seam("unlock", rec.cls, (rec.path, rec.cls)), rec.path)
        real_flock(fd, fcntl.LOCK_UN)
        if rec.locked:
            rec.locked = False
            if w.unlock_hook:
                w.unlock_hook(rec.path, rec.proc)
        return
    nb = bool(op & fcntl.LOCK_NB)
    while True:
        check_fault(w.seam("flock", rec.cls + (":nb" if nb else ":b"), (rec.path, rec.cls)), rec.path)
        try:
            real_flock(fd, (op & ~fcntl.LOCK_UN) | fcntl.LOCK_NB)
            rec.locked = True
            if w.lock_hook:
                w.lock_hook(rec.path, rec.proc, True)
            return
        except BlockingIOError:
            w.fault("lock_contention")
            if w.lock_hook:
                w.lock_hook(rec.path, rec.proc, False)
            if nb:
                raise
            w.park(w.now + K.MS)


def sim_lockf(f, cmd, *a):
    # only whole-file locks are emulated, on top of flock
    return sim_flock(f, cmd)


def install(builtins_mod):
    builtins_mod.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.read = sim_os_read
    os.close = sim_os_close
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.ftruncate = sim_ftruncate
    os.truncate = sim_truncate
    os.rename = sim_rename
    os.replace = sim_replace
    os.remove = sim_remove
    os.unlink = sim_unlink
    os.mkdir = sim_mkdir
    os.chdir = sim_chdir
    fcntl.flock = sim_flock
    fcntl.lockf = sim_lockf
    shutil._USE_CP_SENDFILE = False
    import portalocker.portalocker as pp
    pp.LOCKER = sim_flock
    for name in ("FlockLocker", "LockfLocker"):
        c = getattr(pp, name, None)
        if c is not None:
            for attr, v in list(vars(c).items()):
                if v is real_flock or v is real_lockf:
                    setattr(c, attr, staticmethod(sim_flock))
