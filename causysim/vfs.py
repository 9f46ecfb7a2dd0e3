"""Simulated file system and processes.

Everything below /simws lives in memory.  The code under test reaches it through
the ordinary Python interfaces (open, os.*, pathlib, tempfile, shutil, import);
user-space buffers are the real io.Buffered*/TextIOWrapper classes, so a killed
process loses exactly what it had not yet handed to the system.

Volatile state (page cache) and durable state are separate: a process kill keeps
the page cache, a power loss keeps a prefix of the directory operations since
the last point known to be durable and, per file, the old content, the new one,
a torn prefix of it or its length filled with zeros, unless it was synced.

Every call is an *operation*: a yield point of the scheduler and a place where
the fault plan of the calling process may strike.
"""
import builtins
import errno
import io
import os
import posixpath
import stat as statmod
import sys
import threading

from .core import HarnessError
from .sched import Sched, SimKilled

ROOT = "/simws"
CWD = "/simws/w"
TMP = "/simws/tmp"
FD0 = 1_000_000

_real = {}


def under(p):
    return p == ROOT or p.startswith(ROOT + "/")


def E(code, path=None, path2=None):
    e = OSError(code, os.strerror(code), path) if path2 is None else OSError(code, os.strerror(code), path, None, path2)
    e._sim = True
    return e


class Inode:
    __slots__ = ("kind", "data", "disk", "dirty", "ino", "mode", "mtime", "target", "past")

    def __init__(self, kind, ino, mode=0o644):
        self.kind = kind          # 'f', 'd', 'l'
        self.data = bytearray()
        self.disk = b""           # what stable storage holds
        self.past = []            # contents before truncation since the last sync
        self.dirty = False
        self.ino = ino
        self.mode = mode
        self.mtime = 0.0
        self.target = None

    def clone(self):
        n = Inode(self.kind, self.ino, self.mode)
        n.data = bytearray(self.data)
        n.disk, n.dirty, n.mtime, n.target = self.disk, self.dirty, self.mtime, self.target
        n.past = list(self.past)
        return n


class OFile:
    """Open file description."""

    def __init__(self, proc, inode, flags, path):
        self.proc, self.inode, self.flags, self.path = proc, inode, flags, path
        self.pos = 0
        acc = flags & os.O_ACCMODE
        self.r = acc in (os.O_RDONLY, os.O_RDWR)
        self.w = acc in (os.O_WRONLY, os.O_RDWR)


class Proc:
    """A simulated process."""

    def __init__(self, world, name, cwd=CWD):
        world.n_procs += 1
        self.world = world
        self.name = name
        self.pid = 4000 + 7 * world.n_procs
        self.cwd = cwd
        self.dead = False
        self.fds = {}
        self.out = []
        self.user = None
        self.plan = None
        self.ops = 0
        self.oplog = []
        self.lines = 0
        self.acked = False
        self.held = []
        self.struck = None
        self.opened = []

    def die(self):
        self.dead = True
        self.fds.clear()

    def text(self):
        return "".join(self.out)


class Plan:
    """One fault that will strike the process it is given to."""

    # kind: kill | power | interrupt | eio | enospc | emfile | eacces | short
    # where: ("op", n) before the n-th operation, ("opafter", n), ("line", n)
    def __init__(self, kind, where, arg=0):
        self.kind, self.where, self.arg = kind, where, arg
        self.fired = None

    def __repr__(self):
        return "%s@%s%d" % (self.kind, self.where[0], self.where[1])


MUTATING = {"write", "fsync", "rename", "unlink", "open-w", "close", "mkdir", "truncate"}
READ_OPS = {"open-r", "read", "listdir", "stat"}
CAN_FAIL = {
    "eio": {"read", "write", "fsync", "rename", "unlink", "listdir", "open-w", "open-r", "close", "mkdir", "truncate"},
    "eacces": {"open-r", "open-w", "rename", "unlink", "mkdir"},
    "emfile": {"open-r", "open-w", "listdir"},
    "eiostat": {"stat"},
}


class World:
    current = None

    def __init__(self, sim, clock=None):
        self.sim = sim
        self.clock = clock
        self.n_procs = 0
        self.next_ino = 100
        self.next_fd = FD0
        self.names = {}
        self.journal = []
        self.on_op = None
        self.full = False           # disk full
        self.shuffle_dirs = False
        self.trace = []
        for d in ("/simws", CWD, TMP):
            self.names[d] = self._inode("d", 0o755)
        self.durable = dict(self.names)
        self.rand = 0

    # ---- harness side ----------------------------------------------------
    def __enter__(self):
        if World.current is not None:
            raise HarnessError("nested world")
        World.current = self
        return self

    def __exit__(self, *a):
        World.current = None
        return False

    def _inode(self, kind, mode=0o644):
        self.next_ino += 1
        n = Inode(kind, self.next_ino, mode)
        n.mtime = self.clock.now if self.clock else 0.0
        return n

    def put(self, path, data):
        """Harness: create or replace a file, durably (as an editor would: a new inode)."""
        path = posixpath.join(CWD, path)
        if isinstance(data, str):
            data = data.encode()
        n = self._inode("f")
        n.data = bytearray(data)
        n.disk = bytes(data)
        self.sync()
        d = posixpath.dirname(path)
        if d not in self.names:
            self.names[d] = self.durable[d] = self._inode("d", 0o755)
        self.names[path] = n
        self.durable[path] = n

    def link(self, path, target):
        """Harness: create or replace a symbolic link, durably."""
        path = posixpath.join(CWD, path)
        n = self._inode("l", 0o777)
        n.target = target
        self.sync()
        self.names[path] = self.durable[path] = n

    def get(self, path):
        n = self.names.get(posixpath.join(CWD, path))
        return None if n is None or n.kind != "f" else bytes(n.data)

    def delete(self, path):
        path = posixpath.join(CWD, path)
        self.sync()
        self.names.pop(path, None)
        self.durable.pop(path, None)

    def files(self, d=CWD):
        """{name: bytes} of the regular files in a directory."""
        pre = d + "/"
        return {p[len(pre):]: bytes(n.data) for p, n in self.names.items()
                if p.startswith(pre) and "/" not in p[len(pre):] and n.kind == "f"}

    def tree(self):
        return {p: (n.kind, bytes(n.data) if n.kind == "f" else n.target) for p, n in self.names.items()}

    def sync(self):
        for n in {id(n): n for n in self.names.values()}.values():
            n.disk = bytes(n.data)
            n.past = []
            n.dirty = False
        self.durable = dict(self.names)
        self.journal = []

    def snapshot(self):
        memo = {}

        def c(n):
            if id(n) not in memo:
                memo[id(n)] = n.clone()
            return memo[id(n)]
        return ({p: c(n) for p, n in self.names.items()}, {p: c(n) for p, n in self.durable.items()},
                [(op, a, b, c(n) if n is not None else None) for op, a, b, n in self.journal],
                self.next_ino, self.next_fd, self.full, self.n_procs, self.rand, self.clock.ns if self.clock else 0)

    def restore(self, snap):
        # clone again: a snapshot can be restored more than once
        memo = {}

        def c(n):
            if id(n) not in memo:
                memo[id(n)] = n.clone()
            return memo[id(n)]
        names, durable, journal, ino, fd, full, np_, rand, ns = snap
        self.names = {p: c(n) for p, n in names.items()}
        self.durable = {p: c(n) for p, n in durable.items()}
        self.journal = [(op, a, b, c(n) if n is not None else None) for op, a, b, n in journal]
        self.next_ino, self.next_fd, self.full, self.n_procs, self.rand = ino, fd, full, np_, rand
        if self.clock:
            self.clock.ns = ns
            self.clock._set()

    def power_loss(self):
        """Volatile state is lost; what was not synced survives partly, as drawn."""
        sim = self.sim
        keep = len(self.journal) - sim.draw(len(self.journal) + 1)
        names = dict(self.durable)
        for op, a, b, n in self.journal[:keep]:
            _apply_meta(names, op, a, b, n)
        for n in {id(n): n for n in names.values()}.values():
            if n.kind != "f" or not n.dirty:
                continue
            new = bytes(n.data)
            opts = [n.disk, new, b"", new[:len(new) // 2], b"\0" * len(new)] + [bytes(x) for x in n.past]
            i = sim.draw(len(opts) + 1)
            n.data = bytearray(opts[i] if i < len(opts) else new[:sim.draw(len(new) + 1)])
            sim.log("power: inode %d keeps %d of %d bytes" % (n.ino, len(n.data), len(new)))
            n.disk, n.dirty, n.past = bytes(n.data), False, []
        sim.log("power: %d of %d directory operations survive" % (keep, len(self.journal)))
        self.names = names
        self.durable = dict(names)
        self.journal = []

    # ---- operations ------------------------------------------------------
    def op(self, proc, name, path):
        """Entry of an operation: preemption, then the fault plan."""
        if proc.dead:
            raise SimKilled()
        s = Sched.current
        if s is not None:
            s.yield_point(name)
        if proc.dead:
            raise SimKilled()
        proc.ops += 1
        if proc.plan is None:
            proc.oplog.append(name)
        if self.sim.keep_log:
            self.sim.log("%s %s %s" % (proc.name, name, path))
        if self.on_op is not None:
            self.on_op(proc, name, path)
        plan = proc.plan
        if plan is None or plan.where[0] not in ("op", "opafter"):
            return None
        if plan.fired:
            return None
        if plan.where[0] == "op" and proc.ops > plan.where[1]:
            return self.strike(proc, plan, name, path)
        return None

    def done(self, proc, name, path):
        plan = proc.plan
        if plan is not None and plan.where[0] == "opafter" and not plan.fired and proc.ops > plan.where[1]:
            self.strike(proc, plan, name, path)

    def strike(self, proc, plan, name, path):
        k = plan.kind
        if k in CAN_FAIL and name not in CAN_FAIL[k]:
            return None                     # waits for the next operation it can hit
        if k in ("enospc", "short") and name != "write":
            return None
        plan.fired = (name, path)
        self.sim.fault(k if k not in CAN_FAIL else "%s_%s" % (k, name))
        self.sim.log("fault %r at %s %s" % (plan, name, path))
        proc.struck = self.tree()
        if k == "kill":
            proc.die()
            raise SimKilled()
        if k == "power":
            proc.die()
            raise SimKilled()
        if k == "interrupt":
            raise KeyboardInterrupt()
        if k == "enospc":
            self.full = True
            return ("enospc", plan.arg)
        if k == "short":
            return ("short", plan.arg)
        if name == "write":
            return ("eio", plan.arg)
        if name in ("fsync", "close"):
            return ("eio", 0)
        raise E({"eio": errno.EIO, "eiostat": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE}[k], path)

    def line(self, proc):
        """Called for each source line of the code under test run by proc."""
        if proc.dead:
            raise SimKilled()
        proc.lines += 1
        plan = proc.plan
        if plan is not None and plan.where[0] == "line" and not plan.fired and proc.lines > plan.where[1]:
            plan.fired = ("line", proc.lines)
            self.sim.fault(plan.kind)
            proc.struck = self.tree()
            if plan.kind in ("kill", "power"):
                proc.die()
                raise SimKilled()
            raise KeyboardInterrupt()

    def meta(self, op, a, b=None, n=None):
        _apply_meta(self.names, op, a, b, n)
        self.journal.append((op, a, b, n))

    def lookup(self, path, follow=True, depth=0):
        # parents may be links
        if depth > 20:
            raise E(errno.ELOOP, path)
        parts = path.split("/")[1:]
        cur = ""
        for i, p in enumerate(parts):
            cur = cur + "/" + p
            n = self.names.get(cur)
            last = i == len(parts) - 1
            if n is None:
                return (cur if last else None), None
            if n.kind == "l" and (follow or not last):
                t = posixpath.normpath(posixpath.join(posixpath.dirname(cur), n.target))
                rest = "/".join(parts[i + 1:])
                return self.lookup(t + ("/" + rest if rest else ""), follow, depth + 1)
            if not last and n.kind != "d":
                raise E(errno.ENOTDIR, path)
        return cur, self.names[cur]

    def parent_ok(self, path):
        d, n = self.lookup(posixpath.dirname(path))
        if n is None:
            raise E(errno.ENOENT, path)
        if n.kind != "d":
            raise E(errno.ENOTDIR, path)

    # -- files
    def open(self, proc, path, flags, mode, shown):
        wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        self.op(proc, "open-w" if wr else "open-r", path)
        real, n = self.lookup(path, not flags & os.O_NOFOLLOW)
        if n is None:
            if not flags & os.O_CREAT or real is None:
                raise E(errno.ENOENT, shown)
            self.parent_ok(real)
            if self.full:
                raise E(errno.ENOSPC, shown)
            n = self._inode("f", mode)
            self.meta("link", real, None, n)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise E(errno.EEXIST, shown)
            if n.kind == "d":
                if wr:
                    raise E(errno.EISDIR, shown)
            elif n.kind == "l":
                raise E(errno.ELOOP, shown)
            elif flags & os.O_TRUNC and n.data:
                n.past.append(bytes(n.data))
                n.data = bytearray()
                n.dirty = True
        self.next_fd += 1
        fd = self.next_fd
        f = OFile(proc, n, flags, real)
        proc.opened.append((real, wr))
        if flags & os.O_APPEND:
            f.pos = len(n.data)
        proc.fds[fd] = f
        self.done(proc, "open", path)
        return fd

    def of(self, proc, fd):
        f = proc.fds.get(fd)
        if f is None:
            if proc.dead:
                raise SimKilled()
            raise E(errno.EBADF)
        return f

    def write(self, proc, fd, b):
        f = self.of(proc, fd)
        if not f.w:
            raise E(errno.EBADF)
        b = bytes(b)
        r = self.op(proc, "write", f.path)
        n = len(b)
        err = None
        if r is not None:
            part = min(n, r[1] if r[1] < 1 << 20 else n // 2)
            if r[0] == "eio":
                n, err = part, errno.EIO
            elif r[0] == "short":
                n = max(1, part) if n else 0
            elif r[0] == "enospc":
                n = part
                if n == 0:
                    err = errno.ENOSPC
        elif self.full:
            n, err = 0, errno.ENOSPC
        ino = f.inode
        if n:
            pos = len(ino.data) if f.flags & os.O_APPEND else f.pos
            if pos > len(ino.data):
                ino.data.extend(b"\0" * (pos - len(ino.data)))
            ino.data[pos:pos + n] = b[:n]
            f.pos = pos + n
            ino.dirty = True
            ino.mtime = self.clock.now if self.clock else 0.0
        self.done(proc, "write", f.path)
        if err:
            raise E(err, None)
        return n

    def read(self, proc, fd, n):
        f = self.of(proc, fd)
        if not f.r:
            raise E(errno.EBADF)
        if f.inode.kind == "d":
            raise E(errno.EISDIR)
        self.op(proc, "read", f.path)
        d = bytes(f.inode.data[f.pos:f.pos + n])
        f.pos += len(d)
        return d

    def seek(self, proc, fd, off, whence):
        f = self.of(proc, fd)
        base = 0 if whence == 0 else f.pos if whence == 1 else len(f.inode.data)
        if base + off < 0:
            raise E(errno.EINVAL)
        f.pos = base + off
        return f.pos

    def truncate(self, proc, fd, n):
        f = self.of(proc, fd)
        self.op(proc, "truncate", f.path)
        d = f.inode
        d.past.append(bytes(d.data))
        if n < len(d.data):
            del d.data[n:]
        else:
            d.data.extend(b"\0" * (n - len(d.data)))
        d.dirty = True
        self.done(proc, "truncate", f.path)

    def fsync(self, proc, fd):
        f = self.of(proc, fd)
        r = self.op(proc, "fsync", f.path)
        n = f.inode
        if r is not None:
            raise E(errno.EIO)
        if n.kind == "f":
            n.disk = bytes(n.data)
            n.past = []
            n.dirty = False
        # a journalling file system commits the directory operations before it as well,
        # but only a sync of the directory promises that: nothing else becomes durable here
        if n.kind == "d":
            pre = posixpath.normpath(f.path)
            last = max([i for i, (op, a, b, _) in enumerate(self.journal)
                        if posixpath.dirname(a) == pre or (b and posixpath.dirname(b) == pre)], default=-1)
            for op, a, b, m in self.journal[:last + 1]:
                _apply_meta(self.durable, op, a, b, m)
            self.journal = self.journal[last + 1:]
        self.done(proc, "fsync", f.path)

    def close(self, proc, fd):
        f = self.of(proc, fd)
        r = self.op(proc, "close", f.path)
        proc.fds.pop(fd, None)
        for k in [k for k in LOCKS if k[1] is f]:
            LOCKS.pop(k, None)
        if r is not None:
            raise E(errno.EIO)
        self.done(proc, "close", f.path)

    def rename(self, proc, a, b, sa, sb):
        self.op(proc, "rename", b)
        ra, na = self.lookup(a, False)
        if na is None:
            raise E(errno.ENOENT, sa, sb)
        rb, nb = self.lookup(b, False)
        if rb is None:
            raise E(errno.ENOENT, sa, sb)
        if nb is None:
            self.parent_ok(rb)
        if nb is not None and nb is na:
            return
        if nb is not None:
            if nb.kind == "d" and na.kind != "d":
                raise E(errno.EISDIR, sa, sb)
            if nb.kind != "d" and na.kind == "d":
                raise E(errno.ENOTDIR, sa, sb)
            if nb.kind == "d" and any(p.startswith(rb + "/") for p in self.names):
                raise E(errno.ENOTEMPTY, sa, sb)
        self.meta("rename", ra, rb)
        self.done(proc, "rename", b)

    def unlink(self, proc, a, sa):
        self.op(proc, "unlink", a)
        ra, n = self.lookup(a, False)
        if n is None:
            raise E(errno.ENOENT, sa)
        if n.kind == "d":
            raise E(errno.EISDIR, sa)
        self.meta("unlink", ra)
        self.done(proc, "unlink", a)

    def mkdir(self, proc, a, mode, sa):
        self.op(proc, "mkdir", a)
        ra, n = self.lookup(a, False)
        if n is not None:
            raise E(errno.EEXIST, sa)
        if ra is None:
            raise E(errno.ENOENT, sa)
        self.parent_ok(ra)
        if self.full:
            raise E(errno.ENOSPC, sa)
        self.meta("link", ra, None, self._inode("d", mode))
        self.done(proc, "mkdir", a)

    def rmdir(self, proc, a, sa):
        self.op(proc, "unlink", a)
        ra, n = self.lookup(a, False)
        if n is None:
            raise E(errno.ENOENT, sa)
        if n.kind != "d":
            raise E(errno.ENOTDIR, sa)
        if any(p.startswith(ra + "/") for p in self.names):
            raise E(errno.ENOTEMPTY, sa)
        self.meta("unlink", ra)
        self.done(proc, "rmdir", a)

    def listdir(self, proc, a, sa):
        self.op(proc, "listdir", a)
        ra, n = self.lookup(a)
        if n is None:
            raise E(errno.ENOENT, sa)
        if n.kind != "d":
            raise E(errno.ENOTDIR, sa)
        pre = ra + "/"
        out = [p[len(pre):] for p in self.names if p.startswith(pre) and "/" not in p[len(pre):]]
        if self.shuffle_dirs:
            out.sort()
            out = self.sim.shuffled(out)
        return out

    def stat(self, proc, a, sa, follow=True):
        self.op(proc, "stat", a)
        ra, n = self.lookup(a, follow)
        if n is None:
            raise E(errno.ENOENT, sa)
        return self.st(n)

    def st(self, n):
        t = {"f": statmod.S_IFREG, "d": statmod.S_IFDIR, "l": statmod.S_IFLNK}[n.kind]
        m = n.mtime
        return os.stat_result((t | n.mode, n.ino, 77, 1, 0, 0, len(n.data), int(m), int(m), int(m)),
                              {"st_atime": m, "st_mtime": m, "st_ctime": m, "st_atime_ns": int(m * 1e9),
                               "st_mtime_ns": int(m * 1e9), "st_ctime_ns": int(m * 1e9), "st_blksize": 4096,
                               "st_blocks": (len(n.data) + 511) // 512, "st_rdev": 0})


def _apply_meta(names, op, a, b, n):
    if op == "link":
        names[a] = n
    elif op == "unlink":
        names.pop(a, None)
    elif op == "rename":
        x = names.pop(a, None)
        if x is None:
            return
        names[b] = x
        if x.kind == "d":
            for p in [p for p in names if p.startswith(a + "/")]:
                names[b + p[len(a):]] = names.pop(p)


LOCKS = {}


# ---- who is calling ---------------------------------------------------------
def cur_proc():
    """The simulated process the calling code belongs to, or None."""
    if World.current is None:
        return None
    s = Sched.current
    if s is None or s.harness:
        return None
    t = s.cur
    if threading.current_thread() is not (t.thread or threading.main_thread()):
        return None
    return t.ctx.get("proc")


def resolve(proc, path):
    """Absolute path as str (not following links), or None if not a path."""
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p:
        return p
    if "\0" in p:
        raise ValueError("embedded null byte")
    if not p.startswith("/"):
        p = proc.cwd + "/" + p
    if ".." in p and under(p) and any(n.kind == "l" for n in proc.world.names.values()):
        # the parent of a link is the parent of what it points to
        cur = ""
        for part in p.split("/"):
            if part == "..":
                real = proc.world.lookup(cur)[0] if under(cur) else cur
                cur = posixpath.dirname(real or cur)
            elif part not in ("", "."):
                cur = cur.rstrip("/") + "/" + part
        p = cur or "/"
    return posixpath.normpath(p) if not p.startswith("//") else posixpath.normpath(p[1:])


class SimRaw(io.RawIOBase):
    def __init__(self, world, proc, fd, name, mode, closefd=True):
        self.world, self.proc, self.fd_, self.name_, self.mode_, self.closefd_ = world, proc, fd, name, mode, closefd
        f = world.of(proc, fd)
        self._r, self._w = f.r, f.w

    @property
    def name(self):
        return self.name_

    @property
    def mode(self):
        return self.mode_

    @property
    def closefd(self):
        return self.closefd_

    def gone(self):
        return self.proc.dead or World.current is not self.world

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.fd_

    def isatty(self):
        return False

    def readinto(self, b):
        if self.gone():
            raise SimKilled()
        d = self.world.read(self.proc, self.fd_, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if self.gone():
            return len(b)        # user-space buffers of a dead process vanish
        return self.world.write(self.proc, self.fd_, b)

    def seek(self, off, whence=0):
        if self.gone():
            return 0
        return self.world.seek(self.proc, self.fd_, off, whence)

    def tell(self):
        if self.gone():
            return 0
        return self.world.seek(self.proc, self.fd_, 0, 1)

    def truncate(self, size=None):
        if self.gone():
            raise SimKilled()
        if size is None:
            size = self.tell()
        self.world.truncate(self.proc, self.fd_, size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if self.closefd_ and not self.gone() and self.fd_ in self.proc.fds:
            self.world.close(self.proc, self.fd_)


def _flags_of(mode):
    m = mode.replace("b", "").replace("t", "").replace("U", "")
    plus = "+" in m
    m = m.replace("+", "")
    if m not in ("r", "w", "a", "x"):
        raise ValueError("invalid mode: %r" % mode)
    acc = os.O_RDWR if plus else (os.O_RDONLY if m == "r" else os.O_WRONLY)
    return acc | {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
                  "x": os.O_CREAT | os.O_EXCL}[m] | os.O_CLOEXEC


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    proc = cur_proc()
    if proc is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = World.current
    if isinstance(file, int):
        if file not in proc.fds:
            if file >= FD0:
                if proc.dead:
                    raise SimKilled()
                raise E(errno.EBADF)
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
    else:
        p = resolve(proc, file)
        if not under(p):
            if set(mode) & set("wax+") and p != "/dev/null":
                raise E(errno.EROFS, file)
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags = _flags_of(mode)
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = w.open(proc, p, flags, 0o666, file)
            if proc.fds[fd].inode.kind == "d":
                proc.fds.pop(fd, None)
                raise E(errno.EISDIR, file)
    binary = "b" in mode
    if not binary and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimRaw(w, proc, fd, file, mode.replace("t", ""), closefd)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif set(mode) & set("wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


# ---- os.* ---------------------------------------------------------------------
def _wrap_path(name, fn, write=False):
    """fn(world, proc, abspath, *args) for paths below ROOT."""
    real = getattr(os, name)
    _real[name] = real

    def f(path=".", *a, **k):
        proc = cur_proc()
        if proc is None or isinstance(path, int) and path not in proc.fds:
            return real(path, *a, **k)
        if k.get("dir_fd") is not None and k["dir_fd"] in proc.fds:
            path = proc.fds[k.pop("dir_fd")].path + "/" + os.fspath(path)
        k.pop("dir_fd", None)
        if isinstance(path, int):
            p = proc.fds[path].path
        else:
            p = resolve(proc, path)
        if p == "":
            raise E(errno.ENOENT, path)
        if not under(p):
            if write:
                raise E(errno.EROFS, path)
            return real(path, *a, **k)
        return fn(World.current, proc, p, path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _wrap_fd(name, fn):
    real = getattr(os, name)
    _real[name] = real

    def f(fd, *a, **k):
        proc = cur_proc()
        if proc is None or not isinstance(fd, int) or fd < FD0:
            if hasattr(fd, "fileno") and proc is not None:
                return f(fd.fileno(), *a, **k)
            return real(fd, *a, **k)
        return fn(World.current, proc, fd, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


class SimDirEntry:
    def __init__(self, world, proc, d, name, shown):
        self._w, self._p, self._abs, self.name = world, proc, d + "/" + name, name
        self.path = posixpath.join(os.fspath(shown), name)

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return self._w.stat(self._p, self._abs, self.path, follow_symlinks)

    def _kind(self, follow):
        try:
            return self._w.lookup(self._abs, follow)[1].kind
        except (OSError, AttributeError):
            return None

    def is_file(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "f"

    def is_dir(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "d"

    def is_symlink(self):
        return self._kind(False) == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._w.names[self._abs].ino


class SimScandir:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self.it = iter(())


def _install_os():
    def o_open(path, flags, mode=0o777, *, dir_fd=None):
        proc = cur_proc()
        if proc is None:
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        if dir_fd is not None and dir_fd in proc.fds:
            path = proc.fds[dir_fd].path + "/" + os.fspath(path)
        p = resolve(proc, path)
        if not under(p):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and p != "/dev/null":
                raise E(errno.EROFS, path)
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        return World.current.open(proc, p, flags, mode, path)
    _real["os_open"] = os.open
    os.open = o_open

    _wrap_path("stat", lambda w, pr, p, s, *, follow_symlinks=True: w.stat(pr, p, s, follow_symlinks))
    _wrap_path("lstat", lambda w, pr, p, s: w.stat(pr, p, s, False))
    _wrap_path("listdir", lambda w, pr, p, s=".": w.listdir(pr, p, s))

    def access(w, pr, p, s, mode, **k):
        try:
            w.stat(pr, p, s)
            return True
        except OSError:
            return False
    _wrap_path("access", access)
    _wrap_path("scandir", lambda w, pr, p, s=".": SimScandir(
        [SimDirEntry(w, pr, p, n, s) for n in w.listdir(pr, p, s)]))
    _wrap_path("mkdir", lambda w, pr, p, s, mode=0o777: w.mkdir(pr, p, mode, s), True)
    _wrap_path("rmdir", lambda w, pr, p, s: w.rmdir(pr, p, s), True)
    _wrap_path("remove", lambda w, pr, p, s: w.unlink(pr, p, s), True)
    _wrap_path("unlink", lambda w, pr, p, s: w.unlink(pr, p, s), True)

    def chmod(w, pr, p, s, mode, **k):
        n = w.lookup(p)[1]
        if n is None:
            raise E(errno.ENOENT, s)
        n.mode = mode & 0o7777
    _wrap_path("chmod", chmod, True)

    def utime(w, pr, p, s, times=None, *, ns=None, follow_symlinks=True):
        n = w.lookup(p)[1]
        if n is None:
            raise E(errno.ENOENT, s)
        n.mtime = times[1] if times else ns[1] / 1e9 if ns else w.clock.now
    _wrap_path("utime", utime, True)

    def chdir(w, pr, p, s):
        n = w.lookup(p)[1]
        if n is None or n.kind != "d":
            raise E(errno.ENOENT, s)
        pr.cwd = p
    _wrap_path("chdir", chdir, True)

    def readlink(w, pr, p, s):
        w.op(pr, "stat", p)
        n = w.lookup(p, False)[1]
        if n is None:
            raise E(errno.ENOENT, s)
        if n.kind != "l":
            raise E(errno.EINVAL, s)
        return n.target
    _wrap_path("readlink", readlink)

    def truncate(w, pr, p, s, length):
        fd = w.open(pr, p, os.O_WRONLY, 0, s)
        try:
            w.truncate(pr, fd, length)
        finally:
            pr.fds.pop(fd, None)
    _wrap_path("truncate", truncate, True)

    def two(name):
        real = getattr(os, name)
        _real[name] = real

        def f(src, dst, *a, **k):
            proc = cur_proc()
            if proc is None:
                return real(src, dst, *a, **k)
            w = World.current
            if name == "symlink":
                b = resolve(proc, dst)
                if not under(b):
                    raise E(errno.EROFS, dst)
                if w.lookup(b, False)[1] is not None:
                    raise E(errno.EEXIST, src, dst)
                w.op(proc, "mkdir", b)
                n = w._inode("l", 0o777)
                n.target = os.fspath(src)
                w.meta("link", b, None, n)
                return None
            a_, b = resolve(proc, src), resolve(proc, dst)
            if not under(a_) or not under(b):
                raise E(errno.EXDEV if under(a_) != under(b) else errno.EROFS, src, dst)
            if name in ("rename", "replace"):
                return w.rename(proc, a_, b, src, dst)
            w.op(proc, "rename", b)
            ra, na = w.lookup(a_, False)
            if na is None:
                raise E(errno.ENOENT, src, dst)
            if w.lookup(b, False)[1] is not None:
                raise E(errno.EEXIST, src, dst)
            w.meta("link", b, None, na)
        f.__name__ = name
        setattr(os, name, f)
    for nm in ("rename", "replace", "link", "symlink"):
        two(nm)

    _wrap_fd("write", lambda w, pr, fd, b: w.write(pr, fd, b))
    _wrap_fd("read", lambda w, pr, fd, n: w.read(pr, fd, n))
    _wrap_fd("fsync", lambda w, pr, fd: w.fsync(pr, fd))
    _wrap_fd("fdatasync", lambda w, pr, fd: w.fsync(pr, fd))
    _wrap_fd("close", lambda w, pr, fd: w.close(pr, fd))
    _wrap_fd("fstat", lambda w, pr, fd: w.st(w.of(pr, fd).inode))
    _wrap_fd("lseek", lambda w, pr, fd, off, how: w.seek(pr, fd, off, how))
    _wrap_fd("ftruncate", lambda w, pr, fd, n: w.truncate(pr, fd, n))
    _wrap_fd("fchmod", lambda w, pr, fd, mode: setattr(w.of(pr, fd).inode, "mode", mode & 0o7777))
    _wrap_fd("isatty", lambda w, pr, fd: False)
    _wrap_fd("set_inheritable", lambda w, pr, fd, b: None)
    _wrap_fd("get_inheritable", lambda w, pr, fd: False)
    _wrap_fd("fdopen", lambda w, pr, fd, mode="r", buffering=-1, encoding=None, *a, **k: sim_open(
        fd, mode, buffering, encoding, *a, **k))

    def plain(name, fn):
        real = getattr(os, name)
        _real[name] = real

        def f(*a, **k):
            proc = cur_proc()
            return real(*a, **k) if proc is None else fn(proc, *a, **k)
        f.__name__ = name
        setattr(os, name, f)
    plain("getcwd", lambda pr: pr.cwd)
    plain("getcwdb", lambda pr: pr.cwd.encode())
    plain("getpid", lambda pr: pr.pid)
    plain("sync", lambda pr: pr.world.sync())
    plain("umask", lambda pr, m: 0o022)

    def urandom(pr, n):
        import hashlib
        pr.world.rand += 1
        out = b""
        while len(out) < n:
            out += hashlib.sha256(b"%d/%d/%d" % (pr.pid, pr.world.rand, len(out))).digest()
        return out[:n]
    plain("urandom", urandom)

    def _exit(pr, code):
        pr.die()
        raise SimKilled()
    plain("_exit", _exit)


def _install_fcntl():
    import fcntl

    def lock_wait(proc, f, excl, nb):
        w = World.current

        def free():
            return not any(k[0] == f.inode.ino and k[1] is not f and (excl or v) and not k[1].proc.dead
                           for k, v in LOCKS.items())
        w.op(proc, "lock", f.path)
        if not free():
            if nb:
                raise BlockingIOError(errno.EAGAIN, "locked")
            Sched.current.block_until(free, "file lock")
        LOCKS[(f.inode.ino, f)] = excl

    def make(real):
        def f(fd, op, *a):
            proc = cur_proc()
            if hasattr(fd, "fileno"):
                fd = fd.fileno()
            if proc is None or fd < FD0:
                return real(fd, op, *a)
            of = World.current.of(proc, fd)
            if op & fcntl.LOCK_UN:
                LOCKS.pop((of.inode.ino, of), None)
                return None
            lock_wait(proc, of, bool(op & fcntl.LOCK_EX), bool(op & fcntl.LOCK_NB))
        return f
    fcntl.flock = make(fcntl.flock)
    fcntl.lockf = make(fcntl.lockf)


# ---- importing modules from the simulated directory -------------------------------
class SimFinder:
    def __init__(self, path):
        if not under(path):
            raise ImportError(path)
        self.path = path

    def find_spec(self, fullname, target=None):
        import importlib.machinery
        import importlib.util
        w = World.current
        if w is None:
            return None
        tail = fullname.rpartition(".")[2]
        for rel, pkg in ((tail + "/__init__.py", True), (tail + ".py", False)):
            p = self.path + "/" + rel
            n = w.lookup(p)[1]
            if n is not None and n.kind == "f":
                loader = SimLoader(fullname, p, bytes(n.data))
                spec = importlib.util.spec_from_loader(fullname, loader, origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [self.path + "/" + tail]
                return spec
        return None

    def invalidate_caches(self):
        pass


class SimLoader:
    def __init__(self, name, path, data):
        self.name, self.path, self.data = name, path, data

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        s = Sched.current
        # the interpreter holds its import lock here, which simulated processes share
        if s is not None:
            s.atomic += 1
        try:
            exec(compile(self.data, self.path, "exec", dont_inherit=True), module.__dict__)
        finally:
            if s is not None:
                s.atomic -= 1

    def get_source(self, name):
        return self.data.decode()

    def is_package(self, name):
        return self.path.endswith("/__init__.py")


class SimLock:
    """A lock of the code under test: one per simulated process, waits in the scheduler."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._held = {}           # process -> [task, count]
        self._real = (_real["RLock"] if reentrant else _real["Lock"])()

    def acquire(self, blocking=True, timeout=-1):
        p, s = cur_proc(), Sched.current
        if p is None:
            return self._real.acquire(blocking, timeout)
        h = self._held.get(p)
        if h and self._re and h[0] is s.cur:
            h[1] += 1
            return True
        if h:
            if not blocking or timeout >= 0:
                return False
            s.block_until(lambda: p not in self._held, "lock")
        self._held[p] = [s.cur, 1]
        return True

    def release(self):
        p = cur_proc()
        if p is None:
            return self._real.release()
        h = self._held.get(p)
        if not h:
            raise RuntimeError("release unlocked lock")
        h[1] -= 1
        if not h[1]:
            del self._held[p]

    def locked(self):
        p = cur_proc()
        return p in self._held if p is not None else self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock object")


def _install_locks():
    _real["Lock"], _real["RLock"] = threading.Lock, threading.RLock

    def make(name, reentrant):
        def f():
            g = sys._getframe(1).f_globals.get("__name__", "")
            if g == "causy" or g.startswith("causy."):
                return SimLock(reentrant)
            return _real[name]()
        f.__name__ = name
        setattr(threading, name, f)
    make("Lock", False)
    make("RLock", True)


class Names:
    """Deterministic temporary names."""

    def __iter__(self):
        return self

    def __next__(self):
        w = World.current
        w.rand += 1
        return "t%07d" % w.rand


_DONE = []


def install():
    """Patch once per process, before the code under test is imported."""
    if _DONE:
        return
    _DONE.append(1)
    import shutil
    import tempfile
    _real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    _install_os()
    _install_fcntl()
    _install_locks()
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "rmtree"):
        shutil.rmtree.avoids_symlink_attacks = False
    tempfile._O_TMPFILE_WORKS = False
    names = Names()
    real_names = tempfile._get_candidate_names
    tempfile._get_candidate_names = lambda: names if cur_proc() is not None else real_names()
    real_gettempdir = tempfile._gettempdir

    def _gettempdir():
        return TMP if cur_proc() is not None else real_gettempdir()
    tempfile._gettempdir = _gettempdir
    try:
        tempfile._TemporaryFileCloser.cleanup.__defaults__ = (False, os.unlink)
    except Exception:
        pass
    # only the path below ROOT is ours
    sys.path_hooks.insert(0, SimFinder)
    import random
    random._urandom = os.urandom
