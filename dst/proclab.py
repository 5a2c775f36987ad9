"""
Simulated machine for epsilon.scripts.benchmark: child processes with pipes and
signals, /proc, a directory tree, a results disk.  Behaves like twisted's POSIX
process transport as far as a ProcessProtocol can see.
"""
import errno
import io
import os
import signal
import stat as statmod

from twisted.internet import error
from twisted.python import log
from twisted.python.failure import Failure

CWD = '/sim/work'


class Tree(object):
    """
    Directories (dict), files (int: size) and symbolic links (str) below /sim.
    Looking at it costs time and disk reads.
    """
    cwd = CWD

    def __init__(self, machine):
        self.m = machine
        self.root = {'work': {}}
        self.dirsize = {}
        self.break_change = None       # callable(what, path): may raise OSError
        self.changes = []              # (what, path)

    def node(self, path, follow=False, depth=0):
        n = self.root
        parts = [x for x in path.split('/')[2:] if x not in ('', '.')]
        for i, part in enumerate(parts):
            if isinstance(n, str) and i:
                n = self.target(n, path, depth)
            if not isinstance(n, dict) or part not in n:
                if path == self.cwd + '/output' and self.m.results is not None:
                    return len(self.m.results.content)
                raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            n = n[part]
        if follow and isinstance(n, str):
            n = self.target(n, path, depth)
        return n

    def target(self, link, path, depth):
        if depth > 10:
            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
        if not link.startswith('/sim/'):
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.node(link, True, depth + 1)

    # -- changing it

    def parent(self, what, path):
        self.changes.append((what, path))
        self.m.sim.trace(what, path[len(self.cwd):][:6])
        if self.break_change is not None:
            self.break_change(what, path)
        up, name = path.rsplit('/', 1)
        d = self.node(up, True)
        if not isinstance(d, dict):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return d, name

    def mkdir(self, path, mode=0o777, **kw):
        d, name = self.parent('mkdir', path)
        if name in d:
            raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        d[name] = {}

    def rmdir(self, path, **kw):
        d, name = self.parent('rmdir', path)
        n = self.node(path)
        if not isinstance(n, dict):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        if n:
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), path)
        del d[name]

    def unlink(self, path, **kw):
        d, name = self.parent('unlink', path)
        if name not in d and path == self.cwd + '/output' and self.m.results is not None:
            self.m.results.lose()
            return
        n = self.node(path)
        if isinstance(n, dict):
            raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        del d[name]
    remove = unlink

    def rename(self, path, to, **kw):
        d, name = self.parent('rename', path)
        n = self.node(path)
        d2, name2 = self.parent('rename to', to)
        if to == self.cwd + '/output' and self.m.results is not None:
            self.m.results.lose()
        del d[name]
        d2[name2] = n
    replace = rename

    def link(self, path, to, **kw):
        raise OSError(errno.EPERM, os.strerror(errno.EPERM), path)

    def truncate(self, path, length):
        d, name = self.parent('truncate', path)
        if path == self.cwd + '/output' and self.m.results is not None:
            self.m.results.open('r+').truncate(length)
            return
        d[name] = length

    def chmod(self, path, *a, **kw):
        self.node(path)

    def utime(self, path, *a, **kw):
        self.node(path)

    def open_fd(self, path, flags):
        if path == self.cwd + '/output' and self.m.results is not None:
            mode = 'r' if not flags & (os.O_WRONLY | os.O_RDWR) else 'a' if flags & os.O_APPEND else \
                'w' if flags & os.O_TRUNC else 'r+'
            return self.m.sim.new_fd(self.m.results.open(mode, 0))
        raise OSError(errno.EACCES, 'not part of the simulated machine', path)

    def size_of(self, path, n):
        if isinstance(n, dict):
            return 4096 * (1 + len(n) // 4)
        if isinstance(n, str):
            return len(n)
        return n

    def total(self, path=CWD):
        """What the documentation says the size is: everything below, once."""
        n = self.node(path)
        s = self.size_of(path, n)
        if isinstance(n, dict):
            s += sum(self.total(path + '/' + k) for k in n)
        return s

    def _look(self, what, path):
        self.m.cost(what, path)

    def _result(self, path, n):
        mode = statmod.S_IFDIR if isinstance(n, dict) else statmod.S_IFLNK if isinstance(n, str) else statmod.S_IFREG
        return os.stat_result((mode | 0o755, 1, 1, 1, 0, 0, self.size_of(path, n), 0, 0, 0))

    def stat(self, path, *a, **kw):
        if kw.get('follow_symlinks') is False:
            return self.lstat(path)
        self._look('stat', path)
        return self._result(path, self.node(path, True))

    def lstat(self, path, *a, **kw):
        return self._result(path, self.node(path))

    def listdir(self, path, *a):
        self._look('listdir', path)
        n = self.node(path, True)
        if not isinstance(n, dict):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return list(n)

    def scandir(self, path):
        tree = self

        class Entry(object):
            def __init__(self, name):
                self.name = name
                self.path = os.path.join(path, name)

            def __fspath__(self):
                return self.path

            def stat(self, follow_symlinks=True):
                return tree.stat(self.path) if follow_symlinks else tree.lstat(self.path)

            def is_dir(self, follow_symlinks=True):
                return self._is(dict, follow_symlinks)

            def _is(self, kind, follow):
                try:
                    return isinstance(tree.node(self.path, follow), kind)
                except OSError:
                    return False

            def is_junction(self):
                return False

            def is_file(self, follow_symlinks=True):
                return self._is(int, follow_symlinks)

            def is_symlink(self):
                return isinstance(tree.node(self.path), str)

        class It(object):
            def __init__(self, entries):
                self.entries = entries

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.entries)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        return It(Entry(n) for n in self.listdir(path))

    def readlink(self, path, *a):
        n = self.node(path)
        if not isinstance(n, str):
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), path)
        return n

    def statvfs(self, path):
        return os.statvfs_result((self.m.sector, self.m.sector, 1000, 1000, 1000, 1000, 1000, 1000, 0, 255))


class Machine(object):
    """
    Clock costs, disk statistics, tree, /proc and the results file.
    """
    def __init__(self, sim, device='/dev/sda3'):
        self.sim = sim
        self.device = device
        self.sector = sim.c.pick([4096, 512, 1])
        self.name = device.split('/')[-1]
        self.disk = self.name.rstrip('0123456789')
        self.stats = {}
        for d in ('sda', 'sda3', 'sdb', 'sdb1', 'loop0'):
            self.stats[d] = [sim.c.draw(1000) for i in range(11)]
        self.missing = set()           # devices /proc/diskstats does not list
        self.short_partitions = False  # old kernels: seven columns for partitions
        self.columns = sim.c.pick([14, 18, 20])
        self.looking_costs = 0.0       # seconds per look at the tree or /proc
        self.looking_reads = 0         # disk reads per look at the tree
        self.looks = []                # (what, path, when it began)
        self.break_look = None         # callable(what, path): may raise OSError
        self.results = None            # ResultsDisk
        sim.tree = self.tree = Tree(self)
        sim.files = self

    def cost(self, what, path):
        self.looks.append((what, path, self.sim.now))
        if self.break_look is not None:
            self.break_look(what, path)
        self.sim.now += self.looking_costs
        if what != 'diskstats' and self.looking_reads:
            for d in (self.name, self.disk):
                if d in self.stats:
                    self.stats[d][0] += self.looking_reads
                    self.stats[d][2] += 8 * self.looking_reads
                    self.stats[d][3] += self.looking_reads

    def io(self, reads=0, writes=0):
        for d in set((self.name, self.disk)):
            if d in self.stats:
                s = self.stats[d]
                s[0] += reads
                s[2] += reads * 8
                s[3] += reads * 3
                s[4] += writes
                s[6] += writes * 16
                s[7] += writes * 5

    def partition_view(self):
        """What the four partition statistics are now, or None."""
        if self.name in self.missing or self.name not in self.stats:
            return None
        s = self.stats[self.name]
        return (s[0], s[2], s[4], s[6])

    def disk_view(self):
        if self.disk in self.missing or self.disk not in self.stats:
            return None
        s = self.stats[self.disk]
        return (s[3], s[7])

    def diskstats(self):
        out = []
        for i, (d, s) in enumerate(sorted(self.stats.items())):
            if d in self.missing:
                continue
            if self.short_partitions and d[-1].isdigit() and d.startswith('sd'):
                out.append('%4d %7d %s %d %d %d %d' % (8, i, d, s[0], s[2], s[4], s[6]))
            else:
                out.append('%4d %7d %s %s' % (8, i, d, ' '.join(map(str, s + [7] * (self.columns - 14)))))
        return ('\n'.join(out) + '\n').encode('ascii')

    # the open() seam
    def open(self, name, mode='r', *a, **kw):
        if isinstance(name, int) and name in self.sim.rawfds:
            return self.results.wrap(self.sim.rawfds.pop(name), mode, *a, **kw)
        if isinstance(name, bytes):
            name = name.decode()
        name = os.fspath(name) if not isinstance(name, (str, int)) else name
        if name == '/proc/diskstats':
            self.cost('diskstats', name)
            data = self.diskstats()
            return io.BytesIO(data) if 'b' in mode else io.StringIO(data.decode())
        if name == '/proc/self/mounts' or name == '/proc/mounts':
            text = 'rootfs / rootfs rw 0 0\nproc /proc proc rw 0 0\n%s /sim ext4 rw 0 0\n' % (self.device,)
            return io.BytesIO(text.encode()) if 'b' in mode else io.StringIO(text)
        if self.results is not None and name in ('output', './output', CWD + '/output'):
            return self.results.open(mode, *a, **kw)
        if isinstance(name, str) and not name.startswith('/'):
            raise OSError(errno.EACCES, 'not part of the simulated machine', name)
        return NotImplemented


class ResultsDisk(object):
    """One file on a disk that may fail; real Python buffering on top of it."""

    def __init__(self, sim, content=b''):
        self.sim = sim
        self.content = bytearray(content)
        self.fail_open = None
        self.plan = []             # per raw write: None, ('short', n), ('error', errno, n)
        self.between = None        # called before each raw write (other processes)
        self.log = []              # spans written: (offset, bytes)
        self.truncated = False

    def open(self, mode='r', *a, **kw):
        if self.fail_open is not None:
            e, self.fail_open = self.fail_open, None
            raise OSError(e, os.strerror(e), 'output')
        if 'w' in mode:
            del self.content[:]
            self.truncated = True
        return self.wrap(RawFile(self, mode), mode, *a, **kw)

    def lose(self):
        """The file was removed or replaced."""
        del self.content[:]
        self.truncated = True

    def wrap(self, raw, mode, *a, **kw):
        if len(a) > 0:
            buffering = a[0]
        else:
            buffering = kw.get('buffering', -1)
        if buffering == 0:
            return raw
        if '+' in mode:
            f = io.BufferedRandom(raw)
        elif 'r' in mode:
            f = io.BufferedReader(raw)
        else:
            f = io.BufferedWriter(raw)
        if 'b' not in mode:
            return io.TextIOWrapper(f, encoding=kw.get('encoding') or 'utf-8')
        return f


class RawFile(io.RawIOBase):
    def __init__(self, disk, mode):
        self.disk = disk
        self.mode_ = mode
        self.append = 'a' in mode
        self.pos = len(disk.content) if self.append else 0

    def readable(self):
        return 'r' in self.mode_ or '+' in self.mode_

    def writable(self):
        return any(x in self.mode_ for x in 'wax+')

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.disk.content))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if size < len(self.disk.content):
            self.disk.truncated = True
        del self.disk.content[size:]
        return size

    def readinto(self, b):
        d = self.disk.content[self.pos:self.pos + len(b)]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        disk = self.disk
        if disk.between is not None:
            disk.between()
        data = bytes(b)
        plan = disk.plan.pop(0) if disk.plan else None
        n = len(data)
        err = None
        if plan is not None:
            if plan[0] == 'short':
                n = max(1, min(n, plan[1]))
                disk.sim.fault('short write')
            else:
                n = min(n, plan[2])
                err = plan[1]
                disk.sim.fault('write error')
        if self.append:
            self.pos = len(disk.content)
        disk.sim.trace('disk write', self.pos, n)
        disk.log.append((self.pos, data[:n]))
        disk.content[self.pos:self.pos + n] = data[:n]
        self.pos += n
        if err is not None:
            raise OSError(err, os.strerror(err))
        return n


class SimProcess(object):
    """
    The transport of a simulated child process (and the child's kernel side).
    """
    reap_slow = True

    def __init__(self, sim, proto, executable, args, env, path, childFDs, hooks=None):
        self.sim = sim
        self.proto = proto
        self.pid = 4242
        self.argv = args
        self.pipes = dict(childFDs)
        self.inbox = {fd: [] for fd, d in childFDs.items() if d == 'r'}
        self.child_in = {fd: bytearray() for fd, d in childFDs.items() if d == 'w'}
        self.child_in_open = set(self.child_in)
        self.in_flight = {fd: 0 for fd in self.child_in}
        self.last_at = {}
        self.signals = []
        self.dead = None               # (exit code, signal)
        self.reaped = False
        self.ended = False
        self.hooks = hooks
        self.events = []               # what the protocol was told: (when, fd, data/None)
        self.sent = []                 # what the protocol wrote: (when, fd, bytes)
        self.told_errors = 0
        self.excused = 0               # of these, with the child or its pipe already gone
        self.ignores = set()
        self.death_delay = None
        sim.trace('spawned')
        proto.makeConnection(self)

    # -- the child's side

    def child_write(self, fd, data, delay=None):
        if self.dead is not None or fd not in self.inbox:
            return
        self._queue(fd, data, delay)

    def child_close(self, fd, delay=None):
        if self.dead is not None:
            return
        if fd in self.inbox:
            self._queue(fd, None, delay)
        elif fd in self.child_in:
            self.child_in_open.discard(fd)
            self._queue(fd, None, delay)

    def _queue(self, fd, data, delay):
        sim = self.sim
        if delay is None:
            delay = sim.c.pick([0.0, 0.001, 0.0, 0.5]) if sim.c.draw(2) else 0.0
        at = max(self.last_at.get(fd, 0.0), sim.now + delay)
        self.last_at[fd] = at
        sim.after(at - sim.now, lambda: self._deliver(fd, data), 'pipe %d' % fd)

    def _deliver(self, fd, data):
        if fd not in self.pipes:
            return
        if data is None:
            self._lost(fd)
            return
        sim = self.sim
        # the pipe has no message boundaries: it may come in pieces
        if len(data) > 1 and sim.c.draw(3) == 0:
            k = 1 + sim.c.draw(len(data) - 1)
            first, rest = data[:k], data[k:]
        else:
            first, rest = data, b''
        self._give(fd, first)
        if rest and fd in self.pipes:
            self._give(fd, rest)

    def _give(self, fd, data):
        self.sim.trace('data', fd, data)
        self.events.append((self.sim.now, fd, data))
        if self.hooks is not None:
            self.hooks.before(self, fd, data)
        try:
            self.proto.childDataReceived(fd, data)
        except Exception:
            # as the reactor does: log, and drop the descriptor
            self.told_errors += 1
            self.excused += bool(self.dead) or 4 not in self.pipes
            log.err()
            if fd in self.pipes:
                self._lost(fd)
        if self.hooks is not None:
            self.hooks.after(self, fd, data)

    def _lost(self, fd):
        if fd not in self.pipes:
            return
        del self.pipes[fd]
        self.sim.trace('closed', fd)
        self.events.append((self.sim.now, fd, None))
        if self.hooks is not None:
            self.hooks.before(self, fd, None)
        try:
            self.proto.childConnectionLost(fd)
        except Exception:
            self.told_errors += 1
            log.err()
        if self.hooks is not None:
            self.hooks.after(self, fd, None)
        self._maybe_ended()

    def child_exit(self, code=None, sig=None):
        if self.dead is not None:
            return
        self.dead = (code, sig)
        self.exit_at = self.sim.now
        self.sim.trace('exit', code, sig)
        self.child_in_open.clear()
        c = self.sim.c
        fds = list(self.pipes)
        slow = c.pick([0.0, 0.0, 0.01, 1.0]) if self.reap_slow else 0.0
        for fd in fds:
            if self.reap_slow and c.draw(4) == 3:
                slow = c.pick([0.0, 0.0, 0.01, 1.0])
            self._queue(fd, None, slow)
        self.sim.after(c.pick([0.0, 0.0, 0.01, 1.0]) if self.reap_slow else 0.0, self._reap, 'reap')

    def _reap(self):
        self.reaped = True
        self.pid = None
        code, sig = self.dead
        # wait status as waitpid gives it
        status = (code << 8) if sig is None else sig
        if sig is None and code == 0:
            self.reason = Failure(error.ProcessDone(status))
        else:
            self.reason = Failure(error.ProcessTerminated(code if sig is None else None, sig, status))
        self.status = status
        self.proto.processExited(self.reason)
        self._maybe_ended()

    def _maybe_ended(self):
        if self.pipes or not self.reaped or self.ended:
            return
        self.ended = True
        self.sim.trace('ended')
        self.ended_at = self.sim.now
        if self.hooks is not None:
            self.hooks.ending(self)
        try:
            self.proto.processEnded(self.reason)
        except Exception:
            self.told_errors += 1
            log.err()
        if self.hooks is not None:
            self.hooks.ended(self)

    # -- IProcessTransport

    def signalProcess(self, sig):
        if sig in ('HUP', 'STOP', 'INT', 'KILL', 'TERM'):
            sig = getattr(signal, 'SIG' + sig)
        if self.pid is None:
            raise error.ProcessExitedAlready()
        if not isinstance(sig, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % (type(sig).__name__,))
        sig = int(sig)
        self.sim.trace('signal', sig)
        self.signals.append((self.sim.now, sig))
        if self.hooks is not None:
            self.hooks.signal(self, sig)
        if sig in self.ignores:
            return
        d = self.death_delay
        if d is None:
            d = self.sim.c.pick([0.0, 0.0, 0.2, 3.0])
        self.sim.after(d, lambda: self.child_exit(None, sig), 'killed')

    def writeToChild(self, fd, data):
        pipe = self.pipes[fd]
        if pipe != 'w':
            raise TypeError('%d is not a writing pipe' % fd)
        if not isinstance(data, bytes):
            raise TypeError('Data must be bytes')
        self.sim.trace('to child', fd, data)
        self.sent.append((self.sim.now, fd, data))
        if self.hooks is not None:
            self.hooks.wrote(self, fd, data)
        if fd in self.child_in_open:
            c = self.sim.c
            at = max(self.last_at.get(('to', fd), 0.0), self.sim.now + c.pick([0.0, 0.0, 0.01, 2.0]))
            self.last_at[('to', fd)] = at
            self.in_flight[fd] += 1

            def arrive():
                self.in_flight[fd] -= 1
                self.child_in[fd] += data
            self.sim.after(at - self.sim.now, arrive, 'ack')

    def closeChildFD(self, fd):
        if fd in self.pipes:
            self.sim.after(0.0, lambda: self._lost(fd), 'close')

    def closeStdin(self):
        self.closeChildFD(0)

    def closeStdout(self):
        self.closeChildFD(1)

    def closeStderr(self):
        self.closeChildFD(2)

    def write(self, data):
        self.writeToChild(0, data)

    def loseConnection(self):
        for fd in list(self.pipes):
            self.closeChildFD(fd)


class Hooks(object):
    def before(self, proc, fd, data):
        pass

    def after(self, proc, fd, data):
        pass

    def signal(self, proc, sig):
        pass

    def wrote(self, proc, fd, data):
        pass

    def ending(self, proc):
        pass

    def ended(self, proc):
        pass


def spawner(sim, made, hooks=None, setup=None):
    """A spawnProcess function."""
    def spawnProcess(proto, executable, args=(), env=None, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        p = SimProcess(sim, proto, executable, args, env, path, childFDs or {0: 'w', 1: 'r', 2: 'r'}, hooks)
        made.append(p)
        if setup is not None:
            setup(p)
        return p
    return spawnProcess
