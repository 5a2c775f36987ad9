"""
Seams between the code under test and the real world.  install() must run
before anything of epsilon is imported, so that however a module imports a
name (import os / from os import urandom) it binds ours.

Outside of a simulated run every seam falls through to the real thing.
"""
import builtins
import datetime
import hashlib
import io
import os
import random
import signal
import socket
import sys
import time
import types

REPO = os.environ.get('DST_REPO', '/repo')

current = None            # the running Sim, or None

real = types.SimpleNamespace(
    urandom=os.urandom, time=time.time, monotonic=time.monotonic,
    sleep=time.sleep, open=builtins.open, io_open=io.open, os_read=os.read,
    os_write=os.write, os_close=os.close, os_open=os.open, gethostname=socket.gethostname,
    signal=signal.signal, getsignal=signal.getsignal, perf_counter=time.perf_counter, getcwd=os.getcwd)


def _urandom(n):
    sim = current
    if sim is None:
        return real.urandom(n)
    return sim.entropy(n)


def _time():
    sim = current
    if sim is None:
        return real.time()
    return sim.read_clock()


def _monotonic():
    sim = current
    if sim is None:
        return real.monotonic()
    return sim.now


def _broken_down(name):
    """localtime, gmtime, ctime without an argument read the clock."""
    plain = getattr(time, name)

    def call(secs=None):
        if secs is None and current is not None:
            secs = _time()
        return plain(secs)
    return call


def _formatted(name):
    """strftime and asctime do, too."""
    plain = getattr(time, name)

    def call(*a):
        if current is not None and len(a) == (name == 'strftime'):
            a += (time.localtime(),)
        return plain(*a)
    return call


class _DateTimeType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, datetime.datetime)


class SimDateTime(datetime.datetime, metaclass=_DateTimeType):
    """
    datetime.datetime, except that its clock (which the interpreter reads
    without asking anybody) is ours.
    """
    def __new__(cls, *a, **kw):
        return datetime.datetime(*a, **kw)

    @classmethod
    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(_time(), tz)

    @classmethod
    def today(cls):
        return datetime.datetime.fromtimestamp(_time())

    @classmethod
    def utcnow(cls):
        return datetime.datetime.fromtimestamp(_time(), datetime.timezone.utc).replace(tzinfo=None)


class _DateTimeModule(object):
    datetime = SimDateTime

    def __getattr__(self, name):
        return getattr(datetime, name)


datetime_module = _DateTimeModule()


def own_clock(module):
    """Have the given module read the date from our clock, however it asks."""
    for k, v in list(vars(module).items()):
        if v is datetime.datetime:
            setattr(module, k, SimDateTime)
        elif v is datetime:
            setattr(module, k, datetime_module)


def _open(file, *a, **kw):
    sim = current
    if sim is not None and sim.files is not None:
        r = sim.files.open(file, *a, **kw)
        if r is not NotImplemented:
            return r
    return real.open(file, *a, **kw)


def _signal(signalnum, handler):
    sim = current
    if sim is not None and sim.signals is not None:
        return sim.signals.signal(signalnum, handler)
    return real.signal(signalnum, handler)


def _getsignal(signalnum):
    sim = current
    if sim is not None and sim.signals is not None:
        return sim.signals.getsignal(signalnum)
    return real.getsignal(signalnum)


def _os_read(fd, n):
    sim = current
    if _raw(fd) is not None:
        return _raw(fd).read(n)
    if sim is not None and sim.fds is not None and sim.fds.owns(fd):
        return sim.fds.read(fd, n)
    return real.os_read(fd, n)


def _os_write(fd, data):
    sim = current
    if _raw(fd) is not None:
        return _raw(fd).write(data)
    if sim is not None and sim.fds is not None and sim.fds.owns(fd):
        return sim.fds.write(fd, data)
    return real.os_write(fd, data)


def _tree_path(sim, path):
    """path as one of the run's directory tree, or None if it is not in it."""
    if isinstance(path, (bytes, os.PathLike)):
        path = os.fsdecode(path)
    if not isinstance(path, str):
        return None
    if not path.startswith('/'):
        path = sim.tree.cwd + '/' + path
    path = os.path.normpath(path)
    if path == '/sim' or path.startswith('/sim/'):
        return path
    return None


def _tree_call(name, changes=0):
    """
    os.stat & co: paths below /sim, and relative ones, belong to the run's
    directory tree.  Whatever changes files reaches nothing else.
    """
    theirs = getattr(os, name)
    paths = max(1, changes)

    def call(*a, **kw):
        sim = current
        if sim is not None and sim.tree is not None:
            ps = [_tree_path(sim, x) for x in (a[:paths] or ('.',))]
            if None not in ps:
                return getattr(sim.tree, name)(*(tuple(ps) + tuple(a[paths:])), **kw)
            if changes:
                raise OSError(13, 'not part of the simulated machine', a[0])
        if paths == 2 and sim is not None and hasattr(sim.files, 'move'):
            sim.files.move(name, a)
        return theirs(*a, **kw)
    call.__name__ = name
    return call


def _os_open(path, flags, *a, **kw):
    sim = current
    if sim is not None and hasattr(sim.files, 'open_fd'):
        r = sim.files.open_fd(path, flags)
        if r is not NotImplemented:
            return r
    if sim is not None and sim.tree is not None:
        p = _tree_path(sim, path)
        if p is not None:
            return sim.tree.open_fd(p, flags)
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            raise OSError(13, 'not part of the simulated machine', path)
    return real.os_open(path, flags, *a, **kw)


def _raw(fd):
    sim = current
    if sim is not None and sim.rawfds:
        return sim.rawfds.get(fd)
    return None


def _os_close(fd):
    raw = _raw(fd)
    if raw is not None:
        del current.rawfds[fd]
        return raw.close()
    return real.os_close(fd)


def _os_sync(name):
    theirs = getattr(os, name)

    def sync(fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        if current is not None and hasattr(current.files, 'sync'):
            current.files.sync(n)
        if _raw(n) is None:
            return theirs(fd)
    return sync


def _getcwd():
    sim = current
    if sim is not None and sim.tree is not None:
        return sim.tree.cwd
    return real.getcwd()


class ReactorProxy(object):
    """
    Stands in as twisted.internet.reactor: delegates to the reactor of the
    run in progress.
    """
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        sim = current
        if sim is None:
            if name in ('addSystemEventTrigger', 'callWhenRunning'):
                return lambda *a, **kw: None
            raise RuntimeError("reactor.%s used outside of a simulated run" % (name,))
        return getattr(sim.reactor, name)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    time.time = _time
    time.monotonic = _monotonic
    time.time_ns = lambda: int(_time() * 1000000000)
    for name in ('localtime', 'gmtime', 'ctime'):
        setattr(time, name, _broken_down(name))
    for name in ('strftime', 'asctime'):
        setattr(time, name, _formatted(name))
    builtins.open = _open
    io.open = _open
    signal.signal = _signal
    signal.getsignal = _getsignal
    os.read = _os_read
    os.write = _os_write
    for name in ('stat', 'lstat', 'listdir', 'readlink', 'statvfs', 'scandir'):
        setattr(os, name, _tree_call(name))
    for name in ('mkdir', 'rmdir', 'unlink', 'remove', 'truncate', 'chmod', 'utime'):
        setattr(os, name, _tree_call(name, 1))
    for name in ('rename', 'replace', 'link'):
        setattr(os, name, _tree_call(name, 2))
    os.open = _os_open
    os.close = _os_close
    os.fsync = _os_sync('fsync')
    os.fdatasync = _os_sync('fdatasync')
    import shutil
    shutil._use_fd_functions = False    # have it use the calls above
    os.getcwd = _getcwd
    socket.gethostname = lambda: 'simhost.example.org'

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'epsilon', '_version.py')) or \
            os.path.getsize(os.path.join(REPO, 'epsilon', '_version.py')) == 0:
        m = types.ModuleType('epsilon._version')
        m.__version__ = '0.8.0'
        sys.modules['epsilon._version'] = m

    import zope.interface
    from twisted.internet import interfaces, main
    proxy = ReactorProxy()
    zope.interface.directlyProvides(
        proxy, interfaces.IReactorCore, interfaces.IReactorTime)
    main.installReactor(proxy)
    from twisted.internet import task
    task.time = types.SimpleNamespace(time=_time, monotonic=_monotonic, sleep=real.sleep)
    from twisted.internet import reactor
    assert reactor is proxy


def entropy_stream(key):
    """A deterministic stream of bytes: key -> function(n)."""
    state = [hashlib.sha256(key).digest(), 0]

    def take(n):
        out = b''
        while len(out) < n:
            out += hashlib.sha256(state[0] + b'%d' % state[1]).digest()
            state[1] += 1
        return out[:n]
    return take
