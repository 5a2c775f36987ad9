"""
Real threads, one running at a time: who runs next, and where a thread can be
interrupted (any line of the files under test, any explicit pause), is decided
by the run's choices.
"""
import _thread
import sys
import threading

_current = None              # the Scheduler in charge, if any


class Baton(object):
    """Waits until it is passed; none of this is Python code that could be traced."""
    def __new__(cls):
        lock = _thread.allocate_lock()
        lock.acquire()
        return lock


class Scheduler(object):
    def __init__(self, sim, files=(), rate=4, opcodes=False):
        self.sim = sim
        self.files = tuple(files)
        self.rate = rate                 # one line in `rate` is an interruption
        self.opcodes = opcodes           # and so can be any step within a line
        if opcodes:
            # Python 3.12 only reports steps to trace functions that are set
            # after some frame has asked for them.
            frame = sys._getframe()
            frame.f_trace_opcodes = True
            frame.f_trace_opcodes = False
        self.main = Baton()
        self.threads = []
        self.draining = False
        self.switches = 0

    def add(self, name, fn):
        t = _Thread(self, name, fn)
        self.threads.append(t)
        return t

    def start(self, t):
        """Start a thread that was added while the others are running."""
        t.thread.start()

    def run(self):
        global _current
        _current = self
        c = self.sim.c
        try:
            for t in self.threads:
                t.thread.start()
            last = None
            while True:
                ready = [t for t in self.threads if not t.done and t.can_run()]
                if not ready:
                    break
                t = ready[c.draw(len(ready))] if len(ready) > 1 else ready[0]
                if t is not last and last is not None and not last.done:
                    self.switches += 1
                last = t
                self.sim.trace('run', t.name)
                t.resume()
            stuck = [t.name for t in self.threads if not t.done]
            return stuck
        finally:
            self.draining = True
            for k in range(3):
                for t in self.threads:
                    if not t.done and t.can_run():
                        t.resume()
            _current = None

    def me(self):
        return getattr(_local, 'thread', None)

    def pause(self):
        """A point at which the running thread may be interrupted."""
        t = self.me()
        if t is not None and t.sched is self and not self.draining:
            t.yield_()

    def tracer(self, frame, event, arg):
        if event == 'call':
            if frame.f_code.co_filename.endswith(self.files):
                frame.f_trace_opcodes = self.opcodes
                return self.tracer
            return None
        if event == ('opcode' if self.opcodes else 'line') and not self.draining and self.sim.c.draw(self.rate) == 0:
            self.pause()
        return self.tracer


_local = threading.local()


def me():
    return getattr(_local, 'thread', None)


class _Thread(object):
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.sem = Baton()
        self.done = False
        self.error = None
        self.waits_for = None
        self.thread = threading.Thread(target=self._run, name=name, daemon=True)

    def can_run(self):
        return self.waits_for is None or self.waits_for.free_for(self)

    def _run(self):
        _local.thread = self
        self.sem.acquire()
        if self.sched.files:
            sys.settrace(self.sched.tracer)
        try:
            self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.main.release()

    def resume(self):
        self.sem.release()
        self.sched.main.acquire()

    def yield_(self):
        self.sched.main.release()
        self.sem.acquire()


class SimLock(object):
    """threading.Lock / RLock for the code under test."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        t = getattr(_local, 'thread', None) or 'main'
        while not self.free_for(t):
            if not blocking or t == 'main':
                return False
            t.waits_for = self
            t.yield_()
            t.waits_for = None
        self.owner = t
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def import_with_locks(name):
    """Import a module so that the locks it makes are simulated ones."""
    import importlib
    if name in sys.modules:
        return sys.modules[name]
    old = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = SimLock, SimRLock
    try:
        module = importlib.import_module(name)
    finally:
        threading.Lock, threading.RLock = old
    # and so are those it makes later on
    if getattr(module, 'threading', None) is threading:
        shim = type(threading)('threading')
        shim.__dict__.update(vars(threading))
        shim.Lock, shim.RLock = SimLock, SimRLock
        module.threading = shim
    return module
