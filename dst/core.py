"""
The simulator: discrete-event virtual time, one decision source, one recorded
trace, one reactor (a real twisted ReactorBase driven by the simulation).
"""
import gc
import hashlib
import heapq
import re
import sys
import traceback
from collections import Counter

from . import seams
from .choices import Choices, TooManyChoices

EPOCH = 1600000000.0


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """The machinery itself is wrong; never a statement about the code."""


def no_addresses(text):
    """Where an object lies in memory is not part of what happened."""
    if '0x' in text:
        text = re.sub(r'0x[0-9a-fA-F]{5,}', '0x...', text)
    return text


class Violation(Exception):
    def __init__(self, kind, message):
        Exception.__init__(self, '%s: %s' % (kind, message))
        self.kind = kind
        self.message = message


class StopRun(BaseException):
    """Ends a run once a violation has been recorded."""


class Event(object):
    __slots__ = ('at', 'seq', 'fn', 'name', 'dead')

    def __init__(self, at, seq, fn, name):
        self.at = at
        self.seq = seq
        self.fn = fn
        self.name = name
        self.dead = False

    def __lt__(self, other):
        return (self.at, self.seq) < (other.at, other.seq)

    def cancel(self):
        self.dead = True


def make_reactor(sim):
    from twisted.internet.base import ReactorBase
    from twisted.python import log

    class SimReactor(ReactorBase):
        """
        The real ReactorBase - its start-up and shutdown events, its delayed
        calls, its stop/crash/callWhenRunning - with time and I/O replaced by
        the simulation.
        """
        _registerAsIOThread = False

        def installWaker(self):
            pass

        def wakeUp(self):
            pass

        def seconds(self):
            return sim.now

        def doIteration(self, delay):
            if delay == 0 or not self._started:
                # work is due right now (or we are shutting down); still let
                # one simulated event happen if one is due as well
                if sim.q and sim.q[0].at <= sim.now:
                    sim.step_event()
                return
            if not sim.advance(delay):
                if self._started and delay is None:
                    sim.stuck(self)

        def removeAll(self):
            return []

        def getReaders(self):
            return []

        def getWriters(self):
            return []

        def addReader(self, r):
            pass
        addWriter = removeReader = removeWriter = addReader

        def mainLoop(self):
            # as ReactorBase.mainLoop, which lets nothing at all through: the
            # end of the simulated run has to get out
            while self._started:
                try:
                    self.runUntilCurrent()
                    t2 = self.timeout()
                    t = self.running and t2
                    self.doIteration(t)
                except (StopRun, Violation, Hang, TooManyChoices):
                    raise
                except BaseException:
                    log.err(None, 'main loop')
                if sim.hung:
                    raise Hang()
                sim.check()

        def run(self, installSignalHandlers=False):
            ReactorBase.run(self, installSignalHandlers=False)

    return SimReactor()


class Sim(object):
    def __init__(self, choices, keep_trace=True):
        self.c = choices
        self.now = 0.0
        self.q = []
        self.seq = 0
        self.steps = 0
        self.max_steps = 200000
        self.violation = None
        self.trace_lines = []
        self.keep_trace = keep_trace
        self._hash = hashlib.sha256()
        self.faults = Counter()
        self.probes = Counter()
        self.errors = []             # logged errors: (type name, text, failure)
        self.allowed_errors = []
        self.files = None
        self.fds = None
        self.signals = None
        self.rawfds = {}       # descriptors handed out by os.open in the run
        self.tree = None
        self.slice_advance = 0.0
        self.tick = None             # called when epsilon code reads the clock
        self.nontrivial = False
        self.sample = None
        self.hung = False
        self.notes = {}
        self.on_stuck = None
        self.extra_hash = None
        self._reactor = None
        self._entropy = seams.entropy_stream(b'run')
        self.entropy_taken = 0

    # ---- time and events

    @property
    def reactor(self):
        if self._reactor is None:
            self._reactor = make_reactor(self)
        return self._reactor

    def read_clock(self):
        if self.tick is not None:
            f = sys._getframe(2)
            if f.f_globals.get('__name__', '').startswith('epsilon'):
                self.tick()
        return EPOCH + self.now + self.slice_advance

    def new_fd(self, raw):
        fd = 5000
        while fd in self.rawfds:
            fd += 1
        self.rawfds[fd] = raw
        return fd

    def entropy(self, n):
        self.entropy_taken += n
        return self._entropy(n)

    def seed_entropy(self, key):
        self._entropy = seams.entropy_stream(key)

    def after(self, delay, fn, name='event'):
        self.seq += 1
        ev = Event(self.now + delay, self.seq, fn, name)
        heapq.heappush(self.q, ev)
        return ev

    def soon(self, fn, name='event', spread=1.0):
        """Run fn after a random delay (0: right after the current event)."""
        k = self.c.draw(6)
        if k == 0:
            d = 0.0
        elif k < 4:
            d = self.c.draw(100) / 100.0 * spread
        else:
            d = self.c.draw(100) / 10.0 * spread
        return self.after(d, fn, name)

    def trace(self, *parts):
        line = no_addresses(' '.join(p if isinstance(p, str) else repr(p) for p in parts))
        self._hash.update(line.encode('utf-8', 'backslashreplace') + b'\n')
        if self.keep_trace and len(self.trace_lines) < 3000:
            self.trace_lines.append('%.6f %s' % (self.now, line[:300]))

    def trace_hash(self):
        return self._hash.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True
        self.trace('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    # ---- violations

    def violate(self, kind, message, stop=True):
        """Record a violation (the first one counts)."""
        if self.violation is None:
            message = no_addresses(message)
            self.violation = Violation(kind, message)
            self.trace('VIOLATION', kind, message)
        if stop:
            raise StopRun()

    def note_violation(self, kind, message):
        """As violate, from inside code under test: do not raise through it."""
        self.violate(kind, message, stop=False)

    def expect(self, cond, kind, message, *args):
        if not cond:
            self.violate(kind, message % args if args else message)

    def soft(self, cond, kind, message, *args):
        if not cond:
            self.note_violation(kind, message % args if args else message)

    def check(self):
        if self.violation is not None:
            raise StopRun()

    # ---- running

    def step_event(self):
        """Run one simulated event that is due."""
        while self.q and self.q[0].dead:
            heapq.heappop(self.q)
        if not self.q:
            return False
        ev = heapq.heappop(self.q)
        if ev.at > self.now:
            self.now = ev.at
        self.steps += 1
        if self.steps > self.max_steps:
            self.violate('livelock', 'no quiescence within %d simulated steps' % self.max_steps)
        self.trace('@', ev.name)
        ev.fn()
        self.check()
        return True

    def advance(self, timeout):
        """
        Let time pass until the next simulated event or the next timer,
        whichever is first, and run the event if that is it.  False if there
        is nothing to wait for.
        """
        while self.q and self.q[0].dead:
            heapq.heappop(self.q)
        if timeout is None and not self.q:
            return False
        if self.q and (timeout is None or self.q[0].at <= self.now + timeout):
            if timeout is not None and self.q[0].at == self.now + timeout and self.c.draw(2):
                self.now = self.q[0].at     # a tie: timer first
                return True
            return self.step_event()
        self.now += timeout
        return True

    def run(self, until=None):
        """
        Run events and timers until nothing is left (or until the given
        virtual time).
        """
        while self._one(until):
            pass
        self.check()

    def _one(self, until=None):
        """One event or timer; False if there is none (before the given time)."""
        r = self.reactor
        r.runUntilCurrent()
        self.check()
        t = r.timeout()
        while self.q and self.q[0].dead:
            heapq.heappop(self.q)
        nxt = self.q[0].at if self.q else None
        timer = None if t is None else self.now + t
        if nxt is None and timer is None:
            if until is not None and until > self.now:
                self.now = until
            return False
        first = min(x for x in (nxt, timer) if x is not None)
        if until is not None and first > until:
            self.now = max(self.now, until)
            return False
        self.steps += 1
        if self.steps > self.max_steps:
            self.violate('livelock', 'no quiescence within %d simulated steps' % self.max_steps)
        if nxt is not None and (timer is None or nxt <= timer):
            if timer is not None and nxt == timer and self.c.draw(2):
                self.now = max(self.now, timer)
                return True
            self.step_event()
        else:
            self.now = timer
        return True

    def wait(self, pred):
        """Run the simulation until pred() holds; False if it never does."""
        while not pred():
            if not self._one():
                self.check()
                return bool(pred())
        return True

    def stuck(self, reactor):
        if self.on_stuck is not None:
            self.on_stuck()
            return
        self.violate('stuck', 'reactor still running with nothing left to happen')

    # ---- errors that reached the log

    def log_error(self, type_name, text, failure):
        self.errors.append((type_name, text, failure))
        self.trace('LOGGED', type_name)

    def take_errors(self, collect=False):
        if collect:
            gc.collect()
        e, self.errors = self.errors, []
        return e


def log_observer(event):
    sim = seams.current
    if sim is None or not event.get('isError'):
        f = event.get('log_failure')
        if sim is None or f is None:
            return
    f = event.get('failure') or event.get('log_failure')
    if f is not None:
        name = f.type.__name__ if isinstance(f.type, type) else str(f.type)
        sim.log_error(name, f.getErrorMessage(), f)
    else:
        sim.log_error('?', str(event.get('message')), None)


_log_ready = False


def init_process():
    """Once per process, before any run."""
    global _log_ready
    seams.install()
    if not _log_ready:
        _log_ready = True
        from twisted.logger import globalLogBeginner
        from twisted.python import log
        from twisted.logger import LegacyLogObserverWrapper
        globalLogBeginner.beginLoggingTo(
            [LegacyLogObserverWrapper(log_observer)],
            redirectStandardIO=False, discardBuffer=True)
        import warnings
        warnings.simplefilter('ignore')
        sys.setrecursionlimit(1000)


def reset_twisted():
    from twisted.internet import task
    old = getattr(task, '_theCooperator', None)
    if old is not None:
        task._theCooperator = task.Cooperator()


class Result(object):
    pass


def run_one(module, choices, keep_trace=False):
    """
    One simulated run of module.run(sim).  Returns a Result; raises nothing
    that stems from the code under test.
    """
    gc_was = gc.isenabled()
    gc.disable()
    if getattr(module, 'COLLECT', False):
        gc.collect()
    sim = Sim(choices, keep_trace)
    seams.current = sim
    # how deep the code under test may recurse does not depend on who calls us
    depth, fr = 0, sys._getframe()
    while fr is not None:
        depth, fr = depth + 1, fr.f_back
    recursion_limit = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 980)
    import random
    random.seed(12345)
    reset_twisted()
    err = None
    try:
        try:
            module.run(sim)
        except StopRun:
            pass
        except Violation as v:
            if sim.violation is None:
                sim.violation = v
        except TooManyChoices:
            sim.note_violation('livelock', 'run does not end')
        except Hang:
            sim.note_violation('hang', 'no progress: the code under test does not return')
        except (KeyboardInterrupt, SystemExit) as e:
            if sim.violation is None:
                tb = traceback.extract_tb(sys.exc_info()[2])
                if any('/epsilon/' in fr.filename for fr in tb):
                    sim.note_violation('exception', 'unexpected %s' % (type(e).__name__,))
                else:
                    raise
        except BaseException as e:
            if sim.violation is None:
                tb = traceback.extract_tb(sys.exc_info()[2])
                if any('/epsilon/' in fr.filename and '/verif/' not in fr.filename for fr in tb):
                    where = [fr for fr in tb if '/epsilon/' in fr.filename][-1]
                    sim.note_violation('exception', 'unexpected %s: %s (from %s)' % (
                        type(e).__name__, str(e)[:200], where.name))
                elif isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
                    # No run on a sound tree ends here: the harness was given
                    # something it cannot use, say None for a Deferred.
                    sim.note_violation('interface', 'what the code under test returned cannot be used as documented: '
                                       '%s: %s (at %s)' % (type(e).__name__, str(e)[:200], tb[-1].line))
                else:
                    err = traceback.format_exc()
        if sim.hung and sim.violation is None:
            sim.note_violation('hang', 'no progress: the code under test does not return')
    finally:
        sys.setrecursionlimit(recursion_limit)
        seams.current = None
        for raw in sim.rawfds.values():
            try:
                raw.close()
            except Exception:
                pass
        res = Result()
        res.violation = sim.violation
        res.trace_hash = sim.trace_hash()
        res.trace = sim.trace_lines
        res.faults = sim.faults
        res.probes = sim.probes
        res.sim_time = sim.now
        res.steps = sim.steps
        res.nontrivial = sim.nontrivial
        res.sample = sim.sample
        res.choices = list(choices.log)
        res.error = err
        if gc_was:
            gc.enable()
    # break reference cycles between runs' objects outside of the run
    return res
