"""
C27: a signal service handles its signals exactly while it runs, and gives
back what it replaced.

System: the real epsilon.spewer SignalService, alone and below real Twisted
MultiServices, over a simulated table of signal dispositions.  Signals arrive
at any moment, also between the steps of starting and stopping a service, and
handlers start and stop services themselves.
"""
import errno
import signal

from dst import core

RUNS = (60000, 1500000)
RULE = ('seeded histories of starting, stopping and restarting 1-4 services with overlapping signal maps, alone and in trees x signals at any moment, also in the '
        'middle of starting and stopping x maps that change meanwhile x signals that cannot be handled x handlers that stop their own service; non-trivial: a signal '
        'arrived in the middle of a change, or several services shared a signal, or a start failed')
REAL = ['epsilon.spewer SignalService', 'twisted Service, MultiService']
STUB = ['signal dispositions and delivery (this check)']
ASSUMPTIONS = ['services that share a signal are stopped in the reverse order of their start (as MultiService does)',
               'what handled a signal before was installed from Python', 'a service is not started again before it was stopped']
PROBES = ['signal while running', 'signal while starting', 'signal while stopping', 'signal after all', 'shared signal', 'restarted', 'start failed', 'stopped after a '
          'failed start', 'map changed while running', 'handler stopped its service', 'below a MultiService', 'default disposition', 'ignored before',
          'Python handler before', 'stopped out of order', 'no signals at all', 'same handler twice', 'service added to a running parent']
FAULTS = ['signal', 'signal cannot be handled']

SIGS = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGWINCH]


class Signals(object):
    """The signals of one process."""
    def __init__(self, sim):
        self.sim = sim
        self.table = {}
        self.between = None

    def signal(self, sig, handler):
        if not callable(handler) and handler not in (signal.SIG_DFL, signal.SIG_IGN):
            raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
        if sig in (signal.SIGKILL, signal.SIGSTOP):
            self.sim.fault('signal cannot be handled')
            raise OSError(errno.EINVAL, 'Invalid argument')
        old = self.table.get(sig, signal.SIG_DFL)
        self.table[sig] = handler
        if self.between is not None:
            self.between()
        return old

    def getsignal(self, sig):
        return self.table.get(sig, signal.SIG_DFL)

    def deliver(self, sig):
        h = self.getsignal(sig)
        if callable(h):
            h(int(sig), None)
        return h


def run(sim):
    from epsilon import spewer
    from twisted.application import service
    c = sim.c
    sigs = sim.signals = Signals(sim)
    got = []                # what handled the signals
    model = {}              # signal -> name of what should handle it
    names = {}              # handler -> name
    state = {'changing': None}

    def handler(name, action=None):
        def h(signum, frame):
            got.append((name, signum))
            sim.trace('handled', name, signum)
            if action is not None:
                action()
        names[h] = name
        return h
    names[signal.SIG_DFL], names[signal.SIG_IGN] = 'default', 'ignored'
    for s in SIGS:
        k = c.draw(3)
        h = [handler('before %d' % s), signal.SIG_DFL, signal.SIG_IGN][k]
        sim.probe(['Python handler before', 'default disposition', 'ignored before'][k])
        sigs.table[s] = h
        model[s] = names[h]
    initial = dict(model)

    def view():
        return dict((s, names.get(sigs.getsignal(s), 'something else')) for s in SIGS)

    services = []

    class Svc(object):
        pass

    def make(i):
        s = Svc()
        s.name = 'service %d' % i
        s.running = s.failed = False
        s.starts = 0
        mine = c.shuffle(c.subset(SIGS, 0.4))
        s.map = {}
        shared = None
        for sig in mine:
            if shared is not None and c.draw(3) == 0:
                sim.probe('same handler twice')
                s.map[sig] = shared
            elif c.draw(6) == 0:
                s.map[sig] = handler('%s, %d, once' % (s.name, sig), lambda: once(s))
            elif c.draw(8) == 0:
                s.map[sig] = signal.SIG_IGN
            else:
                s.map[sig] = shared = handler('%s, %d' % (s.name, sig))
        s.hopeless = c.draw(6) == 0
        if s.hopeless:
            items = list(s.map.items())
            items.insert(c.draw(len(items) + 1), (signal.SIGKILL, handler('never')))
            s.map = dict(items)
        if not s.map:
            sim.probe('no signals at all')
        s.map = dict(s.map)
        s.real = spewer.SignalService(dict(s.map))
        s.old = {}
        services.append(s)
        return s
    for i in range(1 + c.draw(4)):
        make(i)
    stack = []              # services that replaced something, in the order of their start

    def arrive(when):
        """A signal, now."""
        sig = c.pick(SIGS)
        before = len(got)
        allowed = [model[sig]]
        ch = state['changing']
        if ch is not None and sig in ch['to']:
            allowed.append(ch['to'][sig])
        sim.faults['signal'] += 1
        sim.trace('signal', int(sig), when)
        sim.probe('signal ' + when)
        h = names.get(sigs.getsignal(sig), 'something else')
        if h not in allowed:
            sim.note_violation('handled', 'signal %d %s: handled by %r, should be %r' % (sig, when, h, allowed))
        # (handlers that stop a service are not called in the middle of a change)
        if not ('once' in h and ch is not None):
            sigs.deliver(sig)
            if h not in ('default', 'ignored') and got[before:before + 1] != [(h, int(sig))]:
                sim.note_violation('handled', 'signal %d %s was not handled' % (sig, when))

    def between():
        if c.draw(4) == 0:
            sim.nontrivial = True
            arrive('while starting' if state['changing']['starting'] else 'while stopping')
    sigs.between = lambda: between() if state['changing'] is not None else None

    def settled(what):
        have = view()
        if have != model:
            bad = [int(s) for s in SIGS if have[s] != model[s]]
            sim.violate('disposition', 'after %s: signals %s are handled by %s, should be %s' % (
                what, bad, [have[s] for s in bad], [model[s] for s in bad]))

    def starting(s):
        """The changes a start of s makes."""
        to = {}
        for sig in s.map:
            if sig == signal.SIGKILL:
                break
            to[sig] = names[s.map[sig]]
        return to

    def start(s, how=None):
        if s.starts:
            sim.probe('restarted')
        s.starts += 1
        to = starting(s)
        if any(sig in t.old for t in stack for sig in to):
            sim.probe('shared signal')
            sim.nontrivial = True
        s.old = dict((sig, model[sig]) for sig in to)
        state['changing'] = {'starting': True, 'to': to}
        sim.trace('start', s.name)
        try:
            (how or s.real.startService)()
        except OSError:
            if not s.hopeless:
                raise
            sim.probe('start failed')
            sim.nontrivial = True
            s.failed = True
            s.maybe = to
        else:
            if s.hopeless:
                sim.violate('start', 'a service with a signal that cannot be handled was started')
            model.update(to)
        state['changing'] = None
        s.running = True
        stack.append(s)
        if s.failed:
            # what it has set is in effect, or was given back already
            have = view()
            for sig in to:
                if have[sig] == to[sig]:
                    model[sig] = to[sig]
        settled('starting ' + s.name)
        if not s.failed:
            sim.expect(s.real.running, 'running', 'a service that was started does not say so')

    def stop(s):
        if stack[-1] is not s:
            sim.probe('stopped out of order')
        stack.remove(s)
        to = dict(s.old)
        state['changing'] = {'starting': False, 'to': to}
        sim.trace('stop', s.name)
        if s.failed:
            sim.probe('stopped after a failed start')
        s.real.stopService()
        state['changing'] = None
        model.update(to)
        s.running = s.failed = False
        s.old = {}
        settled('stopping ' + s.name)
        sim.expect(not s.real.running, 'running', 'a service that was stopped says it is running')

    def once(s):
        if s.running and can_stop(s) and state['changing'] is None:
            sim.probe('handler stopped its service')
            stop(s)

    def can_stop(s):
        i = stack.index(s)
        return not any(sig in t.old for t in stack[i + 1:] for sig in s.old)

    def step():
        k = c.draw(6)
        if k < 2:
            free = [s for s in services if not s.running]
            if free:
                start(c.pick(free))
        elif k == 2:
            ok = [s for s in stack if can_stop(s)]
            if ok:
                stop(c.pick(ok))
        elif k == 3 and stack:
            s = c.pick(stack)
            if not s.failed:
                # the application changes the map of a running service
                sim.probe('map changed while running')
                for sig in c.subset(SIGS, 0.3):
                    if sig in s.real.sigmap and c.draw(2):
                        del s.real.sigmap[sig]
                    else:
                        s.real.sigmap[sig] = handler('%s, changed' % s.name)
                s.hopeless = signal.SIGKILL in s.real.sigmap
                s.map = dict(s.real.sigmap)
        else:
            arrive('while running' if stack else 'after all')

    tree = c.draw(4) == 0
    if tree:
        below_parent(sim, service, services, starting, model, state, stack, settled, arrive)
    else:
        for i in range(2 + c.draw(12)):
            step()
            sim.check()
        while stack:
            stop(stack[-1])
            sim.check()
    settled('everything')
    sim.check()
    sim.expect(view() == initial, 'disposition', 'something is left behind')
    for i in range(c.draw(3)):
        arrive('after all')
    sim.check()
    errs = sim.take_errors()
    sim.expect(not errs, 'log', 'logged %s', [e[:2] for e in errs[:2]])
    sim.sample = {'services': len(services), 'tree': tree}


def below_parent(sim, service, services, starting, model, state, stack, settled, arrive):
    """The services are the children of a MultiService."""
    c = sim.c
    sim.probe('below a MultiService')
    parent = service.MultiService()
    usable = [s for s in services if not s.hopeless]
    late = c.draw(len(usable) + 1)
    top = parent
    if c.draw(2):
        top = service.MultiService()
        parent.setServiceParent(top)
    for s in usable[late:]:
        s.real.setServiceParent(parent)
    for round in range(1 + c.draw(2)):
        before = dict(model)
        mixed = {}
        children = usable[late:] if round == 0 else usable[late:] + usable[:late]
        for s in children:
            mixed.update(starting(s))
        # while they start, each signal is handled by some stage
        state['changing'] = None
        top.startService()
        model.update(mixed)
        settled('starting all')
        if round == 0:
            for s in usable[:late]:
                sim.probe('service added to a running parent')
                s.real.setServiceParent(parent)
                model.update(starting(s))
                settled('adding ' + s.name)
        for i in range(c.draw(4)):
            arrive('while running')
        d = top.stopService()
        fired = []
        if d is not None:
            d.addCallback(fired.append)
            sim.expect(fired, 'stop', 'stopping has not finished')
            for r in fired[0] or ():
                sim.expect(r is None or r[0], 'stop', 'stopping failed: %s', r)
        model.clear()
        model.update(before)
        settled('stopping all')
