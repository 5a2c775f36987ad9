"""
C15: react runs the reactor until main is done and stops it exactly once.

System: the real react over a real twisted ReactorBase (its real start-up and
shutdown events, delayed calls, stop) driven by simulated time.  The Deferred
of main fires - with a result or a failure - before, at or after start-up,
during each phase of shutdown, or never; others stop the reactor at any of the
same moments; shutdown itself may take time.
"""
from twisted.internet.defer import AlreadyCalledError, CancelledError, Deferred
from twisted.internet.error import ReactorNotRunning
from twisted.python.failure import Failure

RUNS = (30000, 1000000)
RULE = ('seeded timings of the Deferred of main and of other stops over start-up, running and shutdown phases, with slow '
        'shutdown and other work pending; non-trivial: somebody else stopped the reactor too, or the Deferred fired '
        'outside of plain running')
REAL = ['epsilon.react', 'twisted ReactorBase (events, delayed calls, run, stop)']
STUB = ['time and I/O of the reactor (dst.core)', 'main and the other parties (scripted)']
PROBES = ['fired before run', 'fired at start-up', 'fired while running', 'fired during shutdown', 'never fired', 'failed',
          'stopped by others first', 'stopped by others in the same event before', 'stopped by others in the same event after',
          'stop at start-up', 'stop from a thread', 'slow shutdown', 'fired after stop, before shutdown began',
          'fired with a chained result', 'fired after return', 'two others', 'cancelled']
FAULTS = ['main fails', 'stopped by others', 'slow shutdown']


class MainFailed(Exception):
    pass


# nothing about the kind of failure makes it less of one
KINDS = [MainFailed, CancelledError, SystemExit, ReactorNotRunning, StopIteration, KeyboardInterrupt, AlreadyCalledError]


def run(sim):
    from epsilon.react import react
    c = sim.c
    reactor = sim.reactor
    calls = []
    state = {'fired': None, 'stops': [], 'asked': None, 'returned': False, 'running': False, 'phase': 'before', 'boring': True,
             'down': None}
    real_stop = reactor.stop

    def stop():
        real_stop()
        # only reached when it was accepted
        state['stops'].append(sim.now)
        sim.trace('stop accepted')
    reactor.stop = stop
    d = Deferred()
    fails = c.draw(3) == 2
    kind = c.pick(KINDS) if fails else MainFailed

    def fire():
        if state['fired'] is not None:
            return
        state['fired'] = sim.now
        state['fired phase'] = state['phase']
        sim.trace('fire', state['phase'], fails)
        if state['phase'] == 'running':
            sim.probe('fired while running')
            if state['asked'] is not None and state['down'] is None:
                sim.probe('fired after stop, before shutdown began')
        elif state['phase'] == 'shutdown':
            sim.probe('fired during shutdown')
        elif state['phase'] == 'startup':
            sim.probe('fired at start-up')
        elif state['phase'] == 'before':
            sim.probe('fired before run')
        if state['phase'] != 'running':
            state['boring'] = False
        if fails:
            sim.probe('failed')
            sim.faults['main fails'] += 1
            if kind is CancelledError and c.draw(2):
                sim.probe('cancelled')
                d.cancel()
            else:
                d.errback(Failure(kind('main')))
        else:
            d.callback(c.pick(['result', None, 0, False, ()]))
        if state['phase'] == 'running' and state['asked'] is None:
            sim.expect(state['stops'], 'time', 'the reactor was not stopped at the moment main was done')

    def other(how='stop'):
        if state['returned']:
            return
        if state['fired'] is None:
            state['boring'] = False
        sim.trace('other', how)
        try:
            if how == 'thread':
                sim.probe('stop from a thread')
                if state['asked'] is None and state['fired'] is None:
                    reactor.callFromThread(lambda: other('stop'))
                return
            reactor.stop()
        except ReactorNotRunning:
            return
        sim.faults['stopped by others'] += 1
        sim.probe('stopped by others first')
        state['boring'] = False
        state['asked'] = sim.now

    args = [c.pick([1, 'x', None, [2], {}]) for _ in range(c.draw(5))]
    when = c.pick(['running', 'before', 'startup before', 'startup during', 'startup after', 'callWhenRunning', 'shutdown before',
                   'shutdown during', 'shutdown after', 'never', 'running', 'same event', 'chained', 'late chained'])
    timed = when in ('running', 'same event', 'chained', 'late chained')
    t_fire = c.draw(50) / 10.0
    others = [c.pick(['running', 'startup before', 'startup during', 'startup after', 'callWhenRunning', 'same event before',
                      'same event after', 'thread', 'shutdown before', 'shutdown during', 'shutdown after', 'in main', 'early'])
              for _ in range(c.draw(4))]
    if (when == 'never' or when.startswith('shutdown')) and not any(
            o in ('running', 'thread', 'callWhenRunning') or o.startswith('startup') for o in others):
        others.append('running')
    if when == 'never':
        sim.probe('never fired')
    if len(others) > 1:
        sim.probe('two others')
    slows = [c.draw(30) / 10.0 for _ in range(c.draw(3))] if c.draw(4) == 3 else []
    slow = max(slows + [0.0])

    def begin_shutdown():
        state['phase'] = 'shutdown'
        state['down'] = sim.now
        sim.trace('shutdown')

    def linger(t):
        sim.probe('slow shutdown')
        sim.faults['slow shutdown'] += 1
        w = Deferred()
        sim.after(t, lambda: w.callback(None), 'shutdown done')
        return w

    def arrange(slot, action):
        """Have action happen at slot; some of it is set up before react is called."""
        if slot == 'callWhenRunning':
            reactor.callWhenRunning(action)
        elif slot.startswith(('startup', 'shutdown')):
            event, phase = slot.split()
            reactor.addSystemEventTrigger(phase, event, lambda: [sim.trace('at', slot), action()] and None)
        elif slot == 'slow':
            reactor.addSystemEventTrigger('before', 'shutdown', linger, action)
        elif slot == 'running':
            at = t_fire if action is shot else c.draw(50) / 10.0
            if c.draw(2):
                sim.after(at, action, 'event')
            else:
                reactor.callLater(at, action)
        else:
            raise ValueError(slot)

    early, late = [], []

    def plan(slot, action):
        (late if c.draw(2) == 0 else early).append((slot, action))

    def running():
        state['phase'] = 'running'

    def main(r, *a):
        calls.append((r, a))
        sim.trace('main')
        if len(calls) > 1:
            sim.note_violation('main', 'main was called twice')
        if when == 'before':
            fire()
        if 'in main' in others:
            other()
        for slot, action in late:
            arrange(slot, action)
        reactor.addSystemEventTrigger('after', 'startup', running)
        if when in ('chained', 'late chained'):
            sim.probe('fired with a chained result')
            outer = Deferred()
            outer.addCallback(lambda ign: d)
            if when == 'chained':
                outer.callback(None)
            else:
                reactor.callWhenRunning(lambda: outer.callback(None))
            state['returned deferred'] = outer
            return outer
        state['returned deferred'] = d
        return d

    def shot():
        if 'same event before' in others:
            sim.probe('stopped by others in the same event before')
            other()
        fire()
        if 'same event after' in others:
            sim.probe('stopped by others in the same event after')
            other()

    # something else that goes on for ever must not keep react from returning
    def noise():
        if sim.now < 200 and not state['returned']:
            reactor.callLater(0.7, noise)
    reactor.callWhenRunning(noise)
    reactor.addSystemEventTrigger('before', 'shutdown', begin_shutdown)
    reactor.addSystemEventTrigger('during', 'startup', lambda: state.__setitem__('phase', 'startup'))
    if timed:
        plan('running', shot)
    elif when not in ('before', 'never'):
        plan(when, fire)
    for o in others:
        if o.startswith('same event'):
            if not timed:
                plan('running', other)
        elif o == 'thread':
            plan('running', lambda: other('thread'))
        elif o == 'early':
            other()
        elif o != 'in main':
            if o.startswith('startup') or o == 'callWhenRunning':
                sim.probe('stop at start-up')
            plan(o, other)
    for t in slows:
        plan('slow', t)
    for w in range(c.draw(3)):
        plan(c.pick(['running', 'startup during', 'callWhenRunning', 'shutdown before', 'shutdown during', 'shutdown after']),
             lambda w=w: sim.trace('noise', w))
    for slot, action in early:
        arrange(slot, action)
    sim.sample = {'fires': when, 'others': others, 'fails': fails, 'slow shutdown': slow}
    sim.trace('begin')
    res = react(reactor, main, args)
    state['returned'] = True
    back = sim.now
    sim.trace('returned')
    sim.expect(len(calls) == 1 and calls[0][0] is reactor and calls[0][1] == tuple(args), 'main', 'main was called as %r', calls)
    sim.expect(res is None, 'result', 'react returned %r', res)
    sim.expect(state['down'] is not None, 'shutdown', 'react returned without shutting the reactor down')
    sim.expect(len(state['stops']) == 1, 'stops', 'the reactor was stopped %d times', len(state['stops']))
    due = [x for x in (state['fired'] if state.get('fired phase') != 'shutdown' else None, state['asked']) if x is not None]
    sim.expect(due, 'early', 'the reactor was stopped although main was not done and nobody else stopped it')
    sim.expect(state['stops'][0] == min(due), 'time', 'the reactor was stopped at %r, it was due at %r', state['stops'][0], min(due))
    sim.expect(back == state['down'] + slow, 'time', 'react returned at %r, shutdown began at %r', back, state['down'])
    if state['fired'] is None:
        sim.probe('fired after return')
        fire()
    left = []
    state['returned deferred'].addErrback(left.append)
    sim.expect(not left, 'log', 'an error was left behind, to be logged: %s', [f.type.__name__ for f in left])
    logged = sorted(e[0] for e in sim.take_errors(collect=False))
    want = [kind.__name__] if fails and state['fired'] is not None else []
    sim.expect(logged == want, 'log', 'logged %r, expected %r', logged, want)
    sim.nontrivial = not state['boring']
