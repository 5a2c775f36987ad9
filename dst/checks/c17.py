"""
C17: a pending event reaches every waiter registered before it, once.

System: real PendingEvents and real Deferreds; seeded histories of handing
out, firing, failing and cancelling, and callbacks that do all of these again
from inside, across several events.
"""
from twisted.internet.defer import CancelledError
from twisted.python.failure import Failure

RUNS = (60000, 1500000)
RULE = ('seeded histories of register/fire/fail/cancel on 1-3 events, with nested actions run from the callbacks; '
        'non-trivial: something happened from inside a callback, or a waiter was cancelled')
REAL = ['epsilon.pending', 'twisted Deferred']
STUB = ['the waiters (scripted callbacks)', 'time (dst.core)']
PROBES = ['fired with waiters', 'fired with none', 'failed with a failure', 'failed with an exception', 'failed with the current exception',
          'registered inside', 'fired inside', 'fired inside same event', 'cancelled before', 'cancelled while firing', 'callback raised', 'falsy result',
          'several firings', 'nested three deep', 'falsy exception']
FAULTS = ['callback raises', 'cancel']


class Oops(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


def run(sim):
    from epsilon.pending import PendingEvent
    c = sim.c
    events = [PendingEvent() for i in range(1 + c.draw(3))]
    waiters = []                 # all of them
    waiting = [[] for e in events]     # model: who waits for the next firing
    state = {'depth': 0, 'acts': 0, 'firings': 0}
    order = []                   # model: firings in progress: list of remaining waiters

    class Waiter(object):
        pass

    def register(k):
        w = Waiter()
        w.k = k
        w.i = len(waiters)
        w.got = []
        w.want = None
        w.acts = [c.draw(7) for i in range(c.pick([0, 0, 1, 1, 2, 3]))]
        w.raises = c.draw(6) == 5
        waiters.append(w)
        w.d = events[k].deferred()
        waiting[k].append(w)
        sim.trace('register', k, w.i)
        if state['depth']:
            sim.probe('registered inside')
            sim.nontrivial = True

        def got(res):
            w.got.append(res)
            sim.trace('got', w.i, 'failure' if isinstance(res, Failure) else (repr(res) if type(res) is not object else 'an object'))
            if len(w.got) > 1:
                sim.note_violation('twice', 'a waiter was told twice')
            if w.want is None:
                sim.note_violation('early', 'waiter %d was told although its event did not fire' % w.i)
                return
            kind, val = w.want
            if kind == 'cancelled':
                if not isinstance(res, Failure) or not res.check(CancelledError):
                    sim.note_violation('result', 'a cancelled waiter got %r' % (res,))
            else:
                # in order, within the firing
                left = w.firing
                while left and left[0].want[0] == 'cancelled':
                    left.pop(0)
                if not left or left[0] is not w:
                    sim.note_violation('order', 'waiter %d was told before waiter %s of the same event' % (w.i, left and left[0].i))
                else:
                    left.pop(0)
                if kind == 'result' and res is not val:
                    sim.note_violation('result', 'a waiter got %r, not the %r the event fired with' % (res, val))
                if kind == 'failure' and (not isinstance(res, Failure) or res.value is not val):
                    sim.note_violation('result', 'a waiter got %r, not the failure the event failed with (%r)' % (res, val))
            state['depth'] += 1
            if state['depth'] >= 3:
                sim.probe('nested three deep')
            if state['depth'] < 5:
                for a in w.acts:
                    act(a)
            state['depth'] -= 1
            if w.raises:
                sim.probe('callback raised')
                sim.faults['callback raises'] += 1
                raise Oops('from a waiter')
        sim.expect(hasattr(w.d, 'addBoth'), 'deferred', 'no Deferred was handed out but %r', w.d)
        w.d.addBoth(got)
        w.d.addErrback(lambda f: f.trap(Oops))

    def fire(k, fail):
        told = [w for w in waiting[k]]
        waiting[k] = []
        firing = list(told)
        state['firings'] += 1
        if state['firings'] > 1:
            sim.probe('several firings')
        if state['depth']:
            sim.probe('fired inside')
            sim.nontrivial = True
            if any(x[0] == k for x in order):
                sim.probe('fired inside same event')
        sim.probe('fired with waiters' if told else 'fired with none')
        sim.trace('fire', k, fail)
        order.append((k, firing))
        if not fail:
            val = c.pick([object(), None, 0, '', False, 'text'])
            if not val:
                sim.probe('falsy result')
            for w in told:
                if w.want is None:
                    w.want, w.firing = ('result', val), firing
            events[k].callback(val)
        else:
            val = c.pick([Oops, Oops, Falsy])('event %d' % state['firings'])
            if isinstance(val, Falsy):
                sim.probe('falsy exception')
            for w in told:
                if w.want is None:
                    w.want, w.firing = ('failure', val), firing
            how = c.draw(3)
            if how == 0:
                sim.probe('failed with a failure')
                events[k].errback(Failure(val))
            elif how == 1:
                sim.probe('failed with the current exception')
                try:
                    raise val
                except Exception:
                    events[k].errback()
            else:
                sim.probe('failed with an exception')
                events[k].errback(val)
        order.remove((k, firing))
        for w in told:
            if w.want[0] != 'cancelled' and len(w.got) != 1:
                sim.note_violation('lost', 'waiter %d was told %d times by the time its event had fired' % (w.i, len(w.got)))

    def act(a):
        if state['acts'] > 60 or len(waiters) > 40:
            return
        state['acts'] += 1
        if a in (0, 1, 2):
            register(c.draw(len(events)))
        elif a == 3:
            fire(c.draw(len(events)), False)
        elif a == 4:
            fire(c.draw(len(events)), True)
        else:
            # cancel somebody who has not been told yet
            cands = [w for w in waiters if not w.got]
            if not cands:
                return
            w = c.pick(cands)
            if w.want is not None and w.want[0] == 'cancelled':
                return
            sim.probe('cancelled while firing' if w.want is not None else 'cancelled before')
            sim.faults['cancel'] += 1
            sim.nontrivial = True
            sim.trace('cancel', w.i)
            w.want = ('cancelled', None)
            w.d.cancel()
            if len(w.got) != 1:
                sim.note_violation('cancel', 'a cancelled waiter was not told')
    for i in range(3 + c.draw(14)):
        act(c.pick([0, 1, 2, 3, 3, 4, 5, 6]))
        sim.check()
    for w in waiters:
        sim.expect(len(w.got) == (w.want is not None), 'lost', 'waiter %d: told %d times, should be %d', w.i, len(w.got), w.want is not None)
    sim.sample = {'events': len(events), 'waiters': len(waiters)}
    errs = sim.take_errors()
    sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
