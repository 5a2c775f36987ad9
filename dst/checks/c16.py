"""
C16: scheduled work progresses only while its service runs, and reports once.

System: real SchedulingServices and iterateInReactor over the real twisted
Cooperator and a real ReactorBase in simulated time.  Iterators work, wait for
Deferreds, raise, finish, add more work, and stop or start their own service;
services are started, stopped and restarted at any time; the clock advances
during a time slice as the seed says.
"""
from twisted.internet.defer import Deferred
from twisted.internet.task import SchedulerStopped
from twisted.python.failure import Failure

RUNS = (24000, 800000)
RULE = ('seeded populations of iterators and histories of start/stop/restart, also from inside the work x clock advance '
        'within slices; non-trivial: work was pending at a stop or start, or iterators waited, raised or added work')
REAL = ['epsilon.cooperator', 'twisted Cooperator, reactor delayed calls']
STUB = ['time (dst.core)', 'the work itself (scripted iterators)']
PROBES = ['added before start', 'added while running', 'added after stop', 'stopped with work pending', 'restarted',
          'waited', 'wait failed', 'raised', 'finished', 'slice ended early', 'stop from inside', 'work added from inside',
          'in the reactor', 'empty iterator', 'wait over while stopped', 'wait over after restart', 'many at once', 'start again from inside']
FAULTS = ['iterator raises', 'clock jump in slice', 'service stopped']


class WorkFailed(Exception):
    pass


def run(sim):
    from epsilon import cooperator
    c = sim.c
    sim.reactor
    state = {'interesting': False, 'serial': 0}
    works = []
    fair = c.draw(2)

    class Place(object):
        """Where work runs: a service, or the reactor itself."""

        def __init__(self, name):
            self.name = name
            self.runs = name == 'reactor'
            self.stopped = False
            self.svc = None if self.runs else cooperator.SchedulingService()
            self.stepping = False

        def add(self, w):
            if self.svc is None:
                sim.probe('in the reactor')
                return cooperator.iterateInReactor(w) if c.draw(2) else cooperator.iterateInReactor(w, 0.5)
            return self.svc.addIterator(w)

    places = [Place('s%d' % i) for i in range(1 + c.draw(2))] + [Place('reactor')]

    class Work(object):
        def __init__(self, place):
            self.place = place
            self.i = len(works)
            works.append(self)
            self.n = c.pick([3, 0, 1, 8, 20, 60])
            self.steps = 0
            self.waiting = None
            self.results = []
            self.over = None          # 'finished', exception, 'stopped'
            self.order = []
            self.counts = None
            self.script = {}
            for k in range(c.draw(4)):
                self.script[c.draw(max(1, self.n))] = c.pick(['wait', 'wait fails', 'raise', 'add', 'slow', 'stop', 'restart'])

        def __iter__(self):
            return self

        def __next__(self):
            p = self.place
            sim.trace('step', self.i, self.steps)
            if not p.runs:
                sim.note_violation('ran', 'an iterator was advanced while its service was not running')
            if self.waiting is not None:
                sim.note_violation('ran', 'an iterator was advanced while waiting for a Deferred')
            if self.over is not None:
                sim.note_violation('ran', 'an iterator was advanced after its end (%s)' % (self.over,))
            if p.stepping:
                sim.note_violation('ran', 'two iterators were advanced at the same time')
            p.stepping = True
            try:
                return self.step()
            finally:
                p.stepping = False
        next = __next__

        def step(self):
            p = self.place
            # nobody who could run may fall far behind
            for w in works:
                if w is not self and w.place is p and w.runnable():
                    w.behind[self.i] = w.behind.get(self.i, 0) + 1
                    if w.behind[self.i] > 8:
                        sim.note_violation('starved', 'iterator %d made %d steps while %d, ready to run, made none' % (
                            self.i, w.behind[self.i], w.i))
            self.behind = {}
            what = self.script.get(self.steps)
            if self.steps >= self.n:
                if not self.n:
                    sim.probe('empty iterator')
                self.over = 'finished'
                sim.probe('finished')
                raise StopIteration()
            self.steps += 1
            if what == 'raise':
                sim.probe('raised')
                sim.faults['iterator raises'] += 1
                state['interesting'] = True
                self.over = self.exc = WorkFailed('work %d' % self.i)
                raise self.over
            if what in ('wait', 'wait fails'):
                sim.probe('waited')
                state['interesting'] = True
                d = Deferred()
                self.waiting = d

                def go():
                    self.waiting = None
                    self.behind = {}
                    sim.trace('wait over', self.i)
                    if p.stopped and not p.runs:
                        sim.probe('wait over while stopped')
                        if what == 'wait':
                            self.over = 'stopped'
                    elif self.era != p.era:
                        sim.probe('wait over after restart')
                    if what == 'wait':
                        d.callback('ignored')
                    else:
                        sim.probe('wait failed')
                        self.over = self.exc = WorkFailed('wait %d' % self.i)
                        d.errback(Failure(self.over))
                wait = c.pick([0, 1, 20, 100]) / 10.0
                if wait == 0 and c.draw(2):
                    self.waiting = None
                    if what == 'wait':
                        d.callback(None)
                    else:
                        sim.probe('wait failed')
                        self.over = self.exc = WorkFailed('wait %d' % self.i)
                        d.errback(Failure(self.over))
                else:
                    sim.after(wait, go, 'wait over')
                return d
            if what == 'add' and len(works) < 14:
                sim.probe('work added from inside')
                state['interesting'] = True
                add(p)
            elif what == 'slow':
                sim.faults['clock jump in slice'] += 1
                sim.probe('slice ended early')
                sim.slice_advance += c.pick([0.02, 5.0, 0.009])
            elif what in ('stop', 'restart') and p.svc is not None and p.runs:
                sim.probe('stop from inside')
                stop(p)
                if what == 'restart':
                    sim.probe('start again from inside')
                    start(p)
            return c.pick([None, 0, 'value', [1]])

        def runnable(self):
            return self.place.runs and self.over is None and self.waiting is None
    Work.behind = None

    def add(p):
        w = Work(p)
        w.behind = {}
        w.era = p.era
        sim.trace('add', w.i, p.name)
        if p.svc is not None:
            if p.runs:
                sim.probe('added while running')
            elif p.stopped:
                sim.probe('added after stop')
                w.over = 'stopped'
            else:
                sim.probe('added before start')
                state['interesting'] = True
        if len([x for x in works if x.runnable()]) > 3:
            sim.probe('many at once')
        d = p.add(w)

        def done(res):
            w.results.append(res)
            sim.trace('result', w.i, res.type.__name__ if isinstance(res, Failure) else 'done')
            if len(w.results) > 1:
                sim.note_violation('twice', 'the Deferred of an iterator fired twice')
            if w.over == 'finished':
                if res is not w:
                    sim.note_violation('result', 'an exhausted iterator gave %r' % (res,))
            elif w.over == 'stopped':
                if not isinstance(res, Failure) or not res.check(SchedulerStopped):
                    sim.note_violation('result', 'an iterator stopped with its service gave %r' % (res,))
            elif w.over is not None:
                if not isinstance(res, Failure) or res.value is not w.exc:
                    sim.note_violation('result', 'an iterator that raised gave %r' % (res,))
            else:
                sim.note_violation('early', 'the Deferred of an iterator that is not done fired with %r' % (res,))
        if not isinstance(d, Deferred):
            sim.violate('deferred', 'adding work gave %r, not a Deferred' % (d,))
        d.addBoth(done)
        if w.over == 'stopped' and len(w.results) != 1:
            sim.note_violation('result', 'work added to a stopped service was not refused')

    for p in places:
        p.era = 0

    def start(p):
        if p.svc is None or p.runs:
            return
        sim.trace('start', p.name)
        if p.stopped:
            sim.probe('restarted')
            state['interesting'] = True
        p.runs = True
        p.stopped = False
        p.era += 1
        p.svc.startService()
        if not p.svc.running:
            sim.note_violation('running', 'a started service does not say that it is running')

    def stop(p):
        if p.svc is None or not p.runs:
            return
        sim.trace('stop', p.name)
        sim.faults['service stopped'] += 1
        hit = [w for w in works if w.place is p and w.over is None and w.waiting is None]
        if hit:
            sim.probe('stopped with work pending')
            state['interesting'] = True
        for w in hit:
            w.over = 'stopped'
        p.runs = False
        p.stopped = True
        p.svc.stopService()
        for w in hit:
            if len(w.results) != 1:
                sim.note_violation('stop', 'stopping a service did not report to a pending iterator')
        if p.svc.running:
            sim.note_violation('running', 'a stopped service says that it is running')

    for p in places:
        if p.svc is not None and p.svc.running:
            sim.violate('running', 'a new service says that it is running')
        burst = c.draw(3) == 0
        for i in range(c.draw(5) + 2 * burst):
            sim.after(0.0 if burst else c.draw(80) / 10.0, lambda p=p: len(works) < 14 and add(p), 'add')
        if p.svc is not None:
            at = c.draw(40) / 10.0
            sim.after(at, lambda p=p: start(p), 'start')
            for i in range(c.draw(3)):
                at += c.draw(60) / 10.0 + 0.05
                sim.after(at, lambda p=p: stop(p), 'stop')
                at += c.draw(60) / 10.0
                if c.draw(3):
                    sim.after(at, lambda p=p: start(p), 'start')
    sim.sample = {'places': len(places)}
    sim.run()
    for w in works:
        p = w.place
        if p.runs:
            sim.expect(w.over is not None, 'progress', 'iterator %d did not get to its end (%d of %d steps) though its service runs',
                       w.i, w.steps, w.n)
        sim.expect(len(w.results) == (w.over is not None), 'result', 'iterator %d (%s) has %d results', w.i, w.over, len(w.results))
    sim.nontrivial = bool(state['interesting'])
    errs = sim.take_errors()
    sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
    # the real time slices must not leak into the next run
    sim.slice_advance = 0.0
