"""
C04: connection loss settles every outstanding Juice request exactly once.

System: as C03, plus loss of connections at seeded moments (orderly close by
either end, reset cutting both directions at any byte, abort), requests issued
after the loss and from inside the errbacks reporting it, handlers finishing
after the loss, cancelled requests.
"""
from twisted.internet import error
from twisted.internet.defer import CancelledError
from twisted.python.failure import Failure

from .. import juicelab

COLLECT = True
RUNS = (14000, 400000)
RULE = ('seeded request histories x kind and moment of connection loss x requests after and during the loss x late '
        'handlers; non-trivial: at least one request was outstanding when a connection was lost')
REAL = ['epsilon.juice at both ends', 'epsilon.liner']
STUB = ['TCP transport (dst.net)', 'command handlers (scripted)']
PROBES = ['outstanding at loss', 'many outstanding at loss', 'issued after loss', 'issued while losses are reported',
          'handler finished after loss', 'answered before loss', 'no-answer command after loss', 'cancelled',
          'loss of an idle connection', 'loss after a given byte', 'lost on first byte', 'survivor connection', 'late failure after loss', 'loss left unhandled',
          'nobody looking yet']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection close by b',
          'connection abort by a', 'connection abort by b']


def run(sim):
    c = sim.c
    nconn = c.pick([1, 1, 2])
    w = juicelab.World(sim, None, nconn=nconn)
    late = []
    reissue = c.pick([0, 0.5])
    names = c.pick([['Plain'], ['Plain', 'Numbers', 'old'], ['Texts', 'Maybe', 'Rows']])
    slow = c.pick([0.3, 1.0])
    state = {'outstanding': False}

    def plan(name, answer):
        if c.chance(slow) if slow < 1 else True:
            k = c.draw(3)
            if k == 2:
                return ('ok', 'never')
            kind = c.pick(['ok', 'ok', 'declared'])
            return (kind if name != 'old' and answer else 'ok', c.draw(150) / 10.0)
        return ('ok', 'sync')

    def during_report(end):
        # a request issued while the failures are being delivered
        def go(r):
            if end.is_lost and r.results and isinstance(r.results[0], Failure):
                sim.probe('issued while losses are reported')
                dead_issue(end)
        return go

    def dead_issue(end):
        answer = not c.chance(0.3)
        t = end.transport
        calls = []
        real = t.write
        t.write = lambda data: calls.append(data)
        try:
            r = w.issue(end, c.pick(names), answer=answer)
        finally:
            del t.write
        if not answer:
            sim.probe('no-answer command after loss')
            if r.d is None:
                sim.note_violation('after loss', 'a command issued after the loss did not fail')
                return
        if calls:
            sim.note_violation('after loss', 'a request issued after the loss wrote %r' % (calls[:1],))
        if len(r.results) != 1 or not isinstance(r.results[0], Failure):
            sim.note_violation('after loss', 'a request issued after the loss did not fail at once: %r' % (r.results,))
        elif not r.results[0].check(error.ConnectionLost, error.ConnectionDone, error.ConnectionAborted,
                                    error.ConnectionClosed):
            sim.note_violation('after loss', 'a request issued after the loss failed with %s' % (r.results[0].type,))

    def lost(end, reason, waiting):
        if waiting:
            state['outstanding'] = True
            sim.probe('outstanding at loss')
            if len(waiting) > 20:
                sim.probe('many outstanding at loss')
        else:
            sim.probe('loss of an idle connection')
        for r in waiting:
            w.watch(r)
            if len(r.results) != 1:
                sim.note_violation('loss', 'request %d has %d results once its connection has been lost' % (
                    r.rid, len(r.results)))
            elif getattr(r, 'cancelled', False):
                pass
            elif not isinstance(r.results[0], Failure) or r.results[0].value is not reason.value:
                sim.note_violation('loss', 'request %d, outstanding at the loss, got %r instead of the reason %r' % (
                    r.rid, r.results[0], reason.value))
            else:
                r.lost = True
        for r in w.requests.values():
            # an answer arriving is delivered in an earlier event, so what was
            # settled before stays settled: recorded results are compared at the end
            if r.end is end and r.results and r not in waiting:
                r.before = r.results[0]
                sim.probe('answered before loss')
    w.lost_hooks.append(lost)

    def issue(end):
        if not end.transport.connected:
            sim.probe('issued after loss')
            dead_issue(end)
            return
        after = during_report(end) if c.chance(reissue) else None
        name, answer = c.pick(names), not c.chance(0.1)
        p = plan(name, answer)
        # nobody has to handle the loss of a request
        # or to look at it at once (a Command does look)
        late_watch = name == 'old' and answer and c.draw(3) == 0
        r = w.issue(end, name, answer=answer, plan=p, after=after, handle=p[0] != 'ok' or late_watch or not c.chance(0.1),
                    late=late_watch)
        if late_watch:
            sim.probe('nobody looking yet')
            sim.after(c.draw(250) / 10.0, lambda: w.watch(r), 'watch')
        if r.d is not None and r.handle and not late_watch and c.chance(0.05):
            def cancel():
                if not r.results:
                    sim.probe('cancelled')
                    r.cancelled = True
                    r.d.cancel()
            sim.after(c.draw(50) / 10.0, cancel, 'cancel')

    n = c.int(1, 12) if not c.chance(0.03) else c.int(40, 90)
    at = 0.0
    for i in range(n):
        conn = c.pick(w.conns)
        sim.after(at, lambda end=conn.ends[c.draw(2)]: issue(end), 'issue')
        if c.draw(3) == 0:
            at += c.draw(30) / 10.0
    survivors = []
    for i, conn in enumerate(w.conns):
        if i > 0 and c.draw(2):
            survivors.append(conn)
            continue
        if c.draw(4) == 0:
            # right after some byte has been delivered
            k = c.draw(400)
            for t in (conn.a, conn.b):
                def receive(data, t=t, real=t.receive, conn=conn):
                    real(data)
                    if len(t.received) >= k and conn.open and not getattr(conn, 'dropped', False):
                        conn.dropped = True
                        sim.probe('lost on first byte' if k == 0 else 'loss after a given byte')
                        conn.drop()
                t.receive = receive
        sim.after(c.draw(200) / 10.0, lambda conn=conn: conn.drop(), 'drop')
    for k in range(c.draw(4)):
        conn = c.pick(w.conns)
        sim.after(40 + c.draw(100), lambda end=conn.ends[c.draw(2)]: issue(end), 'issue late')

    def finish_late():
        for r in sorted(w.requests.values(), key=lambda r: r.rid):
            f = getattr(r, 'late', None)
            if f is not None and not r.finished and c.draw(3):
                conn = r.end.conn
                if not r.end.peer.transport.connected:
                    sim.probe('handler finished after loss')
                    if c.chance(0.3) and r.answer and r.name != 'old':
                        r.plan = ('declared', 'never')
                        sim.probe('late failure after loss')
                f()
    sim.after(60 + c.draw(100), finish_late, 'late handlers')
    sim.sample = {'requests': n, 'connections': nconn, 'commands': names}

    # plan 'declared' is turned into an outcome by the world: allow both
    sim.run()
    for r in w.requests.values():
        if r.d is not None:
            w.watch(r)
    for conn in w.conns:
        for e in conn.ends:
            if e.is_lost:
                sim.expect(not e.transport.late_writes, 'after loss', 'written to a lost connection: %r', e.transport.late_writes[:1])
                sim.expect(not e.open_requests, 'loss', 'request %s never settled',
                           [r.rid for r in e.open_requests])
    for r in sorted(w.requests.values(), key=lambda r: r.rid):
        sim.expect(len(r.results) <= 1, 'loss', 'request %d has %d results', r.rid, len(r.results))
        if hasattr(r, 'before'):
            sim.expect(r.results[0] is r.before, 'loss', 'a settled request changed its outcome')
        if r.results and not isinstance(r.results[0], Failure):
            w.check_success(r, r.results[0])
        if r.end.is_lost and r.answer:
            sim.expect(len(r.results) == 1, 'loss', 'request %d has no result after the loss', r.rid)
        if r.results and isinstance(r.results[0], Failure):
            ok = (juicelab.DeclaredError, error.ConnectionLost, error.ConnectionDone, error.ConnectionAborted,
                  error.ConnectionClosed, CancelledError)
            f = r.results[0]
            sim.expect(f.check(*ok), 'loss', 'request %d failed with %s: %s', r.rid, f.type.__name__, f.getErrorMessage())
    for conn in survivors:
        for e in conn.ends:
            if e.is_lost:
                sim.violate('loss', 'a connection nobody dropped was lost')
            for r in e.open_requests:
                sim.expect(not r.finished or not r.answer or getattr(r, 'cancelled', False), 'loss',
                           'request %d on a surviving connection was not answered', r.rid)
        sim.probe('survivor connection')
    sim.nontrivial = state['outstanding']
    for r in w.requests.values():
        if not r.handle and r.d is not None:
            if r.results and isinstance(r.results[0], Failure):
                sim.probe('loss left unhandled')
            r.d.addErrback(lambda f: None)
    w.requests.clear()
    bad = sim.take_errors(collect=True)
    sim.expect(not bad, 'log', 'error logged: %s', [e[:2] for e in bad[:2]])
