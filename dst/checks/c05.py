"""
C05: Juice errors arrive as declared, and only fatal, undeclared and
unhandled ones end the connection.

System: as C03, handlers failing in every way (declared, subclass of a
declared error, fatal, undeclared, no handler at all; at once or later), with
and without an answer wanted, and callers that do or do not handle the error.
Nothing else closes the connection, so every close and every log entry must be
explained by exactly one of those causes, and every outcome must be the
planned one unless the connection closed first.
"""
from collections import Counter

from twisted.internet import defer, error
from twisted.python.failure import Failure

from .. import gen, juicelab

COLLECT = True
RUNS = (14000, 400000)
RULE = ('seeded mixes of succeeding and failing handlers (declared/fatal/undeclared/unknown, sync/async) and handling/'
        'non-handling callers x segmentation x delays; non-trivial: at least one failure')
REAL = ['epsilon.juice at both ends', 'epsilon.liner']
STUB = ['TCP transport (dst.net)', 'command handlers (scripted)']
PROBES = ['wrapper', 'declared', 'child', 'other', 'fatal', 'fatalchild', 'closer', 'fatalcloser', 'milder', 'undeclared', 'unknown', 'async failure', 'sync failure', 'unhandled by caller',
          'callback of the caller raised', 'still usable after declared error', 'no-answer failure',
          'failure while others in flight', 'nasty message', 'error raced with close', 'nobody', 'library error', 'bad return value', 'bad arguments']
FAULTS = ['segment split', 'handler failure', 'caller failure']


class CallerError(Exception):
    pass


def undeclared_types():
    """Errors no command declares, those of the libraries included."""
    from epsilon import juice
    return [juicelab.Undeclared, AssertionError, KeyError, ValueError, NotImplementedError, OSError, juice.JuiceError,
            juice.UnhandledCommand, juice.MalformedJuiceBox, juice.IncompatibleVersions, error.ConnectionLost,
            defer.CancelledError, UnicodeError, MemoryError]


def run(sim):
    from epsilon import juice
    c = sim.c
    nconn = c.pick([1, 1, 2])
    w = juicelab.World(sim, None, nconn=nconn, wrapped=c.draw(4) == 0)
    benign = c.draw(2)           # half of the runs never close the connection
    sim.nontrivial = False
    expected_log = Counter()
    closers = {}                 # transport name -> reasons to close, in order
    saw_failure = [False]
    CLOSED = (error.ConnectionDone, error.ConnectionLost)

    def make_error(r, kind):
        m = c.pick([gen.text(c, rare_long=False), '']) if c.draw(2) else 'detail %d' % (r.rid,)
        if m != 'detail %d' % (r.rid,):
            sim.probe('nasty message')
        if kind == 'undeclared':
            m = 'TOPSECRET%d' % (r.rid,)
            r.message = m
            return r.undeclared(m)
        r.message = m
        return {'declared': juicelab.DeclaredError, 'child': juicelab.DeclaredChild,
                'other': juicelab.OtherDeclared, 'fatal': juicelab.FatalDeclared,
                'fatalchild': juicelab.FatalChild, 'closer': juicelab.Closer,
                'fatalcloser': juicelab.FatalCloser, 'milder': juicelab.Milder}[kind](m)
    w.make_error = make_error

    def failing(end, r, kind):
        """Just before the handler of r at end fails."""
        sim.faults['handler failure'] += 1
        saw_failure[0] = True
        sim.probe(kind)
        t = end.transport
        r.fail_open = t.connected and not t.disconnecting
        r.fail_time = sim.now
        if kind == 'undeclared':
            expected_log[r.undeclared.__name__] += 1
        if not r.answer:
            sim.probe('no-answer failure')
            if kind == 'undeclared' and r.fail_open:
                expect_close(end, 'failure of a command without answer')
            return
        if kind in ('undeclared', 'fatal', 'fatalchild', 'fatalcloser') and r.fail_open:
            expect_close(end, kind)

    def expect_close(end, why):
        end.must_close = why
        closers.setdefault(end.who, []).append(why)

    real_outcome = w.outcome

    def outcome(end, r, kind, sync):
        if kind != 'ok':
            sim.probe('sync failure' if sync else 'async failure')
            if any(len(e.open_requests) > 1 for e in end.conn.ends):
                sim.probe('failure while others in flight')
            failing(end, r, kind)
            r.finished = True
            w.order += 1
            r.finished_seq = w.order
            if r.badreturn:
                return {}
            raise make_error(r, kind)
        return real_outcome(end, r, kind, sync)
    w.outcome = outcome

    for conn in w.conns:
        for e in conn.ends:
            e.must_close = None

    def audit():
        """After every delivery and handler: closes are exactly the explained ones."""
        for conn in w.conns:
            for e in conn.ends:
                t = e.transport
                if e.must_close and t.connected and not t.disconnecting:
                    sim.violate('close', '%s after %s: the connection was not closed' % (e.who, e.must_close))
                if t.asked_close and not e.must_close:
                    sim.violate('close', '%s closed the connection although nothing that calls for it happened' % (e.who,))

    def issue(end):
        t = end.transport
        if not t.connected or t.disconnecting:
            return
        kinds = ['ok', 'declared', 'child', 'other']
        answer = True
        handle = True
        boom = False
        if not benign:
            kinds += ['fatal', 'fatalchild', 'undeclared', 'unknown', 'nobody', 'badargs']
            if c.chance(0.1):
                handle = False
            elif c.chance(0.1):
                boom = True
        kind = c.pick(kinds)
        if c.chance(0.1) and (kind == 'ok' or (kind == 'undeclared')):
            answer = False
            handle = True
            boom = False
        name = c.pick(['Plain', 'Numbers', 'Maybe', 'Derived', 'Family'])
        if name == 'Family' and answer and kind in ('declared', 'child', 'other', 'fatal', 'fatalchild') and c.draw(2):
            kind = c.pick(['closer', 'milder'] + ['fatalcloser'] * (not benign))
        when = 'sync' if c.draw(2) else c.draw(60) / 10.0
        undeclared, badreturn = juicelab.Undeclared, False
        if kind == 'undeclared' and c.draw(2):
            if c.draw(4) == 0:
                # an answer that lacks what the command promises
                name, undeclared, badreturn = 'Plain', KeyError, True
                sim.probe('bad return value')
            else:
                undeclared = c.pick(undeclared_types())
                sim.probe('library error')
        if kind == 'badargs':
            name, kind = 'badargs', 'unknown'
        elif kind == 'unknown':
            name, kind = 'unknown', 'unknown'
        elif kind == 'nobody':
            name, kind = 'Nobody', 'unknown'
            sim.probe('nobody')

        def after(r):
            res = r.results[0]
            failed = isinstance(res, Failure)
            lostconn = failed and res.check(*CLOSED)
            if lostconn:
                return
            if boom:
                sim.faults['caller failure'] += 1
                sim.probe('callback of the caller raised')
                saw_failure[0] = True
                blame(end, r, 'CallerError')
                raise CallerError('caller %d' % (r.rid,))
            if failed and not handle:
                sim.faults['caller failure'] += 1
                sim.probe('unhandled by caller')
                blame(end, r, res.type.__name__)
        r = w.issue(end, name, answer=answer, plan=(kind, when), handle=handle, after=after)
        r.kind = kind
        r.boom = boom
        r.undeclared = undeclared
        r.badreturn = badreturn

    def blame(end, r, typename):
        expected_log[typename] += 1
        if end.transport.connected and not end.transport.disconnecting:
            expect_close(end, 'an error the caller left unhandled')
        if end.must_close is None:
            end.must_close = 'an error the caller left unhandled'

    # unknown commands fail in the dispatcher, not in a handler: note it when
    # the box arrives
    class_received = {}
    real_received = w.Lab.juiceBoxReceived

    def juiceBoxReceived(self, box):
        cmd = box.get(juice.COMMAND)
        if cmd in ('no-such-command', 'Nobody') or (cmd == 'Plain' and 'text' not in box):
            if cmd == 'Plain':
                sim.probe('bad arguments')
            rid = int(box['rid'])
            r = w.requests[rid]
            sim.probe('unknown')
            sim.faults['handler failure'] += 1
            saw_failure[0] = True
            expected_log['KeyError' if cmd == 'Plain' else 'UnhandledCommand'] += 1
            t = self.transport
            r.fail_open = t.connected and not t.disconnecting
            r.finished = True
            w.order += 1
            r.finished_seq = w.order
            if r.fail_open:
                expect_close(self, 'unknown command')
        return real_received(self, box)
    w.Lab.juiceBoxReceived = juiceBoxReceived

    for conn in w.conns:
        for t in (conn.a, conn.b):
            def receive(data, real=t.receive):
                real(data)
                audit()
            t.receive = receive
    real_deliver = w.deliver

    def deliver(end, r, fire):
        real_deliver(end, r, fire)
        audit()
    w.deliver = deliver

    n = c.int(1, 10)
    at = 0.0
    for i in range(n):
        conn = c.pick(w.conns)
        sim.after(at, lambda end=conn.ends[c.draw(2)]: issue(end), 'issue')
        if c.draw(2):
            at += c.draw(40) / 10.0
    sim.sample = {'requests': n, 'connections': nconn, 'never closes': bool(benign)}
    sim.run()
    audit()

    for conn in w.conns:
        for t in (conn.a, conn.b):
            sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [str(e.value)[:150] for e in t.data_errors])
            sim.expect(b'TOPSECRET' not in t.received, 'leak', 'details of an undeclared failure were sent to the caller')
        if any(e.must_close for e in conn.ends):
            for t in (conn.a, conn.b):
                sim.expect(not t.connected, 'close', 'an end is still open after the connection was closed')

    for r in sorted(w.requests.values(), key=lambda r: r.rid):
        e, p = r.end, r.end.peer
        if not r.answer:
            sim.expect(not r.results, 'outcome', 'a command without answer got a result')
            continue
        closed = bool(e.must_close or p.must_close)
        sim.expect(len(r.results) == 1, 'outcome', 'request %d has %d results', r.rid, len(r.results))
        res = r.results[0]
        if isinstance(res, Failure) and res.check(*CLOSED):
            sim.expect(closed, 'outcome', 'request %d failed with connection loss on an open connection', r.rid)
            sim.probe('error raced with close')
            # the error that closes the connection is sent before it closes
            if r.kind in ('fatal', 'fatalchild', 'fatalcloser', 'undeclared', 'unknown') and getattr(r, 'fail_open', False):
                if not e.must_close:
                    sim.violate('outcome', 'request %d: the connection was closed without sending its %s error' % (
                        r.rid, r.kind))
            continue
        if r.kind == 'ok':
            sim.expect(not isinstance(res, Failure), 'outcome', 'request %d failed: %s', r.rid, res)
            w.check_success(r, res)
            if not closed and any(q.kind in ('declared', 'child', 'other', 'closer', 'milder') and q.end.conn is e.conn and
                                  getattr(q, 'finished_seq', 1e9) < r.issued_seq for q in w.requests.values()):
                sim.probe('still usable after declared error')
            continue
        sim.expect(isinstance(res, Failure), 'outcome', 'request %d succeeded although its handler failed', r.rid)
        if r.kind in ('declared', 'child', 'other', 'fatal', 'fatalchild', 'closer', 'fatalcloser', 'milder'):
            want = {'declared': juicelab.DeclaredError, 'child': juicelab.DeclaredError,
                    'other': juicelab.OtherDeclared, 'fatal': juicelab.FatalDeclared,
                    'fatalchild': juicelab.FatalDeclared, 'closer': juicelab.Closer,
                    'fatalcloser': juicelab.FatalCloser, 'milder': juicelab.Milder}[r.kind]
            sim.expect(res.type is want, 'outcome', 'request %d: handler raised %s, caller got %s: %s', r.rid,
                       want.__name__, res.type.__name__, res.getErrorMessage())
            sim.expect(str(res.value) == r.message, 'outcome', 'request %d: message %r became %r', r.rid,
                       r.message, str(res.value))
        elif r.name in ('unknown', 'badargs'):
            sim.expect(res.check(juice.RemoteJuiceError), 'outcome', 'unknown command gave %s', res.type.__name__)
            sim.expect(res.value.errorCode in ('UNHANDLED', b'UNHANDLED'), 'outcome',
                       'unknown command gave the error code %r', res.value.errorCode)
        else:
            sim.expect(res.type is juice.UnhandledRemoteJuiceError, 'outcome', 'request %d: undeclared failure arrived as %s',
                       r.rid, res.type.__name__)
            sim.expect('TOPSECRET' not in str(res.value), 'leak', 'details of an undeclared failure reached the caller')
    sim.nontrivial = saw_failure[0]
    for r in w.requests.values():
        if getattr(r, 'd', None) is not None:
            r.d.addErrback(lambda f: None)
    logged = Counter(e[0] for e in sim.take_errors())
    sim.expect(logged == expected_log, 'log', 'logged %r, expected %r', dict(logged), dict(expected_log))
