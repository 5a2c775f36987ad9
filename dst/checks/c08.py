"""
C08: upgrading a Juice connection to TLS leaks and loses nothing.

System: two real Juice ends and a seeded stream of requests in both directions.
The client asks for TLS and announces it (prepareTLS); the server's answer
carries the start of TLS (TLSBox), at once or later; the client starts TLS when
the answer comes, or later.  The transport records what was written before and
after its startTLS, lets nothing written under TLS through until both ends have
started it, and treats clear bytes reaching an end that has started TLS as a
broken handshake.  In some runs either end asks meanwhile, or later, to switch to
another protocol, whose data then has to be under TLS as well.
"""
from twisted.internet import error
from twisted.internet.defer import Deferred
from twisted.internet.protocol import ClientFactory, Protocol
from twisted.python.failure import Failure

from ..net import Connection, NetConfig

RUNS = (16000, 500000)
RULE = ('seeded request streams both ways around a TLS upgrade (answer sync/late, client start sync/late, refusal, '
        'second attempts, failing transport.startTLS, a switch to another protocol) x segmentation x delays x loss at any point; non-trivial: boxes '
        'were held back, or requests were in flight when TLS started, or a fault fired')
REAL = ['epsilon.juice at both ends', 'epsilon.liner']
STUB = ['TCP/TLS transport (dst.net; TLS is a marker on the bytes)', 'certificates (recording stand-ins)',
        'request handlers and callers (recorders)']
ASSUMPTIONS = ['a TLS end receives no application bytes before both ends have started TLS']
PROBES = ['boxes held back', 'answer held back', 'error held back', 'command held back', 'server handler pending at TLS start', 'late client start',
          'late server answer', 'refused', 'verify', 'second start', 'second request', 'lost while held', 'lost before answer',
          'announced twice', 'started callback', 'no started callback', 'lost under TLS', 'TLS up', 'box reused',
          'switch held back', 'switched under TLS', 'switch while the peer starts TLS', 'answer held back at the switch', 'switch before TLS']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'startTLS fails']


class Refused(Exception):
    pass


class Busy(Exception):
    pass


class Options(object):
    def __init__(self, cert, authorities):
        self.cert = cert
        self.authorities = authorities


class Cert(object):
    def __init__(self, name):
        self.name = name

    def options(self, *authorities):
        return Options(self, authorities)


_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        from epsilon import juice as j

        class Work(j.Command):
            arguments = [('n', j.Integer()), ('pad', j.String())]
            response = [('n', j.Integer())]
            errors = {Busy: 'BUSY'}

        class Secure(j.Command):
            arguments = [('n', j.Integer())]
            response = [('n', j.Integer())]
            errors = {Refused: 'REFUSED'}

            @classmethod
            def makeResponse(cls, objects, proto):
                box = objects.pop('box')
                return j.objectsToStrings(objects, cls.response, box, proto)

        class Switch(j.ProtocolSwitchCommand):
            arguments = [('n', j.Integer())]
        _cmds = (Work, Secure, Switch)
    return _cmds


def run(sim):
    from epsilon import juice
    from epsilon.juice import RemoteJuiceError
    c = sim.c
    Work, Secure, Switch = commands()
    sim.reactor
    reqs = {}                 # n -> record
    sent = {}                 # end -> [(token, announced?)], in the order handed to Juice
    state = {'announced': {}, 'closed': False, 'interesting': False, 'held': 0}
    cert = {'c': Cert('client'), 's': Cert('server')}
    verify = {'c': Cert('ca1') if c.chance(0.3) else None, 's': Cert('ca2') if c.chance(0.3) else None}
    how = c.weighted([(5, 'sync'), (5, 'later'), (1, 'refuse'), (1, 'refuse later')])
    answer_wait = c.draw(80) / 10.0
    start_wait = None if c.draw(2) == 0 else c.draw(80) / 10.0
    fails = c.chance(0.06)
    started = []
    tell = c.draw(4) > 0
    logs_ok = []

    def out(end, token):
        sim.trace('out', end.side, token, end in state['announced'])
        t = end.transport
        if end not in state['lost'] and end not in locked:
            sent[end].append((token, end in state['announced'] or t.tls is not None))
            if end in state['announced'] and t.tls is None:
                state['held'] += 1
                sim.probe('boxes held back')
                sim.probe({'a': 'answer held back', 'e': 'error held back'}.get(token[0], 'command held back'))

    state['lost'] = set()
    locked = {}               # end -> when it asked for, or agreed to, a switch
    inners = {}
    expected_log = []

    class Inner(Protocol):
        def __init__(self, owner):
            self.owner = owner
            self.got, self.sent = bytearray(), bytearray()
            self.losses = self.made = 0
            self.plan = [c.pick([b'', b'hello', b'-Answer: 1\r\n\r\n', b'x' * (1 + c.size(300))]) for k in range(c.draw(4))]
            inners.setdefault(owner, []).append(self)

        def connectionMade(self):
            self.made += 1
            sim.trace('inner made', self.owner.side)
            if self.owner in state['announced'] and self.transport.tls is None:
                sim.note_violation('switch', 'the new protocol at the %s was connected while TLS was being started' % self.owner.side)
            for k, data in enumerate(self.plan):
                sim.after(c.draw(50) / 10.0 if k else 0, lambda data=data: self.say(data), 'inner write')

        def say(self, data):
            if not self.losses and self.transport.connected and not self.transport.disconnecting:
                self.sent += data
                self.transport.write(data)

        def dataReceived(self, data):
            self.got += data

        def connectionLost(self, reason):
            self.losses += 1

    class Factory(ClientFactory):
        failed = lost = 0

        def buildProtocol(self, addr):
            return Inner(self.owner)

        def clientConnectionFailed(self, connector, reason):
            self.failed += 1

        def clientConnectionLost(self, connector, reason):
            self.lost += 1
    factory = Factory()
    switches = []

    class Lab(juice.Juice):
        def command_WORK(self, n, pad):
            r = reqs[n]
            r['executed'] += 1
            sim.trace('exec', n)
            if r['executed'] > 1:
                sim.note_violation('twice', 'request %d was executed twice' % n)
            prev = state.setdefault('order', {}).get(self, 0)
            if n < prev:
                sim.note_violation('order', 'request %d was executed after request %d' % (n, prev))
            state['order'][self] = n
            if (self.transport.tls is not None) != r['under tls']:
                sim.note_violation('clear', 'request %d, issued %s the announcement, arrived %s TLS' % (
                    n, 'after' if r['under tls'] else 'before', 'under' if self.transport.tls else 'without'))
            if r['wait'] is None:
                if r['busy']:
                    out(self, 'e%d' % n)
                    raise Busy(n)
                out(self, 'a%d' % n)
                return {'n': n}
            d = Deferred()

            def finish():
                if r['executed'] and self.transport.tls is not None:
                    sim.probe('server handler pending at TLS start')
                    state['interesting'] = True
                if r['busy']:
                    out(self, 'e%d' % n)
                    d.errback(Busy(n))
                    return
                out(self, 'a%d' % n)
                d.callback({'n': n})
            sim.after(r['wait'], finish, 'finish')
            return d
        command_WORK.command = Work

        def command_SECURE(self, n):
            def answer():
                out(self, 'a%d' % n)
                sim.trace('answer with TLS')
                if self not in state['lost'] and self not in locked:
                    # from here on nothing may leave in the clear
                    state['announced'][self] = True
                if not tell:
                    sim.probe('no started callback')
                    return {'n': n, 'box': juice.TLSBox(cert['s'], verify['s'])}
                return {'n': n, 'box': juice.TLSBox(cert['s'], verify['s'], ok)}

            def ok():
                started.append(self.transport.tls)
                sim.probe('started callback')

            def nope():
                out(self, 'a%d' % n)
                raise Refused('no')
            f = nope if how.startswith('refuse') else answer
            if how in ('sync', 'refuse'):
                return f()
            sim.probe('late server answer')
            d = Deferred()
            d.addCallback(lambda ign: f())
            sim.after(answer_wait, lambda: d.callback(None), 'answer')
            return d
        command_SECURE.command = Secure

        def command_SWITCH(self, n):
            reqs[n]['executed'] += 1
            sim.trace('switch', n)

            def agree():
                if self in state['lost']:
                    pass
                elif self in state['announced'] and self.transport.tls is None:
                    # it has to refuse
                    sim.probe('switch while the peer starts TLS')
                    state['closed'] = state['crossed'] = True
                    expected_log.append('RuntimeError')
                else:
                    if self.transport.tls is None:
                        sim.probe('switch before TLS')
                    out(self, 's')
                    locked[self] = sim.now
                return Inner(self)
            if c.draw(2):
                return agree()
            d = Deferred()
            sim.after(c.draw(60) / 10.0, lambda: d.callback(agree()), 'agree')
            return d
        command_SWITCH.command = Switch

        def connectionLost(self, reason):
            waiting = [r for r in reqs.values() if r['end'] is self and not r['results']]
            state['lost'].add(self)
            if self in state['announced'] and self.transport.tls is None and state['held']:
                sim.probe('lost while held')
            if self.transport.tls is not None:
                sim.probe('lost under TLS')
            elif secure and not secure[0]['results']:
                sim.probe('lost before answer')
            juice.Juice.connectionLost(self, reason)
            for r in waiting:
                if len(r['results']) != 1 or not isinstance(r['results'][0], Failure):
                    sim.note_violation('pending', 'request %d was not failed by the loss of the connection' % r['n'])
                elif r['results'][0].type is not reason.type:
                    sim.note_violation('pending', 'request %d failed with %s, the connection was lost for %s' % (
                        r['n'], r['results'][0].type.__name__, reason.type.__name__))

    client, server = Lab(False), Lab(True)
    client.side, server.side = 'client', 'server'
    sent[client], sent[server] = [], []
    secure = []
    boxes = {}
    conn = Connection(sim, client, server, cfg=NetConfig(sim))
    if fails:
        conn.a.tls_fails = True

    def issue(end, cmd=None, **kw):
        t = end.transport
        if not t.connected or t.disconnecting or end in locked:
            return None
        n = len(reqs) + 1
        r = {'n': n, 'end': end, 'executed': 0, 'results': [], 'wait': None if c.draw(3) == 0 else c.draw(120) / 10.0,
             'under tls': end in state['announced'] or t.tls is not None}
        r['busy'] = cmd is None and c.draw(6) == 0
        reqs[n] = r
        out(end, 'q%d' % n)
        if cmd is None and c.draw(4) == 0:
            # the same box, used again and again
            sim.probe('box reused')
            box = boxes.setdefault(end, juice.Box())
            box.update(n=str(n), pad=c.pick(['', 'x', 'z' * c.size(200)]))
            d = end.sendBoxCommand('Work', box)
            d.addCallback(lambda answer: {'n': int(answer['n'])})
        elif cmd is None:
            d = Work(n=n, pad=c.pick(['', 'x', 'y' * c.size(200)])).do(end)
        elif cmd is Switch:
            if end in state['announced'] and t.tls is None:
                sim.probe('switch held back')
                if any(k[0] in 'ae' and under for k, under in sent[end]):
                    sim.probe('answer held back at the switch')
            factory.owner = end
            locked[end] = sim.now
            state['interesting'] = True
            d = cmd(factory, n=n).do(end)
        else:
            d = cmd(n=n).do(end)

        def done(res):
            r['results'].append(res)
            sim.trace('result', n, isinstance(res, Failure) and res.type.__name__)
            if len(r['results']) > 1:
                sim.note_violation('twice', 'request %d has two results' % n)
            if isinstance(res, Failure):
                if r['busy'] and r['executed'] and res.check(Busy, RemoteJuiceError):
                    r['refused'] = True
                    # a box comes back with the error as it was on the wire
                    if str(n) != (str(res.value) if res.check(Busy) else res.value.description) or (
                            res.check(RemoteJuiceError) and res.value.errorCode != 'BUSY'):
                        sim.note_violation('answer', 'request %d failed with %r' % (n, res.value))
            elif r['busy']:
                sim.note_violation('answer', 'request %d, which was refused, was answered %r' % (n, res))
            elif res != ({'n': n} if cmd is not Switch else {}):
                sim.note_violation('answer', 'request %d was answered %r' % (n, res))
        d.addBoth(done)
        r['d'] = d
        return r

    def ask():
        r = issue(client, Secure)
        if r is None:
            return
        secure.append(r)
        client.prepareTLS()
        state['announced'][client] = True
        sim.trace('announced')
        if any(not q['results'] and q is not r for q in reqs.values()):
            state['interesting'] = True

        def begin():
            if not conn.a.connected or conn.a.disconnecting:
                return
            args = () if verify['c'] is None else (verify['c'],)
            try:
                client.startTLS(cert['c'], *args)
            except Exception:
                if not fails:
                    raise
                conn.a.loseConnection()
                state['closed'] = True

        def answered(ign):
            if isinstance(r['results'][0], Failure):
                sim.probe('refused')
                if conn.a.connected:
                    state['closed'] = True
                    conn.a.loseConnection()
                return
            if start_wait is None:
                begin()
            else:
                sim.probe('late client start')
                sim.after(start_wait, begin, 'start TLS')
        r['d'].addCallback(answered)

    def switch(end):
        if switches:
            return
        r = issue(end, Switch)
        if r is not None:
            switches.append(r)

    def announce_again():
        if conn.a.connected and client in state['announced'] and conn.a.tls is None:
            sim.probe('announced twice')
            client.prepareTLS()

    def second(end):
        if end.transport.tls is None or not end.transport.connected:
            return
        sim.probe('second start')
        calls = len(end.transport.tls_calls)
        options = end.transport.tls
        try:
            end.startTLS(Cert('other'))
        except Exception as e:
            sim.trace('second refused', type(e).__name__)
        else:
            sim.violate('second', 'a second attempt to start TLS was not refused')
        sim.expect(len(end.transport.tls_calls) == calls and end.transport.tls is options, 'second',
                   'TLS was started again on the same connection')

    for i in range(c.draw(9)):
        end = c.pick([client, server])
        sim.after(c.draw(200) / 10.0, lambda end=end: issue(end), 'issue')
    at = c.draw(80) / 10.0
    sim.after(at, ask, 'ask')
    for i in range(c.draw(4)):
        sim.after(at + c.draw(40) / 10.0, lambda: issue(client), 'issue')
    if c.chance(0.15):
        sim.after(at + c.draw(80) / 10.0, announce_again, 'announce again')
    if c.chance(0.25):
        end = c.pick([client, server])
        sim.after(at + c.draw(300) / 10.0, lambda: second(end), 'second')
    if c.chance(0.3):
        end = c.pick([client, client, server])
        sim.after(max(0, at + (c.draw(130) - 30) / 10.0), lambda: switch(end), 'switch')
    if c.chance(0.25):
        def drop():
            state['closed'] = True
            conn.drop()
        sim.after(c.draw(250) / 10.0, drop, 'drop')
    sim.sample = {'server': how, 'client starts': start_wait, 'verify': [bool(verify['c']), bool(verify['s'])]}
    sim.run()

    for t in (conn.a, conn.b):
        sim.expect(not t.clear_after_tls, 'clear', 'clear bytes reached %s after it had started TLS', t.name)
        sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [
            '%s: %s' % (e.type.__name__, str(e.value)[:150]) for e in t.data_errors])

    def tokens(data):
        res = []
        for box in juice.parse(__import__('io').BytesIO(bytes(data))):
            if juice.ANSWER in box:
                res.append('a' + box['n'] if 'n' in box else 's')
            elif juice.ERROR in box:
                res.append('e' + box[juice.ERROR_DESCRIPTION] if box[juice.ERROR_CODE] == 'BUSY' else 'error')
            else:
                res.append('q' + box['n'])
        return res

    for end, t in ((client, conn.a), (server, conn.b)):
        data, clear_bytes = bytes(t.written), t.clear_bytes
        for p in inners.get(end, ()):
            if p.sent:
                sim.expect(data.endswith(bytes(p.sent)), 'switch', '%s sent other data than its new protocol wrote', end.side)
                data = data[:-len(p.sent)]
                sim.expect(t.tls is None or len(data) >= clear_bytes, 'clear', 'data of the new protocol of %s left in the clear', end.side)
                clear_bytes = min(clear_bytes, len(data))
        clear = tokens(data[:clear_bytes])
        covered = tokens(data[clear_bytes:])
        want_clear = [k for k, under in sent[end] if not under]
        want_tls = [k for k, under in sent[end] if under]
        if how.startswith('refuse') and end is server:
            want_clear = ['error' if secure and k == 'a%d' % secure[0]['n'] else k for k in want_clear]
        sim.expect(clear == want_clear, 'clear', '%s wrote %r in the clear, it should have been %r', end.side, clear, want_clear)
        if t.tls is not None:
            sim.expect(covered == want_tls, 'held', '%s wrote %r under TLS, it was given %r', end.side, covered, want_tls)
        else:
            sim.expect(not covered, 'clear', 'harness')
        tried = len(t.tls_calls)
        sim.expect(tried <= 1, 'second', 'TLS was started %d times', tried)
        if t.tls is not None:
            side = end.side[0]
            sim.expect(t.tls.cert is cert[side] and t.tls.authorities == (() if verify[side] is None else (verify[side],)),
                       'options', 'TLS was started with other options than those given')
            if verify[side] is not None:
                sim.probe('verify')
    if conn.b.tls is not None:
        sim.expect(started == [conn.b.tls] * bool(tell), 'callback', 'the started callback was called %d times', len(started))
    else:
        sim.expect(not started, 'callback', 'the started callback was called without TLS')
    quiet = not state['closed']
    if quiet and secure:
        sim.probe('TLS up')
        sim.expect(conn.open and not conn.a.asked_close and not conn.b.asked_close, 'closed',
                   'the connection was closed (logged: %s)', [e[:2] for e in sim.errors])
        sim.expect(conn.a.tls is not None and conn.b.tls is not None, 'stuck', 'TLS was never started')
        for r in reqs.values():
            if locked and r not in secure and r not in switches:
                # an end that is switching does not answer any more
                peer = server if r['end'] is client else client
                answered = any(k[0] in 'ae' and k[1:] == str(r['n']) for k, under in sent[peer])
                sim.expect(bool(r['results']) == answered, 'lost', 'request %d was answered %d times', r['n'], len(r['results']))
                sim.expect(r['executed'] or peer is switches[0]['end'], 'lost', 'request %d was not executed', r['n'])
                continue
            sim.expect(len(r['results']) == 1 and (r.get('refused') or not isinstance(r['results'][0], Failure)), 'lost',
                       'request %d got %r', r['n'], r['results'])
            sim.expect(r['executed'] == 1 or r in secure, 'lost', 'request %d was executed %d times', r['n'], r['executed'])
        # a second request to start TLS, over the wire
        if c.chance(0.1) and not locked:
            sim.probe('second request')
            before = [len(conn.a.tls_calls), len(conn.b.tls_calls)]
            r = issue(client, Secure)
            sim.run()
            sim.expect([len(conn.a.tls_calls), len(conn.b.tls_calls)] == before, 'second', 'TLS was started again')
            sim.take_errors()
    if quiet and switches:
        sim.expect(conn.open and not conn.a.asked_close and not conn.b.asked_close, 'closed',
                   'the connection was closed (logged: %s)', [e[:2] for e in sim.errors])
        both = [inners.get(end, []) for end in (client, server)]
        sim.expect([len(b) for b in both] == [1, 1] and both[0][0].made == both[1][0].made == 1, 'switch', 'the new protocols were not connected')
        for end, me, other in ((client, both[0][0], both[1][0]), (server, both[1][0], both[0][0])):
            sim.expect(me.got == other.sent, 'switch', 'the new protocol of %s received %r, its peer wrote %r',
                       end.side, bytes(me.got[:100]), bytes(other.sent[:100]))
        sim.expect(not factory.failed and not factory.lost, 'switch', 'the factory was told of a failure')
        if conn.a.tls is not None:
            sim.probe('switched under TLS')
        conn.drop()
        sim.run()
    if switches:
        made = [p for l in inners.values() for p in l if p.made]
        if not conn.a.connected and not conn.b.connected:
            sim.expect([p.losses for p in made] == [1] * len(made), 'switch', 'the new protocols were told of the loss %r times', [p.losses for p in made])
            mine = [p for p in made if p.owner is switches[0]['end']]
            sim.expect((factory.failed, factory.lost) == ((0, 1) if mine else (1, 0)), 'switch', 'the factory was told %r', (factory.failed, factory.lost))
    for r in reqs.values():
        sim.expect(len(r['results']) == 1 or (r['end'].transport.connected and not r['results']), 'pending',
                   'request %d has %d results', r['n'], len(r['results']))
    sim.nontrivial = bool(state['interesting'] or state['held'] or state['closed'] or fails)
    errs = sim.take_errors()
    sim.expect([e[0] for e in errs] == expected_log, 'log', 'errors were logged: %s', [e[:2] for e in errs])
