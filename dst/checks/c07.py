"""
C07: switching protocols hands the byte stream over cleanly.

System: two real Juice ends; one asks to switch, with other requests in flight
in both directions; the handler agrees or refuses, at once or later; then the
two inner protocols write seeded data at seeded times; connections are cut at
any moment.
"""
from twisted.internet import error
from twisted.internet.defer import Deferred
from twisted.internet.protocol import ClientFactory, Protocol
from twisted.python.failure import Failure

from ..net import Connection, NetConfig

RUNS = (16000, 500000)
RULE = ('seeded switch histories (agree/refuse, sync/async, with a body or not, other requests pending both ways, '
        'inner data both ways) x segmentation x delays x loss at any point; non-trivial: a switch was answered while '
        'other requests were pending, or inner data crossed in both directions, or a fault fired')
REAL = ['epsilon.juice at both ends', 'epsilon.liner']
STUB = ['TCP transport (dst.net)', 'inner protocols and handlers (recorders)']
PROBES = ['switched', 'switched sync', 'switched async', 'refused', 'lost before switch', 'lost between the two switches',
          'server handler finished after switch', 'client handler finished while locked', 'juice request pending at loss',
          'inner data both ways', 'body in switch request', 'inner data with the answer', 'inner closes',
          'command to a locked client', 'juice command after switch', 'answers while locked', 'late failure after switch',
          'new protocol raised', 'peer that does not wait', 'its data with the end of the request', 'request in a namespace',
          'command without answer to a locked client']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'switch refused',
          'new protocol raises']


class Refused(Exception):
    pass


class Rude(Exception):
    pass


class Clumsy(Exception):
    """A new protocol that fails while it is being connected."""


_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        from epsilon import juice as j

        class Switch(j.ProtocolSwitchCommand):
            arguments = [('name', j.String()), ('body', j.String(optional=True))]
            errors = {Refused: 'REFUSED'}

        class Work(j.Command):
            arguments = [('n', j.Integer())]
            response = [('n', j.Integer())]
            errors = {Refused: 'REFUSED'}

        class Tell(j.Command):
            arguments = [('n', j.Integer())]
            response = []
        _cmds = (Switch, Work, Tell)
    return _cmds


def impatient(sim):
    """
    The peer is some other implementation which knows that its request will be
    granted, and sends the data of the new protocol right behind it.
    """
    from epsilon import juice
    c = sim.c
    Switch, Work, Tell = commands()
    sim.probe('peer that does not wait')
    sim.nontrivial = True
    state = {'inner': None, 'done': 0}

    class Inner(Protocol):
        got = b''
        sent = b''
        made = 0
        losses = 0

        def connectionMade(self):
            self.made += 1
            self.say(greet)

        def say(self, data):
            self.sent += data
            self.transport.write(data)

        def dataReceived(self, data):
            if state['segment'] != len(data):
                sim.probe('its data with the end of the request')
            self.got += data
            if not blob.startswith(self.got):
                sim.violate('stream', 'the new protocol received %r of %r' % (self.got[-80:], blob[:80]))
            if c.draw(3) == 0:
                self.say(b'ok\r\n')

        def connectionLost(self, reason):
            self.losses += 1

    class Lab(juice.Juice):
        def command_SWITCH(self, name, body):
            if (name, body) != args:
                sim.violate('arguments', 'asked with %r, executed with %r' % (args, (name, body)))
            p = state['inner'] = Inner()
            return p
        command_SWITCH.command = Switch

        def command_WORK(self, n):
            d = Deferred()

            def finish():
                state['done'] += 1
                d.callback({'n': n})
            sim.after(c.draw(100) / 10.0, finish, 'finish')
            return d
        command_WORK.command = Work

    args = (c.pick(['x', '\u20ac', 'a\r\nb']), c.pick(['body', None, '\r\n', '', '\u20ac']))
    greet = c.pick([b'', b'hi\r\n\r\n'])
    blob = b''.join(c.pick([b'\r\n', b'-Command: Work\r\n-Ask: 7\r\nN: 1\r\n\r\n', b'x' * 50, b'\x00\xff', b'-Answer: 1\r\n\r\n'])
                    for _ in range(1 + c.draw(4)))
    raw = b''
    for i in range(c.draw(3)):
        raw += b'-Command: Work\r\n-Ask: %d\r\nN: %d\r\n\r\n' % (10 + i, i)
    raw += b'-Command: Switch\r\n-Ask: 1\r\nName: ' + args[0].encode('utf-8').replace(b'\r\n', b'\r\n ') + b'\r\n'
    if args[1] is not None:
        b = args[1].encode('utf-8')
        raw += b'-Length: %d\r\n\r\n' % (len(b),) + b
    else:
        raw += b'\r\n'
    peer, server = Protocol(), Lab(True)
    conn = Connection(sim, peer, server, cfg=NetConfig(sim))
    real = conn.b.receive

    def receive(data):
        state['segment'] = len(data)
        real(data)
    conn.b.receive = receive
    sim.after(0, lambda: conn.a.write(raw + blob), 'write')
    sim.sample = {'impatient': repr(raw + blob)[:200]}
    sim.run()
    sim.expect(not conn.b.data_errors, 'exception', 'receiving raised %s', [str(e.value)[:150] for e in conn.b.data_errors])
    p = state['inner']
    sim.expect(p is not None and p.made == 1, 'inner', 'the new protocol was not connected once')
    sim.expect(p.got == blob, 'stream', 'the new protocol received %r of %r', p.got[-80:], blob[:80])
    out = bytes(conn.b.written)
    at = out.find(b'-Answer: 1\r\n\r\n')
    sim.expect(at >= 0, 'switch', 'the switch was not answered: %r', out[:100])
    rest = out[at + len(b'-Answer: 1\r\n\r\n'):]
    sim.expect(rest == p.sent, 'stream', 'the new protocol wrote %r, sent was %r', p.sent[:80], rest[:80])
    conn.drop()
    sim.run()
    sim.expect(p.losses == 1, 'loss', 'the new protocol was told %d times of the loss', p.losses)
    logged = sim.take_errors()
    sim.expect(not logged, 'log', 'logged %r', [e[:2] for e in logged])


def run(sim):
    from epsilon import juice
    c = sim.c
    if c.chance(0.08):
        return impatient(sim)
    Switch, Work, Tell = commands()
    told, telling = [], []
    state = {'server switched': False, 'locked': False, 'refused': False, 'space': False}
    inners = {}
    expected_log = []
    CLOSED = (error.ConnectionDone, error.ConnectionLost, error.ConnectionAborted)

    class Inner(Protocol):
        def __init__(self, side):
            self.side = side
            self.made = 0
            self.got = bytearray()
            self.sent = bytearray()
            self.losses = []
            inners.setdefault(side, []).append(self)

        def makeConnection(self, transport):
            self.made += 1
            sim.trace('inner made', self.side)
            if self.made > 1:
                sim.note_violation('connected twice', 'the new protocol at the %s was connected %d times' % (self.side, self.made))
            if transport is not self.owner.transport:
                sim.note_violation('transport', 'the new protocol was not given the transport of the connection')
            Protocol.makeConnection(self, transport)

        def connectionMade(self):
            if self.plan['greet']:
                self.say(self.plan['greet'])
            for at, data in self.plan['writes']:
                sim.after(at, lambda data=data: self.say(data), 'inner write')
            if self.plan['raise']:
                sim.faults['new protocol raises'] += 1
                sim.probe('new protocol raised')
                state['closed'] = True
                if self.side == 'server':
                    expected_log.append('Clumsy')
                raise Clumsy('not ready')

        def say(self, data):
            if self.losses or not self.transport.connected or self.transport.disconnecting:
                return
            self.sent += data
            self.transport.write(data)

        def dataReceived(self, data):
            sim.trace('inner data', self.side, len(data))
            if not self.made or self.losses:
                sim.note_violation('order', 'data for a protocol that is not connected')
            self.got += data
            other = inners.get('server' if self.side == 'client' else 'client')
            if other is None or not bytes(other[0].sent).startswith(bytes(self.got)):
                sim.note_violation('stream', 'the new protocol at the %s received %r, its peer wrote %r' % (
                    self.side, bytes(self.got[-80:]), bytes(other[0].sent[:80]) if other else None))
            if self.plan['close_at'] is not None and len(self.got) >= self.plan['close_at']:
                if not self.transport.disconnecting:
                    sim.probe('inner closes')
                    state['closed'] = True
                self.transport.loseConnection()

        def connectionLost(self, reason):
            sim.trace('inner lost', self.side)
            self.losses.append(reason)
            if len(self.losses) > 1:
                sim.note_violation('lost twice', 'the loss was reported %d times to the %s protocol' % (len(self.losses), self.side))

    def inner_plan():
        def blob():
            k = c.draw(5)
            if k == 0:
                return b'hello'
            if k == 1:
                return c.pick([b'\r\n', b'\r\n\r\n', b'-Answer: 1\r\n\r\n', b'-Command: work\r\n-Ask: 1\r\nN: 1\r\n\r\n', b'\x00\xff\xfe'])
            return bytes([65 + c.draw(26)]) * (1 + c.size(3000 if c.draw(9) == 0 else 60))
        return {'greet': blob() if c.draw(3) else b'',
                'writes': [(c.draw(80) / 10.0, blob()) for _ in range(c.draw(4))],
                'close_at': c.draw(60) if c.chance(0.2) else None, 'raise': c.chance(0.05)}

    plans = {'client': inner_plan(), 'server': inner_plan()}

    def build(side, owner):
        p = Inner(side)
        p.plan = plans[side]
        p.owner = owner
        return p

    class Factory(ClientFactory):
        def __init__(self):
            self.failed = []
            self.lostcalls = []
            self.built = 0

        def buildProtocol(self, addr):
            self.built += 1
            return build('client', client)

        def clientConnectionFailed(self, connector, reason):
            sim.trace('factory failed')
            self.failed.append(reason)

        def clientConnectionLost(self, connector, reason):
            sim.trace('factory lost')
            self.lostcalls.append(reason)

    how = c.pick(['sync', 'async', 'refuse sync', 'refuse async', 'rude', 'async'])
    wait = c.draw(60) / 10.0
    works = {}           # n -> record

    class Lab(juice.Juice):
        def command_SWITCH(self, name, body, space=False):
            if space != state['space']:
                sim.note_violation('arguments', 'the switch request arrived in another namespace than it was made in')
            sim.trace('switch asked', how)
            if (name, body) != state['args']:
                sim.note_violation('arguments', 'switch asked with %r, executed with %r' % (state['args'], (name, body)))
            if how == 'sync':
                sim.probe('switched sync')
                return self.agree()
            if how == 'refuse sync':
                self.refuse()
                raise Refused('no')
            d = Deferred()

            def later():
                if how == 'async':
                    sim.probe('switched async')
                    d.callback(self.agree())
                elif how == 'rude':
                    self.refuse()
                    expected_log.append('Rude')
                    d.errback(Failure(Rude('go away')))
                else:
                    self.refuse()
                    d.errback(Failure(Refused('no')))
                if how == 'async' and len(inners.get('server', ())) != 1:
                    sim.note_violation('inner', 'no new protocol at the server')
            sim.after(wait, later, 'decide')
            return d
        command_SWITCH.command = Switch

        def command_TELL(self, n):
            sim.trace('told', n)
            told.append(n)
            return {}
        command_TELL.command = Tell

        def switch_elsewhere(self, name, body):
            return self.command_SWITCH(name, body, True)
        switch_elsewhere.command = Switch

        def agree(self):
            p = build('server', self)
            if self.transport.connected:
                state['server switched'] = True
                if any(r['executed'] and not r['finished'] for r in works.values()):
                    state['interesting'] = True
            return p

        def refuse(self):
            sim.faults['switch refused'] += 1
            state['refused'] = True

        def command_WORK(self, n):
            r = works[n]
            r['executed'] += 1
            if self is client and state['locked']:
                sim.note_violation('execution', 'a command was executed by an end that cannot answer it any more')
            if r['executed'] > 1:
                sim.note_violation('execution', 'a command was executed twice')
            d = Deferred()

            def finish():
                r['finished'] = True
                if self is server and state['server switched']:
                    sim.probe('server handler finished after switch')
                if self is client and state['locked']:
                    sim.probe('client handler finished while locked')
                sim.trace('finish', n)
                if r['how'] == 'ok':
                    d.callback({'n': n})
                elif r['how'] == 'declared':
                    if state['server switched']:
                        sim.probe('late failure after switch')
                    d.errback(Failure(Refused('work')))
                else:
                    expected_log.append('Rude')
                    d.errback(Failure(Rude('work')))
            if r['wait'] is None:
                r['finished'] = True
                return {'n': n}
            sim.after(r['wait'], finish, 'finish')
            return d
        command_WORK.command = Work

        def connectionLost(self, reason):
            waiting = [r for r in works.values() if r['end'] is self and not r['results'] and r['d'] is not None]
            if waiting:
                sim.probe('juice request pending at loss')
            juice.Juice.connectionLost(self, reason)
            for r in waiting:
                if len(r['results']) != 1:
                    sim.note_violation('pending', 'a Juice request was not settled by the loss of the connection')

    setattr(Lab, 'command_OFFICE:SWITCH', Lab.switch_elsewhere)
    client, server = Lab(False), Lab(True)
    cfg = NetConfig(sim)
    conn = Connection(sim, client, server, cfg=cfg)
    factory = Factory()
    result = []

    def work(end):
        if not end.transport.connected or end.transport.disconnecting:
            return
        if end is client and state['locked']:
            return
        n = len(works) + 1
        closing_ok = state['server switched']
        r = {'n': n, 'end': end, 'executed': 0, 'finished': False, 'results': [], 'd': None,
             'how': c.pick(['ok', 'ok', 'declared']), 'wait': None if c.draw(3) == 0 else c.draw(150) / 10.0}
        if r['wait'] is not None and c.chance(0.08):
            r['how'] = 'undeclared after switch'
            r['wait'] = 30 + c.draw(10)
        works[n] = r
        if end is server and state['server switched']:
            # the application misbehaves: whatever it is told, nothing may be sent
            sim.probe('juice command after switch')
            state['misused'] = True
            before = len(end.transport.written)
            try:
                d = Work(n=n).do(end)
            except Exception:
                d = None
            if len(end.transport.written) != before:
                sim.note_violation('stream', 'a Juice command was written after the switch')
            if d is not None:
                d.addErrback(lambda f: None)
            del works[n]
            return
        if end is server and state['locked']:
            sim.probe('command to a locked client')
        d = r['d'] = Work(n=n).do(end)

        def done(res):
            r['results'].append(res)
            if not isinstance(res, Failure) and res != {'n': n}:
                sim.note_violation('answer', 'request %d was answered %r' % (n, res))
            if end is client and state['locked'] and not isinstance(res, Failure):
                sim.probe('answers while locked')
        d.addBoth(done)

    def tell(end):
        t = end.transport
        if not t.connected or t.disconnecting or (state['locked'] if end is client else state['server switched']):
            return
        if end is server and state['locked']:
            sim.probe('command without answer to a locked client')
        telling.append(len(telling) + 1)
        Tell(n=telling[-1]).do(end, requiresAnswer=False)

    def switch():
        if not conn.a.connected or conn.a.disconnecting:
            state['no switch'] = True
            return
        state['args'] = (c.pick(['x', '\u20ac', 'a\r\nb']), c.pick([None, 'body', '\r\n', '']))
        if state['args'][1]:
            sim.probe('body in switch request')
        state['locked'] = True
        if any(r['executed'] and not r['finished'] for r in works.values()):
            state['interesting'] = True
        cmd = Switch(factory, name=state['args'][0], body=state['args'][1])
        if c.draw(8) == 0:
            sim.probe('request in a namespace')
            state['space'] = True
            d = cmd.do(client, 'office')
        else:
            d = cmd.do(client)

        def done(res):
            result.append(res)
            sim.trace('switch result', isinstance(res, Failure) and res.type.__name__)
            return None
        d.addBoth(done)

    state['closed'] = False
    at = 0.0
    for i in range(c.draw(5)):
        end = c.pick([client, server])
        sim.after(c.draw(50) / 10.0, lambda end=end: work(end), 'work')
    for i in range(c.draw(4)):
        end = c.pick([client, server, server])
        sim.after(c.draw(80) / 10.0, lambda end=end: tell(end), 'tell')
    ts = c.draw(50) / 10.0
    sim.after(ts, switch, 'switch')
    if c.chance(0.3):
        sim.after(ts + c.draw(150) / 10.0, lambda: work(server), 'work late')
    if c.chance(0.3):
        def drop():
            state['closed'] = True
            if not factory.built:
                sim.probe('lost between the two switches' if state['server switched'] else 'lost before switch')
            conn.drop()
        sim.after(c.draw(250) / 10.0, drop, 'drop')
    sim.sample = {'decision': how, 'client': repr(plans['client'])[:150], 'server': repr(plans['server'])[:150]}
    undeclared = [r for r in works.values()]
    sim.run()

    # an undeclared failure before the switch legitimately closes the connection
    quiet = not state['closed'] and not state['refused'] and not any(
        r['how'].startswith('undeclared') and r['finished'] and not state['server switched'] for r in works.values())
    for t in (conn.a, conn.b):
        sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [
            '%s: %s' % (e.type.__name__, str(e.value)[:150]) for e in t.data_errors])
    if 'args' in state:
        cl = inners.get('client', [])
        sv = inners.get('server', [])
        sim.expect(len(cl) <= 1 and len(sv) <= 1, 'inner', 'more than one new protocol')
        sim.expect(len(set(told)) == len(told) and set(told) <= set(telling), 'commands', 'commands without answer: sent %s, executed %s',
                   telling, told)
        if quiet:
            sim.probe('switched')
            sim.expect(sorted(told) == telling, 'commands', 'commands without answer: sent %s, executed %s', telling, told)
            sim.expect(conn.a.connected and conn.b.connected and not conn.a.asked_close and not conn.b.asked_close,
                       'closed', 'the connection was closed by the switch (logged: %s)', [e[:2] for e in sim.errors])
            sim.expect(len(result) == 1 and not isinstance(result[0], Failure), 'switch', 'the switch did not succeed: %r', result)
            sim.expect(len(cl) == 1 and cl[0].made == 1, 'inner', 'the client protocol was not connected')
            sim.expect(len(sv) == 1 and sv[0].made == 1, 'inner', 'the server protocol was not connected')
            sim.expect(not factory.failed and not factory.lostcalls, 'factory', 'the factory was told of a failure')
            for me, other, t in ((cl[0], sv[0], conn.a), (sv[0], cl[0], conn.b)):
                sim.expect(bytes(me.got) == bytes(other.sent), 'stream', '%s received %r, its peer wrote %r',
                           me.side, bytes(me.got[:100]), bytes(other.sent[:100]))
            if cl[0].got and sv[0].got:
                sim.probe('inner data both ways')
                state['interesting'] = True
            if plans['server']['greet']:
                sim.probe('inner data with the answer')
            # now lose it
            conn.drop()
            sim.run()
        # after any loss
        if not conn.a.connected:
            if factory.built:
                sim.expect(len(cl[0].losses) == 1, 'loss', 'the client protocol was told %d times of the loss', len(cl[0].losses))
                sim.expect(len(factory.lostcalls) == 1, 'loss', 'the factory was told %d times of the loss', len(factory.lostcalls))
                sim.expect(not factory.failed, 'loss', 'the factory was told of a failure and of a success')
            else:
                sim.expect(len(factory.failed) == 1, 'failed', 'the factory was told %d times that the connection failed',
                           len(factory.failed))
                sim.expect(not factory.lostcalls, 'failed', 'clientConnectionLost for a connection that failed')
                sim.expect(not cl, 'failed', 'a protocol was built for a connection that failed')
            sim.expect(len(result) == 1, 'switch', 'the switch request has %d results', len(result))
        if state['refused'] and not state['closed']:
            sim.probe('refused')
            sim.expect(not conn.a.connected and not conn.b.connected, 'refused', 'a refused connection was not closed')
            sim.expect(not factory.built and not sv, 'refused', 'a protocol was connected after a refusal')
            sim.expect(len(result) == 1 and isinstance(result[0], Failure), 'refused', 'the refusal was not reported')
        for p, t in [(p, conn.a) for p in cl] + [(p, conn.b) for p in sv]:
            if p.made and p.plan['raise']:
                sim.expect(not t.connected, 'closed', 'the %s protocol could not be connected, but the connection was kept',
                           p.side)
        if not conn.b.connected and sv and sv[0].made:
            sim.expect(len(sv[0].losses) == 1, 'loss', 'the server protocol was told %d times of the loss', len(sv[0].losses))
        if state['server switched'] and not sv[0].made:
            sim.violate('inner', 'the server protocol was never connected')
    for r in works.values():
        sim.expect(len(r['results']) <= 1, 'pending', 'a request has two results')
        sim.expect(r['results'] or r['end'].transport.connected, 'pending', 'a request was not settled')
    sim.nontrivial = bool(state.get('interesting')) or bool(sim.nontrivial)
    logged = sorted(e[0] for e in sim.take_errors())
    if state.get('misused'):
        # what the misbehaving application is told about its own request is its business
        logged = [e for e in logged if e not in ('?', 'ConnectionDone', 'ConnectionLost', 'ConnectionAborted')]
    sim.expect(logged == sorted(expected_log), 'log', 'logged %r, expected %r', logged, expected_log)
