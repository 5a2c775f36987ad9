"""
C09: version negotiation leaves both ends agreeing.

System: two real Juice ends with other commands in flight; either end
renegotiates at seeded times; the set of supported versions changes while
requests are under way; the connection is lost at any moment.
"""
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure

from ..net import Connection, NetConfig

RUNS = (20000, 600000)
RULE = ('seeded negotiation histories from both ends over changing sets of supported versions, with other commands in '
        'flight x segmentation x delays x loss at any point; non-trivial: two negotiations overlapped, or the set of '
        'versions changed while one was under way, or a fault fired')
REAL = ['epsilon.juice at both ends', 'epsilon.liner']
STUB = ['TCP transport (dst.net)', 'request handlers and callers (recorders)']
ASSUMPTIONS = ['simultaneous requests for two different versions are the known finding "crossing" and are otherwise avoided']
PROBES = ['agreed', 'unsupported here', 'incompatible', 'negotiated from both ends', 'same version crossing', 'pipelined',
          'version changed under way', 'lost while negotiating', 'peer already switched when lost', 'work in flight',
          'downgrade', 'several offered']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'versions changed']

_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        from epsilon import juice as j

        class Work(j.Command):
            arguments = [('n', j.Integer())]
            response = [('n', j.Integer())]
        _cmds = Work
    return _cmds


def run(sim):
    from epsilon import juice
    saved = juice.VERSIONS
    try:
        _run(sim, juice)
    finally:
        juice.VERSIONS = saved


def _run(sim, juice):
    c = sim.c
    Work = commands()
    sim.reactor
    sets = [[1], [1, 2], [2, 1], [1, 2, 3], [3, 1], [1, 5, 12]]
    juice.VERSIONS = list(c.pick(sets))
    state = {'closed': False, 'work': 0, 'last': 0, 'interesting': False, 'n': 0, 'refused': False}
    negs = []
    expected_log = []

    class Lab(juice.Juice):
        def command_NEGOTIATE(self, versions):
            # the real handler decides; the model only watches
            asked = [g for g in negs if g['end'] is not self and not g['executed']]
            g = asked[0] if asked else None
            if g is None or list(versions) != g['offer']:
                sim.note_violation('request', 'the peer was asked for %r' % (versions,))
                return juice.Juice.command_NEGOTIATE(self, versions)
            g['executed'] = True
            supported = [v for v in g['offer'] if v in juice.VERSIONS]
            sim.trace('asked', self.side, g['offer'], supported)
            if supported:
                g['v'] = supported[0]
            if not supported:
                sim.probe('incompatible')
                state['closed'] = state['refused'] = True
                expected_log.append('IncompatibleVersions')
                g['refused'] = True
            else:
                if g['v'] < state['last']:
                    sim.probe('downgrade')
                state['last'] = g['v']
                g['agreed'] = True
            return juice.Juice.command_NEGOTIATE(self, versions)
        command_NEGOTIATE.command = juice.Negotiate

        def command_WORK(self, n):
            if c.draw(2):
                return {'n': n}
            d = Deferred()
            sim.after(c.draw(60) / 10.0, lambda: d.callback({'n': n}), 'finish')
            return d
        command_WORK.command = Work

        def connectionLost(self, reason):
            waiting = [g for g in negs if g['end'] is self and not g['results']]
            before = self.protocolVersion
            if waiting:
                sim.probe('lost while negotiating')
                if any(g.get('agreed') for g in waiting):
                    sim.probe('peer already switched when lost')
            juice.Juice.connectionLost(self, reason)
            for g in waiting:
                if len(g['results']) != 1 or not isinstance(g['results'][0], Failure):
                    sim.note_violation('pending', 'the loss of the connection did not fail the negotiation')
            if self.protocolVersion != before:
                sim.note_violation('version', 'the loss of the connection changed the version')

    client, server = Lab(False), Lab(True)
    client.side, server.side = 'client', 'server'
    conn = Connection(sim, client, server, cfg=NetConfig(sim))
    ends = (client, server)
    # another connection of the same process, on which nothing is negotiated
    aside = Connection(sim, Lab(False), Lab(True), cfg=NetConfig(sim), name='aside')
    sim.expect([p.protocol.protocolVersion for p in (aside.a, aside.b)] == [0, 0], 'version', 'a new connection does not use version 0')

    def settled():
        if [p.protocol.protocolVersion for p in (aside.a, aside.b)] != [0, 0]:
            sim.note_violation('version', 'a negotiation changed the version of another connection')
        if conn.open and not any(not g['results'] for g in negs):
            if not (client.protocolVersion == server.protocolVersion == state['last']):
                sim.note_violation('disagree', 'no negotiation is under way and the ends use versions %r and %r; %r was agreed' % (
                    client.protocolVersion, server.protocolVersion, state['last']))

    def offer(end):
        """Offer several versions, the one preferred first."""
        if not end.transport.connected or end.transport.disconnecting:
            return
        if any(g['end'] is not end and not g['executed'] for g in negs):
            return
        sim.probe('several offered')
        versions = [c.pick([1, 2, 3, 5, 12, 0, 7, 100]) for _ in range(c.pick([1, 2, 3, 5, 9]))]
        if c.draw(3):
            versions.append(c.pick(juice.VERSIONS))
        g = {'end': end, 'v': None, 'offer': list(versions), 'executed': False, 'results': []}
        negs.append(g)
        sim.trace('offer', end.side, versions)

        def settle(ver):
            end.protocolVersion = ver['version']
            return ver['version']
        watch(g, juice.Negotiate(versions=versions).do(end).addCallback(settle))

    def negotiate(end):
        if c.draw(5) == 4:
            return offer(end)
        if not end.transport.connected or end.transport.disconnecting:
            return
        v = c.pick([1, 2, 3, 5, 12]) if c.draw(4) == 0 else c.pick(juice.VERSIONS)
        coming = [g for g in negs if g['end'] is not end and not g['executed']]
        if any(g['v'] != v for g in coming):
            return                                  # the known finding
        if v not in juice.VERSIONS:
            sim.probe('unsupported here')
            before = [e.protocolVersion for e in ends], len(end.transport.written)
            try:
                d = end.renegotiateVersion(v)
            except Exception:
                d = None
            else:
                state['closed'] = True
                d.addErrback(lambda f: None)
                sim.violate('unsupported', 'asking for an unsupported version was not refused')
            sim.expect(([e.protocolVersion for e in ends], len(end.transport.written)) == before,
                       'unsupported', 'a refused request had an effect')
            return
        if coming:
            sim.probe('same version crossing')
            state['interesting'] = True
        if any(g['end'] is end and not g['results'] for g in negs):
            sim.probe('pipelined')
            state['interesting'] = True
        if any(g['end'] is not end for g in negs):
            sim.probe('negotiated from both ends')
        if state['work']:
            sim.probe('work in flight')
        g = {'end': end, 'v': v, 'offer': [v], 'executed': False, 'results': []}
        negs.append(g)
        sim.trace('negotiate', end.side, v)
        watch(g, end.renegotiateVersion(v))

    def watch(g, d):
        def done(res):
            g['results'].append(res)
            v = g['v']
            sim.trace('negotiated', v, res if not isinstance(res, Failure) else res.type.__name__)
            if len(g['results']) > 1:
                sim.note_violation('twice', 'a negotiation has two results')
            if isinstance(res, Failure):
                if not g.get('refused') and not state['closed']:
                    sim.note_violation('failed', 'negotiating a supported version failed: %s' % (res.getErrorMessage(),))
            else:
                if res != v:
                    sim.note_violation('result', 'asked for version %r, told %r' % (v, res))
                if not g.get('agreed'):
                    sim.note_violation('result', 'told that version %r was agreed, the peer refused it' % (v,))
                if not [x for x in negs if x is not g and not x['results']]:
                    sim.probe('agreed')
        d.addBoth(done)

    def work(end):
        if not end.transport.connected or end.transport.disconnecting:
            return
        state['n'] += 1
        n = state['n']
        state['work'] += 1

        def done(res):
            state['work'] -= 1
            if not isinstance(res, Failure) and res != {'n': n}:
                sim.note_violation('work', 'a command was answered wrongly')
            elif isinstance(res, Failure) and not state['closed']:
                sim.note_violation('work', 'a command failed: %s' % (res.getErrorMessage(),))
        Work(n=n).do(end).addBoth(done)

    def change():
        juice.VERSIONS = list(c.pick(sets))
        sim.faults['versions changed'] += 1
        if any(not g['results'] for g in negs):
            sim.probe('version changed under way')
            state['interesting'] = True

    spread = c.pick([300, 60, 10])
    for i in range(1 + c.draw(6)):
        end = c.pick(ends)
        sim.after(c.draw(spread) / 10.0, lambda end=end: negotiate(end), 'negotiate')
    for i in range(c.draw(5)):
        end = c.pick(ends)
        sim.after(c.draw(spread) / 10.0, lambda end=end: work(end), 'work')
    for i in range(c.draw(3)):
        sim.after(c.draw(spread) / 10.0, change, 'change')
    if c.chance(0.25):
        def drop():
            state['closed'] = True
            state['interesting'] = True
            conn.drop()
        sim.after(c.draw(spread + 50) / 10.0, drop, 'drop')
    sim.sample = {'versions': juice.VERSIONS, 'spread': spread}
    step = sim.step_event

    def watched():
        r = step()
        settled()
        return r
    sim.step_event = watched
    sim.run()
    for t in (conn.a, conn.b):
        sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [
            '%s: %s' % (e.type.__name__, str(e.value)[:150]) for e in t.data_errors])
    for g in negs:
        sim.expect(len(g['results']) == 1, 'pending', 'a negotiation has %d results', len(g['results']))
        if g.get('refused') and not conn.a.connected:
            sim.expect(isinstance(g['results'][0], Failure), 'refused', 'a refused negotiation succeeded')
    if state['refused']:
        sim.expect(not conn.a.connected and not conn.b.connected, 'refused', 'the connection was not closed after a refusal')
    if not state['closed']:
        sim.expect(conn.open, 'closed', 'the connection was closed (logged %s)', [e[:2] for e in sim.errors])
    for e in ends:
        ok = {0} | {g['v'] for g in negs if g.get('agreed')}
        sim.expect(e.protocolVersion in ok, 'version', '%s uses version %r, which was never agreed', e.side, e.protocolVersion)
    sim.nontrivial = bool(state['interesting'])
    logged = sorted(e[0] for e in sim.take_errors())
    sim.expect(logged == sorted(expected_log), 'log', 'logged %r, expected %r', logged, expected_log)


def crossing(sim):
    """Both ends ask for different versions before seeing the other's request."""
    from epsilon import juice
    saved = juice.VERSIONS
    juice.VERSIONS = [1, 2]
    try:
        client, server = juice.Juice(False), juice.Juice(True)
        sim.reactor
        conn = Connection(sim, client, server)
        got = []
        client.renegotiateVersion(1).addBoth(got.append)
        server.renegotiateVersion(2).addBoth(got.append)
        sim.run()
        sim.take_errors()
        sim.expect(client.protocolVersion == server.protocolVersion, 'disagree', 'crossing requests leave the ends on versions %r and %r',
                   client.protocolVersion, server.protocolVersion)
    finally:
        juice.VERSIONS = saved


KNOWN = {'crossing': crossing}
