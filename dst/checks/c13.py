"""
C13: routed boxes reach exactly the receiver they are addressed to, in order.

System: a real AMP connection with a real Router at each end, carrying several
routes at once: the default route with its own AMP protocol, routes set up over
the wire as in doc/listings/amp/route_setup.py, and routes wired by name.  Over
each of them flow raw boxes or the requests and answers of an independent AMP
protocol (whose tags coincide with those of the others).
"""
from twisted.cred.portal import Portal
from twisted.internet.defer import Deferred
from twisted.protocols import amp
from twisted.protocols.amp import IBoxReceiver
from twisted.python.failure import Failure
from zope.interface import implementer

from .. import amplab
from ..net import Connection, NetConfig

RUNS = (10000, 350000)
RULE = ('seeded sets of routes (default, named, generated names, set up over the wire, removed and reused) and '
        'interleavings of raw boxes and requests over them both ways x segmentation x delays x loss at any point; '
        'non-trivial: at least two routes carried boxes at the same time, or a fault fired')
REAL = ['epsilon.amprouter at both ends', 'epsilon.structlike', 'twisted AMP']
STUB = ['TCP transport (dst.net)', 'receivers (recorders and AMP protocols)']
PROBES = ['unhandled error', 'raw boxes', 'requests', 'default route raw', 'default route requests', 'set up over the wire', 'non-ASCII name',
          'generated name', 'name reused', 'to the default from a named route', 'several routes busy', 'same tag on two routes',
          'large box', 'error answer', 'bound before start', 'answers out of order', 'one box to several routes',
          'box for a route that was removed', 'router serves a login']
FAULTS = ['unhandled error on a route', 'segment split', 'connection reset', 'connection close by a', 'connection abort by b',
          'box for a route nobody has bound']


class Nope(Exception):
    pass


class Unhandled(Exception):
    pass


_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        class Echo(amp.Command):
            commandName = b'Echo'
            arguments = [(b'n', amp.Integer()), (b'who', amp.Unicode())]
            response = [(b'n', amp.Integer()), (b'who', amp.Unicode())]
            errors = {Nope: b'NOPE'}

        class NewRoute(amp.Command):
            commandName = b'NewRoute'
            arguments = [(b'name', amp.Unicode())]
            response = [(b'name', amp.Unicode())]
        _cmds = Echo, NewRoute
    return _cmds


def run(sim):
    from epsilon.amprouter import Router
    from epsilon.ampauth import OneTimePadChecker, OTPLogin
    c = sim.c
    sim.reactor
    Echo, NewRoute = commands()
    state = {'n': 0, 'dropped': False, 'interesting': False, 'pending': 0}

    @implementer(IBoxReceiver)
    class Raw(object):
        def __init__(self, label):
            self.label = label
            self.expected = []
            self.got = []
            self.sender = None

        def startReceivingBoxes(self, sender):
            self.sender = sender

        def ampBoxReceived(self, box):
            self.got.append(dict(box))
            sim.trace('box', self.label, len(self.got))
            i = len(self.got) - 1
            if i >= len(self.expected):
                sim.note_violation('stray', 'receiver %s got a box that was not sent to it: %r' % (self.label, dict(box)))
            elif self.got[i] != self.expected[i]:
                sim.note_violation('mixed', 'receiver %s got %.200r, expected %.200r' % (self.label, dict(box), self.expected[i]))

        def stopReceivingBoxes(self, reason):
            pass

    class App(amp.AMP):
        """An independent protocol on a route; also the wire protocol."""
        label = '?'
        peer_label = None

        @Echo.responder
        def echo(self, n, who):
            sim.trace('echo', self.label, n)
            if who != self.label:
                sim.note_violation('mixed', 'a request for %r was handled by %r' % (who, self.label))
            rec = asked.get(n)
            if rec is None or rec['executed']:
                sim.note_violation('twice', 'request %d executed again' % (n,))
            else:
                rec['executed'] = True
                if self.order and n < self.order:
                    sim.note_violation('order', 'request %d of %s arrived after %d' % (n, self.label, self.order))
                self.order = n
            if n % 7 == 3:
                sim.probe('error answer')
                raise Nope('%d' % n)
            res = {'n': n, 'who': self.label}
            if n % 3:
                return res
            sim.probe('answers out of order')
            d = Deferred()
            sim.after(c.draw(60) / 10.0, lambda: d.callback(res), 'answer')
            return d
        order = 0

        @NewRoute.responder
        def newRoute(self, name):
            router = routers['b']
            app = App()
            app.label = 'wire/' + name
            route = router.bindRoute(app)
            route.connectTo(name)
            remote[name] = app
            return {'name': route.localRouteName}

    asked = {}
    remote = {}
    routers = {'a': Router(), 'b': Router()}
    login = c.draw(4) == 0
    if login:
        # what serves the connection is not there before the client has logged in
        sim.probe('router serves a login')
        realm = amplab.Realm(sim, lambda: c.pick([None, 0.5, 2.0]))

        class Session(Router):
            serial = 0

            def logout(self):
                state['logouts'] = state.get('logouts', 0) + 1
        realm.make = lambda realm, ident: routers['b']
        routers['b'] = Session()
        portal = Portal(realm, [OneTimePadChecker({b'pad': b'someone'})])
        protos = {'a': amp.AMP(), 'b': amplab.make_server(sim, portal)}
        apps = {'a': App(), 'b': App()}
    else:
        protos = apps = {'a': App(routers['a']), 'b': App(routers['b'])}
    used = {'a': set(), 'b': set()}
    channels = []          # {'kind', 'from': sender getter, 'to': ...}

    def other(side):
        return 'b' if side == 'a' else 'a'

    names = [u'one', u'two', u'', u'\u20ac\u00e9', u'_route', u'x' * 200, u'100', u'a b', u'One']

    def bind(side, receiver):
        if c.draw(3) == 0:
            sim.probe('generated name')
            r = routers[side].bindRoute(receiver)
        else:
            free = [n for n in names if n not in used[side]]
            if not free:
                r = routers[side].bindRoute(receiver)
            else:
                n = c.pick(free)
                if n in used['was ' + side]:
                    sim.probe('name reused')
                if n == u'\u20ac\u00e9':
                    sim.probe('non-ASCII name')
                r = routers[side].bindRoute(receiver, n)
        used[side].add(r.localRouteName)
        return r
    used['was a'], used['was b'] = set(), set()
    seq = [0]

    def pair():
        """A route wired by name at both ends, in one go."""
        if not conn_ok() or state.get('stray'):
            # (a stray box on its way might find the name taken again)
            return
        seq[0] += 1
        kind = c.pick(['raw', 'app'])
        label = 'route%d' % seq[0]
        ends = {}
        for side in c.shuffle(['a', 'b']):
            if kind == 'raw':
                p = Raw(label + side)
            else:
                p = App()
                p.label = label + side
            ends[side] = (p, bind(side, p))
        for side in c.shuffle(['a', 'b']):
            ends[side][1].connectTo(ends[other(side)][1].localRouteName)
        for side in 'ab':
            channels.append({'kind': kind, 'side': side, 'me': ends[side][0], 'route': ends[side][1], 'to': ends[other(side)][0],
                             'both': ends, 'label': label, 'dead': False})

    def over_wire():
        if not conn_ok() or default != 'app' or not state['up'] or state.get('stray'):
            return
        app = App()
        route = routers['a'].bindRoute(app)
        used['a'].add(route.localRouteName)
        name = route.localRouteName
        app.label = 'client/' + name
        state['pending'] += 1

        def done(res):
            state['pending'] -= 1
            sim.probe('set up over the wire')
            used['b'].add(res['name'])
            route.connectTo(res['name'])
            srv = remote[name]
            for side, me, to in (('a', app, srv), ('b', srv, app)):
                channels.append({'kind': 'app', 'side': side, 'me': me, 'route': me.boxSender, 'to': to, 'both': None,
                                 'label': 'wire' + name, 'dead': False})

        def failed(f):
            state['pending'] -= 1
            if not state['dropped']:
                sim.note_violation('setup', 'setting up a route failed: %s' % (f.getErrorMessage(),))
        apps['a'].callRemote(NewRoute, name=name).addCallbacks(done, failed)

    def conn_ok():
        return not state['wired'] or (conn.a.connected and conn.b.connected and not conn.a.disconnecting and not conn.b.disconnecting)

    busy = {}

    def send(ch=None):
        live = [x for x in channels if not x['dead']]
        if not live or not conn_ok() or not state['up']:
            return
        ch = ch or c.pick(live)
        state['n'] += 1
        n = state['n']
        if ch['kind'] == 'raw':
            sim.probe('raw boxes')
            k = c.draw(4)
            box = amp.Box(n=b'%d' % n)
            if k == 1:
                box[b'data'] = c.pick([b'', b'\x00\x00', b'_route', bytes(range(256))])
            elif k == 2:
                box[b'route'] = b'one'
                box[b'_ask'] = b'1'
            elif k == 3 and c.draw(4) == 0:
                sim.probe('large box')
                box[b'big'] = b'z' * c.draw(65536)
            to = [ch]
            if c.draw(6) == 0:
                to += [x for x in live if x['kind'] == 'raw' and x is not ch and c.draw(2)]
                if len(to) > 1:
                    sim.probe('one box to several routes')
            content = dict(box)
            for x in to:
                x['to'].expected.append(dict(content))
                sim.trace('send', x['label'], n)
                (x['route'] or x['me'].sender).sendBox(box)
        else:
            sim.probe('requests')
            asked[n] = rec = {'executed': False, 'results': [], 'ch': ch}
            busy[ch['label']] = busy.get(ch['label'], 0) + 1
            if len([k for k, v in busy.items() if v]) > 1:
                sim.probe('several routes busy')
                sim.probe('same tag on two routes')
                state['interesting'] = True

            def done(res):
                busy[ch['label']] -= 1
                rec['results'].append(res)
                if len(rec['results']) > 1:
                    sim.note_violation('twice', 'request %d has two results' % n)
                if isinstance(res, Failure):
                    if res.check(Nope):
                        if n % 7 != 3 or str(res.value) != '%d' % n:
                            sim.note_violation('mixed', 'request %d got the error of another' % n)
                    elif not state['dropped']:
                        sim.note_violation('failed', 'request %d failed: %s' % (n, res.getErrorMessage()))
                elif res != {'n': n, 'who': ch['to'].label}:
                    sim.note_violation('mixed', 'request %d to %s was answered %r' % (n, ch['to'].label, res))
            sim.trace('ask', ch['label'], n)
            ch['me'].callRemote(Echo, n=n, who=ch['to'].label).addBoth(done)

    def remove():
        """Unbind a wired route at both ends while it is idle."""
        for ch in channels:
            if ch['dead'] or ch['both'] is None or not conn_ok():
                continue
            mine = [x for x in channels if x['both'] is ch['both']]
            if any(x['kind'] == 'app' and busy.get(x['label']) for x in mine):
                continue
            if any(x['kind'] == 'raw' and len(x['to'].got) != len(x['to'].expected) for x in mine):
                continue
            for x in mine:
                x['dead'] = True
                x['route'].unbind()
                used[x['side']].discard(x['route'].localRouteName)
                used['was ' + x['side']].add(x['route'].localRouteName)
            sim.trace('removed', ch['label'])
            return

    def stray():
        """A box for a route that is not bound at the other side."""
        if not conn_ok() or not state['up'] or state['dropped']:
            return
        side = c.pick(['a', 'b'])
        gone = [n for n in sorted(used['was ' + other(side)]) if n not in used[other(side)]]
        never = [n for n in (u'ONE', u'None', u'gone', u'Two', u'one ', u'-1') if n not in used[other(side)]]
        if gone and c.draw(3):
            sim.probe('box for a route that was removed')
            name = c.pick(gone)
        else:
            name = c.pick(never)
        sim.fault('box for a route nobody has bound')
        sim.trace('stray', name)
        # what becomes of the connection is not specified, but nobody gets the box
        state['dropped'] = True
        state['stray'] = True
        route = routers[side].bindRoute(Raw('stray'))
        route.connectTo(name)
        route.sendBox(amp.Box({b'_command': b'Echo', b'n': b'1000000', b'who': b'nobody'}))

    def unhandled():
        """A protocol on a route gives up on an error: the connection has to be told."""
        live = [x for x in channels if not x['dead'] and x['route'] is not None]
        if not live or not conn_ok() or not state['up'] or state['dropped']:
            return
        ch = c.pick(live)
        sim.fault('unhandled error on a route')
        sim.probe('unhandled error')
        sim.trace('unhandled', ch['label'])
        state['dropped'] = True
        sim.take_errors()
        t = protos[ch['side']].transport
        ch['route'].unhandledError(Failure(Unhandled(ch['label'])))
        errs = sim.take_errors()
        sim.expect([e[0] for e in errs] == ['Unhandled'], 'unhandled', 'an error left unhandled on a route was logged as %s', [e[:2] for e in errs])
        sim.expect(t.disconnecting or not t.connected, 'unhandled', 'the connection goes on after an error left unhandled on a route')

    state['up'] = state['wired'] = False
    default = c.pick(['app', 'raw', 'none'])
    ends = {}
    if default == 'app':
        for side in 'ab':
            apps[side].label = 'default' + side
            routers[side].bindRoute(apps[side], None).connectTo(None)
        for side in 'ab':
            channels.append({'kind': 'app', 'side': side, 'me': apps[side], 'route': None, 'to': apps[other(side)],
                             'both': None, 'label': 'default', 'dead': False})
        sim.probe('default route requests')
    elif default == 'raw':
        for side in 'ab':
            ends[side] = Raw('default' + side)
            routers[side].bindRoute(ends[side], None).connectTo(None)
        for side in 'ab':
            channels.append({'kind': 'raw', 'side': side, 'me': ends[side], 'route': None, 'to': ends[other(side)],
                             'both': None, 'label': 'default', 'dead': False})
        sim.probe('default route raw')
        if c.draw(2):
            # a named route whose boxes go, without a route, to the default
            sim.probe('to the default from a named route')
            r = Raw('named')
            route = bind('a', r)
            route.connectTo(None)
            channels.append({'kind': 'raw', 'side': 'a', 'me': r, 'route': route, 'to': ends['b'], 'both': None,
                             'label': 'named', 'dead': False})
    for i in range(c.draw(3)):
        sim.probe('bound before start')
        pair()
    conn = Connection(sim, protos['a'], protos['b'], cfg=NetConfig(sim))
    state['wired'] = True
    if login:
        def logged_in(ign):
            sim.trace('logged in')
            state['up'] = True
            protos['a'].boxReceiver = routers['a']
            routers['a'].startReceivingBoxes(protos['a'].boxSender)

        def refused(f):
            if conn.open and not state['dropped']:
                sim.note_violation('login', 'logging in failed: %s' % (f.getErrorMessage(),))
        protos['a'].callRemote(OTPLogin, pad=b'pad').addCallbacks(logged_in, refused)
    else:
        state['up'] = True
    for i in range(c.draw(4)):
        sim.after(c.draw(80) / 10.0, pair, 'pair')
    for i in range(c.draw(4)):
        sim.after(c.draw(80) / 10.0, over_wire, 'route')
    for i in range(4 + c.draw(20)):
        sim.after(c.draw(200) / 10.0, send, 'send')
    for i in range(c.draw(4)):
        sim.after(c.draw(250) / 10.0, remove, 'remove')
    if c.chance(0.2):
        def drop():
            state['dropped'] = True
            conn.drop()
        sim.after(c.draw(250) / 10.0, drop, 'drop')
    elif c.chance(0.1):
        sim.after(c.draw(300) / 10.0, stray, 'stray')
    elif c.chance(0.1):
        sim.after(c.draw(300) / 10.0, unhandled, 'unhandled')
    sim.sample = {'default': default}
    sim.run()

    for t in (conn.a, conn.b) if not state.get('stray') else ():
        sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [
            '%s: %s' % (e.type.__name__, str(e.value)[:150]) for e in t.data_errors])
    if not state['dropped']:
        sim.expect(conn.open, 'closed', 'the connection was closed (logged %s)', [e[:2] for e in sim.errors])
        for ch in channels:
            if ch['kind'] == 'raw':
                to = ch['to']
                sim.expect(len(to.got) == len(to.expected), 'lost', 'receiver %s got %d of %d boxes', to.label, len(to.got), len(to.expected))
        for n, r in asked.items():
            sim.expect(len(r['results']) == 1, 'lost', 'request %d has %d results', n, len(r['results']))
        if state['interesting']:
            pass
    if login and not conn.b.connected:
        sim.expect(state.get('logouts', 0) == len(realm.avatars), 'logout', 'the session was ended %d times', state.get('logouts', 0))
    errs = sim.take_errors()
    if not state['dropped']:
        sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
    raws = [ch for ch in channels if ch['kind'] == 'raw' and ch['to'].got]
    sim.nontrivial = bool(state['interesting'] or state['dropped'] or len(raws) > 1)
