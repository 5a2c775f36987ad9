"""
C14: route life cycle - started once, stopped once, names never clash.

System: a real Router on a real AMP connection (its peer a scripted wire), and
receivers that bind, connect and unbind routes at seeded times, from the
outside and from inside their own start and stop callbacks; the router is
started before, between or after those, and the connection is lost at any
point.  A small model says which receiver must have been told what.
"""
from twisted.internet.protocol import Protocol
from twisted.protocols import amp
from twisted.protocols.amp import IBoxReceiver
from zope.interface import implementer

from ..net import Connection, NetConfig

RUNS = (24000, 800000)
RULE = ('seeded orders of bind / connect / unbind / router start / loss, also from inside receivers\' callbacks, with '
        'explicit, default and generated names, boxes arriving for bound and unbound routes x segmentation x delays; '
        'non-trivial: something was done from inside a callback, or before start, or a route was unbound')
REAL = ['epsilon.amprouter', 'epsilon.structlike', 'twisted AMP (BinaryBoxProtocol)']
STUB = ['TCP transport (dst.net)', 'receivers (recorders that act on a seeded script)', 'the peer (scripted boxes)']
ASSUMPTIONS = ['a route of a running router is connected at most once, and a name in use is not bound again explicitly',
               'no route is connected after the router has stopped']
PROBES = ['started by router', 'started by connect', 'connected before start', 'bound before start', 'unbound before start',
          'unbound while started', 'unbound after stop', 'bind in start', 'connect in start', 'unbind in start', 'unbind in stop',
          'bind in stop', 'unbind self in stop', 'unconnected at stop', 'send refused', 'name clash avoided', 'box delivered',
          'unbound twice', 'lost during setup', 'default route', 'rebound name', 'send works', 'connected anew before start']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b']


def run(sim):
    from epsilon.amprouter import RouteNotConnected, Router
    c = sim.c
    sim.reactor
    router = Router()
    proto = amp.BinaryBoxProtocol(router)
    recs = []
    state = {'started': False, 'stopping': False, 'stopped': False, 'depth': 0, 'interesting': False, 'cb': None}
    out = []               # (remote name or None, n) boxes the router's routes sent

    @implementer(IBoxReceiver)
    class Rec(object):
        def __init__(self):
            self.i = len(recs)
            recs.append(self)
            self.route = None
            self.bound = False
            self.connected = False
            self.starts = []
            self.stops = []
            self.boxes = []
            self.expected = []
            self.in_start = []
            self.in_stop = []
            self.born_in_stop = False

        def startReceivingBoxes(self, sender):
            sim.trace('start', self.i)
            self.starts.append(sender)
            if sender is not self.route:
                sim.note_violation('sender', 'a receiver was not given its route as sender')
            if len(self.starts) > 1:
                sim.note_violation('started twice', 'a receiver was started twice')
            if not self.connected:
                sim.note_violation('early', 'a receiver was started before its route was connected')
            if not state['started']:
                sim.note_violation('early', 'a receiver was started before its router')
            if not self.bound:
                sim.note_violation('unbound', 'a receiver was started although its route was unbound')
            if self.stops:
                sim.note_violation('late', 'a receiver was started after being stopped')
            prev, state['cb'] = state['cb'], 'start'
            try:
                for op in self.in_start:
                    op()
            finally:
                state['cb'] = prev

        def ampBoxReceived(self, box):
            self.boxes.append(dict(box))
            if not self.bound:
                sim.note_violation('unbound', 'an unbound route received a box')
            sim.probe('box delivered')

        def stopReceivingBoxes(self, reason):
            sim.trace('stop', self.i)
            self.stops.append(reason)
            if len(self.stops) > 1:
                sim.note_violation('stopped twice', 'a receiver was told twice')
            if not state['stopping']:
                sim.note_violation('stopped early', 'a receiver was told before the router stopped')
            if not self.bound and self.was_bound_at_stop:
                sim.note_violation('unbound', 'a receiver was told although its route had been unbound')
            elif not self.bound:
                sim.note_violation('unbound', 'the receiver of an unbound route was told')
            prev, state['cb'] = state['cb'], 'stop'
            try:
                for op in self.in_stop:
                    op()
            finally:
                state['cb'] = prev
        was_bound_at_stop = False

    def in_use():
        return {r.route.localRouteName for r in recs if r.bound and r.route is not None}

    names = [None, u'0', u'1', u'2', u'3', u'x', u'\u20ac', u'5']
    budget = [14]

    def bind(connect=None):
        if state['stopped'] or budget[0] <= 0 or (state['stopping'] and state['cb'] != 'stop'):
            return None
        budget[0] -= 1
        r = Rec()
        used = in_use()
        explicit = c.draw(2)
        free = [n for n in names if n not in used]
        if state['cb']:
            state['interesting'] = True
            sim.probe('bind in %s' % state['cb'])
        if not state['started']:
            sim.probe('bound before start')
            state['interesting'] = True
        r.born_in_stop = state['stopping']
        script(r)
        try:
            if explicit and free:
                name = c.pick(free)
                if name is None:
                    sim.probe('default route')
                if any(not x.bound and x.route is not None and x.route.localRouteName == name for x in recs):
                    sim.probe('rebound name')
                r.route = router.bindRoute(r, name)
                if r.route.localRouteName != name:
                    sim.note_violation('name', 'asked for the name %r, got %r' % (name, r.route.localRouteName))
            else:
                if c.draw(3) == 0:
                    ident = router.createRouteIdentifier()
                    if ident in used:
                        sim.note_violation('clash', 'the router chose the name %r, which is in use' % (ident,))
                    if any(not x.bound and x.route is not None and x.route.localRouteName == ident for x in recs):
                        sim.probe('rebound name')
                    r.route = router.bindRoute(r, ident)
                else:
                    r.route = router.bindRoute(r)
                if r.route.localRouteName in used:
                    sim.note_violation('clash', 'the router chose the name %r, which is in use' % (r.route.localRouteName,))
                if u'0' in used or u'1' in used or u'2' in used:
                    sim.probe('name clash avoided')
        except Exception:
            if not state['stopping']:
                raise
            # a router that is going down may refuse
            r.route = None
            return None
        r.bound = True
        sim.trace('bind', r.i, repr(r.route.localRouteName))
        if connect or (connect is None and c.draw(2)):
            link(r)
        return r

    def link(r):
        if r is None or r.route is None or r.connected or not r.bound or state['stopping'] or state['stopped']:
            return
        sim.trace('connect', r.i)
        r.connected = True
        if state['cb']:
            state['interesting'] = True
            sim.probe('connect in %s' % state['cb'])
        if not state['started']:
            sim.probe('connected before start')
            state['interesting'] = True
        before = len(r.starts)
        if not state['started'] and c.draw(8) == 0:
            sim.probe('connected anew before start')
            r.route.connectTo(u'changed my mind')
        r.route.connectTo(c.pick([u'r%d' % r.i, None, u'\u20ac']))
        if state['started']:
            sim.probe('started by connect')
            if len(r.starts) != before + 1:
                sim.note_violation('start', 'connecting a route of a running router started its receiver %d times' % (len(r.starts) - before))
        elif r.starts:
            sim.note_violation('early', 'a receiver was started before its router')

    def link_some():
        open_ = [r for r in recs if r.bound and not r.connected]
        if open_:
            link(c.pick(open_))

    def unbind(r=None):
        live = [x for x in recs if x.bound and x.route is not None]
        if r is None:
            if not live:
                return
            r = c.pick(live)
        if r.route is None:
            return
        if r.pending:
            return                      # boxes for it are under way
        sim.trace('unbind', r.i)
        state['interesting'] = True
        if state['cb']:
            sim.probe('unbind in %s' % state['cb'])
            if state['cb'] == 'stop' and state.get('self') is r:
                sim.probe('unbind self in stop')
        elif state['stopped']:
            sim.probe('unbound after stop')
        elif not state['started']:
            sim.probe('unbound before start')
        else:
            sim.probe('unbound while started')
        r.bound = False
        r.route.unbind()
    Rec.pending = 0

    def unbind_self(r):
        if r.bound:
            sim.probe('unbind self in stop')
            unbind(r)

    def script(r):
        """What the receiver does from inside its callbacks."""
        if c.chance(0.35):
            for k in range(1 + c.draw(2)):
                r.in_start.append(c.pick([bind, link_some, unbind, lambda: bind(True)]))
        if c.chance(0.35):
            for k in range(1 + c.draw(2)):
                r.in_stop.append(c.pick([unbind, lambda: unbind_self(r), bind, unbind]))

    def send():
        live = [r for r in recs if r.route is not None and r.bound]
        if not live or state['stopping'] or state['stopped'] or not state['started']:
            return
        r = c.pick(live)
        box = amp.Box(n=b'%d' % len(out))
        if not r.connected:
            wrote = len(proto.transport.written)
            try:
                r.route.sendBox(box)
            except RouteNotConnected:
                sim.probe('send refused')
            else:
                sim.violate('send', 'a box was sent through a route that is not connected')
            sim.expect(len(proto.transport.written) == wrote, 'send', 'a refused box was written')
        else:
            wrote = len(proto.transport.written)
            r.route.sendBox(box)
            sim.probe('send works')
            if proto.transport.connected:
                sim.expect(len(proto.transport.written) > wrote, 'send', 'a box sent through a connected route was not written')

    class Wire(Protocol):
        pass
    wire = Wire()
    conn = Connection(sim, proto, wire, cfg=NetConfig(sim), connect=False)
    real_stop = router.stopReceivingBoxes

    def arrive():
        """The peer sends a box for a bound, started route."""
        live = [r for r in recs if r.bound and r.route is not None and r.starts]
        if not live or not state['started'] or state['stopping'] or not conn.b.connected or conn.b.disconnecting:
            return
        r = c.pick(live)
        box = amp.Box(n=b'%d' % len(r.expected))
        if r.route.localRouteName is not None:
            box[b'_route'] = r.route.localRouteName.encode('utf-8')
        r.expected.append({b'n': box[b'n']})
        r.pending += 1
        orig = r.ampBoxReceived

        conn.b.write(box.serialize())

    def deliver_done():
        for r in recs:
            r.pending = len(r.expected) - len(r.boxes)

    class Front(object):
        """Watches the router being started and stopped by the connection."""

        def startReceivingBoxes(self, sender):
            want = [r for r in recs if r.bound and r.connected]
            state['started'] = True
            sim.trace('router start')
            router.startReceivingBoxes(sender)
            for r in want:
                if r.bound and len(r.starts) != 1:
                    sim.note_violation('start', 'starting the router started a connected receiver %d times' % len(r.starts))
                elif r.starts:
                    sim.probe('started by router')

        def ampBoxReceived(self, box):
            router.ampBoxReceived(box)
            deliver_done()

        def stopReceivingBoxes(self, reason):
            at = [r for r in recs if r.bound]
            for r in at:
                r.was_bound_at_stop = True
                if not r.connected:
                    sim.probe('unconnected at stop')
                    sim.probe('lost during setup')
            state['stopping'] = True
            for r in recs:
                r.pending = 0
            sim.trace('router stop')
            router.stopReceivingBoxes(reason)
            state['stopped'] = True
            state['stopping'] = False
            for r in at:
                # told, or unbound by another one's callback before its turn
                if len(r.stops) != 1 and r.bound:
                    sim.note_violation('stop', 'the receiver of a bound route was told %d times' % len(r.stops))
                if r.stops and r.stops[0] is not reason:
                    sim.note_violation('stop', 'a receiver was told another reason')
    proto.boxReceiver = Front()

    def start():
        conn.connect()

    when = c.draw(60) / 10.0
    sim.after(when, start, 'connect')
    for i in range(1 + c.draw(6)):
        sim.after(c.draw(100) / 10.0, bind, 'bind')
    for i in range(c.draw(5)):
        sim.after(c.draw(120) / 10.0, link_some, 'link')
    for i in range(c.draw(4)):
        sim.after(c.draw(140) / 10.0, unbind, 'unbind')
    for i in range(c.draw(4)):
        sim.after(c.draw(140) / 10.0, send, 'send')
    for i in range(c.draw(4)):
        sim.after(when + c.draw(100) / 10.0, arrive, 'arrive')
    stop_at = when + c.draw(150) / 10.0
    sim.after(stop_at, conn.drop, 'drop')
    for i in range(c.draw(3)):
        sim.after(stop_at + c.draw(250) / 10.0, unbind, 'unbind')

    def again():
        gone = [r for r in recs if r.route is not None and not r.bound]
        if gone:
            r = c.pick(gone)
            sim.probe('unbound twice')
            # whether that is an error is not specified; it must not disturb anybody
            try:
                r.route.unbind()
            except Exception:
                pass
    if c.chance(0.2):
        sim.after(c.draw(150) / 10.0, again, 'unbind again')
    sim.sample = {'router started at': when, 'lost at': stop_at}
    sim.run()

    if not state['stopped'] and conn.a.connected:
        conn.drop('close by b')
        sim.run()
    for t in (conn.a,):
        sim.expect(not t.data_errors, 'exception', 'receiving raised %s', [
            '%s: %s' % (e.type.__name__, str(e.value)[:150]) for e in t.data_errors])
    sim.expect(state['stopped'], 'harness', 'the router was not stopped')
    for r in recs:
        sim.expect(r.boxes == r.expected[:len(r.boxes)], 'boxes', 'receiver %d got %r, expected %r', r.i, r.boxes, r.expected)
    errs = sim.take_errors()
    sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
    sim.nontrivial = bool(state['interesting'])
