"""
C12: a login session has one avatar, started once and logged out once.

System: real CredReceivers behind a real Portal; clients log in (sometimes
several times at once, sometimes wrongly) while application boxes flow in both
directions; the realm answers at once or late; avatars may fail to start or to
stop; connections die at any time, in particular while logins are pending.
"""
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import Portal
from twisted.protocols import amp
from twisted.python.failure import Failure

from ..amplab import Avatar, AvatarBroken, Realm, Slow
from ..net import Connection, NetConfig

RUNS = (10000, 350000)
RULE = ('seeded histories of logins (concurrent, late, refused) and application boxes both ways x avatars that fail to '
        'start or stop x segmentation x delays x loss at any point; non-trivial: logins overlapped, or a login was '
        'decided after the loss, or boxes flowed around the login, or a fault fired')
REAL = ['epsilon.ampauth (CredReceiver, CredAMPServerFactory)', 'twisted AMP and cred']
STUB = ['TCP transport (dst.net)', 'checker, realm and avatars (recorders)']
PROBES = ['login', 'two logins pending', 'second login succeeded late', 'avatar after loss', 'lost while deciding',
          'boxes before login', 'boxes after login', 'box right behind the login', 'avatar sends', 'avatar sends on start',
          'refused then in', 'lost after login', 'slow realm', 'slow checker']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'slow checker',
          'avatar fails to stop', 'avatar fails to start']

_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        class App(amp.Command):
            commandName = b'App'
            arguments = [(b'n', amp.Integer())]
            requiresAnswer = False
        _cmds = App
    return _cmds


def run(sim):
    from epsilon import ampauth
    c = sim.c
    sim.reactor
    App = commands()
    slow = c.draw(3)
    state = {'interesting': False}
    links = []

    class Checker(object):
        credentialInterfaces = ampauth.OneTimePadChecker.credentialInterfaces

        def requestAvatarId(self, credentials):
            if credentials.padValue.startswith(b'bad'):
                raise UnauthorizedLogin('no')
            return credentials.padValue

    def checker_delay():
        if not slow or c.draw(2) == 0:
            return 'at once', None
        sim.faults['slow checker'] += 1
        sim.probe('slow checker')
        return c.pick(['ask late', 'answer late']), c.draw(80) / 10.0

    def realm_delay():
        if not slow or c.draw(2) == 0:
            return None
        sim.probe('slow realm')
        return c.draw(80) / 10.0

    class Made(Avatar):
        def __init__(self, realm, ident):
            Avatar.__init__(self, realm, ident)
            self.born = sim.now
            self.link = links[int(ident.split(b'/')[1])]
            self.link.made.append(self)
            self.late = not self.link.conn.b.connected
            if self.late:
                sim.probe('avatar after loss')
                state['interesting'] = True
            if self.link.serving is not None:
                sim.probe('second login succeeded late')
            if c.chance(0.05):
                self.stop_raises = True

    checker = Slow(sim, Checker(), checker_delay)
    realm = Realm(sim, realm_delay)
    realm.make = Made
    portal = Portal(realm, [checker])
    expected = []

    def on_start(avatar, sender):
        l = avatar.link
        if sender is not l.server:
            sim.note_violation('sender', 'an avatar was started with the sender of another connection')
        if l.serving is not None:
            sim.note_violation('two avatars', 'a connection was given a second avatar')
        if avatar.late:
            sim.note_violation('late', 'an avatar was started on a connection already lost')
        l.serving = avatar
        sim.probe('login')
        if c.chance(0.04):
            sim.fault('avatar fails to start')
            l.broken = True
            raise AvatarBroken('start')
        if c.chance(0.3):
            sim.probe('avatar sends on start')
            l.say()

        for i in range(c.draw(3)):
            sim.after(c.draw(100) / 10.0, l.say, 'avatar sends')

    def on_box(avatar, box):
        l = avatar.link
        n = int(box[b'n']) if b'n' in box else 'login'
        l.seen.append((n, 'avatar'))
        sim.probe('boxes after login')
    realm.on_start, realm.on_box = on_start, on_box

    class Server(ampauth.CredReceiver):
        @App.responder
        def app(self, n):
            self.link.seen.append((n, 'before'))
            sim.probe('boxes before login')
            if self.link.serving is not None:
                sim.note_violation('box', 'a box that arrived after the login was not given to the avatar')
            return {}

        def connectionLost(self, reason):
            l = self.link
            if checker.pending or realm.pending:
                sim.probe('lost while deciding')
            if l.serving is not None:
                sim.probe('lost after login')
                state['interesting'] = True
            ampauth.CredReceiver.connectionLost(self, reason)

    class Client(amp.AMP):
        @App.responder
        def app(self, n):
            self.link.heard.append(n)
            return {}

    class Factory(ampauth.CredAMPServerFactory):
        protocol = Server
    factory = Factory(portal)

    class L(object):
        def __init__(self, i):
            self.i = i
            self.name = 'c%d' % i
            self.made, self.seen, self.sent, self.heard, self.said = [], [], [], [], []
            self.serving = None
            self.dropped = self.broken = False
            self.logins = []
            links.append(self)
            self.server = factory.buildProtocol(None)
            self.client = Client()
            self.server.link = self.client.link = self
            self.conn = Connection(sim, self.client, self.server, name=self.name, cfg=NetConfig(sim))

        @property
        def up(self):
            return self.conn.a.connected and not self.conn.a.disconnecting

        def say(self):
            if self.conn.b.connected and not self.conn.b.disconnecting and self.serving.started:
                n = len(self.said)
                self.said.append(n)
                sim.probe('avatar sends')
                self.serving.started[0].sendBox(amp.Box(_command=b'App', n=b'%d' % n))

        def app(self):
            if self.up:
                self.sent.append(len(self.sent))
                self.client.callRemote(App, n=self.sent[-1])

        def login(self):
            if not self.up:
                return
            rec = {'result': None, 'good': c.draw(4) != 3}
            if any(r['result'] is None for r in self.logins):
                sim.probe('two logins pending')
                state['interesting'] = True
            self.logins.append(rec)
            pad = (b'good' if rec['good'] else b'bad') + b'%d/%d' % (len(self.logins), self.i)
            rec['pad'] = pad

            def done(res):
                rec['result'] = res
                sim.trace('login', self.name, res.type.__name__ if isinstance(res, Failure) else 'in')
                if not isinstance(res, Failure):
                    if self.serving is None or self.serving.ident != pad:
                        sim.note_violation('answer', 'a client was told its login succeeded, but its avatar does not serve')
                    if len([r for r in self.logins if isinstance(r['result'], Failure)]):
                        sim.probe('refused then in')
            self.client.callRemote(ampauth.OTPLogin, pad=pad).addBoth(done)
            if c.chance(0.4):
                sim.probe('box right behind the login')
                state['interesting'] = True
                self.app()
                self.app()

    def begin(i):
        l = L(i)
        for k in range(1 + c.draw(3)):
            sim.after(c.draw(100) / 10.0, l.login, 'login')
        for k in range(c.draw(6)):
            sim.after(c.draw(200) / 10.0, l.app, 'app')
        if c.chance(0.35):
            def drop():
                l.dropped = True
                l.conn.drop()
            sim.after(c.draw(200) / 10.0, drop, 'drop')

    n = 1 + c.draw(3)
    for i in range(n):
        # the links exist in order, whatever happens to them later
        begin(i)
    sim.sample = {'connections': n, 'slow': slow}
    sim.run()

    for l in links:
        up = not l.dropped and not l.broken
        if up:
            sim.expect(l.conn.open, 'closed', 'connection closed (logged %s)', [e[:2] for e in sim.errors])
            sim.expect(l.heard == l.said, 'sender', 'the avatar sent %r, the client received %r', l.said, l.heard)
            got = [r for r, w in l.seen if r != 'login']
            sim.expect(got == l.sent, 'boxes', 'boxes sent %r, received %r', l.sent, got)
            good = [r for r in l.logins if r['good']]
            if good:
                sim.expect(l.serving is not None, 'login', 'no avatar serves, though a login was right')
            won = [r for r in l.logins if r['result'] is not None and not isinstance(r['result'], Failure)]
            sim.expect(len(won) <= 1, 'two avatars', '%d logins succeeded on one connection', len(won))
        got = [r for r, w in l.seen if r != 'login']
        sim.expect(got == l.sent[:len(got)], 'boxes', 'boxes sent %r, received %r', l.sent, got)
        sim.expect(l.heard == l.said[:len(l.heard)], 'sender', 'the avatar sent %r, the client received %r', l.said, l.heard)
        for a in l.made:
            if a is l.serving and l.conn.b.connected:
                sim.expect(a.logouts == 0, 'logout', 'an avatar was logged out while its connection is up')
            elif a is not l.serving:
                sim.expect(a.logouts == 1 and a.logged_out_at == a.born, 'leak',
                           'an avatar that cannot be used was not logged out at once (%d logouts)', a.logouts)
                sim.expect(not a.started and not a.boxes, 'two avatars', 'an avatar that cannot be used was started')
    # now everything is lost
    for l in links:
        if l.conn.a.connected or l.conn.b.connected:
            l.conn.drop()
    sim.run()
    for l in links:
        for a in l.made:
            sim.expect(a.logouts == 1, 'logout', 'the connection is gone and an avatar was logged out %d times', a.logouts)
            sim.expect(len(a.stopped) == len(a.started), 'stop', 'an avatar was started %d times and stopped %d times',
                       len(a.started), len(a.stopped))
            if a is l.serving:
                sim.expect(a.logged_out_at == l.conn.b.lost_at, 'logout', 'an avatar was logged out late')
    sim.nontrivial = bool(state['interesting'])
    errs = [e[0] for e in sim.take_errors()]
    want = {'AvatarBroken'}
    sim.expect(not (set(errs) - want), 'log', 'logged %r', errs)
