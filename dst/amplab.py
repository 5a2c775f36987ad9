"""
Shared pieces of the AMP checks: a real cred Portal in front of a realm and
checkers whose answers the simulation delays or fails, recording avatars, and
connections between real AMP clients and real CredReceivers.
"""
from twisted.cred.portal import IRealm, Portal
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.protocols.amp import AMP, IBoxReceiver
from twisted.python.failure import Failure
from zope.interface import implementer

from .net import Connection, NetConfig


@implementer(IBoxReceiver)
class Avatar(object):
    """A recorder; one per requestAvatar."""

    def __init__(self, realm, ident):
        self.realm = realm
        self.sim = realm.sim
        self.ident = ident
        self.serial = len(realm.avatars)
        self.started = []            # senders
        self.boxes = []
        self.stopped = []
        self.logouts = 0
        self.logged_out_at = None
        self.start_raises = self.stop_raises = False

    def startReceivingBoxes(self, sender):
        self.sim.trace('avatar start', self.serial)
        self.started.append(sender)
        if len(self.started) > 1:
            self.sim.note_violation('started twice', 'an avatar was started twice')
        if self.logouts:
            self.sim.note_violation('started late', 'an avatar was started after its logout')
        self.realm.on_start(self, sender)

    def ampBoxReceived(self, box):
        self.sim.trace('avatar box', self.serial)
        if len(self.started) != 1:
            self.sim.note_violation('box early', 'an avatar got a box before it was started')
        if self.logouts:
            self.sim.note_violation('box late', 'an avatar got a box after its logout')
        self.boxes.append(box)
        self.realm.on_box(self, box)

    def stopReceivingBoxes(self, reason):
        self.sim.trace('avatar stop', self.serial)
        self.stopped.append(reason)
        if len(self.stopped) > 1:
            self.sim.note_violation('stopped twice', 'an avatar was stopped twice')
        if self.stop_raises:
            self.sim.fault('avatar fails to stop')
            raise AvatarBroken('stop')

    def logout(self):
        self.sim.trace('logout', self.serial)
        self.logouts += 1
        self.logged_out_at = self.sim.now
        if self.logouts > 1:
            self.sim.note_violation('logout twice', 'an avatar was logged out twice')
        self.realm.on_logout(self)


class AvatarBroken(Exception):
    pass


@implementer(IRealm)
class Realm(object):
    def __init__(self, sim, delay=None):
        self.sim = sim
        self.avatars = []
        self.requests = []
        self.delay = delay or (lambda: None)
        self.no_avatar = ()
        self.pending = 0
        self.make = Avatar

    def on_start(self, avatar, sender):
        pass

    def on_box(self, avatar, box):
        pass

    def on_logout(self, avatar):
        pass

    def requestAvatar(self, ident, mind, *interfaces):
        self.requests.append(ident)
        self.sim.trace('requestAvatar', repr(ident))

        def give(ign=None):
            if ident in self.no_avatar:
                raise NotImplementedError('no such avatar')
            a = self.make(self, ident)
            self.avatars.append(a)
            self.sim.trace('avatar', a.serial)
            return IBoxReceiver, a, a.logout
        wait = self.delay()
        if wait is None:
            return give()
        d = Deferred()
        d.addCallback(give)
        self.pending += 1

        def fire():
            self.pending -= 1
            d.callback(None)
        self.sim.after(wait, fire, 'realm')
        return d


class Slow(object):
    """A checker whose verdict comes when the simulation says so."""

    def __init__(self, sim, inner, delay):
        from twisted.cred.checkers import ICredentialsChecker
        from zope.interface import directlyProvides
        self.sim = sim
        self.inner = inner
        self.delay = delay
        self.credentialInterfaces = inner.credentialInterfaces
        self.pending = 0
        directlyProvides(self, ICredentialsChecker)

    def __getattr__(self, name):
        # the pads, for instance
        if name == 'inner':
            raise AttributeError(name)
        return getattr(self.inner, name)

    def requestAvatarId(self, credentials):
        when, wait = self.delay()
        if when == 'at once' or wait is None:
            return self.inner.requestAvatarId(credentials)
        d = Deferred()
        self.pending += 1
        if when == 'ask late':
            def fire():
                self.pending -= 1
                maybeDeferred(self.inner.requestAvatarId, credentials).chainDeferred(d)
        else:
            res = maybeDeferred(self.inner.requestAvatarId, credentials)

            def fire():
                self.pending -= 1
                res.chainDeferred(d)
        self.sim.after(wait, fire, 'checker')
        return d


def make_server(sim, portal):
    from epsilon import ampauth
    return ampauth.CredAMPServerFactory(portal).buildProtocol(None)


class Link(object):
    """One connection: a real AMP client and a real CredReceiver."""

    def __init__(self, sim, portal, name, cfg=None, client=None):
        self.sim = sim
        self.name = name
        self.server = make_server(sim, portal)
        self.client = client or AMP()
        self.conn = Connection(sim, self.client, self.server, name=name, cfg=cfg or NetConfig(sim))
        self.dropped = False

    @property
    def up(self):
        return self.conn.a.connected and not self.conn.a.disconnecting

    def drop(self):
        self.dropped = True
        self.conn.drop()
