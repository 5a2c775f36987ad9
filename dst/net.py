"""
A simulated TCP connection between two real protocols.

What it keeps from TCP/Twisted: bytes arrive in order, unchanged and at most
once; how they are cut into segments and when they arrive is arbitrary;
loseConnection flushes what was written, then closes, and stops reading;
a reset may cut either direction at any byte; an exception escaping
dataReceived is logged and loses the connection; connectionLost comes once;
nothing is delivered after it; writes after it are ignored.
"""
from twisted.internet import error, interfaces
from twisted.internet.address import IPv4Address
from twisted.python import log
from twisted.python.failure import Failure
from zope.interface import implementer


class NetConfig(object):
    """How one connection's bytes are cut and delayed (swarm: per run)."""

    def __init__(self, sim, allow_reset=True):
        c = sim.c
        self.mode = c.pick(['whole', 'random', 'tiny', 'byte', 'lumpy', 'mixed'])
        self.delay = c.pick(['zero', 'short', 'long', 'mixed'])
        self.split_bias = c.pick([0, 1, 2])

    def segment(self, c, n):
        """How many of n pending bytes to deliver now (1..n)."""
        m = self.mode
        if m == 'mixed':
            m = c.pick(['whole', 'random', 'tiny', 'byte'])
        if m == 'whole' or n == 1:
            return n
        if m == 'byte':
            # byte by byte, but do not crawl through megabytes
            return 1 if n < 600 else n - 500 + c.draw(400)
        if m == 'tiny':
            return min(n, 1 + c.draw(4)) if n < 2000 else n - 1500 + c.draw(1000)
        if m == 'lumpy':
            return n if c.draw(2) else min(n, 1 + c.draw(50))
        k = c.draw(4)
        if k == 0:
            return n
        if k == 1:
            return max(1, n - 1 - c.draw(min(n - 1, 6)))     # all but the last few
        if k == 2:
            return 1 + c.draw(min(n, 8))
        return 1 + c.draw(n)

    def latency(self, c):
        d = self.delay
        if d == 'mixed':
            d = c.pick(['zero', 'short', 'long'])
        if d == 'zero':
            return 0.0
        if d == 'short':
            return c.draw(50) / 1000.0
        return c.draw(100) / 10.0


class Direction(object):
    """Bytes under way from one transport to the other."""

    def __init__(self, conn, src, dst, cfg):
        self.conn = conn
        self.src = src
        self.dst = dst
        self.cfg = cfg
        self.pending = bytearray()     # written, not delivered
        self.tls_pending = bytearray() # written after startTLS, waiting for the handshake
        self.fin = None                # reason for the peer once everything is delivered
        self.ev = None
        self.cut = False
        self.broken = False            # the network ate it: further writes go nowhere
        self.total = 0
        self.delivered = 0

    def kick(self):
        if self.ev is None and not self.cut and (self.pending or self.fin is not None):
            sim = self.conn.sim
            self.ev = sim.after(self.cfg.latency(sim.c), self.deliver,
                                'net %s' % (self.dst.name,))

    def deliver(self):
        self.ev = None
        if self.cut:
            return
        sim = self.conn.sim
        dst = self.dst
        if self.pending:
            if dst.paused and dst.connected:
                # no point in polling: resumeProducing kicks us
                return
            # bytes sent in the clear and bytes sent under TLS never share a segment
            clear = self.src.clear_queued - self.delivered
            avail = min(clear, len(self.pending)) if clear > 0 else len(self.pending)
            if clear > 0 and dst.tls is not None and dst.connected:
                # that is not a TLS record: the handshake fails
                sim.probe('clear bytes after TLS')
                sim.trace('clear bytes for', dst.name, 'which has started TLS')
                dst.clear_after_tls = True
                self.conn.reset('not a TLS record')
                return
            n = self.cfg.segment(sim.c, avail)
            if n < avail:
                sim.faults['segment split'] += 1
            data = bytes(self.pending[:n])
            del self.pending[:n]
            self.delivered += n
            dst.receive(data)
        elif self.fin is not None:
            reason = self.fin
            self.cut = True
            sim.trace('fin ->', dst.name)
            dst.lost(reason)
        self.kick()


@implementer(interfaces.ITransport, interfaces.ITLSTransport)
class SimTransport(object):
    def __init__(self, conn, name, host, peer):
        self.conn = conn
        self.sim = conn.sim
        self.name = name
        self.protocol = None
        self.connected = True
        self.disconnecting = False
        self.paused = False
        self.reading = True
        self.out = None
        self.written = bytearray()       # everything ever written, for oracles
        self.writes = []                 # (offset, tls?) boundaries
        self.tls = None                  # context once TLS has been started
        self.tls_calls = []
        self.clear_bytes = 0             # how much was written before TLS
        self.clear_queued = 0
        self.clear_after_tls = False
        self.tls_fails = False
        self.received = bytearray()
        self.loseCalls = 0
        self.asked_close = False         # loseConnection was called while connected
        self.abortCalls = 0
        self.lost_reason = None
        self.lost_at = None
        self.closing_ev = None
        self._host = host
        self._peer = peer
        self.on_lost = []
        self.data_errors = []
        self.late_writes = []         # written after the connection was lost

    # ITransport

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError('Data must be bytes, not %s' % (type(data).__name__,))
        data = bytes(data)
        if not self.connected or not data:
            if data:
                self.sim.probe('write after loss')
                self.late_writes.append(data)
            return
        self.written += data
        self.writes.append((len(self.written), self.tls is not None))
        if self.tls is None:
            self.clear_bytes += len(data)
        if self.out.broken:
            self.sim.probe('write into a broken connection')
            return
        if self.tls is None:
            self.clear_queued += len(data)
            self.out.pending += data
        else:
            peer = self.out.dst
            if peer.tls is not None:
                self.out.pending += data
            else:
                self.out.tls_pending += data
        self.out.kick()

    def writeSequence(self, seq):
        self.write(b''.join(seq))

    def loseConnection(self):
        self.loseCalls += 1
        if not self.connected or self.disconnecting:
            return
        self.disconnecting = self.asked_close = True
        self.sim.trace('close', self.name)
        # flushing takes a while; then our side is closed and the peer sees
        # the rest of the data and the end.
        d = self.conn.cfg.latency(self.sim.c)
        self.closing_ev = self.sim.after(d, self._closed, 'closed %s' % (self.name,))

    def _closed(self):
        if not self.connected:
            return
        if self.out.fin is None:
            self.out.fin = error.ConnectionDone('closed by peer')
            self.out.kick()
        self.lost(error.ConnectionDone('closed here'))

    def abortConnection(self):
        self.abortCalls += 1
        if not self.connected:
            return
        self.conn.reset('abort')

    def getPeer(self):
        return self._peer

    def getHost(self):
        return self._host

    def getPeerCertificate(self):
        return None

    def startTLS(self, ctx, normal=True):
        self.tls_calls.append(ctx)
        self.sim.trace('startTLS', self.name)
        if self.tls_fails:
            self.sim.fault('startTLS fails')
            raise RuntimeError('no TLS today')
        self.tls = ctx
        peer = self.out.dst
        if peer.tls is not None:
            # handshake complete: what was held goes out, both ways
            for d in (self.out, peer.out):
                d.pending += d.tls_pending
                del d.tls_pending[:]
                d.kick()

    # producer side (rarely used)
    def registerProducer(self, p, streaming):
        pass

    def unregisterProducer(self):
        pass

    def pauseProducing(self):
        self.paused = True

    def resumeProducing(self):
        self.paused = False
        self.peer_direction().kick()

    def stopProducing(self):
        self.loseConnection()

    def peer_direction(self):
        return self.conn.ba if self is self.conn.a else self.conn.ab

    # network side

    def receive(self, data):
        if not self.connected:
            return
        if self.disconnecting:
            # the connection has stopped reading
            self.sim.probe('bytes discarded while closing')
            return
        self.received += data
        self.sim.trace('recv', self.name, len(data))
        try:
            self.protocol.dataReceived(data)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ in (
                    'Hang', 'StopRun', 'TooManyChoices'):
                raise
            f = Failure()
            self.data_errors.append(f)
            log.err(f)
            self.conn.failed(self, f)

    def lost(self, reason):
        if not self.connected:
            return
        self.connected = False
        self.disconnecting = False
        self.lost_reason = reason if isinstance(reason, Failure) else Failure(reason)
        self.lost_at = self.sim.now
        if self.out.fin is None and not self.out.cut:
            # our end is gone: the peer gets what we wrote and then the end
            self.out.fin = error.ConnectionDone('peer gone')
            self.out.kick()
        self.sim.trace('lost', self.name, type(self.lost_reason.value).__name__)
        try:
            self.protocol.connectionLost(self.lost_reason)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ in (
                    'Hang', 'StopRun', 'TooManyChoices'):
                raise
            log.err(Failure())
        for f in self.on_lost:
            f()


class Connection(object):
    """One simulated connection; a and b are SimTransports."""
    count = 0

    def __init__(self, sim, pa, pb, name='c', cfg=None, cfg_back=None, connect=True):
        self.sim = sim
        self.name = name
        self.cfg = cfg or NetConfig(sim)
        n = int(hash(name) % 100) if False else 0
        ha = IPv4Address('TCP', '10.0.0.1', 1000)
        hb = IPv4Address('TCP', '10.0.0.2', 2000)
        self.a = SimTransport(self, name + '.a', ha, hb)
        self.b = SimTransport(self, name + '.b', hb, ha)
        self.ab = Direction(self, self.a, self.b, self.cfg)
        self.ba = Direction(self, self.b, self.a, cfg_back or self.cfg)
        self.a.out = self.ab
        self.b.out = self.ba
        self.a.protocol = pa
        self.b.protocol = pb
        if connect:
            self.connect()

    def connect(self, first=None):
        order = [self.b, self.a]
        if self.sim.c.draw(2):
            order.reverse()
        for t in order:
            t.protocol.makeConnection(t)

    def failed(self, t, failure):
        """An exception escaped t's protocol."""
        if t.connected:
            t.lost(failure)

    def reset(self, why='reset'):
        """
        The network cuts the connection: each direction loses its tail at an
        arbitrary byte, each end notices at an arbitrary time.
        """
        sim = self.sim
        if not (self.a.connected or self.b.connected):
            return False
        if self.ab.pending or self.ba.pending:
            sim.probe('connection cut with bytes in flight')
        for d in (self.ab, self.ba):
            if d.cut:
                continue
            d.broken = True
            if d.pending and d.dst.connected:
                keep = sim.c.draw(len(d.pending) + 1)
                del d.pending[keep:]
            else:
                del d.pending[:]
            if d.fin is None:
                d.fin = error.ConnectionLost(why)
            d.kick()
        # an end whose inbound direction has already ended hears it here
        for t in (self.a, self.b):
            if t.connected:
                sim.after(self.cfg.latency(sim.c) + 11, lambda t=t: t.lost(
                    error.ConnectionLost(why)), 'reset %s' % (t.name,))
        return True

    def drop(self, kind=None):
        """Inject a connection fault of some kind; returns its name."""
        c = self.sim.c
        if not (self.a.connected or self.b.connected):
            return None
        kind = kind or c.pick(['close by a', 'close by b', 'reset', 'abort by a', 'abort by b'])
        self.sim.fault('connection ' + kind)
        if kind == 'close by a':
            self.a.loseConnection()
        elif kind == 'close by b':
            self.b.loseConnection()
        elif kind == 'reset':
            self.reset()
        else:
            t = self.a if kind.endswith('a') else self.b
            if t.connected:
                # the aborting end knows at once, the peer later
                for d in (self.ab, self.ba):
                    if d.cut:
                        continue
                    d.broken = True
                    if d.dst is t:
                        d.cut = True
                    else:
                        keep = c.draw(len(d.pending) + 1)
                        del d.pending[keep:]
                        d.fin = error.ConnectionLost('aborted')
                        d.kick()
                t.lost(error.ConnectionAborted())
            else:
                self.reset()
        return kind

    @property
    def open(self):
        return self.a.connected and self.b.connected and not (
            self.a.disconnecting or self.b.disconnecting)
