"""
C01: line framing does not depend on segmentation.

System: a real epsilon.liner.LineReceiver subclass at one end of a simulated
connection.  What the protocol does is a pure function of the bytes it is
given (some lines switch to raw mode for so many bytes, or until a marker, or
close the connection, ...), so a reference parser over the bytes received so
far says exactly which events must have happened by now, whatever the
segmentation.  Compared after every delivered segment.
"""
from twisted.internet.protocol import Protocol

from ..net import Connection, NetConfig

RUNS = (24000, 900000)
RULE = ('seeded byte streams of lines, raw blocks, mode switches and closes x delimiter x '
        'segmentation x delays x connection cut; non-trivial: at least one segment boundary fell '
        'inside the stream and at least two events were delivered')
REAL = ['epsilon.liner.LineReceiver']
STUB = ['TCP transport (dst.net)', 'sending peer (script)']
ASSUMPTIONS = ['the transport delivers bytes in order and sets disconnecting when it has been asked to close']
PROBES = ['raw mode entered', 'raw to line with extra', 'closed in line', 'closed in raw',
          'data after close', 'delimiter split', 'many switches in one segment', 'async raw switch',
          'long line', 'toggle', 'without a transport', 'async line switch', 'async line switch with extra']
FAULTS = ['segment split', 'connection reset', 'connection close by a']

DELIMS = [b'\r\n', b'\n', b'\0', b'--', b'aab', b'\r\n\r\n']


def reference(data, delim, switches):
    """
    data: all bytes received.  switches: what the application did of its own
    accord, as [went raw at, came back at, bytes it did not consume] with the
    numbers of bytes that had been received by then, the latter two None if it
    did not come back.
    """
    switches = list(switches)
    events = []
    raw = []
    pos = 0
    mode = 'line'
    need = None

    def emit_raw(b):
        if b:
            if events and events[-1][0] == 'raw':
                events[-1][1] += b
            else:
                events.append(['raw', bytearray(b)])
    while True:
        if mode == 'line':
            end = data.find(delim, pos, switches[0][0] if switches else len(data))
            if end < 0:
                if not switches:
                    return events
                went, back, left = switches.pop(0)
                upto = len(data) if back is None else back
                if upto > went:
                    emit_raw(data[pos:upto - (left or 0)])
                    pos = upto - (left or 0)
                if back is None:
                    return events
                continue
            line = data[pos:end]
            pos = end + len(delim)
            events.append(['line', bytes(line)])
            k = line[:1]
            if k == b'R':
                mode = 'raw'
                need = 1 + len(line) * 3 % 11
            elif k == b'T':
                mode = 'until'
            elif k == b'C':
                events.append(['closed'])
                return events
            elif k == b'Q':
                mode = 'rawclose'
                need = 1 + len(line) % 5
            elif k == b'W':
                mode = 'rawcloseline'
                need = 1 + len(line) % 5
        elif mode in ('raw', 'rawclose', 'rawcloseline'):
            take = data[pos:pos + need]
            emit_raw(take)
            pos += len(take)
            need -= len(take)
            if need:
                return events
            if mode != 'raw':
                events.append(['closed'])
                return events
            mode = 'line'
        elif mode == 'until':
            end = data.find(b'Z', pos)
            if end < 0:
                emit_raw(data[pos:])
                return events
            emit_raw(data[pos:end + 1])
            pos = end + 1
            mode = 'line'
        else:
            raise AssertionError(mode)


def run(sim):
    from epsilon.liner import LineReceiver
    c = sim.c
    delim = c.pick(DELIMS)
    observed = []

    class P(LineReceiver):
        delimiter = delim
        mode = None
        need = 0
        closed = False
        switches = 0
        forever = False
        held = b''

        def note_raw(self, data):
            if observed and observed[-1][0] == 'raw':
                observed[-1][1] += data
            else:
                observed.append(['raw', bytearray(data)])

        def lineReceived(self, line):
            sim.trace('line', bytes(line[:40]), len(line))
            observed.append(['line', bytes(line)])
            k = line[:1]
            if len(line) > 5000:
                sim.probe('long line')
            if k == b'R':
                self.mode = 'raw'
                self.need = 1 + len(line) * 3 % 11
            elif k == b'T':
                self.mode = 'until'
            elif k == b'Q':
                self.mode = 'rawclose'
                self.need = 1 + len(line) % 5
            elif k == b'W':
                self.mode = 'rawcloseline'
                self.need = 1 + len(line) % 5
            elif k == b'C':
                sim.probe('closed in line')
                observed.append(['closed'])
                self.transport.loseConnection()
                return
            elif k == b'X':
                sim.probe('toggle')
                self.setRawMode()
                self.setLineMode()
                return
            else:
                return
            sim.probe('raw mode entered')
            self.switches += 1
            self.setRawMode()

        def rawDataReceived(self, data):
            if self.forever:
                self.note_raw(data)
                self.held += data
                return
            if self.mode == 'until':
                i = data.find(b'Z')
                if i < 0:
                    self.note_raw(data)
                    return
                self.note_raw(data[:i + 1])
                extra = data[i + 1:]
            else:
                self.note_raw(data[:self.need])
                extra = data[self.need:]
                self.need -= min(self.need, len(data))
                if self.need:
                    return
            if self.mode in ('rawclose', 'rawcloseline'):
                sim.probe('closed in raw')
                observed.append(['closed'])
                self.transport.loseConnection()
                if self.mode == 'rawclose':
                    return
            elif extra:
                sim.probe('raw to line with extra')
            self.mode = None
            if extra or c.draw(2):
                self.setLineMode(extra)
            else:
                self.setLineMode()

        def connectionLost(self, reason):
            pass

    # ---- the stream
    alphabet = b'abx ' + delim[:1] + delim[-1:] + b'\r-Z\xff'
    stream = bytearray()
    big = c.chance(0.04)
    closing = c.chance(0.3)
    n = c.int(1, 14) if not big else c.int(200, 700)
    body_kinds = ['plain', 'R', 'T', 'empty', 'X', 'noise']
    if closing:
        body_kinds += ['C', 'Q', 'W']
    elif c.draw(2):
        body_kinds = ['plain', 'empty', 'R']
    if big:
        body_kinds = ['plain', 'R', 'R', 'T']
    for i in range(n):
        k = c.pick(body_kinds)
        if k == 'plain' and c.chance(0.01):
            text = bytes([97 + c.draw(3)]) * (c.int(1050000, 1100000) if c.chance(0.02) else c.int(5000, 70000))
            stream += text + delim
        elif k == 'plain':
            stream += b''.join(bytes([alphabet[c.draw(len(alphabet))]])
                               for _ in range(c.draw(8))) + delim
        elif k == 'empty':
            stream += delim
        elif k == 'noise':
            stream += b''.join(bytes([alphabet[c.draw(len(alphabet))]]) for _ in range(c.draw(12)))
        elif k in 'RQW':
            line = k.encode() + b'p' * c.draw(5)
            m = 1 + (len(line) * 3 % 11 if k == 'R' else len(line) % 5)
            stream += line + delim + bytes(
                [alphabet[c.draw(len(alphabet))] for _ in range(m)])
        elif k == 'T':
            stream += b'T' + b'q' * c.draw(3) + delim + b''.join(
                bytes([b'ab\r\n'[c.draw(4)]]) for _ in range(c.draw(6))) + b'Z'
        else:
            stream += k.encode() + b'z' * c.draw(3) + delim

    cfg = NetConfig(sim)
    proto = P()
    conn = Connection(sim, Protocol(), proto, cfg=cfg)
    t = conn.b
    keep_reading = c.chance(0.5)
    switches = []
    sim.nontrivial = False
    boundaries = [0]
    total = bytearray()

    def receive(data):
        # As SimTransport.receive, but a transport may go on delivering what
        # it had already read when it was asked to close (TLS does).
        if not t.connected:
            return
        if t.disconnecting:
            if not keep_reading:
                return
            sim.probe('data after close')
            try:
                proto.dataReceived(data)
            except Exception as e:
                sim.violate('exception', 'dataReceived raised %s: %s' % (type(e).__name__, str(e)[:100]))
            compare()
            return
        before = proto.switches
        total.extend(data)
        boundaries.append(len(total))
        if 0 < len(total) < len(stream):
            tail = bytes(total[-len(delim) + 1:]) if len(delim) > 1 else b''
            for j in range(1, len(delim)):
                if total[-j:] == delim[:j]:
                    sim.probe('delimiter split')
                    break
        sim.trace('recv', len(data))
        try:
            proto.dataReceived(data)
        except Exception as e:
            sim.violate('exception', 'dataReceived raised %s: %s' % (type(e).__name__, str(e)[:100]))
        if proto.switches - before > 60:
            sim.probe('many switches in one segment')
        compare()
    t.receive = receive

    seen = [0]

    def compare(last=False):
        seen[0] += 1
        if len(stream) > 4000 and seen[0] > 20 and seen[0] % 50 and not last:
            return
        expect = reference(bytes(total), delim, switches)
        if observed != expect:
            i = 0
            while i < len(observed) and i < len(expect) and observed[i] == expect[i]:
                i += 1
            sim.violate('framing', 'after %d bytes in segments %r (delimiter %r): event %d is %s, expected %s' % (
                len(total), [b - a for a, b in zip(boundaries, boundaries[1:])][-12:], delim, i,
                show(observed, i), show(expect, i)))

    if not closing and c.chance(0.05):
        # not connected to anything: the bytes come from somewhere else
        sim.probe('without a transport')
        proto.transport = None
        pos = 0
        while pos < len(stream):
            end = pos + 1 + c.draw(min(max(40, len(stream) // 30), len(stream) - pos)) if not big else len(stream)
            total.extend(stream[pos:end])
            boundaries.append(len(total))
            try:
                proto.dataReceived(bytes(stream[pos:end]))
            except Exception as e:
                sim.violate('exception', 'dataReceived raised %s: %s' % (type(e).__name__, str(e)[:100]))
            compare()
            pos = end
        compare(True)
        sim.nontrivial = len(boundaries) > 2 and len(observed) > 1
        return

    # ---- write it at various moments
    pieces = c.int(1, 4)
    pos = 0
    at = 0.0
    for i in range(pieces):
        end = len(stream) if i == pieces - 1 else pos + c.draw(len(stream) - pos + 1)
        chunk = bytes(stream[pos:end])
        sim.after(at, lambda chunk=chunk: conn.a.write(chunk), 'write')
        at += c.draw(30) / 10.0
        pos = end
    if not closing and c.chance(0.12):
        def go_raw():
            if proto.lineMode and t.connected and not t.disconnecting:
                sim.probe('async raw switch')
                switches.append([len(total), None, None])
                proto.forever = True
                proto.held = b''
                proto.setRawMode()

        def go_line():
            if not proto.forever or not t.connected or t.disconnecting:
                return
            sim.probe('async line switch')
            left = c.draw(min(len(proto.held), 30) + 1) if c.draw(3) else len(proto.held)
            extra = proto.held[len(proto.held) - left:]
            if left:
                # it turns out not to want these
                sim.probe('async line switch with extra')
                del observed[-1][1][len(observed[-1][1]) - left:]
                if not observed[-1][1]:
                    observed.pop()
            switches[-1][1:] = [len(total), left]
            proto.forever = False
            try:
                if extra or c.draw(2):
                    proto.setLineMode(extra)
                else:
                    proto.setLineMode()
            except Exception as e:
                sim.violate('exception', 'setLineMode raised %s: %s' % (type(e).__name__, str(e)[:100]))
            compare()
        at = 0.0
        for i in range(c.pick([1, 1, 2])):
            at += c.draw(60) / 10.0
            sim.after(at, go_raw, 'async raw')
            if c.draw(3):
                at += c.draw(40) / 10.0
                sim.after(at, go_line, 'async line')
    if c.chance(0.15):
        sim.after(c.draw(60) / 10.0, lambda: conn.drop(), 'drop')
    sim.sample = {'stream': repr(bytes(stream[:160])), 'delimiter': repr(delim), 'segmentation': cfg.mode}
    sim.run()
    compare(True)
    if len(boundaries) > 2 and len(observed) > 1:
        sim.nontrivial = True


def show(events, i):
    if i >= len(events):
        return 'nothing'
    e = events[i]
    return repr((e[0],) + tuple(bytes(x)[:60] for x in e[1:]))
