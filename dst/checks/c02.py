"""
C02: boxes cross a Juice connection intact, exactly once, in order; a cut
leaves exactly the complete leading boxes.

System: two real Juice protocols on a simulated connection, both sending
boxes (Box.sendTo) at seeded times; reception observed at juiceBoxReceived.
Oracle after every delivered segment: the boxes received equal the boxes sent
whose last byte has been delivered - no fewer, no more, equal contents.
Also feeds the same bytes to juice.parse, as files are.
"""
import io

from .. import gen
from ..net import Connection, NetConfig

RUNS = (9000, 400000)
RULE = ('seeded sequences of boxes with arbitrary text values from both ends x segmentation x delays x connection '
        'loss at any byte; non-trivial: at least two boxes and a segment boundary inside the stream, or a fault')
REAL = ['epsilon.juice.JuiceBox/Juice framing', 'epsilon.liner.LineReceiver', 'epsilon.juice.parse']
STUB = ['TCP transport (dst.net)']
ASSUMPTIONS = ['header names are in the normal form the receiver produces; text has no lone surrogates']
PROBES = ['body', 'empty body', 'non-ascii body', 'non-ascii header', 'line break in header', 'empty value', 'empty box',
          'body split', 'cut inside a box', 'huge body', 'huge header', 'many bodies', 'connection cut with bytes in flight', 'space edge', 'box reused']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b']


def make_box(sim, juice):
    c = sim.c
    box = juice.Box()
    for _ in range(c.draw(4)):
        v = gen.text(c)
        if c.chance(0.003):
            v = c.pick(['x', '\u20ac', ': ']) * c.int(40000, 300000)
            sim.probe('huge header')
        box[gen.key(c)] = v
        if not v:
            sim.probe('empty value')
        if '\r\n' in v:
            sim.probe('line break in header')
        if v[:1] == ' ' or v[-1:] == ' ':
            sim.probe('space edge')
        if any(ord(ch) > 127 for ch in v):
            sim.probe('non-ascii header')
    if c.draw(2):
        body = gen.text(c)
        if c.chance(0.01):
            body = c.pick(['y', 'z\r\n', '\u20ac', '\r\n\r\n']) * c.int(20000, 120000)
            sim.probe('huge body')
        box['body'] = body
        sim.probe('body' if body else 'empty body')
        if any(ord(ch) > 127 for ch in body):
            sim.probe('non-ascii body')
    if not box:
        sim.probe('empty box')
    return box


def run(sim):
    from epsilon import juice
    c = sim.c
    got = {}

    class P(juice.Juice):
        def juiceBoxReceived(self, box):
            sim.trace('box', self.who, sorted(box.items()) if len(str(box)) < 200 else len(str(box)))
            got[self.who].append(dict(box))
            kinds = [type(v) for kv in box.items() for v in kv]
            if any(k is not str for k in kinds):
                sim.note_violation('type', 'box with %r' % (kinds,))

    ends = {}
    for who, server in (('a', False), ('b', True)):
        ends[who] = P(server)
        ends[who].who = who
        got[who] = []
    cfg = NetConfig(sim)
    conn = Connection(sim, ends['a'], ends['b'], cfg=cfg)
    sent = {'a': [], 'b': []}        # (box, offset of its end in what that end wrote)
    transports = {'a': conn.a, 'b': conn.b}
    peer = {'a': 'b', 'b': 'a'}

    def check(who):
        """who: the receiving end."""
        src = peer[who]
        received = len(transports[who].received)
        want = [b for b, end in sent[src] if end <= received]
        have = got[who]
        if have != want:
            i = 0
            while i < len(have) and i < len(want) and have[i] == want[i]:
                i += 1
            sim.violate('box', 'box %d: received %s, sent %s (%d received, %d completely arrived)' % (
                i, short(have[i]) if i < len(have) else 'nothing',
                short(want[i]) if i < len(want) else 'nothing', len(have), len(want)))
        for t in transports.values():
            if t.data_errors:
                e = t.data_errors[0]
                sim.violate('exception', 'receiving raised %s: %s' % (e.type.__name__, e.getErrorMessage()[:120]))

    for who in 'ab':
        t = transports[who]

        def receive(data, t=t, who=who, real=t.receive):
            if t.connected and not t.disconnecting:
                starts = [0] + [e for _, e in sent[peer[who]]]
                n = len(t.received) + len(data)
                if n not in starts:
                    sim.probe('body split')
            real(data)
            check(who)
        t.receive = receive

    def send(who, box):
        t = transports[who]
        if not t.connected:
            return
        before = dict(box)
        try:
            box.sendTo(ends[who])
        except Exception as e:
            sim.violate('exception', 'sending %s raised %s: %s' % (short(before), type(e).__name__, str(e)[:100]))
        sent[who].append((before, len(t.written)))
        if c.draw(4) == 0:
            # what was sent is no concern of the sender's any more
            sim.probe('box reused')
            box.clear()
            box['later'] = 'something else'

    many = c.chance(0.03)
    n = c.int(1, 10) if not many else c.int(150, 450)
    if many:
        sim.probe('many bodies')
    count = 0
    at = 0.0
    whole = b''
    allboxes = []
    for i in range(n):
        if many:
            box = juice.Box(a='b')
            box['body'] = 'xyz\r\n'[:1 + c.draw(5)]
            who = 'a'
        else:
            box = make_box(sim, juice)
            who = c.pick('ab')
            if c.draw(3) == 0:
                at += c.draw(40) / 10.0
        allboxes.append(box)
        sim.after(at, lambda who=who, box=box: send(who, box), 'send %s' % (who,))
        count += 1
    if c.chance(0.25):
        sim.after(c.draw(80) / 10.0, lambda: conn.drop(), 'drop')
    sim.sample = {'boxes': [short(dict(b)) for b in allboxes[:4]], 'segmentation': cfg.mode, 'count': n}
    # as a file
    try:
        data = b''.join(b.serialize() for b in allboxes)
    except Exception as e:
        sim.violate('exception', 'serializing raised %s: %s' % (type(e).__name__, str(e)[:100]))
    sent_as = [dict(b) for b in allboxes]
    parsed = [dict(b) for b in juice.parse(io.BytesIO(data))]
    if parsed != sent_as:
        sim.violate('parse', 'parsing a file of %d boxes gives %d; first difference %s' % (
            len(sent_as), len(parsed), [(short(x), short(y)) for x, y in zip(sent_as, parsed) if x != y][:1]))
    if c.chance(0.3) and data:
        cut = c.draw(len(data))
        sim.fault('file cut short')
        ends_at = []
        k = 0
        for b in allboxes:
            k += len(b.serialize())
            ends_at.append(k)
        parsed = [dict(b) for b in juice.parse(io.BytesIO(data[:cut]))]
        want = [dict(b) for b, e in zip(allboxes, ends_at) if e <= cut]
        if parsed != want:
            sim.violate('parse', 'a file cut at byte %d gives %d boxes, %d are complete' % (
                cut, len(parsed), len(want)))
    sim.run()
    for who in 'ab':
        check(who)
        src = peer[who]
        if conn.a.connected and conn.b.connected and len(got[who]) != len(sent[src]):
            sim.violate('box', '%d boxes sent, %d received' % (len(sent[src]), len(got[who])))
        if sent[src] and not conn.open and len(transports[who].received) not in [0] + [e for _, e in sent[src]]:
            sim.probe('cut inside a box')
    errs = sim.take_errors()
    if errs:
        sim.violate('log', 'error logged: %s: %s' % errs[0][:2])
    if len(allboxes) > 1 and (sim.faults['segment split'] or sim.nontrivial):
        sim.nontrivial = True


def short(x):
    r = repr(x)
    return r if len(r) < 200 else r[:200] + '...(%d)' % len(r)
