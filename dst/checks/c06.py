"""
C06: whatever a hostile peer sends, only handlers exposed for the default
namespace run, pending requests are only completed by a reply with their own
tag or by loss, and other connections are not disturbed.

System: a real Juice end ("target") talking to a scripted attacker that sends
seeded well-formed boxes, malformed boxes, mutated bytes and guessed replies;
next to it honest pairs of real Juice ends in the same process.
"""
import re

from twisted.internet import error
from twisted.internet.defer import Deferred, succeed
from twisted.internet.protocol import Protocol
from twisted.python.failure import Failure

from .. import juicelab
from ..net import Connection, NetConfig

RUNS = (12000, 500000)
RULE = ('seeded attacker streams (well-formed, malformed, mutated, guessed tags, restricted and odd command names) x '
        'segmentation x requests pending on the target x honest traffic on other connections; non-trivial: the '
        'attacker delivered at least one complete box')
REAL = ['epsilon.juice (target and honest ends)', 'epsilon.liner']
STUB = ['attacker', 'TCP transport (dst.net)', 'command handlers (recorders)']
PROBES = ['restricted command tried', 'allowed handler ran', 'reply with the right tag', 'reply with a wrong tag',
          'reply twice', 'malformed reply', 'mutated stream', 'binary junk', 'namespace prefix tried', 'target closed', 'pending at end',
          'bad length', 'invalid utf-8', 'well-formed only', 'honest traffic', 'honest error', 'served by role', 'not served in this role']
FAULTS = ['segment split', 'hostile bytes', 'connection reset']

ALLOWED = ['PING', 'ECHO', 'OLD', 'BOTH', 'TWO_WORDS', 'BLOB', 'SERVE']
RESTRICTED = ['KILL', 'HIDDEN', 'NEVER']
NAMES = {'PING': ['PING', 'ping', 'Ping', ' ping ', 'pInG'], 'ECHO': ['ECHO', 'echo'], 'OLD': ['old', 'OLD'],
         'BOTH': ['both'], 'TWO_WORDS': ['two-words', 'TWO_WORDS', 'Two-Words'], 'BLOB': ['blob'], 'SERVE': ['serve']}
SPACES = {'KILL': ['secret'], 'HIDDEN': ['admin', 'secret'], 'NEVER': [], 'BOTH': ['secret', None], 'PING': [None],
          'FILE': [None]}
ODD = ['KILL', 'kill', ' kill', 'secret:KILL', 'SECRET:kill', 'None:KILL', 'HIDDEN', 'hidden', 'admin:HIDDEN', 'NEVER', 'never',
       'command_KILL', 'COMMAND_KILL', 'juice_KILL', 'NOCOMMAND', 'CANARY', 'canary', '', ' ', '-', '_', 'connectionLost', 'CONNECTIONLOST',
       'BOX_RECEIVED', '__CLASS__', '__init__', 'transport', 'KILL\r\n', 'KILL:secret', '[None]', 'K\u0130LL', 'PING ECHO', '../KILL',
       'juice_old', 'startTLS', 'dispatch', 'RAW', '\u017fecret:kill', 'AUTO', '_auto', 'PREFIX', 'COMMAND', 'NAMESPACES',
       'secret:PING', 'x:ping', ':PING', 'PING:', 'office:old', 'admin:two-words', 'secret:both', 'None:ping', 'PING/x', 'x.PING', 'x PING', 'PINGS', 'PIN']

_cmds = None


def commands():
    global _cmds
    if _cmds is None:
        from epsilon import juice as j

        class Ping(j.Command):
            arguments = []
            response = [('ok', j.Boolean())]

        class Echo(j.Command):
            arguments = [('n', j.Integer()), ('t', j.Unicode()), ('b', j.Boolean(optional=True)),
                         ('raw', j.Base64Binary(optional=True)), ('fl', j.Float(optional=True))]
            response = [('t', j.Unicode())]

        class Both(j.Command):
            namespaces = ['secret', None]
            response = []

        class TwoWords(j.Command):
            commandName = 'two-words'
            response = []

        class Blob(j.Command):
            arguments = [('body', j.String())]
            response = []

        class Kill(j.Command):
            namespaces = ['secret']
            response = []

        class Hidden(j.Command):
            namespaces = ['admin', 'secret']
            response = []

        class Serve(j.Command):
            arguments = [('role', j.Unicode()), ('what', j.Unicode())]
            response = []

        class Never(j.Command):
            namespaces = []
            response = []
        _cmds = dict(Ping=Ping, Echo=Echo, Both=Both, TwoWords=TwoWords, Blob=Blob, Kill=Kill, Hidden=Hidden, Never=Never, Serve=Serve)
    return _cmds


def wire(headers, body=None, length=None):
    out = b''
    for k, v in headers:
        out += k.encode('utf-8') + b': ' + v.encode('utf-8').replace(b'\r\n', b'\r\n ') + b'\r\n'
    if body is not None:
        out += b'-Length: ' + (b'%d' % len(body) if length is None else length) + b'\r\n'
    return out + b'\r\n' + (body or b'')


def naming(stream):
    """Everything in the stream that could be the name of a command, in canonical form."""
    return [m.group(1).decode('utf-8', 'replace').upper().strip().replace('-', '_')
            for m in re.finditer(rb'(?is)(?=[-_]command: (.*?)\r\n(?! ))', stream)]


def run(sim):
    from epsilon import juice
    c = sim.c
    cmds = commands()
    ran = {}

    class Target(juice.Juice):
        def _ran(self, name):
            sim.trace('ran', name)
            ran[name] = ran.get(name, 0) + 1

        def command_PING(self):
            self._ran('PING')
            return dict(ok=True)
        command_PING.command = cmds['Ping']

        def command_ECHO(self, n, t, b, raw, fl):
            self._ran('ECHO')
            if n % 3 == 1:
                d = Deferred()
                sim.after(n % 7, lambda: d.callback(dict(t=t)), 'echo')
                return d
            return dict(t=t)
        command_ECHO.command = cmds['Echo']

        def command_BOTH(self):
            self._ran('BOTH')
            return {}
        command_BOTH.command = cmds['Both']

        def command_TWO_WORDS(self):
            self._ran('TWO_WORDS')
            return {}
        command_TWO_WORDS.command = cmds['TwoWords']

        def command_BLOB(self, body):
            self._ran('BLOB')
            return {}
        command_BLOB.command = cmds['Blob']

        def juice_OLD(self, box):
            self._ran('OLD')
            return juice.Box()

        def command_SERVE(self, role, what):
            # the application has other commands, by the role of the peer
            self._ran('SERVE')
            role = role or None
            before = list(office.ran)
            try:
                d = office.dispatchCommand(self, what, juice.Box(), namespace=role)
            except Exception:
                # (old-style commands are refused this way)
                d = succeed(None)
            new = office.ran[len(before):]
            name = what.upper().strip().replace('-', '_')     # the canonical form of a command
            want = [name] if role in SPACES.get(name, ()) else []
            if new != want:
                sim.note_violation('exposed', '%r asked for in the role of %r: ran %r' % (what, role, new))
            sim.probe('served by role' if want else 'not served in this role')
            return d.addBoth(lambda _: {})
        command_SERVE.command = cmds['Serve']

        # ---- must never run
        def command_KILL(self, **kw):
            self._ran('KILL')
            return {}
        command_KILL.command = cmds['Kill']

        def command_HIDDEN(self, **kw):
            self._ran('HIDDEN')
            return {}
        command_HIDDEN.command = cmds['Hidden']

        def command_NEVER(self, **kw):
            self._ran('NEVER')
            return {}
        command_NEVER.command = cmds['Never']

        def command_NOCOMMAND(self, *a, **kw):
            self._ran('NOCOMMAND')
            return {}

        def CANARY(self, *a, **kw):
            self._ran('CANARY')
            return {}
        canary = KILL = kill = RAW = CANARY

        def connectionLost(self, reason):
            self.was_lost = True
            juice.Juice.connectionLost(self, reason)

    class Office(juice.DispatchMixin):
        ran = []
    office = Office()
    office.ran = []
    office.juice_FILE = lambda box: office.ran.append('FILE') or juice.Box()
    for name in SPACES:
        if name == 'FILE':
            continue

        def serve(name=name, **kw):
            office.ran.append(name)
            return dict(ok=True) if name == 'PING' else {}
        serve.command = cmds[name.title()]
        setattr(office, 'command_' + name, serve)

    target = Target(True)
    target.was_lost = False
    cfg = NetConfig(sim)
    conn = Connection(sim, Protocol(), target, name='evil', cfg=cfg)
    honest = juicelab.World(sim, None, nconn=c.pick([0, 1, 1, 2]))

    # ---- requests pending on the target
    pending = []          # dicts: tag, results

    def ask():
        if not conn.b.connected or conn.b.disconnecting:
            return
        before = len(conn.b.written)
        if c.draw(2):
            d = target.sendCommand('anything', x='y')
        else:
            d = cmds['Echo'](n=1, t='q').do(target)
        boxes = juice.parseString(bytes(conn.b.written[before:]))
        tag = boxes[-1].get('_ask') if boxes else None
        rec = {'tag': tag, 'results': []}
        if any(p['tag'] == tag for p in pending):
            sim.violate('tag', 'two requests carry the same tag %r' % (tag,))
        pending.append(rec)

        def done(result):
            rec['results'].append(result)
            sim.trace('completed', tag, isinstance(result, Failure))
            lost = isinstance(result, Failure) and result.check(
                error.ConnectionLost, error.ConnectionDone, error.ConnectionAborted) or target.was_lost
            if not lost and tag not in replied():
                sim.note_violation('completion', 'request %s was completed (%r) although no reply with its tag arrived' % (
                    tag, result))
            if not lost and isinstance(result, Failure):
                return None
        d.addBoth(done)

    # ---- what the attacker sends: items (bytes, {'cmd':..} or {'reply':tag})
    items = []

    def replied():
        """Tags of replies of which at least the first bytes have arrived."""
        n = len(conn.b.received)
        return set(t for it, start in offsets for t in it[1].get('replies', ()) if start <= n)
    offsets = []

    kinds = ['good']
    hostile = c.draw(4) != 0
    if hostile:
        kinds = ['good', 'odd', 'reply', 'badreply', 'malformed', 'junk', 'badlen', 'good', 'badargs']
    clean = [True]

    def make():
        k = c.pick(kinds)
        ask_tag = [('-Ask', '%x' % c.draw(40))] if c.draw(3) else []
        if k == 'good':
            cmd = c.pick(ALLOWED)
            hs = [('-Command', c.pick(NAMES[cmd]))] + ask_tag
            body = None
            if cmd == 'ECHO':
                hs += [('N', str(c.draw(9))), ('T', c.pick(['x', '', 'a\r\nb', '\u20ac']))]
                hs += c.subset([('B', c.pick(['True', 'False'])), ('Raw', 'AAEC'), ('Fl', '1.5')], 0.2)
            if cmd == 'SERVE':
                hs += [('Role', c.pick(['', 'secret', 'admin', 'Secret', 'None', 'nobody'])),
                       ('What', c.pick(['kill', 'hidden', 'never', 'both', 'ping', 'KILL', 'Both', 'file']))]
            if cmd == 'BLOB':
                body = c.pick([b'x', b'-Command: KILL\r\n\r\n', b'', b'\r\n', b'z' * 300])
            hs = c.shuffle(hs)
            return (wire(hs, body), {'cmd': cmd})
        sim.faults['hostile bytes'] += 1
        clean[0] = False
        if k == 'odd':
            sim.probe('restricted command tried')
            name = c.pick(ODD)
            if ':' in name:
                sim.probe('namespace prefix tried')
            hs = [('-Command', name)] + ask_tag
            if c.chance(0.2):
                hs.append(('-Namespace', 'secret'))
                hs.append(('Namespace', 'secret'))
            return (wire(hs), {})
        if k in ('reply', 'badreply'):
            tag = c.pick([p['tag'] for p in pending] or ['1']) if c.draw(2) else '%x' % (1 + c.draw(6))
            if c.draw(8) == 0:
                tag = c.pick(['', '0', '-1', '01', 'zz', '1 ', ' 1', '\u0661', 'None', '1\r\n'])
            tag = str(tag)
            if k == 'reply':
                if c.draw(2):
                    hs = [('-Answer', tag), ('T', 'evil')]
                else:
                    hs = [('-Error', tag), ('-Error-Code', 'X'), ('-Error-Description', 'evil')]
                if any(tag == t for it in items for t in it[1].get('replies', ())):
                    sim.probe('reply twice')
            else:
                sim.probe('malformed reply')
                hs = c.pick([[('-Error', tag)], [('-Error', tag), ('-Error-Code', 'X')], [('-Answer', tag)],
                             [('-Answer', tag), ('-Error', tag)], [('-Error', tag), ('-Error-Description', 'd')],
                             [('-Answer', tag), ('-Command', 'KILL'), ('-Ask', '9')]])
            sim.probe('reply with the right tag' if any(p['tag'] == tag for p in pending) else 'reply with a wrong tag')
            # leading/trailing variants may only match a request if equal
            return (wire(hs), {'replies': [tag]})
        if k == 'badargs':
            return (wire([('-Command', 'ECHO')] + ask_tag + c.pick([[('N', 'x'), ('T', 't')], [('T', 't')], [('N', '1')],
                                                                    [('N', ''), ('T', '')], [('N', '1'), ('T', ''), ('B', 'maybe')],
                                                                    [('N', '1'), ('T', ''), ('B', 'true')], [('N', '1'), ('T', ''), ('B', '')],
                                                                    [('N', '1'), ('T', ''), ('Fl', 'x')],
                                                                    [('N', '1'), ('T', ''), ('Raw', 'A')]])), {})
        if k == 'malformed':
            return (c.pick([b'\r\n', b'no colon here\r\n\r\n', b' leading\r\n\r\n', b'-Command:KILL\r\n\r\n', b': \r\n\r\n',
                            b'-Ask: 1\r\n\r\n', b'X: y\r\n', b'-Command: KILL\r\n', b'\n\n', b'\r\n\r\n\r\n', b'-Command: PING\n\n',
                            b'-Command\r\n\r\n', b'\r', b'-Length: 3\r\n\r\nabc']), {})
        if k == 'badlen':
            sim.probe('bad length')
            return (wire([('-Command', 'KILL')] + ask_tag, b'abc', length=c.pick(
                [b'-1', b'-5', b'x', b'', b'1e3', b'99999999999', b'0', b'2', b'4', b'1_0', b'\xd9\xa1'])), {})
        sim.probe('binary junk')
        junk = bytes([c.pick([0, 10, 13, 32, 58, 255, 195, 128, 45, 65]) for _ in range(c.draw(20))])
        if b'\xff' in junk or b'\x80' in junk:
            sim.probe('invalid utf-8')
        return (junk, {})

    def send():
        if not conn.a.connected:
            return
        it = make()
        if hostile and c.chance(0.06) and it[0]:
            # mutate
            sim.probe('mutated stream')
            clean[0] = False
            b = bytearray(it[0])
            k = c.draw(3)
            i = c.draw(len(b))
            if k == 0:
                b[i] ^= 1 << c.draw(8)
            elif k == 1:
                del b[i]
            else:
                b[i:i] = b[i:i + 1 + c.draw(6)]
            tags = ['%x' % x for x in range(0, 64)]
            it = (bytes(b), {'replies': tags, 'cmd': it[1].get('cmd'), 'mutated': True})
        offsets.append((it, len(conn.a.written)))
        items.append(it)
        conn.a.write(it[0])

    n = c.int(1, 12)
    at = 0.0
    for i in range(c.draw(4)):
        sim.after(c.draw(20) / 10.0, ask, 'ask')
    for i in range(n):
        sim.after(at, send, 'attack')
        if c.draw(2):
            at += c.draw(20) / 10.0
        if c.draw(4) == 0:
            sim.after(at, ask, 'ask')
    for i in range(c.draw(5) if honest.conns else 0):
        e = c.pick(honest.conns).ends[c.draw(2)]
        sim.after(c.draw(60) / 10.0, lambda e=e: honest.issue(e, c.pick(['Plain', 'Numbers', 'Maybe', 'old']), plan=(
            'ok', c.pick(['sync', 1.5]))), 'honest')
        if c.draw(3) == 0:
            sim.after(c.draw(60) / 10.0, lambda e=e: honest.issue(e, c.pick(['Plain', 'Numbers']), plan=(
                'declared', c.pick(['sync', 1.5]))), 'honest')
    if c.chance(0.1):
        sim.after(c.draw(60) / 10.0, lambda: conn.drop('reset'), 'drop')
    sim.run()

    sent_cmds = {}
    for it in items:
        if it[1].get('cmd'):
            sent_cmds[it[1]['cmd']] = sent_cmds.get(it[1]['cmd'], 0) + 1
    stream = bytes(conn.b.received)
    sim.sample = {'stream': repr(stream[:200]), 'clean': clean[0], 'pending': len(pending)}
    # -- what ran
    for name in sorted(ran):
        sim.expect(name in ALLOWED, 'exposed', 'the peer made %s run', name)
        sim.probe('allowed handler ran')
        bound = naming(stream).count(name)
        sim.expect(ran[name] <= bound, 'execution', '%s ran %d times, it is named %d times', name, ran[name], bound)
    if clean[0]:
        sim.probe('well-formed only')
        done = {}
        for it, start in offsets:
            if start + len(it[0]) <= len(stream):
                done[it[1]['cmd']] = done.get(it[1]['cmd'], 0) + 1
        sim.expect(ran == done, 'execution', 'complete commands %r, ran %r', done, ran)
        sim.expect(not conn.b.asked_close and not conn.b.data_errors, 'closed', 'a well-behaved peer was disconnected')
    # -- pending requests
    for p in pending:
        sim.expect(len(p['results']) <= 1, 'completion', 'request %s completed %d times', p['tag'], len(p['results']))
        if target.was_lost:
            sim.expect(len(p['results']) == 1, 'completion', 'request %s never completed although the connection was lost', p['tag'])
        elif not p['results']:
            sim.probe('pending at end')
    if conn.b.asked_close or conn.b.data_errors:
        sim.probe('target closed')
        sim.expect(not conn.b.connected, 'closed', 'the target asked to close but is still connected')
    # -- bystanders
    for hc in honest.conns:
        for e in hc.ends:
            t = e.transport
            sim.expect(t.connected and not t.asked_close and not t.data_errors, 'bystander',
                       'an honest connection was closed by an attack on another one')
            ex, iss = honest.exec_log[e.peer.who], honest.issue_log[e.who]
            sim.expect(ex == iss, 'bystander', 'honest commands %s, executed %s', iss, ex)
    for r in honest.requests.values():
        sim.probe('honest traffic')
        if r.plan[0] == 'declared':
            sim.probe('honest error')
            sim.expect(len(r.results) == 1 and isinstance(r.results[0], Failure) and
                       r.results[0].type is juicelab.DeclaredError and str(r.results[0].value) == r.message, 'bystander',
                       'an honest request should have failed with %r: %r', getattr(r, 'message', None), r.results)
            continue
        sim.expect(len(r.results) == 1 and not isinstance(r.results[0], Failure), 'bystander',
                   'an honest request was disturbed: %r', r.results)
        honest.check_success(r, r.results[0])
    sim.nontrivial = bool(stream) and any(s + len(it[0]) <= len(stream) for it, s in offsets)
