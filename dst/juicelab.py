"""
A world of Juice connections for C03, C04, C05: both ends issue commands with
typed arguments, handlers answer at once or later, succeed or fail, as decided
per request when it is issued.  The world keeps the history; the checks judge
it.
"""
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure

from . import gen
from .net import Connection, NetConfig

_commands = None


class DeclaredError(Exception):
    pass


class DeclaredChild(DeclaredError):
    pass


class OtherDeclared(Exception):
    pass


class FatalDeclared(Exception):
    pass


class FatalChild(FatalDeclared):
    pass


class Closer(DeclaredError):
    """Declared beside the error it derives from."""


class FatalCloser(OtherDeclared):
    """Fatal, unlike the error it derives from."""


class Milder(FatalDeclared):
    """Not fatal, unlike the error it derives from."""


class Undeclared(Exception):
    pass


class Via(object):
    """An argument that is taken from the connection, not sent over it."""
    def fromTransport(self, transport):
        return transport


class Address(object):
    """Who is at one end of a connection."""
    def __init__(self, name):
        self.domain, self.resource = name + '.example', 'user at ' + name


def from_connection(transport):
    host, peer = transport.getQ2QHost(), transport.getQ2QPeer()
    return dict(via=transport, peer=peer, peer_domain=peer.domain, peer_user=peer.resource,
                host=host, host_domain=host.domain, host_user=host.resource)


def commands():
    """The command classes, created once per process (as applications do)."""
    global _commands
    if _commands is not None:
        return _commands
    from epsilon import juice as j

    class Plain(j.Command):
        arguments = [('rid', j.Integer()), ('text', j.String())]
        response = [('rid', j.Integer()), ('text', j.String())]
        errors = {DeclaredError: 'DECLARED', OtherDeclared: 'OTHER'}
        fatalErrors = {FatalDeclared: 'FATAL'}

    class Numbers(j.Command):
        commandName = 'the-numbers'
        arguments = [('rid', j.Integer()), ('n', j.Integer()), ('f', j.Float()), ('b', j.Boolean()),
                     ('l', j.ListOf(j.Integer()))]
        response = [('n', j.Integer()), ('f', j.Float()), ('b', j.Boolean()), ('l', j.ListOf(j.Integer()))]
        errors = {DeclaredError: 'Not-Found', OtherDeclared: 'some other: thing'}
        fatalErrors = {FatalDeclared: 'very_bad'}

    class Texts(j.Command):
        arguments = [('rid', j.Integer()), ('u', j.Unicode()), ('p', j.Path()), ('raw', j.Base64Binary()),
                     ('ul', j.ListOf(j.Unicode(), delimiter='|')), ('e', j.EncodedString('utf-8'))]
        response = [('u', j.Unicode()), ('p', j.Path()), ('raw', j.Base64Binary()),
                    ('ul', j.ListOf(j.Unicode(), delimiter='|')), ('e', j.EncodedString('utf-8'))]
        errors = {DeclaredError: 'DECLARED', OtherDeclared: 'OTHER'}
        fatalErrors = {FatalDeclared: 'FATAL'}

    class Rows(j.Command):
        arguments = [('rid', j.Integer()),
                     ('rows', j.JuiceList([('k', j.Unicode()), ('v', j.Integer(optional=True))])),
                     ('gaps', j.JuiceList([('a', j.Unicode(optional=True)), ('b', j.Integer(optional=True))])),
                     ('when', j.Time())]
        response = [('gaps', j.JuiceList([('a', j.Unicode(optional=True)), ('b', j.Integer(optional=True))])),
                    ('rows', j.JuiceList([('k', j.Unicode()), ('v', j.Integer(optional=True))])),
                    ('when', j.Time())]
        errors = {DeclaredError: 'DECLARED', OtherDeclared: 'OTHER'}
        fatalErrors = {FatalDeclared: 'FATAL'}

    Rows.extra = [('via', Via()), ('peer', j.Peer()), ('peer_domain', j.PeerDomain()), ('peer_user', j.PeerUser()),
                  ('host', j.Host()), ('host_domain', j.HostDomain()), ('host_user', j.HostUser())]

    class Maybe(j.Command):
        arguments = [('rid', j.Integer()), ('opt', j.String(optional=True)), ('num', j.Integer(optional=True)),
                     ('body', j.String(optional=True)), ('Class', j.String(optional=True))]
        response = [('Class', j.String(optional=True)), ('opt', j.String(optional=True)), ('body', j.String(optional=True)),
                    ('num', j.Integer(optional=True))]
        errors = {DeclaredError: 'OTHER', OtherDeclared: 'declared'}
        fatalErrors = {FatalDeclared: 'DECLARED'}

    class Derived(Plain):
        """Everything inherited, its errors included."""

    class Family(j.Command):
        """Declares errors and errors derived from them."""
        arguments = [('rid', j.Integer()), ('text', j.String())]
        response = [('rid', j.Integer()), ('text', j.String())]
        errors = {DeclaredError: 'DECLARED', OtherDeclared: 'OTHER', Closer: 'CLOSER', Milder: 'MILDER'}
        fatalErrors = {FatalDeclared: 'FATAL', FatalCloser: 'FATAL-CLOSER'}

    class Nobody(j.Command):
        """No end has a handler for this one."""
        arguments = [('rid', j.Integer())]
        response = []

    _commands = dict(Plain=Plain, Numbers=Numbers, Texts=Texts, Rows=Rows, Maybe=Maybe, Derived=Derived, Family=Family,
                     Nobody=Nobody)
    return _commands


def _word(c, forbid=''):
    t = gen.text(c, rare_long=False)
    for ch in forbid:
        t = t.replace(ch, '')
    return t


def _floats(c):
    return c.pick([0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, 1 / 3.0, -0.0, float('inf'), 123456789.123456789, 1e16, -1e-7])


def _ints(c):
    return c.pick([0, 1, -1, 7, 255, 256, -32769, 2 ** 31, 2 ** 63, -2 ** 64 - 1, 10 ** 40, 65535])


def values(sim, name, response=False):
    """Values for the arguments (or the response) of a command."""
    from twisted.python.filepath import FilePath
    from epsilon.extime import Time
    c = sim.c
    if name in ('Plain', 'Derived', 'Family'):
        v = dict(text=gen.text(c))
    elif name == 'Numbers':
        v = dict(n=_ints(c), f=_floats(c), b=bool(c.draw(2)),
                 l=[_ints(c) for _ in range(1 + c.draw(4))])
    elif name == 'Texts':
        v = dict(u=_word(c), p=FilePath(c.pick(['/tmp/x', '/tmp/caf\u00e9', '/tmp/a b', '/tmp/x:y', '/tmp/zz', '/proc/self/cwd'])),
                 raw=c.pick([b'', b'\x00\xff', b'abc\r\n', b'\x80' * 60, b'a' * 57, b'a' * 58, bytes(range(256))]),
                 ul=[_word(c, '|') for _ in range(1 + c.draw(3))], e=_word(c))
    elif name == 'Rows':
        v = dict(rows=[dict(k=_word(c), v=_ints(c) if c.draw(2) else None) for _ in range(c.draw(4))],
                 gaps=[dict(a=_word(c) if c.draw(2) else None, b=_ints(c) if c.draw(2) else None) for _ in range(c.draw(3))],
                 when=Time.fromPOSIXTimestamp(c.pick([0, 1, 86399, 951782400, 1600000000, 4102444800])))
    elif name == 'Maybe':
        v = {}
        for k in ('opt', 'body', 'Class'):
            v[k] = gen.text(c) if c.draw(2) else None
        v['num'] = _ints(c) if c.draw(2) else None
    else:
        v = {}
    return v


def same(have, want):
    # (the zeros are equal)
    return have == want and repr(have.get('f')) == repr(want.get('f'))


def without_none(rows):
    return [dict((k, v) for k, v in row.items() if v is not None) for row in rows]


class Request(object):
    def __init__(self, rid):
        self.rid = rid
        self.executed = []      # (event number, args)
        self.results = []       # outcomes
        self.plan = None
        self.finished = False   # the handler produced its outcome
        self.issued_seq = None
        self.answered_boxes = 0


class World(object):
    def __init__(self, sim, handler_plans, nconn=1, cfg=None, wrapped=False):
        from epsilon import juice
        self.sim = sim
        self.juice = juice
        self.cmds = commands()
        self.requests = {}
        self.next_rid = 0
        self.order = 0
        self.conns = []
        self.exec_log = {}       # end name -> [rid]
        self.issue_log = {}      # end name -> [rid]
        self.answers_seen = {}   # end name -> number of answer/error boxes received
        self.plans = handler_plans
        self.lost_hooks = []
        self.pending_handlers = 0
        self.extra_hook = None
        self.spaces = False
        self.reuse = False
        world = self

        class Lab(juice.Juice):
            who = None
            conn = None
            usual = None

            def juiceBoxReceived(self, box):
                if juice.ANSWER in box or juice.ERROR in box:
                    world.answers_seen[self.who] = world.answers_seen.get(self.who, 0) + 1
                return juice.Juice.juiceBoxReceived(self, box)

            def command_PLAIN(self, rid, text):
                return world.execute(self, rid, 'Plain', dict(text=text))
            command_PLAIN.command = self.cmds['Plain']

            def plain_elsewhere(self, rid, text):
                return world.execute(self, rid, 'Plain', dict(text=text), True)
            plain_elsewhere.command = self.cmds['Plain']

            def command_DERIVED(self, rid, text):
                return world.execute(self, rid, 'Derived', dict(text=text))
            command_DERIVED.command = self.cmds['Derived']

            def command_FAMILY(self, rid, text):
                return world.execute(self, rid, 'Family', dict(text=text))
            command_FAMILY.command = self.cmds['Family']

            def command_THE_NUMBERS(self, rid, n, f, b, l):
                return world.execute(self, rid, 'Numbers', dict(n=n, f=f, b=b, l=l))
            command_THE_NUMBERS.command = self.cmds['Numbers']

            def command_TEXTS(self, rid, u, p, raw, ul, e):
                return world.execute(self, rid, 'Texts', dict(u=u, p=p, raw=raw, ul=ul, e=e))
            command_TEXTS.command = self.cmds['Texts']

            def command_ROWS(self, rid, rows, when, gaps, **extra):
                if extra != from_connection(self.transport):
                    sim.note_violation('arguments', 'the arguments taken from the connection are %r' % (extra,))
                return world.execute(self, rid, 'Rows', dict(rows=rows, when=when, gaps=gaps))
            command_ROWS.command = self.cmds['Rows']

            def command_MAYBE(self, rid, opt, num, body, Class):
                return world.execute(self, rid, 'Maybe', dict(opt=opt, num=num, body=body, Class=Class))
            command_MAYBE.command = self.cmds['Maybe']

            def juice_OLD_STYLE(self, box):
                rid = int(box['rid'])
                if rid in world.requests:
                    world.requests[rid].box = box
                args = dict((k, v) for k, v in box.items() if k in ('alpha', 'body'))
                return world.execute(self, rid, 'old', args)

            def juice_TICK(self, box):
                self.ticks += 1
                return juice.Box()

            ticks = 0

            def connectionLost(self, reason):
                world.end_lost(self, reason)

        self.Lab = Lab
        setattr(Lab, 'command_OFFICE:PLAIN', Lab.plain_elsewhere)
        clients, servers = juice.JuiceClientFactory(), juice.JuiceServerFactory()
        clients.protocol = servers.protocol = Lab
        for i in range(nconn):
            if sim.c.draw(2):
                a, b = Lab(False), Lab(True)
            else:
                a, b = clients.buildProtocol(None), servers.buildProtocol(None)
                if a.factory is not clients or b.factory is not servers or not a.isClient or not b.isServer:
                    sim.violate('factory', 'a factory built something else than its kind of protocol')
            for e in (a, b):
                e.depth = None
                if wrapped and sim.c.draw(2):
                    self.wrap(e)
            a.who, b.who = 'c%d.a' % i, 'c%d.b' % i
            conn = Connection(sim, a, b, name='c%d' % i, cfg=cfg or NetConfig(sim))
            hosts = Address(a.who), Address(b.who)
            for t, host, peer in ((conn.a, hosts[0], hosts[1]), (conn.b, hosts[1], hosts[0])):
                t.getQ2QHost, t.getQ2QPeer = (lambda host=host: host), (lambda peer=peer: peer)
            a.conn = b.conn = conn
            a.peer, b.peer = b, a
            conn.ends = (a, b)
            self.conns.append(conn)
            for e in (a, b):
                self.exec_log[e.who] = []
                self.issue_log[e.who] = []
                self.answers_seen[e.who] = 0
                e.open_requests = []
                e.template = None
                e.is_lost = False

    def wrap(self, end):
        """Give end a wrapper, in which everything its peer causes is to run."""
        self.sim.probe('wrapper')
        end.depth = 0

        def wrapper(f):
            def inside(*a, **kw):
                end.depth += 1
                try:
                    return f(*a, **kw)
                finally:
                    end.depth -= 1
            return inside
        end.wrapper = wrapper

    # -- issuing

    def issue(self, end, name=None, answer=True, plan=None, handle=True, after=None, late=False):
        """Issue one request from end; its outcome goes to the record."""
        sim = self.sim
        c = sim.c
        name = name or c.pick(['Plain', 'Numbers', 'Texts', 'Rows', 'Maybe', 'old'])
        self.next_rid += 1
        r = Request(self.next_rid)
        r.name = name
        r.end = end
        r.via = end.transport
        r.answer = answer
        r.plan = plan or ('ok', 'sync')
        r.after = after
        r.handle = handle
        r.space = self.spaces and name == 'Plain' and c.draw(4) == 0
        self.requests[r.rid] = r
        self.order += 1
        r.issued_seq = self.order
        r.closing_at_issue = not end.transport.connected or end.transport.disconnecting
        writes = len(end.transport.written)
        if name == 'old':
            r.args = dict(alpha=gen.text(c))
            body = gen.text(c)
            if body:
                r.args['body'] = body
        else:
            r.args = values(sim, name)
        r.response = dict(text=gen.text(c)) if name in ('old',) else values(sim, name)
        if name in ('Plain', 'Derived', 'Family'):
            r.response['rid'] = r.rid
        r.manner = None
        if name == 'old':
            # the box its handler answers with
            r.manner = c.pick([None, None, 'usual', 'asked'])
            if r.manner == 'usual':
                r.response = dict(text='the usual')
            elif r.manner == 'asked':
                r.response = dict(r.args, rid=str(r.rid))
        self.issue_log[end.who].append(r.rid)
        sim.trace('issue', end.who, r.rid, name, r.plan[0], answer)
        r.fired_during_issue = False
        try:
            if name == 'old':
                kw = dict(r.args)
                content = kw.pop('body', '')
                if answer and self.reuse and c.draw(2):
                    # the same box for one request after another
                    from epsilon import juice
                    box = end.template
                    if box is None:
                        box = end.template = juice.JuiceBox()
                    else:
                        sim.probe('box used again')
                        for k in list(box):
                            if k != juice.ASK:
                                del box[k]
                    if content:
                        box['body'] = content
                    box.update(kw, rid=str(r.rid))
                    d = end.sendBoxCommand('old-style', box)
                elif answer:
                    d = end.sendCommand('old-style', content, rid=str(r.rid), **kw)
                else:
                    d = end.sendCommand('Old_Style', content, False, rid=str(r.rid), **kw)
            elif name == 'unknown':
                d = end.sendCommand('no-such-command', rid=str(r.rid))
            elif name == 'badargs':
                d = end.sendCommand('Plain', rid=str(r.rid))
            else:
                kw = dict((k, v) for k, v in r.args.items())
                for k in list(kw):
                    if kw[k] is None and c.draw(2):
                        del kw[k]
                if 'gaps' in kw and c.draw(2):
                    kw['gaps'] = without_none(kw['gaps'])
                if r.space:
                    sim.probe('issued in a namespace')
                    d = self.cmds[name](rid=r.rid, **kw).do(end, 'office', answer)
                elif answer:
                    d = self.cmds[name](rid=r.rid, **kw).do(end)
                else:
                    d = self.cmds[name](rid=r.rid, **kw).do(end, requiresAnswer=False)
        except Exception as e:
            sim.violate('exception', 'issuing %s raised %s: %s' % (name, type(e).__name__, str(e)[:150]))
        r.d = d
        r.wrote = len(end.transport.written) - writes
        if not answer and d is None:
            return r
        if not isinstance(d, Deferred):
            sim.violate('api', 'issuing a request returned %r' % (d,))
        end.open_requests.append(r)
        r.issuing = True
        r.unwatched = late
        if not late:
            self._watch(r, d)
        r.issuing = False
        return r

    def watch(self, r):
        """Begin to care for the outcome of r, which was issued with late=True."""
        if r.unwatched:
            r.unwatched = False
            self._watch(r, r.d)

    def _watch(self, r, d):
        sim = self.sim

        def done(result):
            self.order += 1
            r.results.append(result)
            r.result_seq = self.order
            if r.end.depth not in (None, 1) and not r.end.is_lost and r.end.transport.connected and not r.issuing:
                sim.note_violation('wrapper', 'the reply to request %d was delivered inside %d calls of the wrapper' % (r.rid, r.end.depth))
            if isinstance(result, Failure):
                sim.trace('result', r.rid, 'failure', result.type.__name__)
                # drop references to frames, so that nothing lingers
                result.cleanFailure()
            else:
                sim.trace('result', r.rid, 'ok')
            if r in r.end.open_requests:
                r.end.open_requests.remove(r)
            if r.after is not None:
                after, r.after = r.after, None
                after(r)
            if isinstance(result, Failure):
                if r.handle:
                    return None if r.rid % 3 else 'handled'
                return result
            return result
        d.addBoth(done)

    # -- executing

    def execute(self, end, rid, name, args, space=False):
        sim = self.sim
        r = self.requests.get(rid)
        if r is None:
            sim.note_violation('execution', 'a request nobody issued was executed: %r' % (rid,))
            return {}
        self.order += 1
        r.executed.append((self.order, args))
        self.exec_log[end.who].append(rid)
        sim.trace('execute', end.who, rid)
        if end.depth not in (None, 1):
            sim.note_violation('wrapper', 'request %d was executed inside %d calls of the wrapper' % (rid, end.depth))
        if end.peer is not r.end:
            sim.note_violation('execution', 'request %d was executed on the wrong connection' % (rid,))
        if len(r.executed) > 1:
            sim.note_violation('execution', 'request %d was executed twice' % (rid,))
        if space != r.space:
            sim.note_violation('execution', 'request %d was executed in another namespace than it was issued in' % (rid,))
        if not same(args, r.args):
            bad = [k for k in set(args) | set(r.args) if args.get(k, self) != r.args.get(k, self)]
            sim.note_violation('arguments', '%s %s: given %r, executed with %r' % (
                name, bad, [r.args.get(k) for k in sorted(bad)], [args.get(k) for k in sorted(bad)]))
        when = r.plan[1]
        if self.extra_hook is not None:
            self.extra_hook(end, r)
        if when == 'sync':
            return self.outcome(end, r, r.plan[0], sync=True)
        d = Deferred()
        self.pending_handlers += 1

        def finish():
            self.pending_handlers -= 1
            if r.finished:
                return
            sim.trace('finish', rid)
            out = None
            try:
                out = self.outcome(end, r, r.plan[0], sync=False)
            except Exception:
                self.deliver(end, r, lambda: d.errback(Failure()))
            else:
                self.deliver(end, r, lambda: d.callback(out))
        if when == 'never':
            r.late = finish
        else:
            sim.after(when, finish, 'finish %d' % (rid,))
        return d

    def deliver(self, end, r, fire):
        try:
            fire()
        except Exception as e:
            self.sim.violate('exception', 'completing a handler raised %s: %s' % (type(e).__name__, str(e)[:150]))

    def outcome(self, end, r, kind, sync):
        r.finished = True
        self.order += 1
        r.finished_seq = self.order
        r.handler_open = end.transport.connected and not end.transport.disconnecting
        if kind == 'ok':
            if r.name == 'old':
                from epsilon import juice
                if r.manner == 'asked':
                    self.sim.probe('answered with the request')
                    return r.box
                if r.manner == 'usual':
                    # one box for all of them
                    self.sim.probe('answered with a box used before')
                    if end.usual is None:
                        end.usual = juice.Box(text='the usual')
                    return end.usual
                return juice.Box(text=r.response['text'])
            out = dict(r.response)
            if 'gaps' in out and r.rid % 2:
                out['gaps'] = without_none(out['gaps'])
            return out
        raise self.make_error(r, kind)

    def make_error(self, r, kind):
        r.message = getattr(r, 'message', None) or 'message %d' % (r.rid,)
        return {'declared': DeclaredError, 'child': DeclaredChild, 'other': OtherDeclared,
                'fatal': FatalDeclared, 'undeclared': Undeclared}[kind](r.message)

    # -- losing

    def end_lost(self, end, reason):
        for r in list(end.open_requests):
            if r.unwatched and r.d.called:
                self.watch(r)       # it has its outcome
        waiting = list(end.open_requests)
        end.is_lost = True
        self.order += 1
        end.lost_seq = self.order
        try:
            self.juice.Juice.connectionLost(end, reason)
        except Exception as e:
            self.sim.note_violation('exception', 'connectionLost raised %s: %s' % (type(e).__name__, str(e)[:150]))
        for h in self.lost_hooks:
            h(end, reason, waiting)

    # -- common oracles

    def expected_response(self, r):
        return dict(r.response)

    def check_success(self, r, result):
        """result: what the request's Deferred gave."""
        if r.name == 'old':
            have = dict((k, v) for k, v in result.items() if not k.startswith('_'))
        else:
            have = dict(result)
            if r.name == 'Rows':
                for k, v in from_connection(r.via).items():
                    if have.pop(k, None) is not v:
                        self.sim.violate('answer', 'request %d: the value %s to be taken from the connection is missing' % (r.rid, k))
        want = self.expected_response(r)
        if not same(have, want):
            bad = sorted(k for k in set(have) | set(want) if have.get(k, self) != want.get(k, self))
            self.sim.violate('answer', 'request %d (%s): %s returned %r, the caller got %r' % (
                r.rid, r.name, bad, [want.get(k) for k in bad], [have.get(k) for k in bad]))
