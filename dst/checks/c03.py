"""
C03: each Juice command runs exactly once with its arguments, in the order
issued, and its answer reaches its own request.

System: one to three simulated connections with real Juice at both ends, both
ends issuing typed commands, old-style commands and commands without answer,
handlers finishing at once or later in any order, handlers and callbacks that
issue further commands.  No connection is lost in these runs (C04 does that).
"""
from twisted.python.failure import Failure

from .. import juicelab

RUNS = (9000, 350000)
RULE = ('seeded mixes of requests from both ends x handler completion orders x argument and response values of every '
        'declared type x segmentation x delays x number of connections; non-trivial: two or more requests in flight '
        'at once')
REAL = ['epsilon.juice (framing, dispatch, argument types, request table) at both ends', 'epsilon.liner']
STUB = ['TCP transport (dst.net)', 'command handlers (scripted)']
ASSUMPTIONS = ['ListOf items do not contain the delimiter (the code refuses those); an empty ListOf is the known finding "empty-list"']
PROBES = ['in flight > 1', 'in flight > 255', 'out of order answers', 'no answer wanted', 'both directions in flight',
          'issued from handler', 'issued from callback', 'several connections', 'long idle', 'wrapper', 'argument forgotten', 'issued in a namespace', 'debugging', 'answered with an error', 'long history',
          'answered with a box used before', 'answered with the request', 'box used again']
FAULTS = ['segment split', 'slow handler']


def run(sim):
    from epsilon import juice
    if sim.c.draw(10):
        return commands(sim)
    sim.probe('debugging')
    juice.debug = True
    try:
        commands(sim)
    finally:
        juice.debug = False


def history(sim):
    """
    More commands over one connection than two bytes can count, while some
    requests wait for their answers all the time.
    """
    sim.probe('long history')
    w = juicelab.World(sim, None)
    conn, = w.conns
    a, b = conn.ends
    total = sim.c.pick([65536, 65700, 66000])

    def keep(k):
        for i in range(k):
            w.issue(a, 'Plain', plan=('ok', 1000000 + sim.c.draw(100)))

    def more(left):
        for i in range(min(left, 3000)):
            a.sendCommand('tick', '', False)
        if left > 3000:
            sim.after(100, lambda: more(left - 3000), 'more')
        else:
            keep(5)
    keep(5)
    more(total - 5)
    sim.run()
    sim.expect(not sim.take_errors(), 'log', 'an error was logged')
    sim.expect(b.ticks == total - 5, 'execution', '%d commands were issued, %d executed', total - 5, b.ticks)
    for r in w.requests.values():
        sim.expect(len(r.results) == 1 and not isinstance(r.results[0], Failure), 'answers', 'request %d: %r', r.rid, r.results)
        w.check_success(r, r.results[0])
    sim.nontrivial = True


def commands(sim):
    c = sim.c
    if c.draw(1800) == 1799:
        return history(sim)
    nconn = c.pick([1, 1, 2, 3])
    w = juicelab.World(sim, None, nconn=nconn, wrapped=c.draw(3) == 0)
    w.spaces = c.draw(3) == 0
    w.reuse = c.draw(4) == 0
    if nconn > 1:
        sim.probe('several connections')
    names = c.subset(['Numbers', 'Texts', 'Rows', 'Maybe', 'old'], 0.6) or ['Plain']
    if c.draw(3) == 0:
        names = ['Plain']
    burst = c.chance(0.02)
    n = c.int(2, 14) if not burst else c.int(260, 330)
    if burst:
        names = ['Plain']
        w.plans = 'burst'
    noans = c.pick([0, 0.1, 0.4])
    slow = c.pick([0, 0.5, 1.0])
    nested = c.pick([0, 0.2])
    failing = c.pick([0, 0, 0.3])
    state = {'budget': 30}

    def plan():
        if burst and c.draw(8):
            return ('ok', 50 + c.draw(1000) / 10.0)
        if c.chance(slow) if slow < 1 else True:
            sim.faults['slow handler'] += 1
            return ('ok', c.draw(200) / 10.0 if c.draw(10) else 5000 + c.draw(1000))
        return ('ok', 'sync')

    def issue(end, why=None):
        if why:
            if state['budget'] <= 0:
                return
            state['budget'] -= 1
            sim.probe('issued from ' + why)
        after = None
        if c.chance(nested):
            after = lambda r: issue(end, 'callback')
        name, answer, p = c.pick(names), not c.chance(noans), plan()
        if failing and answer and name != 'old' and c.chance(failing):
            sim.probe('answered with an error')
            p = ('declared', p[1])
        w.issue(end, name, answer=answer, plan=p, after=after)
        note()

    def from_handler(end, r):
        if c.chance(nested):
            issue(end, 'handler')
    w.extra_hook = from_handler

    def note():
        for conn in w.conns:
            fl = [len(e.open_requests) for e in conn.ends]
            if max(fl) > 1:
                sim.probe('in flight > 1')
                sim.nontrivial = True
            if max(fl) > 255:
                sim.probe('in flight > 255')
            if min(fl) > 0:
                sim.probe('both directions in flight')
                sim.nontrivial = True

    at = 0.0
    for i in range(n):
        conn = c.pick(w.conns)
        end = conn.ends[c.draw(2)] if not burst else conn.ends[0]
        sim.after(at, lambda end=end: issue(end), 'issue')
        if not burst and c.draw(3) == 0:
            at += c.draw(30) / 10.0
            if c.chance(0.02):
                at += 100000
                sim.probe('long idle')
    def forget():
        end = c.pick(w.conns).ends[c.draw(2)]
        kw = dict(rid=1, n=1, f=1.0, b=True, l=[1])
        for k in c.subset(sorted(kw), 0.4) or ['n']:
            del kw[k]
        written = len(end.transport.written)
        try:
            w.cmds['Numbers'](**kw).do(end)
        except Exception:
            sim.probe('argument forgotten')
        else:
            sim.violate('arguments', 'a command without required arguments was accepted')
        sim.expect(len(end.transport.written) == written, 'arguments', 'a command without required arguments was sent')
    if c.draw(10) == 0:
        sim.after(c.draw(30) / 10.0, forget, 'forget')
    sim.sample = {'requests': n, 'commands': names, 'connections': nconn, 'no answer': noans}
    sim.run()

    # -- over the history
    errs = sim.take_errors()
    sim.expect(not errs, 'log', 'error logged: %s', [e[:2] for e in errs[:2]])
    for conn in w.conns:
        for t in (conn.a, conn.b):
            sim.expect(not t.data_errors, 'exception', 'receiving raised %s',
                       [str(e.value)[:150] for e in t.data_errors])
            sim.expect(t.connected and not t.loseCalls, 'closed', 'the connection was closed although nothing failed')
        for e in conn.ends:
            p = e.peer
            ex, iss = w.exec_log[p.who], w.issue_log[e.who]
            sim.expect(ex == iss, 'execution', 'issued %s, executed %s', iss, ex)
            wanted = [r for r in w.requests.values() if r.end is e and r.answer]
            sim.expect(w.answers_seen[e.who] == len(wanted), 'answers',
                       '%d requests wanted an answer, %d answers arrived', len(wanted), w.answers_seen[e.who])
    seqs = []
    for r in sorted(w.requests.values(), key=lambda r: r.rid):
        if not r.answer:
            sim.probe('no answer wanted')
            sim.expect(not r.results, 'answers', 'a request that wanted no answer got one: %r', r.results)
            continue
        sim.expect(len(r.results) == 1, 'answers', 'request %d has %d results', r.rid, len(r.results))
        res = r.results[0]
        if r.plan[0] == 'declared':
            sim.expect(isinstance(res, Failure) and res.type is juicelab.DeclaredError and str(res.value) == r.message,
                       'answers', 'request %d should have failed with %r: %r', r.rid, r.message, res)
            sim.expect(r.result_seq > r.finished_seq, 'answers', 'request %d was answered before its handler finished', r.rid)
            continue
        sim.expect(not isinstance(res, Failure), 'answers', 'request %d failed: %s', r.rid, res)
        w.check_success(r, res)
        sim.expect(r.result_seq > r.finished_seq, 'answers', 'request %d was answered before its handler finished', r.rid)
        seqs.append(r.result_seq)
    if seqs != sorted(seqs):
        sim.probe('out of order answers')


def empty_list(sim):
    """A ListOf argument with no items."""
    from epsilon import juice
    from ..net import Connection
    got = []

    class Sum(juice.Command):
        arguments = [('l', juice.ListOf(juice.Integer()))]
        response = [('l', juice.ListOf(juice.Integer()))]

    class Server(juice.Juice):
        def command_SUM(self, l):
            got.append(l)
            return {'l': [1]}
        command_SUM.command = Sum
    client, server = juice.Juice(False), Server(True)
    sim.reactor
    Connection(sim, client, server)
    res = []
    Sum(l=[]).do(client).addBoth(res.append)
    sim.run()
    sim.take_errors()
    sim.expect(got == [[]], 'execution', 'a command with an empty list was executed as %r', got)


KNOWN = {'empty-list': empty_list}
