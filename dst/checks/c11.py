"""
C11: a one-time pad admits at most one login, ever.

System: real CredReceivers and OneTimePadChecker behind a real Portal; several
connections present pads (valid, used, unknown, near misses) at the same time;
checker and realm answer at once or late or fail; connections die at any time.
"""
from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
from twisted.cred.credentials import UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import Portal
from twisted.python.failure import Failure

from ..amplab import Link, Realm, Slow

RUNS = (10000, 350000)
RULE = ('seeded histories of pad presentations over several connections sharing a checker, checker and realm at once, '
        'late or failing x segmentation x delays x loss at any point; non-trivial: a pad was presented more than once, '
        'or presentations overlapped, or a fault fired')
REAL = ['epsilon.ampauth (OneTimePadChecker, CredReceiver)', 'epsilon.structlike', 'twisted AMP and cred']
STUB = ['TCP transport (dst.net)', 'realm and avatars (recorders)']
PROBES = ['accepted', 'used pad refused', 'unknown pad refused', 'near miss refused', 'same pad on two connections at once',
          'same pad twice on one connection', 'realm failed after pad', 'lost after pad was taken', 'retry with good pad',
          'slow checker', 'slow realm', 'pad issued later', 'second portal', 'many pads for one avatar', 'pad reissued']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'realm fails', 'slow checker']


class Pad(object):
    def __init__(self, padValue):
        self.padValue = padValue


class RealmDown(Exception):
    pass


def run(sim):
    from epsilon import ampauth
    c = sim.c
    sim.reactor
    pool = [b'pad', b'pad2', b'PAD', b'pad ', b'', b'\x00\xff', b'p' * 300, b'0', b'pa']
    issued = {}
    for p in c.shuffle(pool)[:1 + c.draw(6)]:
        issued[p] = c.pick([b'alice', b'bob', p + b'!', b'', u'\u20ac', 0, ()])
    if len(set(issued.values())) < len(issued):
        sim.probe('many pads for one avatar')
    model = dict(issued)               # pads not yet presented
    book = dict(issued)                # the application goes on issuing pads in its own dictionary
    inner = ampauth.OneTimePadChecker(book)
    asked = []                         # (pad, verdict) in the order the checker was asked
    taken = {}                         # pad -> how often a presentation of it was let through
    slow = c.draw(2)
    state = {'overlap': False}

    class Watch(object):
        credentialInterfaces = inner.credentialInterfaces

        def __getattr__(self, name):
            # the pads, for instance
            return getattr(inner, name)

        def requestAvatarId(self, credentials):
            pad = credentials.padValue
            want = model.pop(pad, None)
            try:
                got = inner.requestAvatarId(credentials)
            except UnauthorizedLogin:
                got = None
                if want is not None:
                    sim.note_violation('refused', 'a valid pad presented for the first time was refused')
                asked.append((pad, None))
                sim.trace('refused', repr(pad))
                raise
            sim.trace('taken', repr(pad))
            if want is None:
                sim.note_violation('admitted', 'the pad %r, %s, was accepted' % (
                    pad, 'already presented' if pad in issued else 'never issued'))
            elif got != want:
                sim.note_violation('avatar', 'a pad for %r was accepted for %r' % (want, got))
            taken[pad] = taken.get(pad, 0) + 1
            asked.append((pad, got))
            return got

    def checker_delay():
        if not slow or c.draw(2) == 0:
            return 'at once', None
        sim.faults['slow checker'] += 1
        sim.probe('slow checker')
        return c.pick(['ask late', 'answer late']), c.draw(60) / 10.0

    def realm_delay():
        if c.draw(2) == 0:
            return None
        sim.probe('slow realm')
        return c.draw(60) / 10.0
    checker = Slow(sim, Watch(), checker_delay)
    realm = Realm(sim, realm_delay)
    real_request = realm.requestAvatar

    def request(ident, mind, *ifaces):
        if c.chance(0.08):
            sim.fault('realm fails')
            sim.probe('realm failed after pad')
            raise RealmDown('no')
        return real_request(ident, mind, *ifaces)
    realm.requestAvatar = request
    portals = [Portal(realm, [checker]), Portal(realm, [checker])]
    links = []
    admitted = []

    def on_start(avatar, sender):
        admitted.append(avatar)
    realm.on_start = on_start
    inflight = {}
    first = {}

    def present(l, pad):
        if not l.up or l.done:
            return
        sim.trace('present', l.name, repr(pad))
        if inflight.get(pad):
            sim.probe('same pad on two connections at once' if l not in inflight[pad] else 'same pad twice on one connection')
            state['overlap'] = True
        inflight.setdefault(pad, []).append(l)
        rec = {'pad': pad, 'result': None}
        l.presented.append(rec)

        def done(res):
            inflight[pad].remove(l)
            rec['result'] = res
            sim.trace('answer', l.name, res.type.__name__ if isinstance(res, Failure) else 'in')
            if isinstance(res, Failure):
                if l.dropped or not l.up:
                    return
                if res.check(UnauthorizedLogin):
                    if pad in issued:
                        sim.probe('used pad refused')
                    elif pad in pool:
                        sim.probe('near miss refused')
                    else:
                        sim.probe('unknown pad refused')
            else:
                sim.probe('accepted')
                l.done = True
                n = sum(1 for x in links for r in x.presented if r['pad'] == pad and r['result'] is not None
                        and not isinstance(r['result'], Failure))
                if n > issued_count.get(pad, 0):
                    sim.note_violation('admitted', 'the pad %r admitted %d logins' % (pad, n))
        l.client.callRemote(ampauth.OTPLogin, pad=pad).addBoth(done)

    issued_count = {p: 1 for p in issued}

    def issue():
        p = c.pick(pool)
        if p in model:
            return
        sim.probe('pad reissued' if p in issued else 'pad issued later')
        issued[p] = model[p] = c.pick([b'alice', p + b'!', b''])
        (inner.pads if c.draw(2) else book)[p] = issued[p]
        issued_count[p] = issued_count.get(p, 0) + 1

    def begin(i):
        portal = c.pick(portals)
        if portal is portals[1]:
            sim.probe('second portal')
        l = Link(sim, portal, 'c%d' % i)
        l.done = False
        l.presented = []
        links.append(l)
        # one at a time, the next only after a refusal; or all at once
        plan = [c.pick(pool if c.draw(4) else [b'unknown', b'pad\n', b'x' * 1000, b'pad3']) for _ in range(1 + c.draw(4))]
        if c.chance(0.3):
            at = 0.0
            for p in plan:
                sim.after(c.draw(40) / 10.0, lambda p=p: present(l, p), 'present')
        else:
            def step():
                if not plan or not l.up or l.done:
                    return
                if l.presented and l.presented[-1]['result'] is None:
                    sim.after(1.0, step, 'wait')
                    return
                p = plan.pop(0)
                if l.presented and p in model:
                    sim.probe('retry with good pad')
                present(l, p)
                if plan:
                    sim.after(1.0, step, 'wait')
            sim.after(c.draw(40) / 10.0, step, 'present')
        if c.chance(0.15):
            def drop():
                if checker.pending or realm.pending:
                    sim.probe('lost after pad was taken')
                l.drop()
            sim.after(c.draw(120) / 10.0, drop, 'drop')

    for i in range(2 + c.draw(4)):
        sim.after(c.draw(60) / 10.0, lambda i=i: begin(i), 'connect')
    for i in range(c.draw(3)):
        sim.after(c.draw(150) / 10.0, issue, 'issue')
    sim.sample = {'pads': sorted(repr(p)[:20] for p in issued), 'slow checker': slow}
    sim.run()

    # nothing that happened may have disturbed the pads nobody presented
    for pad in sorted(model):
        try:
            got = inner.requestAvatarId(Pad(pad))
        except UnauthorizedLogin:
            sim.violate('disturbed', 'the pad %r was never presented and is now refused' % (pad,))
        sim.expect(got == model[pad], 'disturbed', 'the pad %r is now for %r', pad, got)
        try:
            inner.requestAvatarId(Pad(pad))
        except UnauthorizedLogin:
            pass
        else:
            sim.violate('admitted', 'the pad %r was accepted twice' % (pad,))
    # every login that was let in took its own pad
    for l in links:
        wins = [r for r in l.presented if r['result'] is not None and not isinstance(r['result'], Failure)]
        if not l.dropped and l.conn.open:
            for r in l.presented:
                if r['result'] is None:
                    sim.expect(wins, 'stuck', 'a presentation was never answered')
                elif isinstance(r['result'], Failure) and not wins:
                    sim.expect(r['result'].check(UnauthorizedLogin), 'error', 'a pad was refused with %s', r['result'].type.__name__)
    if not sim.faults.get('realm fails'):
        for l in links:
            for r in l.presented:
                alone = sum(1 for x in links for q in x.presented if q['pad'] == r['pad']) == 1
                if alone and len(l.presented) == 1 and not l.dropped and [g for p, g in asked if p == r['pad'] and g is not None]:
                    sim.expect(r['result'] is not None and not isinstance(r['result'], Failure), 'refused',
                               'the checker accepted a pad, the client was told %r', r['result'])
    per = {}
    for a in admitted:
        per[a.ident] = per.get(a.ident, 0) + 1
    allowed = {}
    for pad, got in asked:
        if got is not None:
            allowed[got] = allowed.get(got, 0) + 1
    for ident, n in per.items():
        sim.expect(n <= allowed.get(ident, 0), 'admitted', '%r logged in %d times with %d pads', ident, n, allowed.get(ident, 0))
    refused_open = [l for l in links if not l.dropped and not l.conn.open]
    errs = [e[0] for e in sim.take_errors()]
    sim.expect(errs.count('RealmDown') == sim.faults.get('realm fails', 0) or any(l.dropped for l in links), 'log',
               'logged %r', errs)
    sim.expect(not [e for e in errs if e != 'RealmDown'] or any(l.dropped for l in links) or sim.faults.get('realm fails'), 'log', 'logged %r', errs)
    if not sim.faults.get('realm fails'):
        sim.expect(not refused_open, 'closed', 'a connection was closed by a refusal')
    sim.nontrivial = bool(state['overlap'] or any(l.dropped for l in links) or sim.faults.get('realm fails')
                          or len(asked) > len(set(p for p, _ in asked)))
