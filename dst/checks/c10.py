"""
C10: password login admits exactly those who prove the right password.

System: one server (real CredReceivers, real cred Portal, real password
database behind a checker that may be slow), several connections at once:
honest clients using the real ampauth.login, and attackers who listen to
everything and replay, splice, switch user, guess and pipeline.  The oracle
recomputes every response from what was on the wire.
"""
import hashlib
import random

from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
from twisted.cred.credentials import UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import Portal
from twisted.protocols import amp
from twisted.python.failure import Failure

from .. import seams
from ..amplab import Link, Realm, Slow
from ..net import NetConfig

RUNS = (7000, 250000)
RULE = ('seeded histories of honest and dishonest login attempts over several connections, checker and realm at once or '
        'late, recorded traffic replayed in whole and in part x segmentation x delays x loss; non-trivial: an attack '
        'was tried, or attempts overlapped, or a fault fired')
REAL = ['epsilon.ampauth at both ends', 'epsilon.structlike', 'twisted AMP and cred']
STUB = ['TCP transport (dst.net)', 'entropy (seeded stream)', 'realm and avatars (recorders)']
PROBES = ['unusable credentials', 'honest login', 'honest wrong password', 'retry after refusal', 'replay of a response elsewhere',
          'replay of an older response here', 'replay of a whole stream', 'user switched after challenge',
          'right answer for another user', 'pipelined guess', 'response without challenge', 'unknown user',
          'answer to an older challenge', 'slow checker', 'slow realm', 'overlapping logins', 'no avatar',
          'login after a refused attack', 'lost while deciding', 'garbled response']
FAULTS = ['segment split', 'connection reset', 'connection close by a', 'connection abort by b', 'replayed message',
          'slow checker']

USERS = {b'alice': b'secret', b'bob': b'hunter2', b'Alice': b'other secret', b'alice ': b'third', b'nobody': b'x',
         b'\xc3\xa9ve': b'p\xc3\xa4ss', b'': b'empty name', b'joe': b'',
         b'carol': b' two words\t', b'dave': b'k' * 300 + b'\x00\n', b'erin': b'Secret'}


def expected(challenge, nonce, password):
    return hashlib.sha1(challenge + b' ' + nonce + b' ' + password).digest()


def fresh(sim, ampauth):
    """The same server in the same state with another entropy: other values."""
    seen = []
    state = random.getstate()
    for key in (b'one', b'two'):
        random.setstate(state)
        sim.seed_entropy(key)
        got = []
        for i in range(2):
            p = ampauth.CredReceiver()
            p.locateResponder(b'PasswordLogin')(amp.Box(username=b'alice')).addCallback(
                lambda box: got.append(box[b'challenge']))
            got.append(ampauth.PasswordChallengeResponse.determineFrom(b'c', b'pw')['cnonce'])
        seen.append(got)
    random.setstate(state)
    for a, b in zip(*seen):
        sim.expect(a != b, 'predictable', 'a challenge or nonce does not depend on the entropy source')
    flat = seen[0] + seen[1]
    sim.expect(len(set(flat)) == len(flat), 'repeat', 'a challenge or nonce was used twice')


class Pad(object):
    padValue = b'pad'


def run(sim):
    from epsilon import ampauth
    c = sim.c
    sim.reactor
    if c.draw(8) == 7:
        fresh(sim, ampauth)
    sim.seed_entropy(b'run%d' % c.draw(1000))
    sim.entropy_taken = 0
    users = dict(USERS)
    db = InMemoryUsernamePasswordDatabaseDontUse(**{})
    db.users = dict(users)
    slow_checker = c.draw(2)
    slow_realm = c.draw(2)

    def checker_delay():
        if not slow_checker or c.draw(2) == 0:
            return 'at once', None
        sim.faults['slow checker'] += 1
        sim.probe('slow checker')
        return c.pick(['ask late', 'answer late']), c.draw(100) / 10.0

    def realm_delay():
        if not slow_realm or c.draw(2) == 0:
            return None
        sim.probe('slow realm')
        return c.draw(100) / 10.0
    checker = Slow(sim, db, checker_delay)
    realm = Realm(sim, realm_delay)
    realm.no_avatar = (b'nobody',)
    portal = Portal(realm, [checker])
    values = []           # every challenge and nonce made by the code
    recorded = []         # (user, challenge, nonce, response) heard on the wire
    admitted = []
    links = []
    state = {'attack': False, 'overlap': False}

    def on_start(avatar, sender):
        for l in links:
            if l.server is sender:
                l.avatars.append(avatar)
                sim.trace('admitted', l.name, repr(avatar.ident))
                ok = [p for p in l.pcrs if p['user'] == avatar.ident and p['right'] is not False]
                if not ok:
                    sim.note_violation('admitted', 'connection %s was given the avatar of %r; it never proved that password' % (
                        l.name, avatar.ident))
                return
        sim.note_violation('admitted', 'an avatar was started with an unknown sender')
    realm.on_start = on_start

    class Client(Link):
        def __init__(self, name):
            class Tap(amp.AMP):
                # watches what goes out, changes nothing
                def callRemote(tap, command, *a, **kw):
                    return self.watch(command, kw, amp.AMP.callRemote(tap, command, *a, **kw))
            self.logins = []         # PasswordLogins sent, in order
            self.pcrs = []           # PasswordChallengeResponses sent, in order
            self.avatars = []
            self.strange = self.muted = self.mine = False
            Link.__init__(self, sim, portal, name, client=Tap())

        @property
        def up(self):
            return not self.muted and self.conn.a.connected and not self.conn.a.disconnecting

        def watch(self, command, kw, d):
            if command is ampauth.PasswordLogin:
                rec = {'user': kw['username'], 'challenge': None}
                self.logins.append(rec)

                def got(res):
                    ch = rec['challenge'] = res['challenge']
                    values.append(ch)
                    # responses sent before we knew the challenge are judged now
                    for p in self.pcrs:
                        if p['login'] is rec:
                            judge(p)
                    return res
                d.addCallback(got)
            else:
                p = {'login': self.logins[-1] if self.logins else None, 'cnonce': kw['cnonce'], 'response': kw['response'],
                     'right': None, 'result': None}
                p['user'] = p['login'] and p['login']['user']
                if not self.mine:
                    values.append(kw['cnonce'])     # made by the code under test
                self.pcrs.append(p)
                if p['login'] is None:
                    p['right'] = False
                    self.strange = True
                elif p['login']['challenge'] is not None:
                    judge(p)
                if any(x['result'] is None for x in self.pcrs[:-1]):
                    state['overlap'] = True
                    sim.probe('overlapping logins')

                def done(res):
                    p['result'] = res
                    sim.trace('pcr', self.name, res.type.__name__ if isinstance(res, Failure) else 'in')
                    if not isinstance(res, Failure):
                        if p['right'] is False:
                            sim.note_violation('admitted', 'a wrong response was accepted for %r' % (p['user'],))
                        elif not [a for a in self.avatars if a.ident == p['user']]:
                            sim.note_violation('avatar', 'a login as %r succeeded, the connection has %r' % (
                                p['user'], [a.ident for a in self.avatars]))
                    return res
                d.addBoth(done)
            return d

    def judge(p):
        pw = users.get(p['login']['user'])
        p['right'] = pw is not None and expected(p['login']['challenge'], p['cnonce'], pw) == p['response']
        recorded.append((p['login']['user'], p['login']['challenge'], p['cnonce'], p['response']))

    def honest(l, after_attack=False):
        user = c.pick([b'alice', b'bob', b'Alice', b'alice ', b'\xc3\xa9ve', b'nobody', b'stranger', b'', b'joe', b'carol', b'dave', b'erin'])
        right = users.get(user, b'?')
        password = right if c.draw(4) else c.pick([b'', right + b'x', right[:-1], b'hunter2', right.upper(), right.strip(), right + b' ',
                                                             right.lower(), b' ' + right, right[:64]])
        good = user in users and password == users[user]
        shown = password.decode('utf-8') if c.draw(2) else password

        if l.up and c.draw(12) == 0:
            # something that is no user name and password
            written = len(l.conn.a.written)
            try:
                bad = ampauth.login(l.client, c.pick([None, b'alice', Pad()]))
            except Exception as e:
                what = type(e)
            else:
                what = []
                bad.addErrback(lambda f: what.append(f.type))
                what = what[0] if what else None
            sim.probe('unusable credentials')
            if what is not ampauth.UnhandledCredentials or len(l.conn.a.written) != written:
                sim.note_violation('credentials', 'credentials that cannot be used gave %r' % (what,))

        def attempt(n):
            if not l.up:
                return
            d = ampauth.login(l.client, UsernamePassword(user, shown if n == 0 else right))

            def done(res):
                now_good = good if n == 0 else user in users
                if isinstance(res, Failure):
                    if l.dropped or l.strange:
                        return
                    if user == b'nobody' and now_good and not l.attacked:
                        sim.probe('no avatar')
                        if not res.check(NotImplementedError):
                            sim.note_violation('refused', 'told %s where there is no avatar' % (res.type.__name__,))
                        return
                    if not res.check(UnauthorizedLogin) and user != b'nobody':
                        sim.note_violation('refused', 'an honest client was told %s: %s' % (res.type.__name__, res.getErrorMessage()))
                        return
                    if now_good and not l.attacked:
                        sim.note_violation('refused', 'an honest client with the right password was refused')
                        return
                    sim.probe('honest wrong password')
                    if user not in users:
                        sim.probe('unknown user')
                    if l.avatars and not l.attacked:
                        sim.note_violation('refused', 'a refused connection has an avatar')
                    if n == 0 and c.draw(2):
                        sim.after(c.draw(20) / 10.0, lambda: attempt(1), 'retry')
                        sim.probe('retry after refusal')
                else:
                    if not now_good:
                        sim.note_violation('admitted', '%r was admitted with the wrong password' % (user,))
                    if res is not l.client:
                        sim.note_violation('result', 'login gave %r' % (res,))
                    sim.probe('honest login')
                    if l.attacked:
                        sim.probe('login after a refused attack')
            d.addBoth(done)
        attempt(0)

    def call(l, cmd, **kw):
        l.mine = True
        d = l.client.callRemote(cmd, **kw)
        l.mine = False
        res = []
        d.addBoth(lambda r: (res.append(r), None)[1])
        return res

    def attack(l):
        if not l.up or l.avatars:
            return
        l.attacked = True
        state['attack'] = True
        kind = c.pick(['replay response', 'replay older here', 'switch user', 'other user answer', 'pipeline', 'no challenge',
                       'old challenge', 'garble', 'replay stream', 'guess'])
        victim = c.pick([b'alice', b'bob', b'\xc3\xa9ve', b'joe'])
        PL, PCR = ampauth.PasswordLogin, ampauth.PasswordChallengeResponse
        sim.trace('attack', l.name, kind)

        def own(ch, pw):
            n = sim.c.draw(256)
            nonce = bytes([n]) * 16
            return dict(cnonce=nonce, response=expected(ch, nonce, pw))

        def asked(res, then):
            """Run then(challenge) once the challenge is here."""
            def poll(n=0):
                if res and not isinstance(res[0], Failure):
                    then(res[0]['challenge'])
                elif not res and n < 60 and l.up:
                    sim.after(0.5, lambda: poll(n + 1), 'poll')
            sim.after(0.0, poll, 'poll')

        if kind in ('replay response', 'replay older here') and recorded:
            sim.fault('replayed message')
            if kind == 'replay response':
                sim.probe('replay of a response elsewhere')
                u, ch, n, r = c.pick(recorded)
            else:
                mine = [x for x in recorded if any(p['cnonce'] == x[2] for p in l.pcrs)]
                if not mine:
                    return
                sim.probe('replay of an older response here')
                u, ch, n, r = c.pick(mine)
            call(l, PL, username=u)
            if c.draw(2):
                call(l, PCR, cnonce=n, response=r)
            else:
                sim.after(c.draw(30) / 10.0, lambda: l.up and call(l, PCR, cnonce=n, response=r), 'attack')
        elif kind == 'switch user':
            # answers with a password it knows, for a user it does not
            def then(ch):
                if l.up and not l.avatars:
                    sim.probe('user switched after challenge')
                    call(l, PL, username=victim)
                    call(l, PCR, **own(ch, b'hunter2' if victim != b'bob' else b'secret'))
            asked(call(l, PL, username=b'bob' if victim != b'bob' else b'alice'), then)
        elif kind == 'other user answer':
            def then(ch):
                if l.up and not l.avatars:
                    sim.probe('right answer for another user')
                    call(l, PCR, **own(ch, b'other secret'))
            asked(call(l, PL, username=victim), then)
        elif kind == 'pipeline':
            sim.probe('pipelined guess')
            for i in range(1 + c.draw(3)):
                call(l, PL, username=victim)
                call(l, PCR, **own(b'\0' * 16, users[victim]))
        elif kind == 'no challenge':
            if not l.logins:
                sim.probe('response without challenge')
                call(l, PCR, **own(b'', b''))
        elif kind == 'old challenge':
            # knows the password but answers a challenge that was superseded
            def then(ch):
                if l.up and not l.avatars:
                    sim.probe('answer to an older challenge')
                    call(l, PL, username=victim)
                    call(l, PCR, **own(ch, users[victim]))
            asked(call(l, PL, username=victim), then)
        elif kind == 'garble':
            def then(ch):
                if l.up and not l.avatars:
                    a = own(ch, users[victim])
                    sim.probe('garbled response')
                    k = c.draw(7)
                    r = a['response']
                    a['response'] = [b'', r[:-1], r + b'\0', r[:10], bytes([r[0] ^ 1]) + r[1:], r.hex().encode(),
                                     r[:-1] + bytes([r[-1] ^ 0x80])][k]
                    call(l, PCR, **a)
            asked(call(l, PL, username=victim), then)
        elif kind == 'replay stream':
            others = [o for o in links if o is not l and o.conn.a.written]
            if others and not l.conn.a.written:
                sim.probe('replay of a whole stream')
                sim.fault('replayed message')
                o = c.pick(others)
                l.strange = l.muted = True      # a bare wire from here on
                data = bytes(o.conn.a.written)
                # as if the same commands were sent here
                for box in amp.parseString(data):
                    name = box.get(b'_command')
                    if name == b'PasswordLogin':
                        l.logins.append({'user': box[b'username'], 'challenge': None})
                    elif name == b'PasswordChallengeResponse':
                        l.pcrs.append({'login': None, 'user': None, 'right': False, 'result': False, 'cnonce': b'', 'response': b''})
                l.conn.a.write(data)
        elif kind == 'guess':
            def then(ch):
                if l.up and not l.avatars:
                    for i in range(1 + c.draw(3)):
                        call(l, PCR, **own(ch, c.pick([b'password', b'', b'secret ', b'SECRET'])))
            asked(call(l, PL, username=b'alice'), then)

    n = 1 + c.draw(4)
    for i in range(n):
        def begin(i=i):
            l = Client('c%d' % i)
            l.attacked = False
            links.append(l)
            for k in range(1 + c.draw(3)):
                if c.draw(2):
                    sim.after(c.draw(80) / 10.0, lambda: attack(l), 'attack')
                    sim.after(c.draw(300) / 10.0, lambda: attack(l), 'attack')
            if c.draw(4):
                sim.after(c.draw(80) / 10.0, lambda: l.up and not l.avatars and honest(l), 'honest')
            if c.chance(0.15):
                def drop():
                    if realm.pending or checker.pending:
                        sim.probe('lost while deciding')
                    l.drop()
                sim.after(c.draw(200) / 10.0, drop, 'drop')
        sim.after(c.draw(100) / 10.0, begin, 'connect')
    sim.sample = {'connections': n, 'slow checker': slow_checker, 'slow realm': slow_realm}
    sim.run()

    for l in links:
        for p in l.pcrs:
            if p['right'] is None:
                continue                     # the challenge never came back: the connection died
            if p['right'] and isinstance(p['result'], Failure) and not (l.dropped or l.strange) and p['user'] != b'nobody' \
                    and not l.avatars:
                sim.violate('refused', 'the right response for %r was refused: %s' % (p['user'], p['result'].type.__name__))
            if not p['right'] and isinstance(p['result'], Failure) and not (l.dropped or l.strange):
                sim.expect(p['result'].check(UnauthorizedLogin), 'refused', 'a wrong response was refused with %s, not UnauthorizedLogin',
                           p['result'].type.__name__)
            if p['result'] is None:
                sim.expect(l.avatars, 'stuck', 'an attempt on connection %s was never answered', l.name)
        sim.expect(len(l.avatars) <= 1, 'avatar', 'a connection was given %d avatars', len(l.avatars))
        if not (l.dropped or l.strange):
            sim.expect(l.conn.open, 'closed', 'a refused attempt closed the connection (logged %s)', [e[:2] for e in sim.errors])
    sim.expect(len(set(values)) == len(values), 'repeat', 'a challenge or nonce was used twice')
    made = len(values)
    sim.expect(sim.entropy_taken >= 8 * made, 'predictable', '%d challenges and nonces were made from %d bytes of entropy', made, sim.entropy_taken)
    for v in values:
        sim.expect(len(v) >= 8, 'predictable', 'a challenge or nonce of %d bytes', len(v))
    errs = [e for e in sim.take_errors()]
    if not any(l.strange or l.dropped for l in links):
        sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
    sim.nontrivial = bool(state['attack'] or state['overlap'] or any(l.dropped for l in links))
