"""
C29: a remembered attribute has one value per object, for every thread, for good.

System: the real epsilon.remember on objects shared by real threads that run one
at a time; the seed decides at which line (or step of a line) of remember.py, or
where inside a creation function, the running thread is interrupted and who runs
next.  Creation functions fail, return any kind of value, and use other
remembered attributes of the same and of other objects.
"""
from dst import threads

RUNS = (20000, 700000)
RULE = ('seeded objects and remembered attributes (values of any truth, creation functions that use others) x 1-4 threads reading them several times x '
        'interruptions at any line or step of remember.py and inside creation functions x creation functions that fail; '
        'non-trivial: two threads were creating the same value at once, or a creation failed')
REAL = ['epsilon.remember', 'epsilon.structlike (its base class)', 'Python threads (one at a time)']
STUB = ['thread scheduling (dst.threads)', 'creation functions (scripted)', 'locks, if the module made any (dst.threads.SimLock)']
PROBES = ['the object itself remembered', 'first access', 'remembered access', 'two threads create at once', 'created after another had it', 'creation failed', 'created after a failure', 'None remembered', 'false value remembered',
          'uses another attribute', 'uses another object', 'inherited attribute', 'equal objects', 'read at the end', 'failed while another creates',
          'overriding attribute', 'overridden attribute', 'object that has any attribute', 'creation lacks an attribute or a key']
FAULTS = ['creation fails', 'thread interrupted']


class Refused(Exception):
    pass


class Missing(Refused, AttributeError):
    pass


class NoKey(Refused, KeyError):
    pass


class Stop(BaseException):
    pass


class Thing(object):
    def __init__(self, o, n):
        self.o, self.n = o, n


class Odd(Thing):
    """Equal to everything, and false."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False
    __hash__ = None


def run(sim):
    remember = threads.import_with_locks('epsilon.remember')
    c = sim.c
    sched = threads.Scheduler(sim, ('epsilon/remember.py',), c.pick([2, 4, 1, 8, 1000000]), opcodes=c.chance(0.4))
    kinds = [c.draw(7) for i in range(5)]
    uses = [None] * 4 + [(0, 0)]
    for i in range(1, 4):
        if c.draw(3) == 0:
            uses[i] = (c.draw(i), c.draw(3))       # which attribute, of which object (0: the same)
    state = {'made': 0, 'interesting': False}
    having = {}           # (object, attribute) -> what an access has given
    creating = {}         # (object, attribute) -> number of threads creating it
    busy = {}             # thread -> the access it is in
    created = {}          # (object, attribute) -> what its creation function has returned
    failed = set()
    failing = {}          # (object, attribute) -> [exceptions to raise]

    names = ['first', 'second', 'third', 'fourth', 'first']
    owners = ['Base', 'Base', 'Derived', 'Derived', 'Further']

    def create(i):
        def make(self):
            who = sched.me().name if sched.me() is not None else 'main'
            key = (self.number, i)
            asked = busy.get(who)
            if asked is None or asked['key'] != key:
                sim.note_violation('unasked', 'attribute %d of object %d was created though nobody asked for it' % (i, self.number))
            elif asked['had'] or asked['made']:
                # only a thread which asked before anyone had it may create it
                sim.note_violation('again', 'attribute %d of object %d was created again' % (i, self.number))
            else:
                asked['made'] = True
            sim.trace('create', who, self.number, i)
            n = creating[key] = creating.get(key, 0) + 1
            if n > 1:
                sim.probe('two threads create at once')
                state['interesting'] = True
            try:
                if uses[i] is not None:
                    j, which = uses[i]
                    other = self if which == 0 else objects[(self.number + which) % len(objects)]
                    sim.probe('uses another attribute' if other is self else 'uses another object')
                    read(who, other, j)
                for k in range(c.draw(3)):
                    sim.faults['thread interrupted'] += 1
                    sched.pause()
                plans = failing.get(key)
                if plans:
                    e = plans.pop()
                    sim.fault('creation fails')
                    sim.probe('creation failed')
                    state['interesting'] = True
                    failed.add(key)
                    if creating[key] > 1:
                        sim.probe('failed while another creates')
                    if e in (Missing, NoKey):
                        sim.probe('creation lacks an attribute or a key')
                    raise e('%d %d' % key)
                if key in failed:
                    sim.probe('created after a failure')
            except BaseException as e:
                if asked is not None:
                    asked['failed'] = e
                raise
            finally:
                creating[key] -= 1
            state['made'] += 1
            v = [Thing(self, i), None, [], Odd(self, i), 0, Thing(self, i), self][kinds[i]]
            created.setdefault(key, []).append(v)
            return v
        make.__name__ = names[i]
        make.__qualname__ = '%s.%s' % (owners[i], names[i])
        return make

    class Base(object):
        first = remember.remembered(create(0))
        second = remember.remembered(create(1))

        def __init__(self, number):
            self.number = number

    class Derived(Base):
        third = remember.remembered(create(2))
        fourth = remember.remembered(create(3))

        def __eq__(self, other):
            return isinstance(other, Derived)

        def __hash__(self):
            return 1

    class Further(Derived):
        first = remember.remembered(create(4))

    class Wild(Derived):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return 'made up'
    objects = [c.pick([Derived, Derived, Further, Wild])(n) for n in range(c.pick([1, 2, 3]))]
    if len(objects) > 1:
        sim.probe('equal objects')
    if any(isinstance(x, Wild) for x in objects):
        sim.probe('object that has any attribute')

    def read(who, o, i):
        key = (o.number, i)
        outer, before = busy.get(who), key in having
        own = busy[who] = {'key': key, 'had': before, 'made': False, 'failed': None}
        try:
            if i == 0 and isinstance(o, Further):
                sim.probe('overridden attribute')
                v = super(Further, o).first
            else:
                if i == 4:
                    sim.probe('overriding attribute')
                v = getattr(o, names[i])
        except (Refused, Stop) as e:
            sim.trace('failed', who, o.number, i)
            if before:
                sim.note_violation('lost', 'attribute %d of object %d, which was remembered, raised %r' % (i, o.number, e))
            if outer is not None:
                raise
            return
        except Exception as e:
            sim.note_violation('exception', 'reading attribute %d of object %d raised %s: %s' % (i, o.number, type(e).__name__, e))
            return
        finally:
            busy[who] = outer
        if own['failed'] is not None:
            sim.note_violation('swallowed', 'creating attribute %d of object %d failed (%r), but reading it gave %r' % (i, o.number, own['failed'], v))
        if not any(x is v for x in created.get(key, ())):
            sim.note_violation('made up', 'attribute %d of object %d is %r, which was never created' % (i, o.number, v))
        if any(v is x for x in objects):
            sim.probe('the object itself remembered')
            if v is not o:
                sim.note_violation('mixed up', 'attribute %d of object %d is object %d' % (i, o.number, v.number))
        elif v is not None and hasattr(v, 'o') and (v.o is not o or v.n != i):
            sim.note_violation('mixed up', 'attribute %d of object %d is attribute %d of object %d' % (i, o.number, v.n, v.o.number))
        if key in having:
            sim.probe('remembered access' if before else 'created after another had it')
            if having[key][0] is not v:
                sim.note_violation('two values', 'attribute %d of object %d has had two values' % key[::-1])
        else:
            sim.probe('first access')
            having[key] = [v]             # in a list: it may equal anything
            if v is None:
                sim.probe('None remembered')
            elif not v:
                sim.probe('false value remembered')
        if i < 2:
            sim.probe('inherited attribute')
        sim.trace('read', who, o.number, i)

    def some(n):
        o = objects[c.draw(len(objects))]
        return o, c.draw(n + isinstance(o, Further)) if n == 4 else c.draw(n)

    for k in range(c.draw(4)):
        o, i = some(4)
        key = (o.number, i)
        e = c.pick([Refused, Refused, Stop, Missing, NoKey])
        if e is Missing and any(isinstance(x, Wild) for x in objects):
            e = NoKey             # Python would ask __getattr__ then
        failing.setdefault(key, []).append(e)

    def job(name, plan):
        for o, i in plan:
            read(name, o, i)
            if c.draw(4) == 0:
                sched.pause()
    total = c.pick([2, 2, 3, 4, 1])
    few = c.draw(3)
    for t in range(total):
        name = 't%d' % t
        plan = [some(2 if few == 0 else 4) for k in range(c.int(1, 6))]
        sched.add(name, lambda name=name, plan=plan: job(name, plan))
    stuck = sched.run()
    sim.expect(not stuck, 'deadlock', 'threads %s never finish', stuck)
    for t in sched.threads:
        if t.error is not None:
            raise t.error
    # and for good
    sim.probe('read at the end')
    for key in sorted(having):
        read('main', objects[key[0]], key[1])
        read('main', objects[key[0]], key[1])
    sim.nontrivial = state['interesting']
    sim.sample = {'threads': total, 'objects': len(objects), 'made': state['made'], 'switches': sched.switches}
