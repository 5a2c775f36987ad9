"""
C34: what is exposed can be looked up, and nothing else, whatever is exposed or
changed meanwhile.

System: the real epsilon.expose.  Classes of a seeded hierarchy get methods -
exposed, plain, replaced, deleted - from threads that run one at a time and are
interrupted at any line or step of expose.py, while others look methods up.
"""
import copy

from dst import threads

RUNS = (15000, 500000)
RULE = ('seeded class hierarchies (1-5 classes, several bases) and 1-2 exposers x histories of exposing, defining, replacing and deleting methods and of look-ups, copies of objects and faulty descriptors, by 1-3 threads '
        'interrupted at any line or step of expose.py; non-trivial: a class or an exposer changed during a look-up, or a look-up was refused')
REAL = ['epsilon.expose', 'copy (which stores __slotnames__ on classes)', 'Python threads (one at a time)']
STUB = ['thread scheduling (dst.threads)', 'methods and other exposed objects', 'locks, if the module made any (dst.threads.SimLock)']
PROBES = ['found', 'inherited', 'refused', 'never exposed', 'hidden by a plain method', 'deleted', 'exposed for another purpose', 'overridden and exposed again', 'changed meanwhile', 'exposed meanwhile',
          'exposed by two at once', 'class grew meanwhile', 'object copied meanwhile', 'false key', 'key from the name', 'other descriptor', 'descriptor failed', 'name required', 'exposed after it was defined',
          'not exposed but equal', 'exposed for two purposes', 'under two keys', 'several bases', 'key of a hidden method on another']
FAULTS = ['descriptor fails', 'thread interrupted']
ABSENT = object()
NAMES = ['one', 'two', 'three']
KEYS = ['one', '', 0, ('k', 1)]


class Refused(Exception):
    pass


class Odd(object):
    """Never exposed; equal to everything."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None

    def __get__(self, obj, type):
        return self


class Descriptor(object):
    def __init__(self, fails):
        self.fails = fails
        self.calls = []

    def __get__(self, obj, type):
        if obj is None:
            return self
        if self.fails:
            raise Refused('descriptor')
        return ('got', self, obj, type)


def run(sim):
    expose = threads.import_with_locks('epsilon.expose')
    c = sim.c
    sched = threads.Scheduler(sim, ('epsilon/expose.py',), c.pick([2, 4, 1, 8, 1000000]), opcodes=c.chance(0.4))
    exposers = [expose.Exposer('purpose %d' % i) for i in range(c.pick([1, 2]))]
    classes = []
    for i in range(c.int(1, 5)):
        for attempt in range(3):
            n = min(len(classes), c.pick([1, 1, 2, 0]))
            bases = []
            for k in range(n):
                b = c.pick(classes)
                if b not in bases:
                    bases.append(b)
            try:
                cls = type('C%d' % i, tuple(bases) or (object,), {})
            except TypeError:
                continue
            break
        else:
            cls = type('C%d' % i, (object,), {})
        if len(cls.__bases__) > 1:
            sim.probe('several bases')
        classes.append(cls)
    number = dict((cls, i) for i, cls in enumerate(classes))
    objects = [c.pick(classes[-2:] + classes)() for k in range(c.int(1, 3))]
    table = {}          # (class, name) -> value
    exposed = []        # [exposer, key, function, time it began, time it was done or None]
    looking = []        # look-ups under way
    exposing = {}       # (exposer, key) -> threads exposing
    state = {'now': 0, 'made': 0, 'interesting': False}
    removed = []

    def me():
        t = sched.me()
        return t.name if t is not None else 'main'

    def tick():
        state['now'] += 1
        return state['now']

    def put(cls, name, value):
        tick()
        if value is ABSENT:
            if name not in cls.__dict__:
                return
            delattr(cls, name)
            removed.append(table.pop((cls, name)))
        else:
            setattr(cls, name, value)
            table[cls, name] = value
        for seen in looking:
            if cls in seen['mro']:
                seen['was'].setdefault((cls, name), [ABSENT]).append(value)
                seen['changed'] = True
                state['interesting'] = True
        sim.trace(me(), 'put', number[cls], name, value is not ABSENT)

    def do_expose(e, key, f, name):
        rec = [e, key, f, tick(), None]
        exposed.append(rec)
        same = exposing[e, key] = exposing.get((e, key), 0) + 1
        if same > 1:
            sim.probe('exposed by two at once')
            state['interesting'] = True
        if looking:
            sim.probe('exposed meanwhile')
        try:
            if key == name and isinstance(f, type(do_expose)) and c.draw(2):
                sim.probe('key from the name')
                r = exposers[e].expose()(f)
            else:
                r = exposers[e].expose(key)(f)
        finally:
            exposing[e, key] -= 1
        sim.expect(r is f, 'decorator', 'exposing gave something else')
        if not key:
            sim.probe('false key')
        rec[4] = tick()
        sim.trace(me(), 'exposed', e, key, name)

    def function(name):
        def method(self):
            return (method, self)
        method.__name__ = name
        return method

    def define():
        cls = c.pick([k for k in type(c.pick(objects)).__mro__ if k in number])
        name = c.pick(NAMES)
        k = c.draw(8)
        if k < 5:
            f = function(name)
        elif k == 5:
            f = Descriptor(c.draw(4) == 0)
        else:
            f = None
        if f is None:
            if k == 6:
                put(cls, name, function(name))
            else:
                put(cls, name, Odd())
            return
        e = min(c.draw(3), len(exposers) - 1)
        key = name if c.draw(2) else c.pick(KEYS)
        if c.draw(6) == 0:
            put(cls, name, f)
            do_expose(e, key, f, name)
            sim.probe('exposed after it was defined')
            return
        do_expose(e, key, f, name)
        if c.draw(8) == 0:
            key2, e2 = c.pick(KEYS), c.draw(len(exposers))
            if key2 != key or e2 != e:
                do_expose(e2, key2, f, name)
                sim.probe('exposed for two purposes' if e2 != e else 'under two keys')
        put(cls, name, f)

    def grow():
        if looking:
            sim.probe('class grew meanwhile')
        cls = c.pick(classes)
        state['made'] += 1
        if c.draw(2):
            tick()
            setattr(cls, 'extra%d' % state['made'], state['made'])
        else:
            if looking:
                sim.probe('object copied meanwhile')
            copy.copy(c.pick(objects))

    def remove():
        have = [k for k in table]
        if have:
            have.sort(key=lambda k: (number[k[0]], k[1]))
            put(*(c.pick(have) + (ABSENT,)))

    def unnamed():
        e = c.draw(len(exposers))
        sim.probe('name required')
        try:
            exposers[e].expose()(Descriptor(False))
        except expose.NameRequired:
            pass
        else:
            sim.note_violation('name', 'an object without a name was exposed without a key')

    def look():
        obj = c.pick(objects)
        T = type(obj)
        e = min(c.draw(3), len(exposers) - 1)
        key = c.pick(exposed)[1] if exposed and c.draw(4) else c.pick(KEYS + NAMES)
        mro = [k for k in T.__mro__ if k in number]
        seen = {'mro': mro, 'was': dict(((k, n), [v]) for (k, n), v in table.items()), 'changed': False}
        began = tick()
        looking.append(seen)
        got = error = None
        sim.trace(me(), 'look', number[T], e, key)
        try:
            got = exposers[e].get(obj, key)
        except Exception as x:
            error = x
        looking[:] = [x for x in looking if x is not seen]
        ended = state['now']
        was = seen['was']
        if seen['changed']:
            sim.probe('changed meanwhile')
        possible = [r[2] for r in exposed if r[0] == e and r[1] == key]
        certain = [r[2] for r in exposed if r[0] == e and r[1] == key and r[4] is not None and r[4] < began]
        could, must, unclear = [], [], False
        for i, k in enumerate(mro):
            for n in NAMES:
                values = was.get((k, n), [ABSENT])
                free = all(any(v is ABSENT for v in was.get((h, n), [ABSENT])) for h in mro[:i])
                always = all(v is ABSENT for h in mro[:i] for v in was.get((h, n), [ABSENT]))
                for v in values:
                    if not any(v is f for f in possible):
                        continue
                    if free:
                        could.append((i, v))
                    if not always:
                        unclear = True
                if len(values) == 1 and always and any(values[0] is f for f in certain):
                    must.append((i, values[0]))
        what = 'key %r of exposer %d on an object of class %d' % (key, e, number[T])
        if error is not None:
            if isinstance(error, Refused):
                sim.probe('descriptor failed')
                sim.fault('descriptor fails')
                sim.expect(any(isinstance(v, Descriptor) and v.fails for i, v in could), 'exception', 'looking up %s raised %r', what, error)
                return
            sim.expect(isinstance(error, expose.MethodNotExposed), 'exception', 'looking up %s raised %s: %s', what, type(error).__name__, error)
            sim.probe('refused')
            if not possible:
                sim.probe('never exposed')
                if any(r[1] == key for r in exposed):
                    sim.probe('exposed for another purpose')
            if any(isinstance(v, Odd) for (k, n), v in table.items() if k in mro):
                sim.probe('not exposed but equal')
            if unclear:
                sim.probe('hidden by a plain method')
                if must:
                    sim.probe('key of a hidden method on another')
            if any(f is r for f in possible for r in removed):
                sim.probe('deleted')
            sim.expect(not must or unclear, 'refused', '%s is exposed, but was refused', what)
            return
        sim.probe('found')
        if isinstance(got, tuple) and len(got) == 4 and got[0] == 'got':
            sim.probe('other descriptor')
            f = got[1]
            sim.expect(got[2] is obj and got[3] is T, 'bound', '%s was bound to another object', what)
        else:
            f = getattr(got, '__func__', None)
            sim.expect(f is not None and got.__self__ is obj, 'bound', '%s gave %r', what, got)
        levels = [i for i, v in could if v is f]
        sim.expect(levels, 'not exposed', '%s gave %r, which is not exposed there', what, f)
        if max(levels):
            sim.probe('inherited')
        if must and not unclear:
            best = min(i for i, v in must)
            sim.expect(min(levels) <= best, 'overridden', '%s gave the method of a base class though it is overridden', what)
        if any(i > min(levels) for i, v in could):
            sim.probe('overridden and exposed again')

    def job(plan):
        for k in plan:
            if k < 4:
                look()
            elif k < 7:
                define()
            elif k == 7:
                remove()
            elif k == 8:
                grow()
            elif k == 9:
                unnamed()
            if c.draw(4) == 0:
                sched.pause()

    for k in range(c.draw(8)):
        define()
    total = c.pick([2, 2, 3, 1])
    for t in range(total):
        plan = [c.draw(10) for k in range(c.int(1, 8))]
        sched.add('t%d' % t, lambda plan=plan: job(plan))
    stuck = sched.run()
    sim.expect(not stuck, 'deadlock', 'threads %s never finish', stuck)
    for t in sched.threads:
        if t.error is not None:
            raise t.error
    for k in range(c.int(1, 4)):
        look()
    if sched.switches:
        sim.faults['thread interrupted'] += sched.switches
    sim.nontrivial = state['interesting'] or bool(sim.probes.get('refused'))
    sim.sample = {'threads': total, 'classes': len(classes), 'exposed': len(exposed), 'switches': sched.switches}
