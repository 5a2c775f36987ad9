"""
C22: printing a record in one thread is not affected by other threads.

System: the real epsilon.structlike in real threads that run one at a time;
the seed decides at which line of structlike.py, or inside which field's own
representation, the running thread is interrupted, and who runs next.  Records
are shared, nested and cyclic; fields raise.
"""
from dst import threads

RUNS = (6000, 200000)
RULE = ('seeded record graphs (shared, nested, cyclic, through lists) x 2-4 threads printing several times x interruptions at any line of structlike.py '
        'and inside field representations x fields that raise; non-trivial: threads were interrupted in the middle of printing')
REAL = ['epsilon.structlike', 'twisted.python.context', 'Python threads (one at a time)']
STUB = ['thread scheduling (dst.threads)', 'field values (scripted representations)', 'locks, if the module made any (dst.threads.SimLock)']
PROBES = ['threads of one name', 'interrupted mid-print', 'same record in two threads at once', 'cyclic', 'shared twice', 'through a list', 'field raised', 'printed again after a failure',
          'inside another context', 'three threads', 'deep', 'subclass', 'prints from inside a field',
          'printed again inside another', 'record with its own idea of equality', 'field gone', 'long chain']
FAULTS = ['field raises', 'thread interrupted']


class FieldError(Exception):
    pass


class Nasty(BaseException):
    pass


def model(o, stack):
    if isinstance(o, Rec):
        if o in stack:
            return '%s(...)' % o.name
        s = stack + [o]
        return '%s(%s)' % (o.name, ', '.join('%s=%s' % (n, model(v, s)) for n, v in zip(o.names, o.values)))
    if isinstance(o, Lst):
        if o in stack:
            return '[...]'
        return '[%s]' % ', '.join(model(v, stack + [o]) for v in o.items)
    if isinstance(o, Leaf):
        if o.inner is not None:
            return '<%d %s>' % (o.n, model(o.inner, stack))
        return '<%d>' % o.n
    return repr(o)


class Rec(object):
    pass


class Lst(object):
    pass


class Leaf(object):
    """
    A field value: pauses while it is being printed, and may fail.  A careful
    one prints what it holds a second time if that failed.
    """
    inner = None
    careful = False


def fails_at(o, stack, n, careful=False):
    """
    Is the first printing of leaf n inside a careful leaf?  None if it is not
    printed at all.
    """
    if isinstance(o, Rec):
        if o in stack:
            return None
        parts, s = o.values, stack + [o]
    elif isinstance(o, Lst):
        if o in stack:
            return None
        parts, s = o.items, stack + [o]
    elif isinstance(o, Leaf):
        if o.n == n:
            return careful
        careful = careful or o.careful
        parts, s = [] if o.inner is None else [o.inner], stack
    else:
        return None
    for v in parts:
        r = fails_at(v, s, n, careful)
        if r is not None:
            return r
    return None


def run(sim):
    structlike = threads.import_with_locks('epsilon.structlike')
    from twisted.python import context
    c = sim.c
    sched = threads.Scheduler(sim, ('epsilon/structlike.py',), c.pick([3, 8, 1, 1000000, 25]), opcodes=c.chance(0.2))
    failing = {}               # (thread name, print number, leaf number)
    where = {}                 # thread name -> print number
    printing = {}

    class LeafValue(object):
        def __init__(self, leaf):
            self.leaf = leaf

        def __repr__(self):
            t = sched.me()
            name = t.name if t is not None else 'main'
            sim.trace('field', name, self.leaf.n)
            if c.draw(2):
                sim.faults['thread interrupted'] += 1
                sched.pause()
            e = failing.get((name, where.get(name), self.leaf.n))
            if e is not None:
                del failing[(name, where.get(name), self.leaf.n)]
                sim.fault('field raises')
                sim.probe('field raised')
                raise e('field %d' % self.leaf.n)
            if self.leaf.inner is not None:
                sim.probe('prints from inside a field')
                try:
                    text = repr(self.leaf.inner.real)
                except FieldError:
                    if not self.leaf.careful:
                        raise
                    sim.probe('printed again inside another')
                    text = repr(self.leaf.inner.real)
                return '<%d %s>' % (self.leaf.n, text)
            return '<%d>' % self.leaf.n

    Two = structlike.record('a b')
    Three = structlike.record('x y z', z=None)

    Back = structlike.record('zed middle alpha', alpha=None)
    Single = structlike.record('only')

    class Named(structlike.record('first second')):
        pass

    class Dflt(structlike.record(p=1, q=2)):
        pass

    class Valued(structlike.record('key value')):
        # All equal.
        def __eq__(self, other):
            return isinstance(other, Valued)

        def __hash__(self):
            return 7

    class Unhashable(structlike.record('u v')):
        def __eq__(self, other):
            return isinstance(other, Unhashable)
        __hash__ = None

        def __len__(self):
            return 0

    class Derived(Named):
        extra = 'not a field'
    kinds = [(Two, ['a', 'b']), (Three, ['x', 'y', 'z']), (Named, ['first', 'second']), (Dflt, ['p', 'q']),
             (Back, ['zed', 'middle', 'alpha']), (Single, ['only']), (Valued, ['key', 'value']), (Unhashable, ['u', 'v']), (Derived, ['first', 'second'])]
    leaves = []
    recs = []

    def leaf():
        l = Leaf()
        l.n = len(leaves)
        l.real = LeafValue(l)
        leaves.append(l)
        return l
    n_recs = 1 + c.draw(4)
    if n_recs > 3:
        sim.probe('deep')
    for i in range(n_recs):
        cls, names = kinds[c.draw(len(kinds))]
        if cls in (Valued, Unhashable):
            sim.probe('record with its own idea of equality')
        if cls in (Named, Derived):
            sim.probe('subclass')
        r = Rec()
        r.name = cls.__name__
        r.names = names
        r.values = [None] * len(names)
        r.real = cls(*[None] * len(names)) if c.draw(2) else cls(**{n: None for n in names})
        recs.append(r)
    lists = []
    used = {}
    for i, r in enumerate(recs):
        for j, n in enumerate(r.names):
            k = c.draw(6)
            if k < 2:
                v = leaf()
                if c.draw(4) == 0:
                    v.inner = recs[c.draw(len(recs))]
                    v.careful = bool(c.draw(2))
            elif k < 5:
                v = recs[c.draw(len(recs))]
                used[v] = used.get(v, 0) + 1
                if used[v] > 1:
                    sim.probe('shared twice')
                if v is r or recs.index(v) <= i:
                    sim.probe('cyclic')
            else:
                v = Lst()
                v.items = [recs[c.draw(len(recs))] for q in range(1 + c.draw(2))]
                if c.draw(2):
                    v.items.append(leaf())
                v.real = [x.real for x in v.items]
                sim.probe('through a list')
            if c.draw(25) == 0:
                # a field taken away again
                sim.probe('field gone')
                r.values[j] = None
                delattr(r.real, n)
                continue
            r.values[j] = v
            setattr(r.real, n, v.real)
    if c.chance(0.02):
        # one in the other in the other
        sim.probe('long chain')
        inner = recs[-1]
        for i in range(c.int(20, 70)):
            r = Rec()
            r.name, r.names = 'Dflt', ['p', 'q']
            r.values = [i, inner]
            r.real = Dflt(i, inner.real)
            inner = r
        recs.append(r)
    # graphs that blow up are of no use
    try:
        for r in recs:
            if size(r, [], [0]) > 160:
                sim.sample = {'too big': True}
                return
    except RecursionError:
        return
    jobs = {}
    n_threads = c.pick([2, 2, 3, 4, 1])
    if n_threads > 2:
        sim.probe('three threads')

    def job(name):
        plan = jobs[name]
        for i, (r, fails, ctx) in enumerate(plan):
            where[name] = i
            if fails is not None:
                failing[(name, i, fails[0])] = fails[1]
            want = model(r, [])
            rescued = None if fails is None else fails_at(r, [], fails[0])
            will_fail = rescued is not None and not (rescued and fails[1] is FieldError)
            others = [k for k, v in printing.items() if v is r and k != name]
            if others:
                sim.probe('same record in two threads at once')
            printing[name] = r
            try:
                if ctx:
                    sim.probe('inside another context')
                    got = context.call({'colour': name}, repr, r.real)
                else:
                    got = repr(r.real)
            except (FieldError, Nasty) as e:
                if not will_fail:
                    sim.note_violation('exception', 'printing raised %r' % (e,))
                got = None
            except BaseException as e:
                sim.note_violation('exception', 'printing raised %s: %s' % (type(e).__name__, e))
                got = None
            else:
                if will_fail:
                    sim.note_violation('swallowed', 'a failing field was printed as %r' % (got,))
                elif got != want:
                    sim.note_violation('repr', '%s printed %s, not %s' % (name, got, want))
                if i and plan[i - 1][1] is not None:
                    sim.probe('printed again after a failure')
            printing.pop(name, None)
            sim.trace('printed', name, i, got)
    for i in range(n_threads):
        name = 't%d' % i
        plan = []
        for k in range(1 + c.draw(3)):
            fails = None
            if leaves and c.draw(4) == 0:
                fails = (c.draw(len(leaves)), c.pick([FieldError, FieldError, Nasty]))
            plan.append((recs[c.draw(len(recs))], fails, c.draw(4) == 0))
        jobs[name] = plan
        sched.add(name, lambda name=name: job(name))
    if c.draw(3) == 0:
        # what threads are called need not tell them apart
        sim.probe('threads of one name')
        for t in sched.threads:
            t.thread.name = 'worker'
    stuck = sched.run()
    if sched.switches:
        sim.probe('interrupted mid-print')
        sim.nontrivial = True
    sim.expect(not stuck, 'deadlock', 'threads %s never finish', stuck)
    for t in sched.threads:
        if t.error is not None:
            raise t.error
    # and afterwards, in this thread
    for r in recs:
        got, want = repr(r.real), model(r, [])
        sim.expect(got == want, 'repr', 'afterwards printed %s, not %s', got, want)
    sim.sample = {'threads': n_threads, 'records': n_recs, 'switches': sched.switches}


def size(o, stack, count):
    count[0] += 1
    if count[0] > 400:
        return 1000
    if o in stack:
        return 1
    if isinstance(o, Rec):
        return 1 + sum(size(v, stack + [o], count) for v in o.values)
    if isinstance(o, Lst):
        return 1 + sum(size(v, stack + [o], count) for v in o.items)
    if isinstance(o, Leaf) and o.inner is not None:
        return 1 + size(o.inner, stack, count)
    return 1
