"""
C30: a modal object acts by its current mode, through every change of mode.

System: the real epsilon.modal.  Objects of seeded modal classes are called and
change mode - from outside, from inside their own methods, from inside entering
a mode - while entering, leaving and methods fail; real threads, one running at
a time and interrupted at any line or step of modal.py, call methods of an
object while the thread it belongs to changes its mode.
"""
from dst import threads

RUNS = (20000, 700000)
RULE = ('seeded modal classes (2-4 modes, methods in some of them, own mode attribute or the default one, inherited) x histories of calls, transitions and assignments, '
        'nested and failing x 1-3 threads interrupted at any line or step of modal.py; non-trivial: a call raced with a change of mode, a change failed, or one was nested')
REAL = ['epsilon.modal', 'Python threads (one at a time)']
STUB = ['thread scheduling (dst.threads)', 'the implementations in each mode (scripted)', 'locks, if the module made any (dst.threads.SimLock)']
PROBES = ['called', 'missing in this mode', 'present in no mode', 'ordinary method', 'transition', 'transition to the same mode', 'leaving failed', 'entering failed', 'transition from a method',
          'transition from entering', 'mode assigned', 'method kept across a change', 'call raced with a change', 'own mode attribute', 'inherited', 'another initial mode', 'method raised',
          'several objects', 'unknown mode', 'called while leaving', 'called while entering', 'two classes', 'with a mixin', 'special method']
FAULTS = ['leaving a mode fails', 'entering a mode fails', 'method fails', 'thread interrupted']


class Refused(Exception):
    pass


class Stop(BaseException):
    pass


MODES = ['alpha', 'beta', 'gamma', 'delta']
METHODS = ['one', 'two', '_three', '__call__']


def run(sim):
    modal = threads.import_with_locks('epsilon.modal')
    c = sim.c
    sched = threads.Scheduler(sim, ('epsilon/modal.py',), c.pick([2, 4, 1, 8, 1000000]), opcodes=c.chance(0.4))
    state = {'interesting': False, 'calls': 0, 'changes': 0, 'errors': 0}
    objects, recs = [], []
    frames = {}          # thread -> the calls it is in, innermost last

    def me():
        t = sched.me()
        return t.name if t is not None else 'main'

    def breathe():
        if c.draw(3) == 0:
            sim.faults['thread interrupted'] += 1
            sched.pause()

    def error(way):
        state['errors'] += 1
        return c.pick([Refused, Refused, Stop])('%s %d' % (way, state['errors']))

    def could_be(rec, modes):
        """From here on the object may be found in any of these modes."""
        rec['could'] = list(modes)
        for seen in rec['open']:
            seen.extend(modes)

    def implementation(k, mode, name):
        def method(self, n, extra=None):
            sim.trace('run', me(), self.number, k, mode, name)
            mine = frames.get(me())
            if not mine or mine[-1]['object'] is not self or mine[-1]['ran'] is not None:
                sim.note_violation('unasked', '%s of mode %s ran though nobody called it' % (name, mode))
                return
            call = mine[-1]
            call['ran'] = (k, mode, name, n, extra)
            breathe()
            act = call['act']
            if act == 'raise':
                sim.fault('method fails')
                sim.probe('method raised')
                call['raised'] = error(name)
                raise call['raised']
            if act == 'change':
                sim.probe('transition from a method')
                state['interesting'] = True
                change(self, c.pick(recs[self.number]['class']['modes']))
            elif act == 'assign':
                assign(self, c.pick(recs[self.number]['class']['modes']))
            elif act == 'call':
                call_one(self, c.pick(METHODS), 'return')
            breathe()
            return call['ran']
        method.__name__ = name
        return method

    def crossing(k, mode, way):
        def method(self):
            sim.trace(way, me(), self.number, k, mode)
            rec = recs[self.number]
            ch = rec['changes'][-1] if rec['changes'] else None
            if ch is None or me() != rec['owner']:
                sim.note_violation('unasked', 'mode %s was %s though no change of mode was asked for' % (mode, way))
                return
            ch['steps'].append((way, k, mode))
            if way == 'entered':
                could_be(rec, [mode])
            got = getattr(self, rec['class']['attribute'])
            if got != mode:
                sim.note_violation('out of step', 'mode %s was %s while the object was in mode %s' % (mode, way, got))
            breathe()
            if c.draw(4) == 0:
                sim.probe('called while ' + ('leaving' if way == 'left' else 'entering'))
                call_one(self, c.pick(METHODS), 'return')
                breathe()
            if ch['fails'] == way:
                sim.fault('leaving a mode fails' if way == 'left' else 'entering a mode fails')
                sim.probe('leaving failed' if way == 'left' else 'entering failed')
                state['interesting'] = True
                ch['raised'] = error(way)
                raise ch['raised']
            if way == 'left':
                could_be(rec, [mode, ch['to']])
            elif ch['nest']:
                sim.probe('transition from entering')
                state['interesting'] = True
                change(self, c.pick(rec['class']['modes']), ch['depth'] + 1)
        method.__name__ = {'left': '__exit__', 'entered': '__enter__'}[way]
        return method

    class Mixin(object):
        extra = 'extra'

    class Special(modal.mode):
        pass

    def define(k):
        """A seeded modal class."""
        modes = MODES[:c.int(2, 4)]
        attribute = c.pick(['mode', 'mode', 'state', 'phase'])
        has = dict((m, [n for n in METHODS if c.draw(3)]) for m in modes)
        initial = modes[0]

        def common(self, n):
            return ('common', k, n)
        body = {'common': common, 'initialMode': initial}
        if attribute != 'mode':
            sim.probe('own mode attribute')
            body['modeAttribute'] = attribute
        for m in modes:
            d = {'__exit__': crossing(k, m, 'left'), '__enter__': crossing(k, m, 'entered')}
            for n in has[m]:
                d[n] = implementation(k, m, n)
            body[m] = type(m, (c.pick([modal.mode, modal.mode, Special]),), d)
        bases = c.pick([(modal.Modal,), (modal.Modal,), (Mixin, modal.Modal), (modal.Modal, Mixin)])
        if len(bases) > 1:
            sim.probe('with a mixin')
        Class = modal.ModalType('Machine%d' % k, bases, body)
        way = c.draw(4)
        if way == 1:
            sim.probe('inherited')
            Class = modal.ModalType('Sub%d' % k, (Class,), {})
        elif way == 2:
            sim.probe('another initial mode')
            initial = modes[-1]
            Class = modal.ModalType('Sub%d' % k, (Class,), {'initialMode': initial})
        return {'k': k, 'class': Class, 'modes': modes, 'attribute': attribute, 'has': has, 'initial': initial}

    def check(o):
        rec = recs[o.number]
        got = getattr(o, rec['class']['attribute'])
        if [got] != rec['could']:
            sim.note_violation('mode', 'object %d is in mode %r instead of %s' % (o.number, got, '/'.join(rec['could'])))

    def implemented(rec, mode, name):
        return name in rec['class']['has'].get(mode, ())

    def forget(l, x):
        for i in range(len(l)):
            if l[i] is x:
                del l[i]
                return

    def call_one(o, name, act, keep=False):
        rec = recs[o.number]
        state['calls'] += 1
        n = c.draw(100)
        seen = list(rec['could'])
        rec['open'].append(seen)
        try:
            bound = getattr(o, name)
        except AttributeError:
            bound = None
        finally:
            forget(rec['open'], seen)
        seen = sorted(set(seen))
        if len(seen) > 1:
            sim.probe('call raced with a change')
            state['interesting'] = True
        if bound is None:
            sim.trace('missing', me(), o.number, name)
            if all(implemented(rec, m, name) for m in seen):
                sim.note_violation('missing', '%s is said to be missing from mode %s' % (name, '/'.join(seen)))
            sim.probe('missing in this mode' if any(name in v for v in rec['class']['has'].values()) else 'present in no mode')
            return
        allowed = [m for m in seen if implemented(rec, m, name)]
        if not allowed:
            sim.note_violation('surplus', '%s is not implemented in mode %s, yet something was found' % (name, '/'.join(seen)))
            return
        if keep:
            # what was looked up stays what it was
            sim.probe('method kept across a change')
            assign(o, c.pick(rec['class']['modes']))
        call = {'ran': None, 'act': act, 'object': o, 'raised': None}
        frames.setdefault(me(), []).append(call)
        got = failed = extra = None
        try:
            if c.draw(2):
                got = bound(n)
            else:
                extra = c.draw(9)
                got = bound(n, extra=extra)
        except (Refused, Stop) as e:
            failed = e
        finally:
            frames[me()].pop()
        sim.probe('called')
        if name == '__call__':
            sim.probe('special method')
        ran = call['ran']
        if ran is None:
            sim.note_violation('run', '%s ran no implementation' % name)
            return
        if ran[0] != rec['class']['k'] or ran[2] != name or ran[1] not in allowed:
            sim.note_violation('run', '%s of mode %s ran for %s called in mode %s' % (ran[2], ran[1], name, '/'.join(seen)))
        if ran[3:] != (n, extra):
            sim.note_violation('argument', '%s was called with %r and ran with %r' % (name, (n, extra), ran[3:]))
        if failed is not call['raised']:
            sim.note_violation('exception', '%s raised %r instead of %r' % (name, failed, call['raised']))
        elif failed is None and got is not ran:
            sim.note_violation('result', '%s returned %r instead of %r' % (name, got, ran))

    def assign(o, mode):
        rec = recs[o.number]
        sim.probe('mode assigned')
        sim.trace('assign', me(), o.number, mode)
        could_be(rec, rec['could'] + [mode])
        setattr(o, rec['class']['attribute'], mode)
        could_be(rec, [mode])
        check(o)

    def change(o, mode, depth=0):
        """Only its own thread changes the mode of an object."""
        rec = recs[o.number]
        state['changes'] += 1
        k, before = rec['class']['k'], rec['could'][0]
        sim.probe('transition')
        if mode == before:
            sim.probe('transition to the same mode')
        ch = {'steps': [], 'fails': c.pick([None] * 6 + ['left', 'entered']), 'nest': depth < 3 and c.draw(4) == 0, 'to': mode, 'raised': None, 'depth': depth}
        rec['changes'].append(ch)
        sim.trace('change', me(), o.number, before, mode)
        failed = None
        try:
            o.transitionTo(mode)
        except (Refused, Stop) as e:
            failed = e
        except AttributeError as e:
            failed = e
            sim.note_violation('exception', 'changing from %s to %s raised %s' % (before, mode, e))
        rec['changes'].pop()
        want = [('left', k, before)]
        if ch['fails'] != 'left':
            want.append(('entered', k, mode))
        if ch['steps'] != want:
            sim.note_violation('steps', 'changing from %s to %s went %s instead of %s' % (before, mode, ch['steps'], want))
        if failed is not ch['raised']:
            sim.note_violation('exception', 'changing from %s to %s raised %r instead of %r' % (before, mode, failed, ch['raised']))
        check(o)

    def use(o, mine):
        rec = recs[o.number]
        k = c.draw(10)
        if k == 0:
            sim.probe('ordinary method')
            n = c.draw(100)
            got = o.common(n)
            if got != ('common', rec['class']['k'], n):
                sim.note_violation('result', 'an ordinary method returned %r' % (got,))
        elif k <= 3 and mine:
            change(o, c.pick(rec['class']['modes']))
        elif k == 4 and mine:
            if c.draw(4) == 0:
                sim.probe('unknown mode')
                assign(o, 'nowhere')
                call_one(o, c.pick(METHODS), 'return')
            assign(o, c.pick(rec['class']['modes']))
        else:
            acts = ['return', 'return', 'raise', 'call'] + (['change', 'assign'] if mine else [])
            call_one(o, c.pick(METHODS), c.pick(acts), mine and c.draw(6) == 0)
        if mine:
            check(o)

    classes = [define(k) for k in range(c.pick([1, 1, 2]))]
    if len(classes) > 1:
        sim.probe('two classes')
    total = c.pick([2, 1, 3])
    for n in range(c.pick([1, 2, 3])):
        cl = classes[n % len(classes)]
        o = cl['class']()
        o.number = n
        objects.append(o)
        recs.append({'could': [cl['initial']], 'open': [], 'changes': [], 'class': cl, 'owner': 't%d' % (n % total)})
        check(o)
    if len(objects) > 1:
        sim.probe('several objects')

    def job(name, steps):
        for k in range(steps):
            o = objects[c.draw(len(objects))]
            use(o, recs[o.number]['owner'] == name)
            if c.draw(4) == 0:
                sched.pause()
    for t in range(total):
        name, steps = 't%d' % t, c.int(2, 9)
        sched.add(name, lambda name=name, steps=steps: job(name, steps))
    stuck = sched.run()
    sim.expect(not stuck, 'deadlock', 'threads %s never finish', stuck)
    for t in sched.threads:
        if t.error is not None:
            raise t.error
    for o in objects:
        check(o)
    sim.nontrivial = state['interesting']
    sim.sample = {'threads': total, 'objects': len(objects), 'calls': state['calls'], 'changes': state['changes'], 'switches': sched.switches}
