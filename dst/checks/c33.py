"""
C33: a hotfix is installed exactly where it is needed, and at most once.

System: the real epsilon.hotfix over a library whose defects the seed decides:
before each requirement every one of them may be there, or cured, and installing
may fail.  The installers are stand-ins that cure the defect.
"""
import sys
import types

RUNS = (30000, 900000)
RULE = ('seeded histories of requirements in any order x sets of defects of the library, some of which come and go x failing installers x requirements made by installers; '
        'non-trivial: something was installed or failed')
REAL = ['epsilon.hotfix', 'epsilon.hotfixes.internet_task_clock (its test for the defect)', 'the parts of twisted examined']
STUB = ['defects of twisted (parts taken away or exchanged)', 'installers (cure the defect, or fail)']
PROBES = ['installed', 'not needed', 'again', 'again after a failure', 'unknown', 'feature gone', 'defect came back', 'cured by others', 'old version', 'new version', 'required by an installer',
          'name of another package']
FAULTS = ['installer failed']


class Broken(Exception):
    pass


def world():
    """name -> (installer's module, make(defective) which returns a function to undo it)."""
    from twisted.internet import base, defer, task
    from twisted.protocols import policies
    from twisted.python import filepath
    from twisted.test import proto_helpers
    from twisted.trial.unittest import TestCase
    from twisted import plugin
    import twisted

    Call = base.DelayedCall

    def put(where, name, value):
        had = where.__dict__.get(name, Ellipsis)
        if value is Ellipsis:
            if had is not Ellipsis:
                delattr(where, name)
        else:
            setattr(where, name, value)

        def undo():
            if had is not Ellipsis:
                setattr(where, name, had)
            elif name in where.__dict__:
                delattr(where, name)
        return undo

    def both(*undos):
        def undo():
            for u in reversed(undos):
                u()
        return undo

    def path(bad, c):
        if bad:
            return both(put(filepath.FilePath, '__eq__', object.__eq__), put(filepath.FilePath, '__ne__', object.__ne__))
        return both()

    def timeout(bad, c):
        if bad:
            return put(policies.TimeoutMixin, 'callLater', Ellipsis)
        return both()

    def delayed(bad, c):
        class Old(Call):
            def __init__(self, time, func, args, kw, cancel, reset, *more):
                Call.__init__(self, time, func, args, kw, cancel, reset, *more)

        class New(Call):
            def __init__(self, time, func, args, kw, cancel, reset, seconds=None):
                Call.__init__(self, time, func, args, kw, cancel, reset, seconds)
        if bad:
            return put(base, 'DelayedCall', Old)
        return put(base, 'DelayedCall', New) if c.draw(2) else both()

    def transport(bad, c):
        def write(self, data):
            self.io.write(data if isinstance(data, bytes) else data.encode('ascii'))
        if bad:
            return put(proto_helpers.StringTransport, 'write', write)
        return both()

    def clock(bad, c):
        def callLater(self, when, what, *a, **kw):
            self.calls.append(base.DelayedCall(self.seconds() + when, what, a, kw, self.calls.remove, lambda c: None, self.seconds))
            self.calls.sort(key=lambda x: x.getTime())
            return self.calls[-1]
        if bad:
            return put(task.Clock, 'callLater', callLater)
        return both()

    def warns(bad, c):
        class Assertion(object):
            pass
        classes = [k for k in TestCase.__mro__ if k is not object]
        if bad:
            return both(*[put(k, n, Ellipsis) for k in classes for n in ('assertWarns', 'failUnlessWarns')])
        return both()

    def paths(bad, c):
        if bad:
            return put(plugin, 'pluginPackagePaths', Ellipsis)
        return both()

    def loopback(bad, c):
        v = c.pick([(8, 1), (2, 5), (8, 0), (0, 9), (1, 10)] if bad else [(8, 2), (8, 10), (9, 0), (13, 1), (26, 10), (10, 0)])
        return put(twisted, 'version', types.SimpleNamespace(major=v[0], minor=v[1], micro=0))

    def generator(bad, c):
        return both(put(defer, 'deferredGenerator', Ellipsis), put(defer, 'waitForDeferred', Ellipsis))

    return {
        'filepath_copyTo': ('filepath_copyTo', path),
        'timeoutmixin_calllater': ('timeoutmixin_calllater', timeout),
        'delayedcall_seconds': ('delayedcall_seconds', delayed),
        'proto_helpers_stringtransport': ('proto_helpers_stringtransport', transport),
        'internet_task_Clock': ('internet_task_clock', clock),
        'trial_assertwarns': ('trial_assertwarns', warns),
        'plugin_package_paths': ('plugin_package_paths', paths),
        'loopbackasync_reentrancy': ('loopbackasync_reentrancy', loopback),
        'deferredgenerator_tfailure': ('deferredgenerator_tfailure', generator),
    }


_world = None


def run(sim):
    global _world
    import epsilon.hotfixes
    from epsilon.hotfixes import internet_task_clock
    if _world is None:
        _world = world()
    c = sim.c
    names = sorted(_world)
    bad = dict((n, n != 'deferredgenerator_tfailure' and bool(c.draw(2))) for n in names)
    settled = set()
    failed = set()
    undo = {}
    log = []
    st = {'fail': None, 'nested': None, 'depth': 0}

    def set_up(n):
        undo[n] = _world[n][1](bad[n], c)

    def change(n, value):
        undo.pop(n)()
        bad[n] = value
        set_up(n)

    def installer(n):
        def install():
            log.append(n)
            sim.trace('install', n)
            if st['fail'] is not None:
                e, st['fail'] = st['fail'], None
                sim.fault('installer failed')
                raise e
            other, st['nested'] = st['nested'], None
            if other is not None and other != n:
                sim.probe('required by an installer')
                require(other)
            if bad[n]:
                change(n, False)
        return install

    def require(n, package='twisted'):
        st['depth'] += 1
        known = n in _world and package == 'twisted'
        needed = known and n not in settled and bad[n]
        fail = None
        if st['depth'] == 1:
            if c.draw(5) == 0:
                fail = st['fail'] = c.pick([Broken('no'), ImportError('no'), OSError(5, 'no'), AttributeError('no')])
            elif c.draw(5) == 0:
                st['nested'] = c.pick(names)
        if known and n in settled:
            sim.probe('again')
            if bad[n]:
                sim.probe('defect came back')
        if known and n in failed:
            sim.probe('again after a failure')
        if n == 'loopbackasync_reentrancy':
            sim.probe('old version' if bad[n] else 'new version')
        if n == 'deferredgenerator_tfailure':
            sim.probe('feature gone')
        before = len(log)
        raised = None
        sim.trace('require', package, n)
        try:
            hotfix.require(package, n)
        except Exception as e:
            raised = e
        mine = [x for x in log[before:] if x == n]
        st['depth'] -= 1
        if not known:
            sim.probe('unknown' if package == 'twisted' else 'name of another package')
            sim.expect(isinstance(raised, hotfix.NoSuchHotfix), 'unknown', 'there is no hotfix %s of %s, but the result is %r', n, package, raised)
            sim.expect(len(log) == before, 'unknown', '%s was installed', log[before:])
        elif not needed:
            sim.probe('not needed')
            sim.expect(raised is None, 'failure', '%s is not needed, but %r raised', n, raised)
            sim.expect(len(log) == before, 'unneeded', '%s was installed for %s, which was %s', log[before:], n, 'installed before' if n in settled else 'not needed')
            settled.add(n)
        else:
            sim.nontrivial = True
            sim.expect(len(mine) == 1, 'installed', '%s is needed and was installed %d times (%r)', n, len(mine), raised)
            if fail is not None:
                sim.expect(raised is fail, 'failure', 'installing %s failed with %r, the result was %r', n, fail, raised)
                failed.add(n)
            else:
                sim.expect(raised is None, 'failure', '%s was installed, but %r raised', n, raised)
                sim.probe('installed')
                settled.add(n)
        st['fail'] = st['nested'] = None

    modules = ['epsilon.hotfixes.' + m for m, _ in _world.values()]
    saved = dict((m, sys.modules.get(m)) for m in modules)
    attributes = dict((m, epsilon.hotfixes.__dict__.get(m, Ellipsis)) for m, _ in _world.values())
    real_install = internet_task_clock.install
    old = sys.modules.pop('epsilon.hotfix', None)
    theirs = epsilon.__dict__.get('hotfix', Ellipsis)
    try:
        for n in names:
            m = _world[n][0]
            if m == 'internet_task_clock':
                internet_task_clock.install = installer(n)
                continue
            stub = types.ModuleType('epsilon.hotfixes.' + m)
            stub.install = installer(n)
            sys.modules['epsilon.hotfixes.' + m] = stub
            setattr(epsilon.hotfixes, m, stub)
        from epsilon import hotfix
        for n in names:
            set_up(n)
        for i in range(c.int(1, 12)):
            k = c.draw(10)
            if k < 7:
                require(c.pick(names))
            elif k == 7:
                require(c.pick(['nothing', '', 'filepath', 'copyTo', 'INTERNET_TASK_CLOCK', 'internet_task_clock']))
            elif k == 8:
                require(c.pick(names), c.pick(['epsilon', '', 'Twisted', 'twisted.python']))
            else:
                n = c.pick([x for x in names if x != 'deferredgenerator_tfailure'])
                if bad[n]:
                    sim.probe('cured by others')
                change(n, not bad[n])
    finally:
        for n in sorted(undo):
            undo.pop(n)()
        internet_task_clock.install = real_install
        for m, v in saved.items():
            if v is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v
        for m, v in attributes.items():
            if v is Ellipsis:
                epsilon.hotfixes.__dict__.pop(m, None)
            else:
                setattr(epsilon.hotfixes, m, v)
        sys.modules.pop('epsilon.hotfix', None)
        if old is not None:
            sys.modules['epsilon.hotfix'] = old
            epsilon.hotfix = old
        elif theirs is Ellipsis:
            epsilon.__dict__.pop('hotfix', None)
    sim.take_errors()
    sim.sample = {'installed': len(log)}
    sim.check()
