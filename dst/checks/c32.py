"""
C32: a child process finds the packages it was promised, and nothing else is
different for it.

System: the real epsilon.process over a reactor that records (or refuses) what
it is to start, in a process whose packages come and go: directories on sys.path
are made up and searched by the real import system.  What a child would find is
looked up along the PYTHONPATH it was given.
"""
import errno
import importlib.machinery
import os
import sys

RUNS = (40000, 1200000)
RULE = ('seeded directories on sys.path (own library, other places, archives, namespace parts, shadowed copies) that change between spawns x environments '
        'x lists of packages x nested spawns x refused spawns and missing packages; non-trivial: something failed, or packages from several places')
REAL = ['epsilon.process', 'importlib (find_spec, PathFinder, path hooks and their cache)', 'twisted Service, MultiService', 'epsilon.structlike']
STUB = ['reactor.spawnProcess (records, refuses, or calls back)', 'directories of packages (a path hook)', 'sys.prefix, sys.executable, sys.path, os.environ of the run', 'StandardIO (records)']
PROBES = ['own library', 'elsewhere', 'beside the library', 'archive', 'namespace package in parts', 'shadowed copy', 'several packages in one place', 'several places',
          'module of the interpreter', 'single module', 'own PYTHONPATH', 'empty PYTHONPATH', 'current directory asked for', 'same place in PYTHONPATH', 'environment of this process',
          'default environment', 'environment used again', 'package moved', 'package gone', 'package added', 'nested spawn', 'packages from a generator', 'no packages', 'nothing on PYTHONPATH',
          'Python', 'another program', 'tried again', 'stdio service', 'stdio service restarted']
FAULTS = ['spawn refused', 'package missing', 'list of packages failed', 'place on the path gone']
ROOT = '/sim32/'
NAMES = ['simpkg%d' % i for i in range(6)]


class Loader(object):
    def __init__(self, path, package):
        self.path, self.package = path, package

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise AssertionError('nothing has to be imported to find %s' % (module.__name__,))

    def is_package(self, name):
        return self.package

    def get_filename(self, name=None):
        return self.path


class Place(object):
    """The finder of one directory, which may change at any time."""
    tree = {}

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, target=None):
        kind = self.tree.get(self.path, {}).get(name)
        if kind is None:
            return None
        base = '%s/%s' % (self.path, name)
        if kind == 'part':
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        package = kind == 'package'
        path = base + ('/__init__.py' if package else '.py')
        spec = importlib.machinery.ModuleSpec(name, Loader(path, package), origin=path, is_package=package)
        spec.has_location = True
        if package:
            spec.submodule_search_locations = [base]
        return spec


def hook(path):
    if not path.startswith(ROOT):
        raise ImportError()
    return Place(path)


_ready = False


def install():
    global _ready
    if not _ready:
        _ready = True
        sys.path_hooks.insert(0, hook)


def lookup(tree, path, name):
    """The directories name is found in along a path: one, or the parts of a namespace package."""
    parts = []
    for d in path:
        kind = tree.get(d, {}).get(name)
        if kind == 'part':
            if d not in parts:
                parts.append(d)
        elif kind is not None:
            return [d]
    return parts


class Refused(Exception):
    pass


def run(sim):
    install()
    from twisted.application.service import MultiService
    from twisted.internet import stdio as stdio_module
    from twisted.internet.protocol import ProcessProtocol, Protocol
    from epsilon import process
    c = sim.c
    prefix = ROOT + c.pick(['usr', 'home/me/venv', 'usr/local'])
    own = [prefix + '/lib/python312.zip', prefix + '/lib/python3.12', prefix + '/lib/python3.12/site-packages', prefix + '/lib/python3/dist-packages']
    beside = [prefix + '/libexec/app', prefix + '/lib/app', prefix + '/share/py', prefix + 'x/lib/python3.12', prefix + '/lib64/app']
    other = [ROOT + 'home/me/src', ROOT + 'opt/app', ROOT + 'opt/python/lib', ROOT + 'opt/two words', ROOT + 'opt/\xe9t\xe9', ROOT + 'other/lib/python3.12/site-packages']
    archives = [ROOT + 'opt/lib.zip', ROOT + 'opt/b.egg']
    cwd = ROOT + 'cwd'
    tree = {}
    path = []

    def put(name=None):
        d = c.weighted([(5, other), (3, own), (3, beside), (1, archives)])
        d = c.pick(d)
        name = name or c.pick(NAMES)
        tree.setdefault(d, {})[name] = c.weighted([(6, 'package'), (1, 'module'), (1, 'part')])
        if d not in path:
            path.insert(c.draw(len(path) + 1), d)
        return d

    for n in range(c.int(1, 8)):
        put()
    seen = []
    state = {'n': 0, 'depth': 0, 'before': None}
    spawned = []

    class Transport(object):
        pass

    class Child(ProcessProtocol):
        pass

    def spawn_process(processProtocol, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        rec = {'args': (processProtocol, executable, args, path, uid, gid, usePTY), 'env': env, 'copy': None if env is None else dict(env), 'fds': childFDs}
        sim.trace('spawn', repr(executable), repr(rec['copy'] and rec['copy'].get('PYTHONPATH')))
        seen.append(rec)
        if state['refuse']:
            sim.fault('spawn refused')
            raise state['refuse']
        if state['nest']:
            state['nest'] = False
            sim.probe('nested spawn')
            refuse = state['refuse']
            spawn_one()
            state['refuse'] = refuse
        rec['transport'] = Transport()
        return rec['transport']

    envs = []

    def make_env():
        k = c.draw(10)
        if k == 0:
            sim.probe('environment of this process')
            return None
        if k < 3:
            sim.probe('default environment')
            return Ellipsis
        if k < 5 and envs:
            sim.probe('environment used again')
            return c.pick(envs)
        e = {}
        for name in c.subset(['HOME', 'PATH', 'PYTHONHOME', 'LANG', 'PYTHONPATHS', ''], 0.3):
            e[name] = 'v%d' % c.draw(3)
        pythonpath(e)
        envs.append(e)
        return e

    def pythonpath(e):
        k = c.draw(4)
        if k == 1:
            e['PYTHONPATH'] = ':'.join(c.pick(other + beside + ['/elsewhere', 'relative', '.', '/elsewhere/']) for i in range(c.int(1, 3)))
        elif k == 2:
            e['PYTHONPATH'] = c.pick([':/elsewhere', '/a::/b', '/a:', ':'])
            sim.probe('current directory asked for')
        elif k == 3:
            e['PYTHONPATH'] = ''
            sim.probe('empty PYTHONPATH')

    def spawn_one():
        state['n'] += 1
        state['depth'] += 1
        proto = Child()
        names = [c.pick(NAMES) for i in range(c.draw(5))]
        if names:
            there = [n for n in NAMES if lookup(tree, path, n)]
            if there and c.draw(5):
                names = [n if n in there else c.pick(there) for n in names]
        else:
            sim.probe('no packages')
        if c.draw(12) == 0:
            names.insert(c.draw(len(names) + 1), c.pick(['sys', 'itertools']))
            sim.probe('module of the interpreter')
        given = make_env()
        if given is None:
            base = dict(os.environ)
        elif given is Ellipsis:
            base = {}
        else:
            base = dict(given)
        kw = {}
        if given is not Ellipsis:
            kw['env'] = given
        values = {'path': None, 'uid': None, 'gid': None, 'usePTY': 0}
        for k, v in (('path', cwd), ('uid', 1000), ('gid', 0), ('usePTY', True)):
            if c.draw(4) == 0:
                kw[k] = values[k] = v
        args = ()
        if c.draw(3):
            args = kw['args'] = ['prog', '-x', '%d' % state['n']]
        fails = bool(names) and c.draw(25) == 0
        if fails:
            after = c.draw(len(names) + 1)

            def failing():
                for n in names[:after]:
                    yield n
                raise Refused('list')
            kw['packages'] = failing()
        elif names or c.draw(2):
            k = c.draw(4)
            if k == 3:
                sim.probe('packages from a generator')
            kw['packages'] = [names, tuple(names), names[:], (n for n in names)][k]
        state['refuse'] = None
        if c.draw(10) == 0:
            state['refuse'] = c.pick([OSError(errno.EAGAIN, 'no more processes'), OSError(errno.ENOMEM, 'no memory'), ValueError('no'), Refused('no')])
        elif c.draw(8) == 0 and state['depth'] < 3:
            state['nest'] = True
        refuse = state['refuse']
        # what the list comes to
        head, missing = [], None
        for i, n in enumerate(names):
            if fails and i >= after:
                break
            if n in ('sys', 'itertools'):
                continue
            dirs = lookup(tree, path, n)
            if not dirs:
                missing = n
                break
            if len(dirs) > 1:
                sim.probe('namespace package in parts')
            for d in dirs:
                if d in own:
                    sim.probe('own library')
                    continue
                if tree[d][n] == 'module':
                    sim.probe('single module')
                sim.probe('beside the library' if d in beside else 'archive' if d in archives else 'elsewhere')
                if d in head:
                    sim.probe('several packages in one place')
                else:
                    head.append(d)
            if len([d for d in path if n in tree.get(d, {})]) > len(dirs):
                sim.probe('shadowed copy')
        if len(head) > 1:
            sim.probe('several places')
            sim.nontrivial = True
        asked = base.get('PYTHONPATH')
        tail = asked.split(':') if asked else []
        if tail:
            sim.probe('own PYTHONPATH')
        if set(head) & set(tail):
            sim.probe('same place in PYTHONPATH')
        python = c.draw(2)
        sim.probe('Python' if python else 'another program')
        start = len(seen)
        raised = got = None
        sim.trace('ask', ' '.join(names))
        try:
            if python:
                executable = sys.executable
                got = process.spawnPythonProcess(proto, **kw)
            else:
                executable = '/bin/prog'
                got = process.spawnProcess(proto, executable, **kw)
        except Exception as e:
            raised = e
        state['nest'] = False
        state['depth'] -= 1
        mine = [r for r in seen[start:] if r['args'][0] is proto]
        if given is not Ellipsis and given is not None:
            sim.expect(given == base, 'environment', 'the environment of the caller was %r and is %r now', base, given)
        elif given is None:
            sim.expect(dict(os.environ) == base, 'environment', 'the environment of this process was changed')
        if missing is not None:
            sim.faults['package missing'] += 1
            sim.nontrivial = True
            sim.expect(isinstance(raised, (ImportError, Refused) if fails else ImportError), 'missing', '%s cannot be found, but the result was %r', missing, raised or got)
            sim.expect(not mine, 'started', 'a process was started though %s cannot be found', missing)
            return
        if fails:
            sim.fault('list of packages failed')
            sim.nontrivial = True
            sim.expect(isinstance(raised, Refused), 'failure', 'the list of packages failed, but the result was %r', raised or got)
            sim.expect(not mine, 'started', 'a process was started though the list of packages failed')
            return
        sim.expect(len(mine) == 1, 'once', '%d processes were started instead of one (%r)', len(mine), raised)
        rec = mine[0]
        if refuse:
            sim.nontrivial = True
            sim.expect(raised is refuse, 'failure', 'starting the process failed with %r, the result was %r', refuse, raised or got)
        else:
            sim.expect(raised is None, 'failure', 'the process was started, but %r raised', raised)
            sim.expect(got is rec['transport'], 'result', 'the result is %r', got)
        want = (proto, executable, args, values['path'], values['uid'], values['gid'], values['usePTY'])
        sim.expect(rec['args'] == want and rec['fds'] is None, 'arguments', 'the process was started with %r instead of %r', rec['args'][1:], want[1:])
        env = rec['copy']
        sim.expect(env is not None, 'environment', 'the process was given no environment, but ours')
        sim.expect(rec['env'] is not given and rec['env'] == env, 'shared', 'the environment of the process is that of the caller, or has changed since')
        plain = dict((k, v) for k, v in env.items() if k != 'PYTHONPATH')
        sim.expect(plain == dict((k, v) for k, v in base.items() if k != 'PYTHONPATH'), 'environment', 'the environment is %r instead of %r', plain, base)
        have = env.get('PYTHONPATH')
        have = have.split(':') if have else []
        # what the child finds
        search = have + own
        for n in names:
            if n not in ('sys', 'itertools'):
                sim.expect(lookup(tree, search, n), 'not found', '%s is in %r, but the process searches %r', n, lookup(tree, path, n), search)
        if not have:
            sim.probe('nothing on PYTHONPATH')
        sim.expect(have == head + tail, 'path', 'PYTHONPATH is %r; the packages %r are in %r, and the caller had %r', have, names, head, asked)
        spawned.append(rec)

    def churn():
        k = c.draw(5)
        if k < 2:
            put()
            sim.probe('package added')
        elif k == 2:
            held = [(d, n) for d in sorted(tree) for n in sorted(tree[d])]
            if held:
                d, n = c.pick(held)
                kind = tree[d].pop(n)
                if c.draw(2):
                    e = put(n)
                    tree[e][n] = kind
                    sim.probe('package moved')
                else:
                    sim.probe('package gone')
        elif k == 3 and path:
            d = path.pop(c.draw(len(path)))
            sim.fault('place on the path gone')
            if c.draw(2):
                tree.pop(d, None)
        elif path:
            path.append(path.pop(0))
        fix()
        sim.trace('churn', k)

    def fix():
        sys.path[:] = path + saved['path']

    services = []
    connected = []

    def stdio():
        sim.probe('stdio service')
        proto = Protocol()
        parent = MultiService()
        first = c.draw(2)
        if first:
            parent.startService()
        n = len(connected)
        service = process.StandardIOService(proto)
        sim.expect(len(connected) == n, 'stdio', 'standard I/O was taken before the service was started')
        service.setServiceParent(parent)
        if not first:
            sim.expect(len(connected) == n, 'stdio', 'standard I/O was taken before the service was started')
            parent.startService()
        sim.expect([p is proto for p in connected[n:]] == [True], 'stdio', 'standard I/O went to %d protocols', len(connected) - n)
        parent.stopService()
        if c.draw(2):
            sim.probe('stdio service restarted')
            parent.startService()
            sim.expect([p is proto for p in connected[n:]] == [True, True], 'stdio', 'after a restart standard I/O went to %d protocols', len(connected) - n)

    saved = {'path': sys.path[:], 'prefix': sys.prefix, 'executable': sys.executable, 'environ': dict(os.environ), 'stdio': [(m, m.StandardIO) for m in (stdio_module, process) if hasattr(m, 'StandardIO')]}
    Place.tree = tree
    state.update(refuse=None, nest=False)
    sim.reactor.spawnProcess = spawn_process
    try:
        for m, v in saved['stdio']:
            m.StandardIO = lambda proto, *a, **kw: connected.append(proto)
        sys.prefix = prefix
        sys.executable = prefix + '/bin/python3'
        k = c.draw(4)
        if k:
            os.environ.pop('PYTHONPATH', None)
        if k > 1:
            os.environ['PYTHONPATH'] = c.pick(['', ROOT + 'opt/app', '/elsewhere:/b'])
        fix()
        for i in range(c.int(1, 8)):
            n = c.draw(8)
            if n < 5 or not i:
                spawn_one()
                if seen and state['refuse'] and c.draw(2):
                    sim.probe('tried again')
                    spawn_one()
            elif n < 7:
                churn()
            else:
                stdio()
    finally:
        for m, v in saved['stdio']:
            m.StandardIO = v
        sys.path[:] = saved['path']
        sys.prefix = saved['prefix']
        sys.executable = saved['executable']
        for k in set(os.environ) - set(saved['environ']):
            del os.environ[k]
        for k, v in saved['environ'].items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        for d in [d for d in sys.path_importer_cache if d.startswith(ROOT)]:
            del sys.path_importer_cache[d]
    for rec in spawned:
        sim.expect(rec['env'] == rec['copy'], 'shared', 'the environment of a process changed after it was started')
    sim.take_errors()
    sim.sample = {'spawns': len(seen)}
    sim.check()
