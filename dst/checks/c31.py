"""
C31: packaging describes the whole source tree, and a broken plugin package
keeps no other from being registered.

System: the real epsilon.setuphelper in a simulated source tree, whose listings
come in any order.  setup() and the plugin system record what they are given;
plugin packages are importable modules that are missing or fail as the seed
says.
"""
import errno
import importlib.machinery
import io
import os
import sys
import types

from dst import proclab

RUNS = (30000, 900000)
RULE = ('seeded source trees (nested and hidden directories, packages, plugin directories, data, links) listed in any order x setup commands x failures of setup() '
        'x plugin packages that are missing or fail while they are imported; non-trivial: something failed, or there were several plugin packages')
REAL = ['epsilon.setuphelper', 'os.walk', 'importing (twisted.python.reflect.namedAny, importlib)']
STUB = ['distutils setup() (records its arguments, may fail)', 'twisted.plugin.getPlugins (records which package was listed)', 'source tree (dst.proclab.Tree)',
        'plugin packages (made-up modules)', 'stdout and stderr (captured)']
PROBES = ['installed', 'not installed', 'setup failed', 'nothing to package', 'nested package', 'package in an ordinary directory', 'hidden directory', 'plugin directory',
          'plugins in a package', 'nested plugin package', 'data file', 'data in an ordinary directory', 'compiled file', 'dropin.cache', 'link to a directory',
          'no plugins module', 'plugin package missing', 'plugin package fails', 'plugin package fails without a message', 'failure before others', 'several plugin packages',
          'packaged twice', 'several commands', 'no plugins at all', 'a great many plugin packages']
FAULTS = ['import failed', 'setup failed', 'module missing']
BASE = 'simdist'
_listed = []              # the run's list of what getPlugins was asked for


class Broken(Exception):
    def __str__(self):
        raise ZeroDivisionError('no')


class Finder(object):
    """The installed packages of the run."""
    modules = {}          # name -> None or an exception

    def find_spec(self, name, path=None, target=None):
        if name in self.modules:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        self.sim.trace('import', module.__name__)
        e = self.modules[module.__name__]
        if e is not None:
            self.sim.fault('import failed')
            # by its own code, as far as tracebacks tell
            module._e = e
            exec('raise _e', module.__dict__)

    def get_code(self, name):
        return None


finder = Finder()
_ready = False


def install():
    global _ready
    if _ready:
        return
    _ready = True
    try:
        import distutils.core
    except ImportError:
        package, core = types.ModuleType('distutils'), types.ModuleType('distutils.core')
        package.__path__, package.core = [], core
        sys.modules['distutils'], sys.modules['distutils.core'] = package, core
    import distutils.core
    distutils.core.setup = lambda **kw: finder.setup(**kw)
    from twisted import plugin
    theirs = plugin.getPlugins

    def getPlugins(interface, package=None):
        if not getattr(package, '__name__', '').startswith(BASE):
            return theirs(interface, package)
        return listing(package)

    def listing(package):
        # as the real one: nothing happens until somebody asks for the first
        finder.listed(package)
        yield 'a plugin'
        yield 'another'
    plugin.getPlugins = getPlugins
    sys.meta_path.insert(0, finder)


def model(root):
    """(packages, plugin packages, data of each top-level package) of a tree."""
    packages, plugin, data = [], [], {}

    def is_dir(n):
        return isinstance(n, dict) or isinstance(n, str) and n == proclab.CWD + '/aim'

    def walk(path, d, top):
        files = [k for k, v in d.items() if not is_dir(v)]
        dirs = [k for k, v in d.items() if is_dir(v) and not k.startswith('.')]
        if path:
            if '__init__.py' in files:
                packages.append(path)
            elif 'plugins' in dirs:
                packages.append(path)
                plugin.append(path)
            if len(path.split('.')) == 1 and path in packages:
                top = path
                data[top] = []
            if top:
                rel = path.split('.')[1:]
                for f in files:
                    source = f.endswith(('.py', '.pyc', '.pyo'))
                    if f != 'dropin.cache' and not (source and '__init__.py' in files):
                        data[top].append('/'.join(rel + [f]))
        for k in dirs:
            if isinstance(d[k], dict):
                walk(path + '.' + k if path else k, d[k], top)
    walk('', root, None)
    return packages, plugin, data


class Dist(object):
    def __init__(self, commands, where):
        self.commands = commands
        self.command_obj = {}
        for x in commands:
            o = types.SimpleNamespace()
            if x == 'install':
                o.install_lib = where
            self.command_obj[x] = o


def run(sim):
    install()
    from epsilon import setuphelper
    c = sim.c
    m = proclab.Machine(sim)
    state = {'tops': 0}

    def shuffled(d):
        k = sorted(d)
        c.shuffle(k)
        return dict((x, d[x]) for x in k)

    def make(depth, packaged):
        d = {}
        k = c.draw(4)
        inside = packaged
        if depth and k < 2:
            d['__init__.py'] = 10
            inside = True
            if depth > 1:
                sim.probe('nested package' if packaged else 'package in an ordinary directory')
        if depth and c.draw(2 if depth == 1 else 3) == 0:
            sim.probe('plugins in a package' if '__init__.py' in d else 'plugin directory')
            if depth > 1 and '__init__.py' not in d:
                sim.probe('nested plugin package')
            d['plugins'] = c.pick([{}, {'one.py': 5}, {'__init__.py': 5, 'two.py': 1}, {'dropin.cache': 3, 'one.pyc': 3}])
            inside = True
        for f in c.subset(['code.py', 'code.pyc', 'old.pyo', 'README', 'style.css', '.hidden', 'dropin.cache', 'x.py~', 'NAME.PY', 'py'], 0.25):
            d[f] = c.draw(100)
            if depth:
                if f == 'dropin.cache':
                    sim.probe('dropin.cache')
                elif f[-4:] in ('.pyc', '.pyo'):
                    sim.probe('compiled file')
                elif f[-3:] != '.py' and inside:
                    sim.probe('data file' if '__init__.py' in d else 'data in an ordinary directory')
        if c.draw(12) == 0 and depth:
            sim.probe('link to a directory')
            d[c.pick(['plugins', 'linked'])] = proclab.CWD + '/aim'
        for i in range(c.pick([0, 1, 1, 2]) if depth else c.pick([1, 2, 3, 4, 0]) if c.draw(40) else c.int(9, 40)):
            if depth >= 3:
                break
            if c.draw(8) == 0:
                sim.probe('hidden directory')
                name = c.pick(['.svn', '.hidden'])
            elif depth:
                name = c.pick(['sub', 'data', 'test', 'build'])
            else:
                name = BASE + str(len([x for x in d if x.startswith(BASE)]))
            d[name] = make(depth + 1, inside)
        return shuffled(d)

    out = io.StringIO()
    old = sys.stdout, sys.stderr, sys.path[:], set(sys.modules)
    old_setup = setuphelper.setup
    n_runs = c.pick([1, 1, 1, 2])
    if n_runs > 1:
        sim.probe('packaged twice')
    st = {}

    def setup(**kw):
        sim.trace('setup')
        sim.expect('kw' not in st, 'again', 'setup() was called twice')
        st['kw'] = kw
        sim.expect(not st['listed'], 'order', 'plugins were registered before anything was set up')
        if st['fails'] is not None:
            sim.fault('setup failed')
            sim.probe('setup failed')
            raise st['fails']
        st['dist'] = Dist(st['commands'], st['where'])
        return st['dist']

    def listed(package):
        sim.trace('listed', package.__name__)
        sim.expect('dist' in st, 'order', 'plugins of %s were registered though nothing was set up', package.__name__)
        where = os.path.abspath(st['where'])
        sim.expect(sys.path[:1] == [where], 'path', 'plugins were looked for with %r first on the path, not %r', sys.path[:1], where)
        st['listed'].append(package.__name__)

    finder.sim, finder.setup, finder.listed = sim, setup, listed
    try:
        sys.stdout = sys.stderr = out
        setuphelper.setup = setup
        for i in range(n_runs):
            root = make(0, False)
            if c.draw(3) == 0:
                root['setup.py'] = 30
            root['aim'] = {'other.txt': 1}
            root = shuffled(root)
            m.tree.root['work'] = root
            packages, plugin, data = model(root)
            sim.trace('tree', ' '.join(packages))
            st = {'listed': [], 'fails': None, 'commands': c.pick([['install'], ['install'], ['build', 'install'], ['sdist'], [], ['build']]),
                  'where': c.pick(['build/lib', '/sim/site', 'lib'])}
            if len(st['commands']) > 1:
                sim.probe('several commands')
            if c.draw(8) == 0:
                st['fails'] = c.pick([SystemExit('error: no'), OSError(errno.ENOSPC, 'disk full'), ValueError('no')])
            finder.modules = {}
            works, shown = [], []
            bad = False
            if len(plugin) > 8:
                sim.probe('a great many plugin packages')
            for p in sorted(plugin):
                parts = p.split('.')
                for j in range(len(parts)):
                    finder.modules.setdefault('.'.join(parts[:j + 1]), None)
            for p in sorted(plugin):
                k = c.draw(5)
                q = p + '.plugins'
                if k < 2:
                    finder.modules[q] = None
                    works.append(q)
                    if bad:
                        sim.probe('failure before others')
                elif k == 2 and c.draw(2):
                    sim.probe('no plugins module')
                    sim.faults['module missing'] += 1
                    bad = True
                else:
                    text = 'oh no %d' % len(shown)
                    e = c.pick([ImportError(text), RuntimeError(text), ValueError(text), ValueError(), AttributeError(text), SyntaxError(text), KeyError(text),
                                Broken(), ValueError('Empty module name'), ValueError(7, text), IndexError(), OSError(errno.EIO, text), TypeError()])
                    sim.probe('plugin package fails' if e.args else 'plugin package fails without a message')
                    if not isinstance(e, ImportError) and text in [str(x) for x in e.args]:
                        shown.append((q, text))
                    finder.modules[q] = e
                    bad = True
            for p in packages:
                # a package of the usual kind may have plugins of its own; they are not for the plugin system
                if p not in plugin and 'plugins' not in p.split('.') and c.draw(3) == 0:
                    parts = (p + '.plugins').split('.')
                    for j in range(len(parts)):
                        finder.modules.setdefault('.'.join(parts[:j + 1]), None)
            if plugin and c.draw(6) == 0:
                # not even installed
                p = c.pick(sorted(plugin))
                sim.probe('plugin package missing')
                sim.faults['module missing'] += 1
                for q in [x for x in finder.modules if x == p or x.startswith(p + '.')]:
                    del finder.modules[q]
                works = [q for q in works if q in finder.modules]
                shown = [x for x in shown if x[0] in finder.modules]
            given = {'name': 'thing', 'version': '1.%d' % i}
            raised = None
            got = None
            out.truncate(0)
            out.seek(0)
            try:
                got = setuphelper.autosetup(**given)
            except (Exception, SystemExit) as e:
                raised = e
            sim.check()
            text = out.getvalue()
            sim.expect('kw' in st, 'setup', 'setup() was not called, but %r raised', raised)
            kw = dict(st['kw'])
            gp, gd = kw.pop('packages', None), kw.pop('package_data', None)
            sim.expect(kw == given, 'arguments', '%r were passed on as %r', given, kw)
            sim.expect(sorted(gp) == sorted(packages), 'packages', 'the packages of %r are %r, not %r', root, sorted(packages), sorted(gp))
            have = dict((k, sorted(v)) for k, v in gd.items() if v)
            want = dict((k, sorted(v)) for k, v in data.items() if v)
            sim.expect(have == want, 'data', 'the data of %r are %r, not %r', root, want, have)
            if not packages:
                sim.probe('nothing to package')
            if st['fails'] is not None:
                sim.expect(raised is st['fails'], 'failure', 'setup() failed with %r, autosetup() with %r', st['fails'], raised)
                sim.expect(not st['listed'], 'order', 'plugins were registered though setup() failed')
                sim.nontrivial = True
            else:
                sim.expect(raised is None, 'stopped', 'autosetup() raised %r', raised)
                sim.expect(got is st['dist'], 'result', 'autosetup() returned %r', got)
                if 'install' in st['commands']:
                    sim.probe('installed' if plugin else 'no plugins at all')
                    sim.expect(sorted(st['listed']) == sorted(works), 'registered', 'the plugins of %s were registered, those of %s should be', sorted(st['listed']), sorted(works))
                    for q, t in shown:
                        sim.expect(t in text, 'hidden', 'nobody was told that %s failed', q)
                    if len(plugin) > 1:
                        sim.probe('several plugin packages')
                        sim.nontrivial = True
                    if bad:
                        sim.nontrivial = True
                else:
                    sim.probe('not installed')
                    sim.expect(not st['listed'], 'registered', 'plugins of %s were registered though nothing was installed', st['listed'])
            sys.path[:] = old[2]
            for x in set(sys.modules) - old[3]:
                if x.startswith(BASE):
                    del sys.modules[x]
    finally:
        sys.stdout, sys.stderr = old[:2]
        sys.path[:] = old[2]
        setuphelper.setup = old_setup
        finder.modules = {}
        for x in set(sys.modules) - old[3]:
            if x.startswith(BASE):
                del sys.modules[x]
    errs = sim.take_errors()
    sim.sample = {'runs': n_runs}
    sim.check()
