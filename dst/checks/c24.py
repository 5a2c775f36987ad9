"""
C24: a benchmark script runs in a directory of its own, which is gone afterwards.

System: the real main() of epsilon.scripts.benchmark, and with it bench(),
makeBenchmarkRunner, BenchmarkProcess and the results file, in a simulated
working directory in which the benchmarked script, its parent, other
benchmarks and other programs create and remove files.
"""
import copy
import errno
import io
import os
import sys

from dst import core, proclab
from dst.checks.c20 import parse_boxes

RUNS = (10000, 250000)
RULE = ('seeded histories of 1-3 whole runs of main() in one working directory x what the script leaves behind (files, directories, links to what is not its '
        'own) x child outcomes x failures to make the directory, to measure, to start the child, to store, to remove x interrupts; non-trivial: a fault, an '
        'interrupt, an abnormal child or something left behind')
REAL = ['epsilon.scripts.benchmark main, bench, BenchmarkProcess, formatResults, reportResults', 'twisted FilePath', 'twisted ReactorBase', 'Python os.makedirs']
STUB = ['directory tree and results disk (dst.proclab)', 'child process, pipes, signals, /proc (dst.proclab)', 'time, entropy (dst.core)', 'stdout (captured)',
        'log.startLogging (no-op)']
PROBES = ['normal', 'exit code', 'killed', 'timed out', 'interrupted', 'could not start', 'interrupted before the start', 'not measurable at start', 'not measurable at exit', 'not storable',
          'directory not made', 'directory was there', 'removal failed', 'files left', 'deep tree left', 'link to a foreign directory', 'link to a foreign file',
          'dangling link', 'link to its parent', 'own directory removed', 'own directory replaced by a link', 'foreign file while running', 'relative script',
          'absolute script', 'script in a directory', 'arguments', 'several runs', 'other benchmark directory', 'child writes during removal']
FAULTS = ['mkdir failed', 'mkdir lost a race', 'spawn failed', 'statistics unavailable', 'open error', 'write error', 'remove failed', 'child killed', 'interrupt',
          'child writes during removal']


class Killed(Exception):
    pass


def run(sim):
    from twisted.python import log
    from epsilon.scripts import benchmark
    c = sim.c
    m = proclab.Machine(sim)
    tree = m.tree
    work = tree.root['work'] = {'.stat': {'precious': 7}, 'bench.py': 300, 'other': {'data': 11, 'deep': {'x': 1, 'l': 'data'}}, 'dir': {'b.py': 4}}
    tree.root['elsewhere'] = {'b.py': 9, 'data': {'y': 2}}
    if c.draw(3) == 0:
        sim.probe('other benchmark directory')
        work['abcdefghijklmnop.stat'] = {'theirs': 44}
    disk = m.results = proclab.ResultsDisk(sim, b'earlier')
    own = []                           # the directories of our children

    def foreign():
        """Another program adds, changes or removes a file of its own."""
        sim.probe('foreign file while running')
        n = 'f%d' % c.draw(4)
        for t in (work, should):
            if n in t:
                del t[n]
            else:
                t[n] = 1
        if c.draw(3) == 0:
            for t in (work, should):
                t['other']['data'] += 1

    def inside():
        """The directory of the child, if it is there."""
        d = st.get('dir')
        if d is None:
            return None
        try:
            n = tree.node(d)
        except OSError:
            return None
        return n if isinstance(n, dict) else None

    def leave():
        d = inside()
        if d is None:
            return
        k = c.draw(9)
        sim.nontrivial = True
        if k < 2:
            sim.probe('files left')
            for j in range(1 + c.draw(4)):
                d['n%d' % len(d)] = c.draw(3000)
        elif k == 2:
            sim.probe('deep tree left')
            for j in range(1 + c.draw(5)):
                d['d'] = d.get('d') if isinstance(d.get('d'), dict) else {}
                d = d['d']
                d['.hidden'] = 3
        elif k == 3:
            sim.probe('link to a foreign directory')
            d['dirlink'] = proclab.CWD + '/other'
        elif k == 4:
            sim.probe('link to a foreign file')
            d['filelink'] = proclab.CWD + '/other/data'
        elif k == 5:
            sim.probe('dangling link')
            d['dangling'] = '/sim/work/nothing'
        elif k == 6:
            sim.probe('link to its parent')
            d['up'] = proclab.CWD
            st['cycle'] = True         # nothing is claimed about the size of such a directory
        elif k == 7 and c.draw(2):
            sim.probe('own directory removed')
            up, name = tree.node(st['dir'].rsplit('/', 1)[0]), st['dir'].rsplit('/', 1)[1]
            del up[name]
            st['vanished'] = True
        elif k == 8 and c.draw(2):
            sim.probe('own directory replaced by a link')
            up, name = tree.node(st['dir'].rsplit('/', 1)[0]), st['dir'].rsplit('/', 1)[1]
            up[name] = proclab.CWD + '/other'
            st['vanished'] = True

    def changing(what, path):
        # main() makes the directory, removes it, and touches nothing else
        if st['phase'] == 'made' and what in ('rmdir', 'unlink') and st.get('dir') and (path + '/').startswith(st['dir'] + '/'):
            if st['over']():
                if st['rm_fault'] == 0 and st.get('removals', 0) >= st['rm_at']:
                    sim.fault('remove failed')
                    sim.probe('removal failed')
                    st['rm_failed'] = True
                    sim.nontrivial = True
                    raise OSError(st['rm_errno'], os.strerror(st['rm_errno']), path)
                if st['rm_fault'] == 1 and st.get('removals', 0) == st['rm_at'] and st['p'] is not None and not st['p'].dead and inside() is not None:
                    sim.fault('child writes during removal')
                    sim.probe('child writes during removal')
                    inside()['late'] = 1
                    st['late'] = True
            st['removals'] = st.get('removals', 0) + 1
        if what == 'mkdir' and st['phase'] == 'making':
            if st['mk_fault'] == 0:
                sim.fault('mkdir failed')
                sim.probe('directory not made')
                st['mk_failed'] = True
                sim.nontrivial = True
                raise OSError(st['mk_errno'], os.strerror(st['mk_errno']), path)
            if st['mk_fault'] == 1 and not st.get('raced'):
                # somebody else makes a directory of that very name just now
                sim.fault('mkdir lost a race')
                sim.probe('directory was there')
                st['raced'] = path
                sim.nontrivial = True
                up, name = path.rsplit('/', 1)
                parts = up.split('/')[2:]
                for t in (tree.root, {'work': should}):
                    for x in parts:
                        t = t.get(x, {})
                    t[name] = {'somebody': 5}
    tree.break_change = changing

    def looking(what, path):
        # somebody else takes the name when main() looks whether it is free
        up, _, name = path.rpartition('/')
        if what != 'stat' or st['phase'] != 'making' or st.get('raced') or up != proclab.CWD or name in work:
            return
        sim.fault('mkdir lost a race')
        sim.probe('directory was there')
        st['raced'] = path
        sim.nontrivial = True
        for t in (work, should):
            t[name] = {'somebody': 5}

    class H(proclab.Hooks):
        def ending(self, p):
            if st['end_fault']:
                sim.fault('statistics unavailable')
                sim.probe('not measurable at exit')
                sim.nontrivial = True

                def broken(what, path):
                    raise OSError(errno.EIO, 'bad disk', path)
                m.break_look = broken

        def ended(self, p):
            m.break_look = None
    hooks = H()
    made = []

    def setup(p):
        st['p'] = p
        p.reap_slow = False
        p.death_delay = 0.0
        t = [0.0]

        def at(dt, fn, name):
            t[0] += dt
            sim.after(t[0], lambda: None if st['phase'] == 'done' else fn(), name)
        for j in range(c.draw(4)):
            at(c.draw(20) / 10.0, leave, 'leave')
        if c.draw(3) == 0:
            at(0.1, foreign, 'foreign')
        st['measured'] = c.draw(6) > 0
        if st['measured']:
            at(0.5, lambda: p.child_write(3, b'\0', 0.0), 'start')
            for j in range(c.draw(3)):
                at(c.draw(20) / 10.0, leave, 'leave')
            at(0.5, lambda: p.child_write(3, b'\1', 0.0), 'stop')
        if c.draw(4) == 0:
            at(0.1, leave, 'leave')
        if c.draw(4) == 0:
            at(0.1, foreign, 'foreign')
        how = c.pick([0, 0, 0, 1, 2, 3])
        st['how'] = how
        if how == 0:
            at(1.0, lambda: p.child_exit(0), 'exit')
        elif how == 1:
            at(1.0, lambda: p.child_exit(c.pick([1, 7])), 'fail')
        elif how == 2:
            sim.fault('child killed')
            at(1.0, lambda: p.child_exit(None, 11), 'die')
        if c.draw(5) == 0:
            st['interrupt'] = True
            sim.after(c.draw(50) / 10.0 if c.draw(3) else c.draw(9000) / 10.0, interrupt, 'interrupt')

    def interrupt():
        r = sim.reactor
        if st['phase'] != 'done' and r is st['reactor'] and r.running and not r._stopped:
            sim.fault('interrupt')
            sim.probe('interrupted')
            sim.nontrivial = True
            st['interrupted'] = True
            r.stop()

    def spawn(proto, executable, args=(), env=None, path=None, **kw):
        # what the child would see
        if isinstance(path, bytes):
            path = path.decode()
        where = os.path.normpath(path if path.startswith('/') else proclab.CWD + '/' + path)
        sim.expect(where.startswith('/sim/') and where != proclab.CWD, 'where', 'the script runs in %s', where)
        try:
            d = tree.node(where)
        except OSError:
            d = None
        sim.expect(d == {}, 'where', 'the script starts in a directory that is not an empty new one: %r', d)
        known = should
        for x in where.split('/')[3:] if where.startswith(proclab.CWD + '/') else ():
            known = known.get(x) if isinstance(known, dict) else None
        sim.expect(known is None or not where.startswith(proclab.CWD), 'where', 'the script runs in a directory that was there before')
        sim.expect(where not in own, 'where', 'the script runs in the directory of an earlier one')
        own.append(where)
        st['dir'] = where
        args = [x.decode() if isinstance(x, bytes) else x for x in args]
        exe = executable.decode() if isinstance(executable, bytes) else executable
        sim.expect(exe == sys.executable and args[:1] == [sys.executable], 'argv', 'not the same interpreter: %r %r', exe, args)
        sim.expect(args[1:2] == ['-Wignore'], 'argv', 'started as %r', args)
        sim.expect(len(args) > 2, 'argv', 'no script: %r', args)
        script = os.path.normpath(os.path.join(where, args[2]))
        sim.expect(script == os.path.normpath(os.path.join(proclab.CWD, st['argv'][1])), 'argv',
                   'seen from its directory the script named %r is %r, which is another file', st['argv'][1], args[2])
        sim.expect(args[3:] == st['argv'][2:], 'argv', 'arguments %r were passed as %r', st['argv'][2:], args[3:])
        sim.expect(dict(env or {}) == dict(os.environ) or env is None, 'environment', 'the environment was not passed on')
        sim.expect(st['p'] is None and not st.get('spawn_failed'), 'again', 'a second child was started')
        st['phase'] = 'made'
        if st['spawn_fault']:
            st['spawn_failed'] = True
            sim.nontrivial = True
            if soon:
                sim.fault('interrupt')
                sim.probe('interrupted before the start')
                raise KeyboardInterrupt()
            sim.fault('spawn failed')
            sim.probe('could not start')
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        return proclab.spawner(sim, made, hooks, setup)(proto, exe, args, env, path, **kw)

    n_runs = c.pick([1, 1, 1, 2, 3])
    if n_runs > 1:
        sim.probe('several runs')
    old = sys.stdout, sys.argv, log.startLogging
    sys.stdout = io.StringIO()
    log.startLogging = lambda *a, **kw: None
    try:
        for i in range(n_runs):
            script = c.pick(['bench.py', './bench.py', 'dir/b.py', '/sim/elsewhere/b.py', '../elsewhere/b.py', '/sim/work/bench.py'])
            sim.probe('absolute script' if script.startswith('/') else 'script in a directory' if '/' in script else 'relative script')
            argv = ['benchmark', script] + [c.pick(['-v', 'dir', '', '/tmp', 'two words', 'x.py']) for j in range(c.pick([0, 0, 0, 1, 3]))]
            if len(argv) > 2:
                sim.probe('arguments')
            st = {'phase': 'making', 'argv': list(argv), 'p': None, 'how': None}
            f = c.draw(12)
            st['mk_fault'] = c.draw(2) if f == 1 else 2
            st['mk_errno'] = c.pick([errno.EACCES, errno.ENOSPC, errno.EROFS])
            st['spawn_fault'] = f == 2
            st['end_fault'] = f == 4
            st['rm_fault'] = c.draw(2) if f in (5, 6) else 2
            st['rm_at'] = c.draw(4)
            st['rm_errno'] = c.pick([errno.EACCES, errno.EBUSY, errno.EIO])
            disk.plan = []
            disk.fail_open = None
            disk.log = []
            if f == 7:
                disk.fail_open = c.pick([errno.ENOSPC, errno.EACCES])
                sim.fault('open error')
                sim.probe('not storable')
                sim.nontrivial = True
            elif f == 8:
                disk.plan.append(('error', errno.ENOSPC, c.pick([0, 100])))
                sim.probe('not storable')
                sim.nontrivial = True
            soon = c.draw(3) == 0
            if st['mk_fault'] == 1:
                m.break_look = looking
            if f == 3:
                def broken(what, path):
                    if what == 'diskstats' and not st.get('start_failed'):
                        st['start_failed'] = True
                        if soon:
                            sim.fault('interrupt')
                            sim.probe('interrupted before the start')
                            sim.nontrivial = True
                            raise KeyboardInterrupt()
                        sim.fault('statistics unavailable')
                        sim.probe('not measurable at start')
                        sim.nontrivial = True
                        raise OSError(errno.EIO, 'bad disk', path)
                m.break_look = broken
            if c.draw(4) == 0:
                should = copy.deepcopy(work)
                foreign()
            should = copy.deepcopy(work)
            sim._reactor = None
            sim.reactor.spawnProcess = spawn
            st['reactor'] = sim.reactor
            st['over'] = lambda: st.get('spawn_failed') or st.get('start_failed') or st['reactor']._stopped or not st['reactor'].running
            sys.argv = list(argv)
            changes = len(tree.changes)
            raised = None
            try:
                benchmark.main()
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                raised = e
            sim.check()
            st['phase'] = 'done'
            m.break_look = None
            sim.trace('main', type(raised).__name__)
            errs = sim.take_errors()
            p = st['p']
            dirs = [d for what, d in tree.changes[changes:] if what == 'mkdir' and d not in (st.get('raced'),)]
            # -- the directory
            if 'dir' in st:
                d = st['dir']
                try:
                    left = tree.node(d)
                except OSError:
                    left = None
                if left is not None:
                    sim.expect(st.get('rm_failed') or st.get('late'), 'left', 'the directory of the script is still there: %r', left)
                    sim.expect(isinstance(raised, OSError), 'quiet', 'the directory could not be removed, and nobody was told')
                    # away with it, before the rest is compared
                    up = tree.node(d.rsplit('/', 1)[0])
                    del up[d.rsplit('/', 1)[1]]
            else:
                # no child: whatever was made must be gone too, which the comparison below shows
                sim.expect(raised is not None, 'quiet', 'no child was started, and nobody was told')
            # -- everything else
            sim.expect(work == should, 'foreign', 'the working directory is %r, not %r', work, should)
            sim.expect(tree.root['elsewhere'] == {'b.py': 9, 'data': {'y': 2}} and set(tree.root) == {'work', 'elsewhere'}, 'foreign',
                       'files elsewhere were changed: %r', tree.root)
            # -- the outcome
            if p is not None:
                sim.expect(p.ended or st.get('interrupted'), 'early', 'main() was over before the child was')
                if not (st.get('rm_failed') or st.get('late') or st.get('vanished')):
                    sim.expect(raised is None, 'raised', 'main() raised %r', raised)
                boxes, rest = parse_boxes(b''.join(x for o, x in disk.log))
                normal = p.ended and p.dead == (0, None) and not st['end_fault'] and not st.get('vanished') and not st.get('cycle') and st['measured']
                if normal and f not in (7, 8):
                    sim.probe('normal')
                    names = [x.get(b'name') for x in boxes]
                    sim.expect(not rest and names == [script.encode() + b'-overall', script.encode() + b'-benchmark'], 'results', 'results of %r were stored', names)
                elif not normal and p.dead != (0, None):
                    sim.expect(not boxes, 'results', 'a benchmark that failed stored results')
                if p.ended and not st.get('interrupted'):
                    sim.probe(['normal', 'exit code', 'killed', 'timed out'][st['how']])
                    sim.nontrivial = sim.nontrivial or st['how'] > 0
            else:
                sim.expect(st.get('spawn_failed') or st.get('start_failed') or st.get('mk_failed') or st.get('raced'), 'raised',
                           'main() raised %r and started no child', raised)
            sim.expect(disk.content.startswith(b'earlier') and not disk.truncated, 'lost', 'earlier results were lost')
            # the child of an interrupted run goes on for a while, or not
            for ev in sim.q:
                ev.cancel()
    finally:
        sys.stdout, sys.argv, log.startLogging = old
    sim.sample = {'runs': n_runs}
    sim.check()
