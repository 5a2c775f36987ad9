"""
C25: benchmark statistics are those of the device under the working directory.

System: the real bench(), BenchmarkProcess, discoverCurrentWorkingDevice,
captureStats and formatResults; file systems are mounted and unmounted, over
one another and next to one another, before, between and during the runs, and
every device does I/O all the time.
"""
import io
import os
import sys

from dst import core, proclab
from dst.checks.c20 import parse_boxes

RUNS = (10000, 250000)
RULE = ('seeded histories of mounts and unmounts (nested, over one another, with similar or unusual names) interleaved with 1-3 whole benchmark runs in varying '
        'working directories while all devices do I/O; non-trivial: more than one file system could be meant')
REAL = ['epsilon.scripts.benchmark bench, BenchmarkProcess, discoverCurrentWorkingDevice, captureStats, formatResults', 'twisted ReactorBase']
STUB = ['mount table, /proc/diskstats, directory tree, results disk, child process (dst.proclab)', 'time (dst.core)', 'stdout (captured)', 'log.startLogging (no-op)']
PROBES = ['long table of devices', 'nested', 'mounted over', 'similar name', 'name with a blank', 'name with a backslash', 'root only', 'not mounted anywhere', 'no statistics',
          'disk without partitions', 'unmounted before', 'mounted while running', 'unmounted while running', 'several runs', 'bind mount of a directory', 'is a mount point', 'moved below a later mount', 'device gone while running', 'root after a mount below it']
FAULTS = ['mounted while running', 'unmounted while running', 'device gone']

DEVICES = ['/dev/sda1', '/dev/sda3', '/dev/sdb1', '/dev/sdb2', '/dev/sdc', '/dev/loop0', '/dev/xvdb2']
DIRS = ['/sim', '/sim/work', '/sim/work/a', '/sim/work/a/b', '/sim/wo', '/sim/work/ab', '/sim/work/a b', '/sim/work/a b/c', '/sim/work/a\\b', '/sim/work/a\tb',
        '/sim/w', '/sim/work/a/bb', '/other']


def escape(p):
    for ch in '\\ \t\n':
        p = p.replace(ch, '\\%03o' % ord(ch))
    return p


def contains(point, path):
    if point == '/':
        return True
    return path == point or path.startswith(point + '/')


def run(sim):
    from twisted.python import log
    from twisted.python.filepath import FilePath
    from epsilon.scripts import benchmark
    c = sim.c
    m = proclab.Machine(sim)
    m.looking_costs = 0.0
    m.stats = {}
    for d in ('sda', 'sda1', 'sda3', 'sdb', 'sdb1', 'sdb2', 'sdc', 'loop0', 'ram1', 'xvdb', 'xvdb2'):
        m.stats[d] = [sim.c.draw(1000) for i in range(11)]
    if c.draw(6) == 0:
        # a machine with many disks; sda comes after most of them
        sim.probe('long table of devices')
        for i in range(c.pick([60, 160, 400])):
            m.stats['loop%d' % (i + 1)] = [12345678 + i] * 11
    disk = m.results = proclab.ResultsDisk(sim, b'')
    table = []                         # (device, mount point), in the order they were mounted
    always = []
    if c.draw(12):
        root = c.pick(['rootfs', '/dev/sda1', '/dev/root'])
        table.append((root, '/'))
        if root == 'rootfs' and c.draw(2):
            sim.probe('mounted over')
            table.append(('/dev/sda1', '/'))
    table.append(('proc', '/proc'))
    table.append(('tmpfs', '/dev/shm'))

    if c.draw(6) == 0:
        # mounted elsewhere before, then moved here
        table.append((c.pick(DEVICES), c.pick(['/sim/work/a', '/sim/work/a/b', '/sim/work/ab'])))
        table.append((c.pick(DEVICES), c.pick(['/sim', '/sim/work'])))
        sim.probe('moved below a later mount')

    if c.draw(10) == 0:
        # the root was moved here when this was mounted already
        table.insert(0, (c.pick(DEVICES), '/sim'))
        sim.probe('root after a mount below it')

    def tables():
        return ''.join('%s %s %s rw,relatime 0 0\n' % (d, escape(p), 'ext4' if d.startswith('/') else d) for d, p in table)
    m_open = m.open

    def opener(name, mode='r', *a, **kw):
        if isinstance(name, bytes):
            name = name.decode()
        if not isinstance(name, (str, int)):
            name = os.fspath(name)
        if name in ('/proc/self/mounts', '/proc/mounts', '/etc/mtab'):
            text = tables()
            return io.BytesIO(text.encode()) if 'b' in mode else io.StringIO(text)
        return m_open(name, mode, *a, **kw)
    m.open = opener

    def mount():
        """Mount something somewhere where nothing below it is hidden."""
        where = c.pick(DIRS)
        if any(p != where and contains(where, p) for d, p in table):
            return False
        if any(p == where for d, p in table):
            sim.probe('mounted over')
        dev = c.pick(DEVICES + ['tmpfs', '/dev/mapper/vg-home'])
        if where != '/other' and dev in [d for d, p in table]:
            sim.probe('bind mount of a directory')
        table.append((dev, where))
        sim.trace('mount', dev, where)
        return True

    def umount():
        n = [i for i, (d, p) in enumerate(table) if p.startswith(('/sim', '/other'))
             and not any(q != p and contains(p, q) for e, q in table) and not any(q == p for e, q in table[i + 1:])]
        if not n:
            return False
        sim.trace('umount', table.pop(n[c.draw(len(n))]))
        return True

    def move():
        """Move a mount elsewhere, as mount --move does: it stays where it is in the table."""
        n = [i for i, (d, p) in enumerate(table) if p.startswith(('/sim', '/other'))
             and not any(j != i and contains(p, q) for j, (e, q) in enumerate(table))]
        where = c.pick(['/sim/work/a', '/sim/work/a/b', '/sim/work/ab', '/other'])
        if not n or any(contains(where, p) for d, p in table):
            return False
        i = n[c.draw(len(n))]
        sim.trace('move', table[i], where)
        table[i] = (table[i][0], where)
        if any(p != '/' and contains(p, where) for d, p in table[i + 1:]):
            sim.probe('moved below a later mount')
        return True

    def backing(path):
        """The device path is on: follow it from the root, the latest mount at each point counts."""
        dev = None
        parts = path.split('/')[1:]
        at = ''
        for x in [''] + parts:
            at = at + '/' + x if x else at
            for d, p in table:
                if p == (at or '/'):
                    dev = d
        return dev

    def all_io():
        for i, d in enumerate(sorted(m.stats)):
            s = m.stats[d]
            for j in range(11):
                s[j] += c.draw(5) + 10 * i + j

    def view(dev):
        if dev is None:
            return None, None
        name = dev.split('/')[-1]
        dname = name.rstrip('0123456789')
        s = m.stats.get(name) if name not in m.missing else None
        t = m.stats.get(dname) if dname not in m.missing else None
        return (s and (s[0], s[2], s[4], s[6])), (t and (t[3], t[7]))

    class H(proclab.Hooks):
        def wrote(self, p, fd, data):
            st['m0' if data == b'\0' else 'm1'] = view(st['dev'])

        def ending(self, p):
            st['after'] = view(st['dev'])
    hooks = H()
    made = []

    def setup(p):
        st['p'] = p
        p.reap_slow = False
        t = [0.0]

        def at(dt, fn, name):
            t[0] += dt
            sim.after(t[0], fn, name)

        def work():
            all_io()
            if c.draw(8) == 0:
                name = (st['dev'] or '').split('/')[-1]
                if name in m.stats:
                    m.missing.add(name)
                    sim.fault('device gone')
                    sim.probe('device gone while running')
            if c.draw(4) == 0:
                if c.draw(2):
                    if mount():
                        sim.fault('mounted while running')
                        sim.probe('mounted while running')
                elif umount():
                    sim.fault('unmounted while running')
                    sim.probe('unmounted while running')
        at(c.draw(20) / 10.0, work, 'work')
        at(0.5, lambda: p.child_write(3, b'\0', 0.0), 'start')
        at(c.draw(20) / 10.0, work, 'work')
        at(0.5, lambda: p.child_write(3, b'\1', 0.0), 'stop')
        at(c.draw(20) / 10.0, work, 'work')
        at(1.0, lambda: p.child_exit(0), 'exit')

    n_runs = c.pick([1, 1, 2, 3])
    if n_runs > 1:
        sim.probe('several runs')
    old = sys.stdout, log.startLogging
    sys.stdout = io.StringIO()
    log.startLogging = lambda *a, **kw: None
    try:
        for i in range(n_runs):
            st = {}
            for j in range(c.draw(5)):
                if c.draw(4) == 0:
                    move()
                elif c.draw(5):
                    mount()
                elif umount():
                    sim.probe('unmounted before')
            cwd = c.pick(DIRS[:-1])
            m.tree.cwd = cwd
            node = m.tree.root
            for x in cwd.split('/')[2:]:
                node = node.setdefault(x, {})
            if c.draw(8) == 0:
                dev = c.pick(['sda', 'sda1', 'sda3', 'sdb', 'sdb1', 'sdc'])
                m.missing.add(dev)
                sim.fault('device gone')
            dev = backing(cwd)
            st['dev'] = dev
            points = [p for d, p in table if contains(p, cwd)]
            if len(points) > 1:
                sim.probe('nested')
                sim.nontrivial = True
            if cwd in points:
                sim.probe('is a mount point')
            if any(cwd.startswith(p) and not contains(p, cwd) for d, p in table):
                sim.probe('similar name')
                sim.nontrivial = True
            if points and points == ['/']:
                sim.probe('root only')
            if any(' ' in p for p in points):
                sim.probe('name with a blank')
            if any('\\' in p for p in points):
                sim.probe('name with a backslash')
            if dev is None:
                sim.probe('not mounted anywhere')
            if dev == '/dev/sdc':
                sim.probe('disk without partitions')
            sim._reactor = None
            sim.reactor.spawnProcess = proclab.spawner(sim, made, hooks, setup)
            before = view(dev)
            disk.log = []
            func = benchmark.makeBenchmarkRunner(FilePath(cwd), ['bench.py'])
            benchmark.bench('bench.py', FilePath(cwd), func)
            sim.check()
            errs = sim.take_errors()
            sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
            boxes, rest = parse_boxes(b''.join(x for o, x in disk.log))
            sim.expect(len(boxes) == 2 and not rest, 'records', '%d records were stored', len(boxes))
            for got, t0, t1 in ((boxes[0], before, st['after']), (boxes[1], st['m0'], st['m1'])):
                want = {}
                for k, names in ((0, ('read-count', 'read-sectors', 'write-count', 'write-sectors')), (1, ('read-ms', 'write-ms'))):
                    for j, name in enumerate(names):
                        want[name] = None if t0[k] is None or t1[k] is None else t1[k][j] - t0[k][j]
                if want['read-count'] is None:
                    sim.probe('no statistics')
                for name, v in sorted(want.items()):
                    g = got.get(name.encode())
                    if v is None and name.endswith('-ms') and want['read-count'] is not None:
                        continue           # which disk a partition belongs to is only a guess from its name
                    sim.expect(g == (None if v is None else str(v).encode()), 'device',
                               'working in %r on %r (%r), %s was recorded as %r, not %r', cwd, dev, table, name, g, v)
    finally:
        sys.stdout, log.startLogging = old
    sim.sample = {'runs': n_runs, 'mounts': [list(x) for x in table]}
    sim.check()
