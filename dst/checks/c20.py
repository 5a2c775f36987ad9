"""
C20: benchmark results are appended whole and never disturb earlier ones.

System: the real bench(), _bench, makeBenchmarkRunner, BenchmarkProcess,
formatResults and reportResults, one simulated process after another on one
results file, on real Python buffered files over a disk that runs full, writes
short and fails, with other processes appending meanwhile.
"""
import errno
import io
import re
import sys

from dst import core, proclab

RUNS = (8000, 250000)
RULE = ('seeded histories of 1-3 whole benchmark runs (bench() to reactor exit) on one results file x child outcomes x disk faults per open/write x '
        'foreign appends x devices that come and go; non-trivial: a disk fault, foreign append, abnormal child or several runs')
REAL = ['epsilon.scripts.benchmark bench, BenchmarkProcess, formatResults, reportResults', 'epsilon.juice (records)', 'Python io buffering', 'twisted ReactorBase']
STUB = ['disk below the buffered file (dst.proclab.ResultsDisk)', 'child process, pipes, signals, /proc, tree (dst.proclab)', 'time (dst.core)', 'stdout (captured)', 'log.startLogging (writes to the captured stdout)']
PROBES = ['two records stored', 'none stored: died', 'none stored: timed out', 'none stored: exit code', 'flagged as error', 'stderr output', 'several runs',
          'open failed', 'disk full', 'short write survived', 'foreign append', 'device absent', 'device appeared', 'device vanished', 'failure on second record',
          'torn record', 'non-ASCII name', 'nothing measured', 'statistics failed at exit', 'stderr closed early', 'files removed']
FAULTS = ['clock step', 'short write', 'write error', 'open error', 'foreign append', 'child killed', 'statistics unavailable']


def parse_boxes(data):
    """Independent reader of the record format: list of dicts, and the rest."""
    boxes = []
    while True:
        head, sep, rest = data.partition(b'\r\n\r\n')
        if not sep:
            return boxes, data
        box = {}
        for line in head.split(b'\r\n'):
            if line[:1] in (b' ', b'\t'):
                box[last] += b'\n' + line[1:]
            else:
                k, s, v = line.partition(b': ')
                last = k.lower().replace(b'_', b'-')
                box[last] = v
        boxes.append(box)
        data = rest


def now(sim):
    """What the clock on the wall shows."""
    return sim.now + sim.slice_advance


def shows(text, wrote):
    """Does text show, in one piece or several, what the child wrote on standard error?"""
    if b'Trace' not in wrote:
        return repr(wrote) in text or repr(wrote.decode('latin-1'))[1:-1] in text or wrote.strip() == b''
    pieces = re.findall(r'''b('[^']*'|"[^"]*")''', text)
    return 'Traceback' in text or 'Traceback' in ''.join(x[1:-1] for x in pieces)


def run(sim):
    from twisted.python import log
    old_start = log.startLogging
    observers = []

    def start_logging(file, setStdout=True):
        def tell(event):
            text = log.textFromEventDict(event)
            if text is not None:
                file.write(text + '\n')
        observers.append(tell)
        log.addObserver(tell)
    log.startLogging = start_logging
    from epsilon.scripts import benchmark
    from epsilon import juice
    c = sim.c
    m = proclab.Machine(sim, c.pick(['/dev/sda3', '/dev/sda']))
    m.tree.root['work'] = {'a': 10, 'sub': {'b': 2000}, 'l': 'nowhere'}
    m.looking_costs = c.pick([0.0, 0.25])
    idle = False
    if c.draw(6) == 0:
        idle = bool(c.draw(2))
        # a machine that has just been started
        for dev in m.stats:
            m.stats[dev] = [0] * 11
    base = c.pick([b'', b'earlier contents\r\n', b'x' * 9000])
    disk = m.results = proclab.ResultsDisk(sim, base)
    from twisted.python.filepath import FilePath
    shadow = {'content': bytearray(base), 'own': []}
    real_stdout = sys.stdout

    def between():
        # another process appends to the same file
        if foreign and c.draw(2):
            b = b'[other %d]' % len(shadow['content'])
            sim.probe('foreign append')
            sim.fault('foreign append')
            disk.content += b
            shadow['content'] += b

    disk.between = between
    foreign = c.draw(4) == 0

    class H(proclab.Hooks):
        def before(self, p, fd, data):
            st['begin'] = (now(sim), m.partition_view(), m.disk_view())

        def wrote(self, p, fd, data):
            if data == b'\0':
                st['m0'] = (now(sim), m.partition_view(), m.disk_view(), m.tree.total())
            else:
                st['m1'] = st['begin'] + (m.tree.total(),)

        def ending(self, p):
            st['o1'] = (now(sim), m.partition_view(), m.disk_view(), m.tree.total())
            if c.draw(14) == 0 and p.dead == (0, None):
                st['broken'] = True
                sim.probe('statistics failed at exit')
                sim.fault('statistics unavailable')

                def broken(what, path):
                    raise OSError(errno.EIO, 'bad disk', path)
                m.break_look = broken

        def ended(self, p):
            m.break_look = None
    hooks = H()
    made = []

    def setup(p):
        st['o0'] = (now(sim), m.partition_view(), m.disk_view(), m.tree.total())
        st['p'] = p
        p.reap_slow = False
        p.death_delay = 0.0
        t = [0.0]
        fraction = c.pick([0.0, 0.0123457, 0.0000371])

        def at(dt, fn, name):
            t[0] += dt + fraction
            sim.after(t[0], fn, name)

        def work():
            if not idle:
                m.io(c.draw(60), c.draw(60))
            if c.draw(2):
                d = m.tree.root['work']
                for j in range(1 + c.draw(6)):
                    d['n%d' % len(d)] = c.draw(5000)
            if c.draw(4) == 0:
                sim.probe('files removed')
                d = m.tree.root['work']
                for k in c.subset(sorted(d), 0.7):
                    del d[k]
            if c.draw(8) == 0:
                # somebody sets the clock
                sim.fault('clock step')
                sim.slice_advance += c.pick([-3600.0, 3600.0, -0.5, -86400.0])
            if c.draw(8) == 0:
                # disks come and go
                dev = c.pick([m.name, m.disk])
                if dev in m.missing:
                    m.missing.discard(dev)
                    if c.draw(2):
                        # what it counts starts again
                        m.stats[dev] = [c.draw(3) for j in range(11)]
                    sim.probe('device appeared')
                else:
                    m.missing.add(dev)
                    sim.probe('device vanished')
        measured = c.draw(10) > 0
        if not measured:
            sim.probe('nothing measured')
        at(c.draw(50) / 10.0, work, 'work')
        if measured:
            at(0.5, lambda: p.child_write(3, b'\0', 0.0), 'start')
            at(c.draw(500) / 10.0, work, 'work')
            at(0.5, lambda: p.child_write(3, b'\1', 0.0), 'stop')
        at(c.draw(50) / 10.0, work, 'work')
        if c.draw(4) == 0:
            at(0.1, lambda: p.child_write(1, b'chatter\n', 0.0), 'stdout')
        if c.draw(4) == 0:
            sim.probe('stderr output')
            st['stderr'] = True
            st['wrote'] = c.pick([b'Traceback\n', b'Traceback\n', b'\n', b' \n', b'\0', b'\xe9'])
            at(0.1, lambda: p.child_write(2, st['wrote'], 0.0), 'stderr')
        if c.draw(4) == 0:
            sim.probe('stderr closed early')
            at(0.1, lambda: p.child_close(2, 0.0), 'close')
        how = c.pick([0, 0, 0, 0, 1, 2, 3])
        st['how'] = how
        if how == 0:
            at(1.0, lambda: p.child_exit(0), 'exit')
        elif how == 1:
            at(1.0, lambda: p.child_exit(c.pick([1, 7])), 'fail')
        elif how == 2:
            sim.faults['child killed'] += 1
            at(1.0, lambda: p.child_exit(None, 11), 'die')
        st['measured'] = measured

    def diff(a, b, i, j):
        if a[i] is None or b[i] is None:
            return None
        return b[i][j] - a[i][j]

    def want(name, a, b, err):
        w = {'version': 0, 'error': err, 'timeout': False, 'name': name, 'host': 'simhost.example.org',
             'sector_size': m.sector, 'elapsed': b[0] - a[0], 'filesystem_growth': b[3] - a[3],
             'read_count': diff(a, b, 1, 0), 'read_sectors': diff(a, b, 1, 1), 'write_count': diff(a, b, 1, 2),
             'write_sectors': diff(a, b, 1, 3), 'read_ms': diff(a, b, 2, 0), 'write_ms': diff(a, b, 2, 1)}
        if w['read_count'] is None or w['read_ms'] is None:
            sim.probe('device absent')
        return w

    def read_back(data, wants, what):
        """data must be the complete records, and nothing else."""
        boxes, rest = parse_boxes(data)
        sim.expect(not rest, 'record', '%s: trailing bytes %r', what, rest[:80])
        sim.expect(len(boxes) == len(wants), 'records', '%s: %d records, not %d', what, len(boxes), len(wants))
        for box, w in zip(boxes, wants):
            for k, v in sorted(w.items()):
                got = box.get(k.encode().replace(b'_', b'-'))
                if v is None:
                    sim.expect(got is None, 'record', '%s: %s recorded as %r although unavailable', what, k, got)
                    continue
                sim.expect(got is not None, 'record', '%s: %s is missing', what, k)
                got = got.decode('utf-8')
                if k == 'elapsed':
                    ok = abs(float(got) - v) < 2e-6
                else:
                    ok = got == (v if isinstance(v, str) else str(v))
                sim.expect(ok, 'record', '%s: %s recorded as %r, not %r', what, k, got, v)
            for k in ('python_version', 'twisted_version', 'divmod_version'):
                sim.expect(box.get(k.encode().replace(b'_', b'-')), 'record', '%s: %s is missing', what, k)
            sim.expect(box.get(b'-command') == b'Result', 'record', '%s: not a Result', what)
        # and through the library's own reader
        again = juice.parseString(data)
        sim.expect(len(again) == len(wants), 'records', '%s: the library reads %d records, not %d', what, len(again), len(wants))
        for box, w in zip(again, wants):
            o = juice.stringsToObjects(box, benchmark.Results.arguments, None)
            for k, v in sorted(w.items()):
                g = o.get(k)
                ok = abs(g - v) < 2e-6 if k == 'elapsed' else g == v
                sim.expect(ok, 'record', '%s: %s reads back as %r, not %r', what, k, g, v)

    n_runs = c.pick([1, 1, 2, 3])
    if n_runs > 1:
        sim.probe('several runs')
    sys.stdout = io.StringIO()
    torn = False
    try:
        for i in range(n_runs):
            st = {'how': None}
            name = c.pick(['bench.py', 'b\xe9n\u20ac.py', 'two words', ' before', 'after ', '\tbench.py'])
            if name[1] == '\xe9':
                sim.probe('non-ASCII name')
            disk.plan = []
            disk.log = []
            faulty = c.draw(3)
            st['open_error'] = False
            if faulty == 1:
                for k in range(1 + c.draw(3)):
                    j = c.draw(4)
                    if j == 3:
                        disk.plan.append(('error', c.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT]), c.pick([0, 1, 100, 10000])))
                    elif j:
                        disk.plan.append(('short', c.pick([1, 50, 400])))
                    else:
                        disk.plan.append(None)
            elif faulty == 2 and c.draw(3) == 0:
                disk.fail_open = c.pick([errno.ENOSPC, errno.EACCES, errno.EMFILE])
                st['open_error'] = True
            before = bytes(disk.content)
            sim._reactor = None
            sim.reactor.spawnProcess = proclab.spawner(sim, made, hooks, setup)
            func = benchmark.makeBenchmarkRunner(FilePath(proclab.CWD), [name])
            writes_failed = [x for x in disk.plan if x and x[0] == 'error']
            f0 = sim.faults['write error']
            benchmark.bench(name, FilePath(proclab.CWD), func)
            sim.trace('bench returned')
            while observers:
                log.removeObserver(observers.pop())
            told = sys.stdout.getvalue()
            sys.stdout = io.StringIO()
            p = st['p']
            sim.expect(p.ended, 'early', 'the benchmark run ended before the child')
            # nothing that was there may have changed, and everything went to the end of the file
            sim.expect(not disk.truncated, 'lost', 'the results file was truncated')
            pos = len(shadow['content'])
            own = b''
            for where, data in disk.log:
                own += data
            failed = sim.faults['write error'] > f0
            opened_badly = st['open_error'] and disk.fail_open is None
            if opened_badly:
                sim.probe('open failed')
                sim.fault('open error')
            errs = sim.take_errors()
            if faulty and not failed and own and sim.faults['short write']:
                sim.probe('short write survived')
            normal = p.dead == (0, None) and not st.get('broken')
            err = bool(st.get('stderr'))
            if normal and st['measured']:
                wants = [want(name + '-overall', st['o0'], st['o1'], err), want(name + '-benchmark', st['m0'], st['m1'], err)]
                if err:
                    sim.probe('flagged as error')
                    sim.expect(shows(told, st['wrote']), 'told', 'what the child wrote on its standard error is not shown')
                if failed or opened_badly:
                    sim.nontrivial = True
                    sim.expect(errs, 'log', 'a failure to store the results was not logged')
                    boxes, rest = parse_boxes(own)
                    if failed:
                        sim.probe('disk full')
                        if rest:
                            sim.probe('torn record')
                        if boxes:
                            sim.probe('failure on second record')
                    sim.expect(len(boxes) <= 2, 'records', 'too many records')
                    if boxes:
                        good = own[:len(own) - len(rest)]
                        read_back(good, wants[:len(boxes)], 'stored before the failure')
                    if rest:
                        # the torn tail must be a leading part of the record that was due
                        nm = b'Name: ' + (name + ('-benchmark' if boxes else '-overall')).encode('utf-8') + b'\r\n'
                        if b'\r\nName: ' in rest and b'\r\n' in rest.split(b'\r\nName: ', 1)[1]:
                            sim.expect(nm in rest, 'order', 'a record was written in the place of the one that failed')
                else:
                    read_back(own, wants, 'after run %d' % i)
                    sim.probe('two records stored')
                    sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
            elif normal:
                # nothing was measured: at most the overall record can be there
                if not (failed or opened_badly):
                    boxes, rest = parse_boxes(own)
                    if boxes:
                        read_back(own, [want(name + '-overall', st['o0'], st['o1'], err)], 'nothing measured')
            else:
                sim.nontrivial = True
                sim.expect(not own, 'records', 'a benchmark that failed stored %r', own[:80])
                if st.get('broken'):
                    sim.expect(errs, 'log', 'statistics could not be read, and that was not logged')
                    sim.expect('bad disk' in told, 'told', 'the error is not shown')
                elif st['how'] == 3:
                    sim.expect('time' in told.lower(), 'told', 'a timeout is not shown')
                elif st.get('stderr'):
                    sim.expect(shows(told, st['wrote']), 'told', 'what the child that failed wrote is not shown')
                if not st.get('broken'):
                    sim.probe('none stored: ' + ('timed out' if st['how'] == 3 else 'exit code' if st['how'] == 1 else 'died'))
            # the file is what it was, foreign appends and our own, each at the end when written
            sim.expect(len(disk.content) == pos + len(own), 'lost', 'the file has %d bytes, not %d', len(disk.content), pos + len(own))
            content = bytes(disk.content)
            spans = sorted(disk.log, key=lambda s: s[0])
            left = content
            for where, data in reversed(spans):
                sim.expect(left[where:where + len(data)] == data, 'overwrite', 'stored bytes were overwritten')
                left = left[:where] + left[where + len(data):]
            sim.expect(left == bytes(shadow['content']), 'overwrite', 'bytes that were in the file were changed')
            sim.expect(content.startswith(before), 'overwrite', 'bytes that were in the file were changed')
            shadow['content'] = bytearray(content)
            disk.fail_open = None
            sim.expect(not sim.reactor.getDelayedCalls(), 'timer', 'timers are left')
    finally:
        sys.stdout = real_stdout
        log.startLogging = old_start
        while observers:
            log.removeObserver(observers.pop())
    sim.sample = {'runs': n_runs}
    if n_runs > 1:
        sim.nontrivial = True
    sim.check()
