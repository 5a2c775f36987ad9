"""
C19: benchmark start/stop signalling is acknowledged after measuring, in step.

System: the real parent side (BenchmarkProcess, Change, statistics parsing) and
the real child side (start, stop) of the back-channel in one simulation: the
child's blocking os.read lets simulated time pass.  Measuring takes time and
disk reads of its own.  The child does disk work, grows its directory, writes
output, misbehaves, dies; reads are interrupted, acknowledgements are replaced
or the channel ends; statistics may be unreadable.
"""
import errno
import os
import signal

from dst import core, proclab

RUNS = (20000, 600000)
RULE = ('seeded child programs over the real back-channel code with pipe delays, groupings, interruptions, bad acknowledgements, garbage bytes, '
        'failing statistics and time/disk costs of measuring; non-trivial: costs, a fault, or grouped requests')
REAL = ['epsilon.scripts.benchmark start, stop, BenchmarkProcess, Change, getSize, captureStats', 'twisted TimeoutMixin, FilePath, untilConcludes']
STUB = ['pipes, signals, process (dst.proclab)', '/proc, directory tree, disk counters (dst.proclab)', 'time (dst.core)', 'os.read/os.write on descriptors 3 and 4']
PROBES = ['long burst of requests', 'start returned', 'stop returned', 'several intervals', 'interrupted wait', 'wrong acknowledgement', 'end of channel', 'garbage byte',
          'garbage ignored by child', 'grouped requests', 'request bytes on stdout', 'measuring costs time', 'measuring reads disk', 'work measured',
          'directory grew', 'statistics unreadable', 'killed while waiting', 'idle kill while waiting', 'short format', 'device missing', 'second request in one segment']
FAULTS = ['interrupted read', 'bad acknowledgement', 'end of channel', 'garbage on back-channel', 'statistics unreadable', 'child killed', 'quit ignored']


class ChildDead(BaseException):
    pass


def run(sim):
    from epsilon.scripts import benchmark
    c = sim.c
    m = proclab.Machine(sim, c.pick(['/dev/sda3', '/dev/sda', '/dev/mapper/x']))
    m.tree.root['work'] = {'a': 10, 'sub': {'b': 2000}, 'l': 'nowhere'}
    m.looking_costs = c.pick([0.0, 0.25, 3.0, 0.01])
    m.looking_reads = c.pick([0, 1, 7])
    m.short_partitions = c.draw(3) == 0
    if m.looking_costs:
        sim.probe('measuring costs time')
        sim.nontrivial = True
    if m.looking_reads:
        sim.probe('measuring reads disk')
    if m.short_partitions:
        sim.probe('short format')
    if c.draw(6) == 0:
        m.missing.add(c.pick(['sda', 'sda3']))
        sim.probe('device missing')
    made = []
    results = []
    st = {'begin': 0.0, 'view': None, 'broken': 0, 'expect': [], 'bad': 0, 'quits': 0, 'acks': [], 'failed_asks': 0}
    START, STOP = b'\0', b'\1'

    def view():
        return (m.partition_view(), m.disk_view(), m.tree.total())

    def seen(snap):
        p = snap.partition
        d = snap.disk
        return (None if p is None else (p.readCount, p.readSectorCount, p.writeCount, p.writeSectorCount),
                None if d is None else (getattr(d, 'readMilliseconds', None), getattr(d, 'writeMilliseconds', None)),
                snap.size)

    def same(snap, want, what):
        got = seen(snap)
        want = list(want)
        if m.short_partitions and m.disk == m.name and m.name[-1].isdigit():
            want[1] = got[1]
        names = ('partition statistics', 'disk statistics', 'directory size')
        for g, w, n in zip(got, want, names):
            if g != w:
                sim.note_violation('snapshot', '%s: %s recorded as %r, not %r' % (what, n, g, w))

    def clock(snap, at, what):
        if abs(snap.time - core.EPOCH - at) > 1e-6:
            sim.note_violation('time', '%s: recorded at %.6f, not %.6f' % (what, snap.time - core.EPOCH, at))

    class H(proclab.Hooks):
        def before(self, p, fd, data):
            st['begin'] = sim.now
            st['view'] = view()
            if fd == 3 and data is not None:
                for i in range(len(data)):
                    st['expect'].append(data[i:i + 1])
                if len(data) > 1:
                    sim.probe('second request in one segment')
                st['mark'] = (len(p.sent), len(p.signals))

        def wrote(self, p, fd, data):
            ch = p.proto.benchmarkChange
            if fd != 4:
                sim.note_violation('ack', 'wrote %r on descriptor %d' % (data, fd))
                return
            for i in range(len(data)):
                b = data[i:i + 1]
                while st['expect'] and st['expect'][0] not in (START, STOP):
                    st['expect'].pop(0)
                    st['quits'] += 1
                if not st['expect'] or st['expect'].pop(0) != b:
                    sim.note_violation('ack', 'acknowledged %r, which is not what was asked for next' % (b,))
                    return
                if len(data) > 1:
                    sim.note_violation('ack', 'several acknowledgements at once')
                if not hasattr(ch, 'before' if b == START else 'after'):
                    sim.note_violation('ack', 'acknowledged %r before taking the snapshot' % (b,))
                    return
                if b == START:
                    clock(ch.before, sim.now, 'start of the interval')
                    same(ch.before, view(), 'start of the interval')
                else:
                    clock(ch.after, st['begin'], 'end of the interval')
                    same(ch.after, st['view'][:2] + (m.tree.total(),), 'end of the interval')
                st['begin'] = sim.now
                st['view'] = view()

        def after(self, p, fd, data):
            if fd == 3 and data is not None:
                left = st['expect']
                bad = p.told_errors > st.get('errors', 0)
                st['errors'] = p.told_errors
                while left and left[0] not in (START, STOP):
                    left.pop(0)
                    st['quits'] += 1
                if left and not bad:
                    sim.note_violation('ack', '%r was not acknowledged' % (left,))
                if bad and not (p.dead or 4 not in p.pipes or st['broken']):
                    sim.note_violation('error', 'handling %r failed' % (data,))
                if not bad and not p.dead:
                    n = len([s for s in p.signals if s[1] == signal.SIGQUIT])
                    if n != st['quits']:
                        sim.note_violation('quit', '%d bad bytes, %d QUIT signals' % (st['quits'], n))
                del left[:]

        def signal(self, p, sig):
            if sig == signal.SIGKILL:
                # C18 decides when that may happen
                sim.probe('idle kill while waiting')
            elif sig != signal.SIGQUIT:
                sim.note_violation('signal', 'signal %d' % sig)
            elif not st['expect'] or all(b in (START, STOP) for b in st['expect']):
                sim.note_violation('quit', 'QUIT sent although nothing wrong was received')

        def ending(self, p):
            st['ending'] = sim.now
            st['end_view'] = view()

    hooks = H()
    p_cell = []

    def setup(p):
        p.reading = None
        p_cell.append(p)
        if c.draw(4) == 0:
            p.ignores.add(signal.SIGQUIT)
        p.reap_slow = c.draw(2)
        p.death_delay = 0.0
        st['spawned'] = sim.now
        st['spawn_view'] = view()

    class Fds(object):
        """The child's end of descriptors 3 and 4."""

        def __init__(self):
            self.bad = None
            self.eintr = 0

        def owns(self, fd):
            return fd in (3, 4)

        def write(self, fd, data):
            if not isinstance(data, (bytes, bytearray, memoryview)):
                raise TypeError("a bytes-like object is required, not '%s'" % (type(data).__name__,))
            p = p_cell[0]
            alive()
            if fd != 3:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            p.child_write(3, bytes(data))
            return len(data)

        def read(self, fd, n):
            p = p_cell[0]
            if fd != 4:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            if self.eintr and c.draw(2) == 0:
                self.eintr -= 1
                sim.probe('interrupted wait')
                sim.fault('interrupted read')
                sim.run(sim.now + c.pick([0.0, 0.5, 5.0]))
                alive()
                raise OSError(errno.EINTR, os.strerror(errno.EINTR))
            if self.bad is not None:
                b, self.bad = self.bad, None
                sim.wait(lambda: p.dead or p.child_in[4] or c.draw(3) == 0)
                alive()
                st['got_bad'] = b
                del p.child_in[4][:1]
                return b
            p.reading = sim.now
            sim.wait(lambda: p.dead is not None or p.child_in[4])
            p.reading = None
            if any(x[1] == signal.SIGKILL for x in p.signals) and not st['broken']:
                sim.violate('stuck', 'the child waited for an acknowledgement until it was killed for being idle')
            alive()
            if not p.child_in[4]:
                sim.violate('stuck', 'the child waits for ever')
            b = bytes(p.child_in[4][:n])
            del p.child_in[4][:n]
            st['taken'] = b
            return b

    def alive():
        if p_cell[0].dead is not None:
            raise ChildDead()
    fds = Fds()
    sim.fds = fds

    def sleep(t):
        sim.run(sim.now + t)
        alive()

    def work():
        p = p_cell[0]
        for i in range(c.draw(3)):
            k = c.draw(5)
            if k == 0:
                sleep(c.pick([0.5, 10.0, 0.0, 600.0]))
            elif k == 1:
                m.io(c.draw(50), c.draw(50))
                sim.probe('work measured')
            elif k == 2:
                d = m.tree.root['work']
                for j in range(1 + c.draw(9)):
                    d['n%d' % len(d)] = c.draw(5000)
                if c.draw(2):
                    m.tree.root['work']['sub']['s%d' % c.draw(5)] = c.draw(999)
                sim.probe('directory grew')
            elif k == 3:
                p.child_write(c.pick([1, 2]), c.pick([b'out\n', b'\0', b'\0\1', b'x\1y']))
                sim.probe('request bytes on stdout')
            else:
                sim.after(c.pick([0.0, 0.01, 1.0]), lambda: p.child_write(1, b'later\n'), 'background output')

    def ask(fn, byte):
        if c.draw(5) == 0:
            fds.eintr = 1 + c.draw(2)
        if c.draw(12) == 0:
            k = c.draw(3)
            other = STOP if byte == START else START
            fds.bad = [b'', other, b'?'][k]
            sim.probe('end of channel' if k == 0 else 'wrong acknowledgement')
            sim.fault('end of channel' if k == 0 else 'bad acknowledgement')
        st['taken'] = None
        had_bad = fds.bad
        n_ack = len([x for x in p_cell[0].sent if x[2] == byte])
        try:
            fn()
        except RuntimeError:
            fds.eintr = 0
            if had_bad is None:
                sim.violate('ask', '%s() raised although the acknowledgement was right' % fn.__name__)
            st['failed_asks'] += 1
            return False
        fds.eintr = 0
        if had_bad is not None:
            sim.violate('ask', '%s() accepted %r as acknowledgement' % (fn.__name__, had_bad))
        if st['taken'] != byte:
            sim.violate('ask', '%s() returned without waiting for its acknowledgement' % fn.__name__)
        sim.probe(fn.__name__ + ' returned')
        return True

    def break_stats():
        sim.probe('statistics unreadable')
        sim.fault('statistics unreadable')
        st['broken'] += 1
        which = c.pick(['diskstats', 'listdir', 'stat'])

        def broken(what, path):
            if what == which:
                raise OSError(errno.EIO, os.strerror(errno.EIO), path)
        m.break_look = broken

    d = benchmark.BenchmarkProcess.spawn('exe', ['a'], proclab.CWD, {}, proclab.spawner(sim, made, hooks, setup))
    d.addBoth(results.append)
    p = p_cell[0]
    clock(p.proto.overallChange.before, st['spawned'], 'start of the process')
    same(p.proto.overallChange.before, st['spawn_view'], 'start of the process')
    killer = None
    if c.draw(8) == 0:
        def kill():
            if p.dead is None:
                if p.reading is not None:
                    sim.probe('killed while waiting')
                sim.fault('child killed')
                p.child_exit(None, c.pick([9, 15]))
        killer = sim.after(c.pick([0.5, 3.0, 20.0]), kill, 'child killed')
    code = 0
    try:
        pairs = c.pick([1, 1, 2, 3, 0])
        if pairs > 1:
            sim.probe('several intervals')
        for i in range(pairs):
            work()
            if c.draw(12) == 0:
                break_stats()
            if not ask(benchmark.start, START):
                code = 1
                break
            work()
            if not ask(benchmark.stop, STOP):
                code = 1
                break
        work()
        k = c.draw(6)
        if k == 0:
            sim.probe('grouped requests')
            sim.nontrivial = True
            burst = c.pick([b'\0\1', b'\0\1\0\1', b'\0\0\1', b'\1\0', None])
            if burst is None:
                burst = b'\0\1' * (c.pick([40, 100, 600]) if m.looking_costs < 0.1 else 3)
                sim.probe('long burst of requests')
            p.child_write(3, burst)
            sleep(20.0)
        elif k == 1:
            sim.probe('garbage byte')
            sim.fault('garbage on back-channel')
            if signal.SIGQUIT in p.ignores:
                sim.probe('garbage ignored by child')
                sim.faults['quit ignored'] += 1
            p.child_write(3, c.pick([b'\2', b'0', b'\0x\1', b'xy', b'\xff\0', b'S']))
            sleep(20.0)
        if c.draw(2):
            work()
    except ChildDead:
        pass
    if p.dead is None:
        p.child_exit(code)
    m_broken = m.break_look
    m.break_look = None
    sim.run()
    sim.sample = {'costs': m.looking_costs, 'broken': st['broken']}
    sim.expect(len(results) == 1, 'lost', 'the end of the process was not reported')
    r = results[0]
    if p.dead == (0, None):
        sim.expect(isinstance(r, tuple), 'outcome', 'a normal exit was reported as %r', r)
        clock(p.proto.overallChange.after, st['ending'], 'end of the process')
        same(p.proto.overallChange.after, st['end_view'], 'end of the process')
    errs = sim.take_errors()
    n = p.excused + (p.told_errors if st['broken'] else 0)
    bad = [e for e in errs if e[0] not in ('KeyError', 'ProcessExitedAlready', 'OSError')]
    sim.expect(not bad and len(errs) <= n, 'log', 'errors were logged: %s', [e[:2] for e in errs])
    sim.check()
