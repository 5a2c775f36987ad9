"""
C18: a supervised child process is reported once, completely and on time.

System: real BasicProcess / BenchmarkProcess and twisted TimeoutMixin on a
simulated process transport and simulated time.  Children write, close
descriptors, exit or are killed at any time, particularly around the 900 s of
idleness; several run at once; reading the statistics may fail.
"""
import errno
import os
import signal

from twisted.internet import error

from dst import proclab

RUNS = (40000, 1000000)
RULE = ('seeded children (writes, closings, exit codes, signals, ignored signals) with gaps around 900 s, 1-3 at once, ties with the '
        'timer resolved by the seed, statistics failing at exit; non-trivial: an idle kill, an abnormal end, a tie, or a failed statistic')
REAL = ['epsilon.scripts.benchmark BasicProcess, BenchmarkProcess, Change, statistics parsing', 'twisted TimeoutMixin, Deferred, reactor timers']
STUB = ['child processes, pipes, signals (dst.proclab)', '/proc/diskstats, /proc/self/mounts, directory tree (dst.proclab)', 'time (dst.core)']
PROBES = ['normal exit', 'exit code', 'signal', 'idle kill', 'exited before the idle kill arrived', 'gap of exactly 900 s', 'gap just under 900 s',
          'output after the kill', 'several children', 'statistics failed at exit', 'closed early', 'kept alive by closing a descriptor',
          'default spawnProcess', 'benchmark process', 'basic process', 'died idle, not yet reaped', 'back-channel keeps alive',
          'a lot of output', 'many pieces of output']
FAULTS = ['idle child', 'child killed', 'statistics unavailable', 'kill refused: already reaped']


def run(sim):
    from epsilon.scripts import benchmark
    c = sim.c
    m = proclab.Machine(sim)
    m.tree.root['work'] = {'f': 10, 'd': {'g': 20}}
    made = []
    kids = []

    class H(proclab.Hooks):
        def after(self, p, fd, data):
            p.last = sim.now

        def before(self, p, fd, data):
            if p.killed_at is None and not p.ended and not p.no_kill and sim.now - p.last > 900.0 + 1e-6:
                sim.note_violation('late', 'the child was idle for %.3f s and was not killed' % (sim.now - p.last))
            if p.killed_at is None and abs(sim.now - p.last - 900.0) < 1e-6:
                sim.probe('gap of exactly 900 s')
                sim.nontrivial = True
            if p.killed_at is None and data is None and not p.dead and sim.now - p.last > 400:
                sim.probe('kept alive by closing a descriptor')
            if p.killed_at is not None and data is not None:
                sim.probe('output after the kill')
            if fd == 3 and data is not None:
                sim.probe('back-channel keeps alive')

        def signal(self, p, sig):
            if sig == signal.SIGKILL:
                idle = sim.now - p.last
                if p.killed_at is not None:
                    sim.note_violation('kill', 'the child was killed twice')
                p.killed_at = sim.now
                sim.faults['idle child'] += 1
                sim.nontrivial = True
                if abs(idle - 900.0) > 1e-6:
                    sim.note_violation('early', 'the child was killed after %.3f s without an event' % idle)
                if p.ended:
                    sim.note_violation('kill', 'the child was killed after it had ended')
            else:
                sim.note_violation('signal', 'the child got signal %d' % sig)

        def ending(self, p):
            p.timers_before = len(sim.reactor.getDelayedCalls())

        def ended(self, p):
            if p.k.results == []:
                sim.note_violation('lost', 'the process ended and its Deferred did not fire')
            alive = [x for x in made if not x.ended and x.killed_at is None]
            timers = len(sim.reactor.getDelayedCalls())
            if timers > len(alive):
                sim.note_violation('timer', '%d timers are left for %d idle-able processes' % (timers, len(alive)))
    hooks = H()

    class Kid(object):
        pass

    def launch(k):
        bench = c.draw(3) == 0
        cls = benchmark.BenchmarkProcess if bench else benchmark.BasicProcess
        sim.probe('benchmark process' if bench else 'basic process')
        k.bench = bench
        k.results = []

        def setup(p):
            k.p = p
            p.k = k
            p.last = sim.now
            p.killed_at = None
            p.no_kill = False
            if c.draw(4) == 0:
                p.death_delay = c.pick([0.0, 5.0, 1000.0])
        sp = proclab.spawner(sim, made, hooks, setup)
        if c.draw(2):
            d = cls.spawn('exe', ['a', 'b'], proclab.CWD, {}, sp)
        else:
            sim.probe('default spawnProcess')
            sim.reactor.spawnProcess = sp
            d = cls.spawn('exe', ['a', 'b'], proclab.CWD, {})
        d.addBoth(lambda r: judge(k, r))
        k.p.k = k
        script(k)

    def script(k):
        p = k.p
        t = 0.0
        n = c.draw(6)
        closed = set()
        for i in range(n):
            g = c.pick([0.0, 1.0, 899.9, 900.0, 450.0, 900.1, 0.001, 899.999999])
            t += g
            if g == 899.9:
                sim.probe('gap just under 900 s')
            what = c.draw(4)
            if what < 3:
                fd = c.pick([1, 2, 3, 1])
                if k.bench and fd == 3:
                    data = c.pick([b'\0', b'\1'])
                else:
                    data = c.pick([b'x', b'some text\n', b'\0', b'y' * 20, b'\xff\r\n'])
                    if c.chance(0.02):
                        sim.probe('a lot of output')
                        data = c.pick([b'z' * 70000, b'0123456789' * 30000])
                sim.after(t, lambda fd=fd, data=data: fd not in closed and p.child_write(fd, data, 0.0), 'child writes')
            else:
                fd = c.pick([1, 2, 3, 0, 4])

                def close(fd=fd):
                    if fd not in closed and not p.dead:
                        closed.add(fd)
                        sim.probe('closed early')
                        p.child_close(fd, 0.0)
                if k.bench and fd == 4:
                    fd = 0
                sim.after(t, close, 'child closes')
        if c.chance(0.01):
            sim.probe('many pieces of output')
            for i in range(c.int(500, 3000)):
                sim.after(t, lambda i=i: 1 not in closed and p.child_write(1, b'%d' % i, 0.0), 'child writes')
        how = c.draw(4)
        t += c.pick([0.0, 1.0, 899.9, 900.0, 899.5])
        if how == 0:
            sim.after(t, lambda: p.child_exit(0), 'child exits')
        elif how == 1:
            sim.after(t, lambda: p.child_exit(c.pick([1, 2, 255])), 'child fails')
        elif how == 2:
            sim.after(t, lambda: p.child_exit(None, c.pick([11, 9, 15])), 'child dies')
        # else: hangs until killed

    def judge(k, res):
        k.results.append(res)
        p = k.p
        sim.trace('result', getattr(res, 'type', type(res)).__name__)
        if len(k.results) > 1:
            sim.note_violation('twice', 'the Deferred fired twice')
            return
        if not p.ended:
            sim.note_violation('early', 'the Deferred fired before the process ended')
            return
        want_out = [(fd, data) for at, fd, data in p.events if not (k.bench and fd == 3 and data is not None)]
        code, sig = p.dead
        if getattr(p, 'stats_broken', False) and code == 0 and sig is None:
            if not hasattr(res, 'check'):
                sim.note_violation('stats', 'reported as a success without statistics')
            elif p.killed_at is not None and res.check(error.TimeoutError):
                pass                    # both are true
            elif not res.check(EnvironmentError) or res.value.errno != errno.EIO:
                sim.note_violation('stats', 'that its statistics could not be read was reported as %r' % (res.value,))
            return
        if sig is None and code == 0:
            sim.probe('normal exit')
            if p.killed_at is not None:
                sim.probe('exited before the idle kill arrived')
            if hasattr(res, 'check'):
                sim.note_violation('outcome', 'a normal exit was reported as %r' % (res.value,))
                return
            proto, status, out = res
            if proto is not p.proto:
                sim.note_violation('outcome', 'the wrong protocol was reported')
            if status != p.status:
                sim.note_violation('outcome', 'exit status %r was reported as %r' % (p.status, status))
        else:
            sim.nontrivial = True
            if not hasattr(res, 'check'):
                sim.note_violation('outcome', 'exit %r signal %r was reported as success' % (code, sig))
                return
            if p.killed_at is not None:
                sim.probe('idle kill')
                if not res.check(error.TimeoutError):
                    sim.note_violation('outcome', 'an idle kill was reported as %r' % (res.value,))
                return
            sim.faults['child killed'] += sig is not None
            sim.probe('exit code' if sig is None else 'signal')
            if not res.check(benchmark.ProcessDied):
                sim.note_violation('outcome', 'exit %r signal %r was reported as %r' % (code, sig, res.value))
                return
            v = res.value
            if (v.exitCode, v.signal, v.status) != (code, sig, p.status):
                sim.note_violation('outcome', 'exit %r signal %r was reported as %r' % (code, sig, (v.exitCode, v.signal, v.status)))
            out = v.output
        if list(out) != want_out:
            sim.note_violation('output', 'output %r was reported as %r' % (want_out, out))

    # statistics may fail when a process ends
    allowed = []
    if c.draw(4) == 0:
        def ending(p, old=hooks.ending):
            old(p)
            if p.k.bench and c.draw(2):
                sim.probe('statistics failed at exit')
                sim.fault('statistics unavailable')
                p.stats_broken = True
                which = c.pick(['diskstats', 'listdir', 'stat'])

                def broken(what, path):
                    if what == which:
                        raise OSError(errno.EIO, os.strerror(errno.EIO), path)
                m.break_look = broken

        def ended(p, old=hooks.ended):
            m.break_look = None
            old(p)
        hooks.ending = ending
        hooks.ended = ended
    # the kernel has the exit, the reactor has not seen all of it yet
    real_signal = proclab.SimProcess.signalProcess

    def signalProcess(p, sig):
        if p.pid is None:
            sim.faults['kill refused: already reaped'] += 1
            sim.probe('died idle, not yet reaped')
            p.no_kill = True
        return real_signal(p, sig)
    proclab.SimProcess.signalProcess = signalProcess
    try:
        for i in range(c.pick([1, 1, 2, 3])):
            k = Kid()
            kids.append(k)
            sim.after(c.draw(20) / 10.0, lambda k=k: launch(k), 'launch')
        if len(kids) > 1:
            sim.probe('several children')
        sim.sample = {'children': len(kids)}
        sim.run()
    finally:
        proclab.SimProcess.signalProcess = real_signal
    for k in kids:
        p = k.p
        sim.expect(p.ended, 'stuck', 'the child is still there: idle since %.3f, now %.3f', p.last, sim.now)
        sim.expect(len(k.results) == 1, 'lost', 'the Deferred fired %d times', len(k.results))
    errs = sim.take_errors()
    gone = sum(p.excused for p in made)
    while gone:
        # answering a child that is gone already
        gone -= 1
        for e in errs:
            if e[0] in ('KeyError', 'ProcessExitedAlready'):
                errs.remove(e)
                break
    sim.expect(not errs, 'log', 'errors were logged: %s', [e[:2] for e in errs])
