"""
C26: tracing can be switched on and off at any moment, reports what happens,
and does not disturb the traced program.

System: the real epsilon.spewer Tracer and Spewer, the real sys.settrace and
threading.settrace, and a seeded program of nested calls, exceptions and
threads, in real threads that run one at a time.  The program itself switches
tracing on and off, from calls and from (simulated) signal handlers.
"""
import re
import sys
import threading

from dst import core, spewprog, threads

RUNS = (6000, 150000)
RULE = ('seeded call trees (functions of every signature kind, methods, exceptions that are caught, pass or are cleaned up after) x 1-3 threads, some started while '
        'tracing x install, uninstall, toggle at any point of the program x hooks that skip functions or take them over; non-trivial: tracing was switched while '
        'calls were in progress, or several threads ran')
REAL = ['epsilon.spewer Tracer, Spewer', 'sys.settrace, threading.settrace', 'Python threads (one at a time)']
STUB = ['thread scheduling (dst.threads)', 'the traced program (dst.spewprog, scripted)', 'stdout (captured)']
ASSUMPTIONS = ['Tracing is a property of a thread: switching it concerns the thread that does it and threads started later',
               'the spewer can write its output']
PROBES = ['long argument', 'spewer', 'hooks', 'switched on in the middle', 'switched off in the middle', 'switched off and on in one call', 'toggled', 'exception passed', 'exception caught',
          'skipped', 'taken over', 'thread started while traced', 'thread started after tracing', 'several threads', 'argument that cannot be printed', 'nested',
          'installed twice', 'keyword-only argument', 'method', 'never installed', 'traced from start to end', 'two calls one after the other', 'second tracer', 'result that counts as false',
          'object that counts as false', 'object whose truth cannot be told', 'argument that is gone', 'trace function that counts as false']
FAULTS = ['argument that cannot be printed', 'thread interrupted', 'exception']

KINDS = ['plain', 'catching', 'cleaning', 'nothing', 'hollow', 'several', 'keyword', 'method', 'inner', 'void', 'forgetful']
FILE = spewprog.__file__


class Unprintable(object):
    def __repr__(self):
        raise ZeroDivisionError('no')


class Long(object):
    def __repr__(self):
        return '<long ' + 6000 * '-' + ' end>'


class Node(object):
    pass


class Hollow(object):
    """A trace function that counts as false."""
    def __init__(self, function):
        self.function = function

    def __bool__(self):
        return False

    def __call__(self, *a):
        self.function(*a)
        return self


class Output(object):
    """stdout; each thread has its own."""
    def __init__(self):
        self.by_thread = {}

    def write(self, text):
        k = threads.me()
        self.by_thread[k] = self.by_thread.get(k, '') + text
        return len(text)

    def flush(self):
        pass


class Program(object):
    def __init__(self, sim, tracer, spew, out):
        self.sim, self.tracer, self.spew, self.out = sim, tracer, spew, out
        self.nodes = []
        self.on = {}             # thread -> traced?
        self.ever = set()        # threads that were traced at some time
        self.later = False       # will new threads be traced?
        self.epoch = {}          # thread -> number of switches
        self.expected = {}       # thread -> [(event, node, must be reported)]
        self.frames = {}         # thread -> stack of the frames in progress
        self.switched = 0
        self.sched = threads.Scheduler(sim)
        self.budget = 26

    # -- making it

    def make(self, depth):
        c = self.sim.c
        n = Node()
        n.id = len(self.nodes)
        self.nodes.append(n)
        n.kind = c.pick(KINDS)
        n.how = c.pick(['', '', '', 'skip', 'take over'])
        n.raises = c.draw(4) == 0
        n.extra = [c.pick([1, 'x', None, Unprintable, 1, Long]) for _ in range(c.draw(3))]
        n.ops = []
        for i in range(c.draw(4)):
            k = c.draw(9)
            if k < 5 and depth < 4 and self.budget > 0:
                self.budget -= 1
                n.ops.append(('call', self.make(depth + 1), c.draw(3) != 0))
            elif k == 5:
                n.ops.append(('switch', c.pick(['install', 'uninstall', 'toggle', 'toggle'])))
            elif k == 6 and depth < 3 and len(self.sched.threads) + self.threads < 3:
                self.threads += 1
                n.ops.append(('thread', self.make(depth + 1)))
            elif k == 7:
                n.ops.append(('pause',))
        return n
    threads = 0

    # -- running it (called by the traced functions)

    def me(self):
        return threads.me()

    def work(self, n):
        me = self.me()
        for op in self.nodes[n].ops:
            if op[0] == 'call':
                try:
                    self.invoke(op[1])
                except spewprog.Boom:
                    # the exception gets to where invoke was called, which is
                    # not the program; whether it goes on is up to the node
                    if not op[2]:
                        self.event(me, 'exception', self.frames[me][-1])
                        raise
            elif op[0] == 'switch':
                self.switch(op[1])
            elif op[0] == 'thread':
                self.fork(op[1])
            else:
                self.sim.faults['thread interrupted'] += 1
                self.sched.pause()
        if self.nodes[n].raises:
            self.sim.fault('exception')
            self.event(me, 'exception', self.frames[me][-1])
        return self.nodes[n].raises

    def caught(self, n):
        self.sim.probe('exception caught')

    def cleaned(self, n):
        pass

    def event(self, me, what, frame):
        """what happens in frame now: is it to be reported?"""
        if not frame['traced'] and not frame['taken']:
            return
        # the interpreter may or may not report what happens in a call during
        # which tracing was off
        must = frame['epoch'] == self.epoch.get(me, 0)
        if must or self.on.get(me):
            self.expected.setdefault(me, []).append((what, frame['node'].id, must, frame['taken']))

    def invoke(self, node):
        sim, me = self.sim, self.me()
        on = bool(self.on.get(me))
        spew = self.spew
        f = {'node': node, 'traced': on and (spew or node.how == ''), 'taken': on and not spew and node.how == 'take over',
             'epoch': self.epoch.get(me, 0)}
        if on:
            self.expected.setdefault(me, []).append(('call', node.id, True, False))
            if not spew and node.how:
                sim.probe('skipped' if node.how == 'skip' else 'taken over')
            if Long in node.extra and node.kind in ('several', 'keyword') and spew:
                sim.probe('long argument')
            if any(x is Unprintable for x in node.extra) and node.kind in ('several', 'keyword') and spew:
                sim.probe('argument that cannot be printed')
                sim.fault('argument that cannot be printed')
        stack = self.frames.setdefault(me, [])
        if len(stack) > 1:
            sim.probe('nested')
        stack.append(f)
        sim.trace('call', node.id, on)
        failed = None
        try:
            try:
                self.call(node)
            except spewprog.Boom as e:
                failed = e
            except (core.StopRun, core.Violation):
                raise
            except BaseException as e:
                sim.note_violation('disturbed', '%s raised %s: %s' % (node.kind, type(e).__name__, str(e)[:120]))
                raise core.StopRun()
        finally:
            stack.pop()
        self.event(me, 'return', f)
        sim.trace('returned', node.id, failed is not None)
        if failed is not None:
            if not self.fails(node):
                sim.note_violation('disturbed', 'a call raised %r' % (failed,))
            sim.probe('exception passed')
            raise failed.with_traceback(None)
        if self.fails(node):
            sim.note_violation('disturbed', 'a call did not raise')
        want = None if node.kind == 'nothing' else (node.id, 'caught' if node.kind == 'catching' and self.booms(node) else None)
        if node.got != want:
            sim.note_violation('disturbed', 'a call returned %r instead of %r' % (node.got, want))

    def booms(self, node):
        """Does an exception arise in node (raised there, or by a call it lets through)?"""
        for op in node.ops:
            if op[0] == 'call' and not op[2] and self.fails(op[1]):
                return True
        return node.raises

    def fails(self, node):
        return node.kind != 'catching' and self.booms(node)

    def extra(self, node):
        return [x() if x in (Unprintable, Long) else x for x in node.extra]

    def call(self, node):
        # (this function may be traced too, so it should not return what the
        # program returned)
        k, n = node.kind, node.id
        if k == 'hollow':
            self.sim.probe('result that counts as false')
        if k == 'method':
            self.sim.probe('method')
            node.got = spewprog.Thing().method(n, self)
        elif k == 'inner':
            node.got = spewprog.Thing.Inner().method(n, self, *self.extra(node)[:1])
        elif k == 'void':
            touchy = n % 2 == 1
            self.sim.probe('object whose truth cannot be told' if touchy else 'object that counts as false')
            node.got = spewprog.Void(touchy).method(n, self)
        elif k == 'several':
            node.got = spewprog.several(n, self, *self.extra(node), name='kw')
        elif k == 'keyword':
            self.sim.probe('keyword-only argument')
            node.got = spewprog.keyword(n, self, *self.extra(node), option=n + 1000, other=1)
        else:
            if k == 'forgetful':
                self.sim.probe('argument that is gone')
            node.got = getattr(spewprog, k)(n, self)

    def switch(self, how):
        sim, me = self.sim, self.me()
        was = self.tracer.installed
        sim.trace('switch', how)
        if how == 'install' and was:
            sim.probe('installed twice')
        if how == 'toggle':
            sim.probe('toggled')
        try:
            getattr(self.tracer, how)()
        except Exception as e:
            sim.note_violation('switch', '%s raised %s: %s' % (how, type(e).__name__, str(e)[:150]))
            raise core.StopRun()
        now = {'install': True, 'uninstall': False, 'toggle': not was}[how]
        if bool(self.tracer.installed) != now:
            sim.note_violation('switch', 'after %s, installed is %r' % (how, self.tracer.installed))
        before = self.on.get(me)
        self.on[me] = self.later = now
        if now:
            self.ever.add(me)
        if bool(before) != now:
            self.epoch[me] = self.epoch.get(me, 0) + 1
        if self.frames.get(me):
            self.switched += 1
            if now and not before:
                sim.probe('switched on in the middle')
                if self.epoch[me] > 2:
                    sim.probe('switched off and on in one call')
            elif before and not now:
                sim.probe('switched off in the middle')

    def fork(self, node):
        sim = self.sim
        name = 't%d' % (len(self.sched.threads),)
        on = self.later
        sim.probe('thread started while traced' if on else 'thread started after tracing' if self.switched else 'several threads')
        sim.probe('several threads')

        def body():
            self.on[self.me()] = on
            if on:
                self.ever.add(self.me())
            self.top(node)
        t = self.sched.add(name, body)
        self.sched.start(t)

    def top(self, node):
        try:
            self.invoke(node)
        except spewprog.Boom:
            pass


def run(sim):
    from epsilon import spewer
    c = sim.c
    spew = c.draw(2) == 0
    falsy = c.draw(3) == 0
    out = Output()
    lines = set()           # (thread, node)
    seen = {}               # thread -> [(event, node, taken over)]

    def record(event, frame, taken=False):
        if frame.f_code.co_filename == FILE and 'n' in frame.f_locals:
            seen.setdefault(threads.me(), []).append((event, frame.f_locals['n'], taken))

    class Hooks(spewer.Tracer):
        def trace_CALL(self, frame, arg):
            record('call', frame)
            if frame.f_code.co_filename == FILE and 'n' in frame.f_locals:
                how = prog.nodes[frame.f_locals['n']].how
                if how == 'skip':
                    return self.skip
                if how == 'take over':
                    if falsy:
                        sim.probe('trace function that counts as false')
                        return Hollow(self.other)
                    return self.other

        def trace_LINE(self, frame, arg):
            if frame.f_code.co_filename == FILE and 'n' in frame.f_locals:
                lines.add((threads.me(), frame.f_locals['n']))

        def trace_RETURN(self, frame, arg):
            record('return', frame)

        def trace_EXCEPTION(self, frame, arg):
            record('exception', frame)

        def other(self, frame, event, arg):
            if event in ('return', 'exception'):
                record(event, frame, True)
            return self.other
    tracer = spewer.Spewer() if spew else Hooks()
    sim.probe('spewer' if spew else 'hooks')
    prog = Program(sim, tracer, spew, out)
    sim.expect(not tracer.installed, 'switch', 'installed from the beginning')
    other = spewer.Spewer() if c.draw(2) else spewer.Tracer()
    root = prog.make(0)
    root3 = prog.make(1) if c.draw(2) else None
    first = c.draw(4)
    switches = first != 3 or any(op[0] == 'switch' for n in prog.nodes for op in n.ops)
    if not switches:
        sim.probe('never installed')

    def main():
        if first != 3:
            prog.switch('install' if first else 'toggle')
        prog.top(root)
        if root3 is not None:
            sim.probe('two calls one after the other')
            prog.top(root3)
        if c.draw(2):
            prog.switch('uninstall')
            prog.top(root2)
    n_before = len(prog.nodes)
    root2 = prog.make(2)
    sim.sample = {'nodes': len(prog.nodes), 'spewer': spew, 'threads': prog.threads}
    old = sys.stdout
    sys.stdout = out
    try:
        prog.sched.add('main', main)
        prog.sched.run()
    finally:
        sys.stdout = old
        threading.settrace(None)
    for t in prog.sched.threads:
        t.thread.join()
        if t.error is not None and not isinstance(t.error, core.StopRun):
            if isinstance(t.error, (core.Violation, core.TooManyChoices)):
                raise t.error
            raise core.HarnessError('%s: %r' % (t.name, t.error))
    sim.check()
    if tracer.installed:
        sim.probe('second tracer')
    sim.expect(not other.installed, 'switch', 'a tracer that was never installed says it is')
    if len(prog.sched.threads) > 1 or prog.switched:
        sim.nontrivial = True
    for t in prog.sched.threads:
        me = t
        want = prog.expected.get(me, [])
        if spew:
            printed(sim, prog, t, want, out.by_thread.get(me, ''), [r.id for r in (root, root3) if r is not None])
        else:
            have = seen.get(me, [])
            match(sim, t.name, want, have)
            for what, n, must, taken in want:
                if what == 'return' and must and not taken:
                    sim.expect((me, n) in lines, 'report', 'no line of call %d was reported', n)
                if (what, taken) == ('return', True):
                    sim.expect((me, n) not in lines, 'report', 'a line of call %d, which was taken over, was reported', n)
    if switches and not prog.switched and first != 3:
        sim.probe('traced from start to end')


def match(sim, name, want, have):
    """have is want, except that events which need not be reported may be missing."""
    i = 0
    for what, n, must, taken in want:
        if i < len(have) and have[i] == (what, n, taken):
            i += 1
        elif must:
            sim.violate('report', 'thread %s: %s of call %d was not reported (but %s)' % (name, what, n, have[i:i + 1]))
    if i < len(have):
        sim.violate('report', 'thread %s: reported %s, which did not happen' % (name, have[i]))


def printed(sim, prog, t, want, text, roots):
    have = []
    tops, shallowest = set(), None
    ident = '%X' % id(t.thread)
    lines = []
    for line in text.split('\n'):
        if lines and not line.startswith(ident + ' '):
            # how values that cannot be printed are shown takes several lines
            lines[-1] += '\n' + line
        else:
            lines.append(line)
    lines[-1:] = [lines[-1].rstrip('\n')]
    for line in lines:
        if not line:
            continue
        m = re.match(r'(?s)^([0-9A-F]+)( +)(.*)$', line)
        if m is None or m.group(1) != ident:
            sim.violate('output', 'thread %s printed %r' % (t.name, re.sub('[0-9A-Fa-f]{6,}', '...', line[:120])))
        rest = m.group(3)
        k = re.match(r'(?s)^(?:dst\.spewprog\.)?([\w.]*?)\((.*)\)$', rest)
        if k and not rest.startswith(('<= ', '^- ')):
            if k.group(1) == 'dst.checks.c26.Program.top':
                tops.add(len(m.group(2)))
            shallowest = min(shallowest or 1000, len(m.group(2)))
        if rest.startswith('<= '):
            v = re.match(r"^<= \((\d+), (None|'caught')\)$", rest)
            if v:
                have.append(('return', int(v.group(1)), m.group(2), rest))
        elif rest.startswith('^- '):
            pass
        elif k and re.search(r'\bprog=<dst\.checks\.c26\.Program', k.group(2)):
            a = re.search(r'\bn=(\d+)', k.group(2))
            have.append(('call', int(a.group(1)), m.group(2), rest))
    expected = [w for w in want if w[0] in ('call', 'return')]
    # a call that ends with an exception, or returns None, prints nothing
    expected = [w for w in expected if not (w[0] == 'return' and (prog.nodes[w[1]].kind == 'nothing' or prog.fails(prog.nodes[w[1]])))]
    match(sim, t.name, [w[:3] + (False,) for w in expected], [h[:2] + (False,) for h in have])
    for what, n, blank, rest in have:
        if what != 'call':
            continue
        node = prog.nodes[n]
        names = {'method': 'dst.spewprog.Thing.method', 'void': 'dst.spewprog.Void.method', 'inner': 'dst.spewprog.Thing.Inner.method'}
        name = names.get(node.kind, node.kind)
        shown = rest.split('(', 1)[0]
        sim.expect(shown in (name, name.replace('Thing.Inner', 'Inner')), 'output', 'call of %s shown as %s', name, shown)
        args = []
        if node.kind in ('several', 'keyword'):
            args = ['args=(' if not any(x is Unprintable for x in node.extra) else 'args=', 'kw={']
        if args and Long in node.extra and Unprintable not in node.extra:
            args.append(repr(Long()))
        if node.kind == 'keyword':
            args.append('option=%d' % (n + 1000))
        for a in args:
            sim.expect(a in rest, 'output', 'argument %s not shown in the call of %s', a, shown)
    # exceptions
    booms = [w for w in want if w[0] == 'exception' and w[2]]
    shown = [l for l in lines if re.match(r'^[0-9A-F]+ +\^- .*\bBoom(?:Stop|Key|Attribute)?\b', l)]
    sim.expect(len(shown) >= len(booms), 'output', 'of %d exceptions, %d were shown', len(booms), len(shown))
    if t not in prog.ever:
        sim.expect(not text, 'output', 'thread %s was never traced, but shown', t.name)
    # indentation, if nothing else was going on
    if prog.switched or len(prog.sched.threads) > 1:
        return
    open_ = []
    depth = {}
    for what, n, blank, rest in have:
        depth.setdefault(n, len(blank))
    parents = {}

    def walk(node):
        for op in node.ops:
            if op[0] == 'call':
                parents[op[1].id] = node.id
                walk(op[1])
    for node in prog.nodes:
        walk(node)
    for n, p in sorted(parents.items()):
        if n in depth and p in depth:
            sim.expect(depth[n] > depth[p], 'output', 'call %d, made by %d, is not indented under it', n, p)
    sim.expect(tops <= set([shallowest]), 'output', 'the outermost calls are indented by %s, others by %s', sorted(tops), shallowest)
    same = set(depth[n] for n in roots if n in depth)
    sim.expect(len(same) <= 1, 'output', 'calls made one after the other are indented differently: %s', sorted(same))
    for p in set(parents.values()):
        same = set(depth[n] for n in parents if parents[n] == p and n in depth)
        sim.expect(len(same) <= 1, 'output', 'calls made by %d are indented differently: %s', p, sorted(same))
