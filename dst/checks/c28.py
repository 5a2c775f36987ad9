"""
C28: exploding a template writes every file it names, whole, or fails.

System: the real epsilon.asplode on real files in a scratch directory whose
opens, writes, closes and mkdirs fail, write short or are interrupted as the
seed says, while the (simulated) clock passes midnight.
"""
import errno
import os
import runpy
import shutil
import sys
import tempfile
import time
import warnings

from dst import seams
from dst.checks.c23 import Disk

RUNS = (8000, 250000)
RULE = ('seeded templates (files in new and existing directories, named twice, empty, with placeholders in names and text) x earlier contents x disk faults at any '
        'mkdir, open, write and close x interrupts x clocks that pass midnight; non-trivial: a fault was injected or a file was replaced')
REAL = ['epsilon.asplode', 'Python io buffering, a real scratch directory']
STUB = ['write/close/open/mkdir system calls (may fail)', 'clock (dst.core)', 'stderr (captured)']
PROBES = ['all written', 'file named twice', 'empty file', 'new directory', 'existing directory', 'no directory', 'placeholder in a name', 'replaced an older file',
          'date', 'midnight passed', 'large file', 'text before the first file', 'open failed', 'write failed', 'close failed', 'short write survived',
          'directory not made', 'file in the place of a directory', 'interrupted', 'from standard input', 'as a program', 'relative name', 'date in a name']
FAULTS = ['open error', 'write error', 'short write', 'close error', 'mkdir failed', 'interrupt']

_dir = None


def scratch():
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(prefix='dst-c28-')
        import atexit
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def tree(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            with seams.real.open(p, 'rb') as fo:
                out[os.path.relpath(p, top)] = fo.read()
    return out


class Err(object):
    def __init__(self):
        self.text = ''

    def write(self, t):
        self.text += t
        return len(t)

    def flush(self):
        pass


def run(sim):
    from epsilon import asplode
    seams.own_clock(asplode)
    c = sim.c
    top = scratch()
    for n in os.listdir(top):
        p = os.path.join(top, n)
        assert p.startswith(top + '/')
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    disk = Disk(sim, top)
    cwd = os.getcwd()
    os.chdir(top)
    try:
        explode(sim, asplode, top, disk)
    finally:
        os.chdir(cwd)


def explode(sim, asplode, top, disk):
    c = sim.c
    standard = c.draw(4) == 0
    proj, cap = ('zoop', 'Zoop') if standard else c.pick([('mine', 'Mine'), ('a', 'B'), ('x_date', 'X'), ('Zoop', 'zoop')])
    names = ['a.txt', 'd/b.py', 'd/e/c.py', '_project_/x.py', 'd/_Project_.cfg', 'old/there.txt', 'f/g/h/i.py', 'd/two words.txt', 'd/made-_date_.txt', '_date_/_project_']
    before = {}
    if c.draw(2):
        os.mkdir(os.path.join(top, 'old'))
        before['old/unrelated'] = b'keep me'
        if c.draw(2):
            before['old/there.txt'] = b'x' * c.pick([3, 9000])
    if c.draw(3) == 0:
        before['a.txt'] = b'an older one, which is longer than most'
    blocked = False
    if c.draw(8) == 0:
        before['d'] = b'not a directory'
    before['untouched'] = b'1'
    for n in before:
        with seams.real.open(os.path.join(top, n), 'wb') as f:
            f.write(before[n])
    midnight = c.draw(4) == 0
    start = [1600000000, 1609459199.5 if midnight else 1609400000][c.draw(2)]
    sim.slice_advance = start - sim_epoch()
    if midnight:
        sim.tick = lambda: setattr(sim, 'slice_advance', sim.slice_advance + c.draw(2) * 0.3)

    def subst(t, date):
        return t.replace('_project_', proj).replace('_Project_', cap).replace('_date_', date)
    lines, files = [], []         # files: [name as written, [lines]]
    lead = c.draw(15) == 0
    if lead:
        sim.probe('text before the first file')
        lines.append('lost text\n')
    for i in range(1 + c.draw(5)):
        n = c.pick(names)
        if '_date_' in n:
            if midnight:
                n = 'a.txt'      # (which of the two dates is up to the code)
            else:
                sim.probe('date in a name')
        rel = bool(c.draw(2))
        shown = n if rel else os.path.join(top, n)
        if rel:
            sim.probe('relative name')
        lines.append(c.pick(['###file:', '# ###file: ', '###file:   ', '// ###file: ', ' ###file:']) + shown + c.pick(['\n', '  \n', '\r\n'] if c.draw(2) else ['\n']))
        body = []
        for k in range(c.draw(5)):
            body.append(c.pick(['text\n', '_project_ by _Project_\n', '\n', 'made _date_\n', 'tab\tand \u00e9\u20ac\n', '__project__ _PROJECT_\n', '# file: no\n',
                                'y' * 5000 + '\n', '\u00e9' * 4100 + '\n', '_date_ to _date_ by _project_, _project_ (_Project_/_Project_)\n']))
        if c.draw(6) == 0:
            body.append('no end of line')
            if i < 0:
                body.append('\n')
        lines += body
        files.append((n, body, shown))
    if lines[-1] == 'no end of line':
        pass
    # how lines come: as readlines() would give them
    text = ''.join(lines)
    lines = text.splitlines(True) if False else lines
    if any('no end of line' == l for l in lines[:-1]):
        # only the last line of a file can be without an end
        lines = [l if l != 'no end of line' or i == len(lines) - 1 else 'no end of line\n' for i, l in enumerate(lines)]
        files = [(n, [('no end of line\n' if l == 'no end of line' and (fi < len(files) - 1) else l) for l in b], s) for fi, (n, b, s) in enumerate(files)]
    # -- faults
    k = c.draw(9)
    interrupt = None
    mkdirs = [None]
    if k == 1:
        disk.skip_open = c.draw(4)
        disk.open_error = c.pick([errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE])
    elif k == 2:
        disk.plan = [None] * c.draw(5) + [('error', c.pick([errno.ENOSPC, errno.EIO]), c.pick([0, 1, 500]))]
    elif k == 3:
        disk.plan = [c.pick([None, ('short', c.pick([1, 100, 3]))]) for _ in range(c.draw(8))]
    elif k == 4:
        disk.skip_close = c.draw(4)
        disk.close_error = c.pick([errno.EIO, errno.ENOSPC])
    elif k == 7:
        disk.move_error = c.pick([errno.EIO, errno.ENOSPC])
    elif k in (5, 6):
        mkdirs = [None] * c.draw(4) + [c.pick([errno.EACCES, errno.ENOSPC, errno.EROFS]) if k == 5 else 'interrupt']
    sim.files = disk
    real_mkdir = os.mkdir
    hit = []

    def mkdir(path, *a, **kw):
        plan = mkdirs.pop(0) if mkdirs else None
        sim.trace('mkdir', os.fspath(path).replace(top, ''), plan)
        if plan is not None:
            hit.append(plan)
            if plan == 'interrupt':
                sim.fault('interrupt')
                sim.probe('interrupted')
                raise KeyboardInterrupt()
            sim.fault('mkdir failed')
            sim.probe('directory not made')
            raise OSError(plan, os.strerror(plan), path)
        return real_mkdir(path, *a, **kw)
    os.mkdir = mkdir
    old_err, old_in = sys.stderr, sys.stdin
    sys.stderr = err = Err()
    problem = None
    first = sim_epoch() + sim.slice_advance
    try:
        try:
            if standard:
                sim.probe('from standard input')
                import io
                sys.stdin = io.StringIO(''.join(lines), newline='')
                if c.draw(2):
                    sim.probe('as a program')
                    argv, sys.argv = sys.argv, ['asplode']
                    dt = sys.modules['datetime']
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            sys.modules['datetime'] = seams.datetime_module
                            runpy.run_module('epsilon.asplode', run_name='__main__')
                    finally:
                        sys.argv = argv
                        sys.modules['datetime'] = dt
                else:
                    asplode.main(['asplode'])
            else:
                asplode.splode(iter(lines) if c.draw(2) else list(lines), proj, cap)
        except (Exception, KeyboardInterrupt) as e:
            problem = e
    finally:
        os.mkdir = real_mkdir
        sys.stderr, sys.stdin = old_err, old_in
        sim.files = None
        sim.tick = None
    last = sim_epoch() + sim.slice_advance
    import gc
    tb, what = None, None if problem is None else (type(problem).__name__, str(problem)[:100].replace(top, '...'))
    was_interrupt = isinstance(problem, KeyboardInterrupt)
    problem = problem is not None
    gc.collect()                 # close what was left open
    sim.trace('done', what)
    dates = sorted(set(time.strftime('%Y-%m-%d', time.localtime(t)) for t in (first, last)))
    if len(dates) > 1:
        sim.probe('midnight passed')
    after = tree(top)
    # -- what should be there
    want = {}                   # name -> last contents (list of possibilities per line)
    order = []
    for n, body, shown in files:
        n2 = subst(n, dates[0])
        if n2 in want:
            sim.probe('file named twice')
        want[n2] = body
        order.append(shown)
        sim.probe('new directory' if '/' in n2 and not n2.startswith('old') else 'existing directory' if '/' in n2 else 'no directory')
        if n2 != n:
            sim.probe('placeholder in a name')
        if not body:
            sim.probe('empty file')
        if sum(map(len, body)) > 8192:
            sim.probe('large file')
        if n2 in before:
            sim.probe('replaced an older file')
            sim.nontrivial = True
        if any('_date_' in l for l in body):
            sim.probe('date')
    for n in sorted(before):
        if n not in want and not any(w.startswith(n + '/') for w in want):
            sim.expect(after.get(n) == before[n], 'other files', '%s was changed', n)
    for n in sorted(after):
        sim.expect(n in want or n in before, 'other files', '%s was created', n)

    def contents(body):
        out = ['']
        for l in body:
            out = [o + v for o in out for v in set(subst(l, d) for d in dates)]
        return [o.encode('utf-8') for o in out]
    blocked = 'd' in before and any(n.startswith('d/') for n in want)
    if blocked:
        sim.probe('file in the place of a directory')
    if disk.failed or hit or sim.faults['short write']:
        sim.nontrivial = True
    if hit and hit[0] == 'interrupt':
        sim.expect(problem and was_interrupt, 'interrupt', 'an interrupt was swallowed (%s)', what)
    told = [l for l in err.text.split('\n') if l]
    sim.expect(len(told) <= disk.opened, 'told', '%d files were reported, but only %d opened', len(told), disk.opened)
    for shown, t in zip(order, told):
        sim.expect(subst(shown, dates[0]) in t, 'told', 'a file is not named in the report')
    if problem:
        cause = disk.failed or hit or blocked or lead
        sim.expect(cause, 'raised', 'failed without a cause: %s', what)
        if disk.failed:
            sim.probe('open failed' if sim.faults['open error'] else 'write failed' if sim.faults['write error'] else 'close failed')
    else:
        sim.expect(not lead, 'lost', 'text that belongs to no file was dropped')
        sim.expect(not blocked, 'lost', 'a directory could not be made, and that was not reported')
        sim.expect(not disk.failed, 'lost', 'a file could not be stored, and that was not reported')
        for n in sorted(want):
            sim.expect(n in after, 'lost', '%s was not written', n)
            sim.expect(after[n] in contents(want[n]), 'contents', '%s is %r', n, after[n][:80])
        sim.probe('all written')
        if sim.faults['short write']:
            sim.probe('short write survived')
        sim.expect(len(told) == len(order), 'told', '%d files, %d reported', len(order), len(told))
    sim.sample = {'files': len(files), 'fault': k}


def sim_epoch():
    from dst import core
    return core.EPOCH
