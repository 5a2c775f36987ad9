"""
Seeded search over runs, minimisation, replay files, evidence.
"""
import gc
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import seams
from .choices import Choices

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('DST_WORKERS', '8'))
CPU_LIMIT = 25          # CPU seconds one run may take before it counts as hung
WALL_LIMIT = 240        # wall seconds, for runs that block


def load(prop):
    from . import core
    core.init_process()
    mod = importlib.import_module('dst.checks.%s' % prop.lower())
    gc.collect()
    gc.freeze()
    return mod


def run_seed(prop, base, index):
    h = hashlib.sha256(('%s:%s:%d' % (prop, base, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Watchdog(object):
    """Interrupts a run that does not come back."""

    def __init__(self):
        signal.signal(signal.SIGPROF, self.fire)
        signal.signal(signal.SIGALRM, self.fire)
        self.cpu = CPU_LIMIT

    def fire(self, num, frame):
        from . import core
        sim = seams.current
        if sim is not None:
            sim.hung = True
            signal.setitimer(signal.ITIMER_PROF, 1.0)
            raise core.Hang()

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, self.cpu)
        signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def execute(mod, choices, dog, keep_trace=False):
    from . import core
    with dog:
        return core.run_one(mod, choices, keep_trace)


def violation_json(v):
    return {'kind': v.kind, 'message': v.message}


# ---------------------------------------------------------------- workers

def worker(mod, prop, base, indexes, deadline, outpath, stopfile):
    dog = Watchdog()
    faults, probes = Counter(), Counter()
    hashes = set()
    nontrivial = set()
    n = 0
    sim_time = 0.0
    steps = 0
    samples = []
    found = None
    error = None
    done = []
    slowest = (0.0, -1)
    for index in indexes:
        if seams.real.time() > deadline or os.path.exists(stopfile):
            break
        seed = run_seed(prop, base, index)
        cpu = time.process_time()
        res = execute(mod, Choices(seed), dog)
        slowest = max(slowest, (round(time.process_time() - cpu, 2), index))
        if res.error is not None:
            error = {'index': index, 'seed': seed, 'traceback': res.error}
            break
        n += 1
        done.append(index)
        faults.update(res.faults)
        probes.update(res.probes)
        sim_time += res.sim_time
        steps += res.steps
        hashes.add(res.trace_hash)
        if res.nontrivial:
            nontrivial.add(res.trace_hash)
            if len(samples) < 2 and res.sample is not None:
                samples.append({'index': index, 'seed': seed, 'case': res.sample,
                                'faults': dict(res.faults)})
        if res.violation is not None:
            found = {'index': index, 'seed': seed, 'choices': res.choices,
                     'violation': violation_json(res.violation),
                     'trace_hash': res.trace_hash, 'prefix': done[:-1]}
            with open(stopfile, 'w'):
                pass
            break
    out = {'n': n, 'faults': faults, 'probes': probes, 'sim_time': sim_time,
           'steps': steps, 'hashes': sorted(hashes), 'nontrivial': sorted(nontrivial),
           'samples': samples, 'found': found, 'error': error, 'slowest': slowest}
    with open(outpath + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(outpath + '.tmp', outpath)


def fan_out(mod, prop, base, total, deadline, scratch):
    stopfile = os.path.join(scratch, 'stop')
    pids = {}
    for w in range(WORKERS):
        outpath = os.path.join(scratch, 'w%d.json' % w)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    worker(mod, prop, base, range(w, total, WORKERS), deadline,
                           outpath, stopfile)
                    code = 0
                except BaseException:
                    traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = outpath
    outs = []
    bad = []
    hard = deadline + WALL_LIMIT + 60
    pending = dict(pids)
    while pending:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if seams.real.time() > hard:
                for p in pending:
                    os.kill(p, signal.SIGKILL)
                bad.append('workers did not end in time')
                break
            seams.real.sleep(0.02)
            continue
        path = pending.pop(pid, None)
        if path is None:
            continue
        if status != 0 or not os.path.exists(path):
            bad.append('worker ended with status %r' % (status,))
            continue
        with open(path) as f:
            outs.append(json.load(f))
    return outs, bad


# ---------------------------------------------------------------- replay

def in_child(fn, scratch, name, timeout=400):
    """Run fn in a forked child, returning its JSON result (None if it died)."""
    path = os.path.join(scratch, name)
    if os.path.exists(path):
        os.unlink(path)
    pid = os.fork()
    if pid == 0:
        try:
            r = fn()
            with open(path + '.tmp', 'w') as f:
                json.dump(r, f)
            os.rename(path + '.tmp', path)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(0)
    end = seams.real.time() + timeout
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if seams.real.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        seams.real.sleep(0.005)
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return None


def replay_result(mod, prop, base, prefix, choices, dog, keep_trace=True):
    for index in prefix:
        execute(mod, Choices(run_seed(prop, base, index)), dog)
    res = execute(mod, Choices(replay=choices), dog, keep_trace)
    return res


def as_json(res):
    return {'violation': violation_json(res.violation) if res.violation else None,
            'trace_hash': res.trace_hash, 'trace': res.trace, 'error': res.error,
            'choices': res.choices, 'faults': dict(res.faults), 'sim_time': res.sim_time}


def shrink(mod, prop, base, prefix, choices, kind, budget_s):
    """
    Delete, zero and lower answers while a violation of the same kind remains.
    Each attempt runs in this (forked) process unless a prefix is needed.
    """
    dog = Watchdog()
    dog.cpu = 5
    end = seams.real.time() + budget_s
    tries = [0]

    def fails(cand):
        tries[0] += 1
        res = replay_result(mod, prop, base, prefix, cand, dog, False)
        if res.violation is not None and res.violation.kind == kind and res.error is None:
            return res.choices
        return None

    cur = list(choices)
    while cur and cur[-1] == 0:
        cur.pop()
    improved = True
    while improved and seams.real.time() < end:
        improved = False
        # delete blocks
        size = max(1, len(cur) // 2)
        while size >= 1 and seams.real.time() < end:
            i = 0
            while i < len(cur) and seams.real.time() < end:
                cand = cur[:i] + cur[i + size:]
                got = fails(cand)
                if got is not None:
                    while got and got[-1] == 0:
                        got.pop()
                    if (len(got), sum(got)) < (len(cur), sum(cur)):
                        cur = got
                        improved = True
                        continue
                i += size
            size //= 2
        # zero blocks
        size = max(1, len(cur) // 4)
        while size >= 1 and seams.real.time() < end:
            i = 0
            while i < len(cur) and seams.real.time() < end:
                if any(cur[i:i + size]):
                    cand = cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]
                    got = fails(cand)
                    if got is not None:
                        while got and got[-1] == 0:
                            got.pop()
                        if (len(got), sum(got)) < (len(cur), sum(cur)):
                            cur = got
                            improved = True
                i += size
            size //= 2
        # lower single answers
        i = 0
        while i < len(cur) and seams.real.time() < end:
            for v in (1, cur[i] // 2, cur[i] - 1):
                if 0 < v < cur[i]:
                    cand = cur[:i] + [v] + cur[i + 1:]
                    got = fails(cand)
                    if got is not None:
                        while got and got[-1] == 0:
                            got.pop()
                        if (len(got), sum(got)) < (len(cur), sum(cur)):
                            cur = got
                            improved = True
                            break
            i += 1
    return {'choices': cur, 'tries': tries[0]}


def report_violation(mod, prop, base, found, scratch):
    """
    Minimise, write the replay file, confirm it in a fresh process.
    Returns (path, confirmed data) or (None, why).
    """
    kind = found['violation']['kind']
    budget = float(os.environ.get('DST_SHRINK_S', '45'))
    if kind in ('hang',):
        budget = min(budget, 30)

    candidates = []
    # does it fail on its own?
    def alone(prefix):
        def go():
            return as_json(replay_result(mod, prop, base, prefix, found['choices'], Watchdog()))
        return in_child(go, scratch, 'alone.json')

    prefix = None
    p = found['prefix']
    options = [[]]
    k = 1
    while k < len(p):
        options.append(p[-k:])
        k *= 4
    if p:
        options.append(p)
    for opt in options:
        r = alone(opt)
        if r and r['violation'] and r['violation']['kind'] == kind:
            prefix = opt
            break
    if prefix is None:
        return None, 'the violation of run %d did not recur (%s)' % (found['index'], found['violation'])
    if len(prefix) <= 16:
        small = in_child(lambda: shrink(mod, prop, base, prefix, found['choices'], kind, budget),
                         scratch, 'shrunk.json', timeout=budget + 300)
        if small:
            candidates.append(small['choices'])
    candidates.append(found['choices'])
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    inexact = []
    for cand in candidates:
        r = in_child(lambda: as_json(replay_result(mod, prop, base, prefix, cand, Watchdog())),
                     scratch, 'final.json')
        if not r or not r['violation'] or r['violation']['kind'] != kind:
            continue
        path = os.path.join(rdir, '%s-%s.json' % (prop, r['trace_hash'][:10]))
        data = {'property': prop, 'verif_seed': base, 'run_index': found['index'],
                'run_seed': found['seed'], 'prefix_runs': prefix, 'choices': cand,
                'violation': r['violation'], 'trace_hash': r['trace_hash'],
                'faults': r['faults'], 'simulated_time': r['sim_time'], 'trace': r['trace'],
                'original_choices': len(found['choices'])}
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        # fresh process
        try:
            cp = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop,
                                 '--replay', path], stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            continue
        if cp.returncode == 1 and b'REPRODUCED' in cp.stdout:
            return path, data
        if cp.returncode == 1:
            inexact.append((path, data))
        else:
            os.unlink(path)
    # The code under test behaves differently each time (it uses something
    # that is not behind a seam), but violates the property the same way.
    for path, data in inexact:
        data['exact'] = False
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        again = [subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--replay', path],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400) for _ in range(2)]
        if all(cp.returncode == 1 and b'REPRODUCED' in cp.stdout for cp in again):
            return path, data
    return None, 'replay in a fresh process differs: %s' % (found['violation'],)


def do_replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    mod = load(prop)
    res = replay_result(mod, prop, data['verif_seed'], data.get('prefix_runs', []),
                        data['choices'], Watchdog())
    for line in res.trace:
        print(line)
    if res.error:
        print(res.error)
        return 2
    if res.violation is None:
        print('no violation on replay')
        return 0
    same = (violation_json(res.violation) == data['violation'] and
            res.trace_hash == data['trace_hash'])
    print('violation: %s: %s' % (res.violation.kind, res.violation.message))
    if not same and data.get('exact') is False and res.violation.kind == data['violation']['kind']:
        print('REPRODUCED in kind: the code under test is not deterministic here')
        same = True
    else:
        print('REPRODUCED exactly' if same else 'a violation, but not exactly the recorded one')
    if same:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


# ---------------------------------------------------------------- main

def main(argv):
    prop = argv[0]
    if '--replay' in argv:
        return do_replay(prop, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = seams.real.time()
    mod = load(prop)
    total = mod.RUNS[0] if tier == 'quick' else mod.RUNS[1]
    wall = 150 if tier == 'quick' else 3000
    if '--runs' in argv:
        total = int(argv[argv.index('--runs') + 1])
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='dst-')
    tempfile.tempdir = scratch
    try:
        return search(mod, prop, tier, base, total, t0, wall, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(mod, prop):
    """
    Demonstrate every listed known finding of this property on the real code.
    """
    lines = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    listed = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop):
                    listed.append(l[len('finding: property=%s ' % prop):])
    demos = getattr(mod, 'KNOWN', {})
    for text in listed:
        key = text.split()[0]
        demo = demos.get(key)
        if demo is None:
            lines.append((text, None))
        else:
            lines.append((text, demo))
    return lines


def search(mod, prop, tier, base, total, t0, wall, scratch):
    from . import core
    deadline = t0 + wall
    outs, bad = fan_out(mod, prop, base, total, deadline, scratch)
    tsearch = seams.real.time() - t0
    errors = [o['error'] for o in outs if o['error']]
    faults, probes = Counter(), Counter()
    hashes, nontriv = set(), set()
    n = steps = 0
    sim_time = 0.0
    samples = []
    slowest = (0.0, -1)
    founds = []
    for o in outs:
        n += o['n']
        steps += o['steps']
        sim_time += o['sim_time']
        faults.update(o['faults'])
        probes.update(o['probes'])
        hashes.update(o['hashes'])
        nontriv.update(o['nontrivial'])
        samples.extend(o['samples'])
        slowest = max(slowest, tuple(o['slowest']))
        if o['found']:
            founds.append(o['found'])
    status = 0
    violations = 0
    message = None
    if founds:
        founds.sort(key=lambda f: f['index'])
        whys = []
        for found in founds:
            path, data = report_violation(mod, prop, base, found, scratch)
            if path is not None:
                violations = 1
                status = 1
                print('violation: %s: %s' % (data['violation']['kind'], data['violation']['message']))
                print('seed: VERIF_SEED=%d run=%d; minimised from %d to %d decisions; faults %s' % (
                    base, found['index'], data['original_choices'], len(data['choices']),
                    data['faults']))
                for line in data['trace'][-40:]:
                    print('   ' + line)
                message = 'VIOLATION property=%s replay=%s' % (prop, path)
                break
            whys.append(data)
        else:
            status = 2
            message = 'ERROR: nondeterministic: ' + '; '.join(whys)
    if status == 0 and (errors or bad):
        status = 2
        message = 'ERROR in the machinery: %s %s' % (bad, errors[:1] and errors[0]['traceback'])
    if status == 0:
        for text, demo in known_findings(mod, prop):
            if demo is None or in_child(lambda: bool(demo_holds(demo)), scratch, 'known.json'):
                print('KNOWN-FINDING: property=%s %s' % (prop, text))
    missing = [p for p in getattr(mod, 'PROBES', []) if not probes.get(p)] + \
              ['fault:' + k for k in getattr(mod, 'FAULTS', []) if not faults.get(k)]
    wall_s = seams.real.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'wall_s': round(wall_s, 2), 'violations': violations,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': samples[:4],
            'distinct_interleavings': len(hashes),
            'interleaving_measure': 'distinct SHA-256 of the full event trace (every scheduled event, '
                                    'delivery, fault and observation, in order)',
            'simulated_steps': steps,
            'simulated_seconds': round(sim_time, 1),
            'runs_per_hour': int(n / max(tsearch, 0.001) * 3600),
            'seeds_per_hour': int(n / max(tsearch, 0.001) * 3600),
            'faults_injected': dict(sorted(faults.items())),
            'rare_conditions_hit': dict(sorted(probes.items())),
            'probes_never_hit': missing,
            'components_real': mod.REAL,
            'components_stubbed': mod.STUB,
            'runs_planned': total,
            'slowest_run': {'cpu_s': slowest[0], 'index': slowest[1], 'limit_s': CPU_LIMIT},
        },
    }
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d runs (%d planned), %d distinct interleavings, %d non-trivial, %.0f simulated s, %.1f s wall' % (
        prop, tier, n, total, len(hashes), len(nontriv), sim_time, wall_s))
    print('   slowest run: %.2f s CPU (run %d)' % slowest)
    print('   faults: %s' % (dict(sorted(faults.items())),))
    print('   probes: %s' % (dict(sorted(probes.items())),))
    if missing:
        print('   NEVER HIT: %s' % (missing,))
    if n == 0 and status == 0:
        status, message = 2, 'ERROR: nothing ran'
    if message:
        print(message)
    sys.stdout.flush()
    return status


def demo_holds(demo):
    from . import core

    class M(object):
        run = staticmethod(demo)
    res = core.run_one(M, Choices(replay=[]), True)
    return res.violation is not None
