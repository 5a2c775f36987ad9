"""
Shows that one seed is one execution: the trace hashes of the same seeds, run
in different processes, in opposite orders and under different hash seeds,
have to be equal.  Usage: determinism.py [--runs N] [PROPERTY...]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def emit(prop, n, backwards):
    sys.path.insert(0, HERE)
    from dst import runner
    from dst.choices import Choices
    mod = runner.load(prop)
    dog = runner.Watchdog()
    out = {}
    order = range(n - 1, -1, -1) if backwards else range(n)
    for i in order:
        res = runner.execute(mod, Choices(runner.run_seed(prop, '1', i)), dog)
        out[i] = [res.trace_hash, len(res.choices), str(res.violation), bool(res.error)]
    print(json.dumps([out[i] for i in range(n)]))


def start(prop, n, backwards, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, TZ='UTC', PYTHONPATH='', PYTHONNOUSERSITE='1',
               PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([PY, os.path.abspath(__file__), '--emit', prop, str(n), str(int(backwards))],
                            env=env, stdout=subprocess.PIPE, cwd=HERE)


def main(args):
    n = 300
    if args[:1] == ['--runs']:
        n = int(args[1])
        args = args[2:]
    props = args or ['C%02d' % i for i in range(1, 32)]
    bad = 0
    for prop in props:
        ps = [start(prop, n, False, '0'), start(prop, n, True, '0'), start(prop, n, False, '4711')]
        outs = [json.loads(p.communicate()[0].decode().splitlines()[-1]) for p in ps]
        differ = [i for i in range(n) if not outs[0][i] == outs[1][i] == outs[2][i]]
        print('%s: %d seeds, %d distinct traces, %s' % (
            prop, n, len({o[0] for o in outs[0]}), 'identical' if not differ else 'DIFFERENT %r' % differ[:10]))
        bad += bool(differ)
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--emit']:
        emit(sys.argv[2], int(sys.argv[3]), sys.argv[4] == '1')
    else:
        sys.exit(main(sys.argv[1:]))
