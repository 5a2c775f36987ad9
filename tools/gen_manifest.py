"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
 'N01': 'Pure function of its input: no schedule, clock, I/O or concurrency to simulate (time zone data and regular expressions only).',
 'N02': 'Pure function of its input: index arithmetic over an immutable sequence; nothing to schedule or to fail.',
 'N03': 'Pure function of its input: string comparison; nothing to schedule or to fail.',
 'N06': 'Pure argument binding; the concurrent part of structlike is decided as C22.',
}
LEVEL_NOTE = ('Seeded sampling of schedules, timings and faults in a deterministic simulator with the real code of the '
              'property under test; a clean run is evidence over the runs counted in the evidence file, not proof. '
              'Trusted: the simulated transport/reactor/disk in dst/ and the reference model in the check.')
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'dst', 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults, reference-model oracle, minimised replay',
            'level': 'exploration',
            'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is an existing one (transports, reactor, deferreds, callables) or a '
              'standard-library entry point replaced in the simulator process (time, urandom, open, os.read/os.write, datetime).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
