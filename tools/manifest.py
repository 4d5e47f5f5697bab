"""Writes /verif/MANIFEST.json from the checks present in /verif/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NOTE = json.load(open(here + '/tools/notes.json'))
PURE = {
 'X01': 'The numerical contract of a trained algorithm is a pure function of its data: no schedule, clock, I/O, fault or second party for a simulator to decide; random inputs without those would only be property-based testing.',
 'X02': 'inverse(execute(x)) is a pure function of x and the trained parameters; nothing for a simulated schedule or fault to change.',
 'X03': 'In-memory single-threaded graph algorithms without I/O, time or concurrency: a pure function of the edit sequence.',
 'X04': 'Switchboard connections are index arrays computed once from the constructor arguments: pure function, no schedule or fault.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in PURE:
        na.append({'property': i, 'reason': PURE[i]})
    elif os.path.exists('%s/checks/%s.py' % (here, i.lower())):
        n = NOTE.get(i, {})
        checks.append({'property': i, 'quick_cmd': './run %s --tier quick' % i,
                       'thorough_cmd': './run %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': n.get('technique', 'deterministic simulation with fault injection (seeded schedules and faults)'),
                       'level': n.get('level', 'exploration'),
                       'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': 'Not claimed yet: the simulated check is still being built.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were needed in /repo: all seams (threading, time, subprocess, files) are replaced in the harness process before mdp is imported.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
