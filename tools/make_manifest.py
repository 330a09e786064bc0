"""Writes MANIFEST.json from the checks which exist"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECHNIQUE = {
    'bfs': 'explicit-state exploration of the real code: breadth-first over every operation sequence up to a depth, in lockstep with a reference model',
    'hist': 'bounded exhaustive exploration of the real code: every history up to a depth from every configuration, in lockstep with a reference model',
    'conf': 'bounded exhaustive enumeration of executions of the real code over all configurations and inputs of finite alphabets, each compared with a reference model',
    'fault': 'exhaustive fault injection on the real code: an error at every call of every run, for each configuration, with invariants checked after each',
    'inter': 'exhaustive interleaving of the operations of several objects on the real code, compared with each object alone',
}
KIND = {'C01': 'conf', 'C02': 'bfs', 'C03': 'bfs', 'C04': 'bfs', 'C05': 'bfs', 'C06': 'conf', 'C10': 'conf', 'C11': 'conf', 'C12': 'bfs',
        'C13': 'conf', 'C15': 'hist', 'C16': 'conf', 'C17': 'bfs', 'C20': 'inter', 'C24': 'hist', 'C25': 'fault', 'C28': 'conf', 'C29': 'conf', 'C30': 'conf', 'C31': 'inter', 'C32': 'hist'}

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'mc', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': pid, 'reason': 'the check is not built yet'})
        continue
    code = ('import json, sys; import mc.checks.%s as m; print(json.dumps([m.BOUND["quick"], list(getattr(m, "ASSUMPTIONS", []))]))' % pid.lower())
    out = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import mc.core; ' + code], cwd=ROOT, capture_output=True, text=True, check=True)
    bound, assume = json.loads(out.stdout.splitlines()[-1])
    note = ('Holds on every execution within the bound, on the code itself (no model in between): ' + bound + '. Beyond the bound nothing is shown; '
            'trusted are the reference in mc/ and numpy.')
    if assume:
        note += ' Assumes: ' + '; '.join(assume) + '.'
    checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick', 'thorough_cmd': f'./check {pid} --tier thorough',
                   'technique': TECHNIQUE[KIND.get(pid, 'hist')], 'level': 'model_checking', 'level_note': note})
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
       'notes': 'No hooks are needed in the code: all checks go through the public API, with stand-ins for the model, the storage and the solver.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
    json.dump(man, fp, indent=1)
print(len(checks), 'checks', len(missing), 'missing')
