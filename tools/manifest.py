"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTE = {
    'exploration': 'runtime monitoring of the real code: held on the executions listed in the evidence file; nothing is claimed about inputs '
                   'outside the sampled feature space. Trusted: CasADi expression evaluation, NumPy, the reference model in mon/.',
    'fault_enumeration': 'runtime monitoring of the real code under an enumerated grid of injected solver outcomes; held on the executions listed '
                         'in the evidence file. Trusted: CasADi expression evaluation, NumPy, the scripted NLP solver and the reference model in mon/.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    if not line.strip():
        continue
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='check under construction'))
        continue
    m = importlib.import_module('checks.' + pid.lower())
    checks.append(dict(property=pid, quick_cmd=f'./run.sh {pid}', thorough_cmd=f'./run.sh {pid} --tier thorough',
                       evidence_file=f'evidence/{pid}.json', technique=m.TECH if hasattr(m, 'TECH') else
                       'runtime monitoring: instrumented executions at the NLP solver boundary judged by a reference model',
                       level=m.LEVEL, level_note=NOTE[m.LEVEL]))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Pure Python: no build step; the checks import nosnoc from /repo. No hooks in /repo: the instrumentation replaces '
                     'casadi.nlpsol as seen by nosnoc (mon/env.py).'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
