#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (python3 tools/gen_manifest.py)."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python run.py '
BFS = 'explicit-state model checking: BFS over reachable states, each reached by replaying its history on the real code, against a reference model'
HIST = 'stateless model checking: every history of calls up to a depth run on the real objects, against a reference model'
ENUM = 'stateless model checking: exhaustive bounded enumeration of executions of the real code, against a reference model'
TECH = {'C02': BFS, 'C03': BFS, 'C04': BFS, 'C06': BFS, 'C19': BFS, 'C08': HIST, 'C21': HIST, 'C24': HIST, 'C23': HIST, 'C09': HIST,
        'C10': HIST, 'C27': HIST,
        'C30': 'stateless model checking: every crash point of every call in bounds, executed on the real code by a fault injector',
        'C28': 'stateless model checking: every bounded history of calls and ambient settings run in forked processes, against the first call of a fresh process',
        'C29': 'stateless model checking: every thread interleaving up to a preemption bound, executed on the real code by a controlled scheduler'}
NOTE = ('Within the stated bounds every case was executed on the code in /repo and compared with an independent double-precision '
        'reference model (mc/ref.py); nothing is sampled. Beyond the bounds nothing is claimed. Trusted: mc/ref.py, numpy, torch '
        'kernels, comparison tolerance 2e-5 on complex64 results unless the check says otherwise. Bounds: ')
OWN = {'C31': 'Reference here: mc/refmps.py; distance in norm within 1e-4. ', 'C05': 'Oracle here: the implementation evolving each entry alone (its correctness is C04). ',
       'C28': 'Oracle here: the same call as the first of a fresh process. ',
       'C29': 'Oracle here: the same call alone in a fresh process; a torch kernel is one atomic step. ',
       'C07': 'Oracle here: composition with the inverse is the identity; no reference operator is needed. '}


def const(mod, name):
    for n in mod.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)


checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    mod = ast.parse(open(os.path.join(ROOT, 'mc/checks/%s.py' % pid.lower())).read())
    checks.append({'property': pid, 'quick_cmd': PY + pid, 'thorough_cmd': PY + pid + ' --tier thorough',
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH.get(pid, ENUM), 'level': const(mod, 'LEVEL'),
                   'level_note': OWN.get(pid, '') + NOTE + const(mod, 'BOUNDS')['quick']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo are needed: the library is sequential and everything is observable through its public calls. '
                    'Repairs of genuine defects are the "fix:" commits listed in known_findings.txt.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
