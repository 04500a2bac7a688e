#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_body.md + a section per property (bounds read from the checks) + tools/design_tail.md
+ the table of planted bugs (python3 tools/gen_design.py [dir with catch results])."""
import ast
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(p):
    return open(os.path.join(ROOT, p)).read()


def const(mod, name):
    for n in mod.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)


prose = {}
for part in re.split(r'^## ', read('tools/design_props.md'), flags=re.M)[1:]:
    head, _, text = part.partition('\n')
    prose[head.strip()] = text.strip()

out = [read('tools/design_body.md').strip(), '', '## Properties', '']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    mod = ast.parse(read('mc/checks/%s.py' % p['id'].lower()))
    b = const(mod, 'BOUNDS')
    out += ['### %s %s' % (p['id'], p['title']), '', prose[p['id']], '', '*Bounds, quick:* ' + b['quick'] + '.', '',
            '*Bounds, thorough:* ' + b['thorough'] + '.', '']
out += [read('tools/design_tail.md').strip(), '', '| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.loads(read('seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
