#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json (run in /verif)"""
import json
c = json.load(open('checks.json'))
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
NA = json.load(open('not_applicable.json'))
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the simulator replaces the operating system below it '
               '(compiler instrumentation and interposed libc entry points), see DESIGN.md', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'check.py <property> [quick|thorough]; tools and the simulator live in sim/. Replay of a violation: '
              '_build/sim/simrun-<property> replay <file> [trace].'}
for p in props:
    if p in c:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                            'thorough_cmd': 'python3 check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                            'technique': 'deterministic simulation with fault injection: seeded search over schedules, '
                            'inputs and fault sequences of the real library code on a simulated OS',
                            'level': 'exploration',
                            'level_note': c[p].get('note', 'seeded sampling of simulated executions; sequentially consistent '
                                                   'memory; FLTK/wx event loops are fakes; not exhaustive')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
