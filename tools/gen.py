#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and DESIGN.md from doc/props.py, doc/design_head.md,
known_findings.json and doc/seeded_results.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/doc')
from props import PROPS
TECH = ("runtime monitoring: randomized/hostile/stress workloads on the real headers under ASan+UBSan+hardened libstdc++, "
        "every observation checked online against an independent reference model")
NOTE = ("Exploration: sanitizers and model monitors judge the executions of the workload only (seeded, {n} scenarios in {t} driver programs); "
        "no proof for unexplored inputs. Trusted: g++-10, sanitizer runtimes, the reference models in harness/{id}, mon/mon.hpp"
        "{acl}.")
def scen(pid):
    n = t = 0; acl = False
    for f in glob.glob(f'{V}/harness/{pid}/*.cpp'):
        s = open(f).read(); n += s.count('\nSCENARIO(') + s.startswith('SCENARIO('); t += 1
        acl = acl or 'atcoder' in s
    return n, t
with open(V + '/properties.jsonl', 'w') as o:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs', 'histories']), 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p.get('observe', ['public member functions and free functions of the listed headers']), 'hook_needed': None}}) + '\n')
checks = []
for p in PROPS:
    n, t = scen(p['id'])
    checks.append({'property': p['id'], 'quick_cmd': f"python3 run.py check {p['id']}",
                   'thorough_cmd': f"VERIF_TIER=thorough python3 run.py check {p['id']}",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': TECH, 'level': 'exploration',
                   'level_note': NOTE.format(n=n, t=t, id=p['id'], acl=", and the ACL stand-in in acl/ where the header includes atcoder/")})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': [],
           'notes': 'Header-only library: no hooks are needed in /repo; every monitor observes the public API and sanitizer events.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
kf = json.load(open(V + '/known_findings.json'))
d = open(V + '/doc/design_head.md').read()
d += '\n## Per property\n\n'
for p in PROPS:
    n, t = scen(p['id'])
    d += f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n*Decided by* ({n} scenarios, {t} driver programs): {p['design']}\n\n*Why tests cannot:* {p['why']}\n\n"
d += '## Defects found\n\n### Repaired (`fix:` commits in /repo)\n\n'
for f in kf['fixed']: d += f'- {f}\n'
d += '\n### Recorded, not repaired\n\n'
for f in kf['findings']: d += f"- {f['id']} ({f['property']}, {f['tu']}.{f['scenario']}): {f['what']}\n"
if not kf['findings']: d += '(none)\n'
rp = V + '/doc/seeded_results.json'
d += '\n## Planted changes and what catches them\n\n'
if os.path.exists(rp):
    d += '| change | property | caught by (first failing monitor) |\n|---|---|---|\n'
    for k, v in sorted(json.load(open(rp)).items()): d += f"| {k} | {v['property']} | {v['caught'] or 'NOT CAUGHT'} |\n"
open(V + '/DESIGN.md', 'w').write(d)
print(len(PROPS), 'properties')
