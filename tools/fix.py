#!/usr/bin/env python3
"""dev aid: fix.py PROP "message" -> commit /repo's working tree as a fix and record it in known_findings.json"""
import json, subprocess, sys, os
R = os.environ.get('MON_REPO', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, msg = sys.argv[1:3]
if msg.startswith('@'):  # record an existing commit
    h = msg[1:]; msg = subprocess.check_output(['git', '-C', R, 'log', '-1', '--format=%s', h], text=True).strip()[5:]
else:
    subprocess.check_call(['git', '-C', R, 'commit', '-qam', 'fix: ' + msg])
    h = subprocess.check_output(['git', '-C', R, 'rev-parse', '--short=7', 'HEAD'], text=True).strip()
k = json.load(open(V + '/known_findings.json'))
k['fixed'].append(f'fixed: property={prop} {h} {msg}')
json.dump(k, open(V + '/known_findings.json', 'w'), indent=1)
print(h, msg)
