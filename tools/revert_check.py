#!/usr/bin/env python3
"""dev aid: for every fix recorded in known_findings.json, revert it in a scratch clone and report whether the property's check raises the violation again.
usage: revert_check.py [PROP ...]   (results appended to /tmp/revert_results.txt)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MON_REPO', '/repo')
S = '/tmp/revclone'
want = set(sys.argv[1:])
done = set()
OUT = '/tmp/revert_results.txt'
if os.path.exists(OUT):
    done = {l.split()[1] for l in open(OUT)}
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', SRC, S])
for e in json.load(open(V + '/known_findings.json'))['fixed']:
    _, p, h, msg = e.split(' ', 3)
    p = p.split('=')[1]
    if (want and p not in want) or h in done:
        continue
    subprocess.run(['git', '-C', S, 'reset', '-q', '--hard'])
    r = subprocess.run(['git', '-C', S, 'revert', '-n', h], capture_output=True)
    if r.returncode:
        res = 'CONFLICT'
        subprocess.run(['git', '-C', S, 'revert', '--abort'], capture_output=True)
        subprocess.run(['git', '-C', S, 'reset', '-q', '--hard'])
    else:
        r = subprocess.run(['python3', V + '/run.py', 'check', p], capture_output=True, text=True,
                           env={**os.environ, 'MON_REPO': S, 'MON_BUILD': '/tmp/revbuild', 'MON_EVIDENCE': '/tmp/revevidence', 'MON_JOBS': '4'})
        o = r.stdout + r.stderr
        res = 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in o else 'NOBUILD' if 'does not build' in o else f'MISSED(rc={r.returncode})'
    with open(OUT, 'a') as f:
        f.write(f'{p} {h} {res} {msg}\n')
