#!/usr/bin/env python3
"""Build planted bugs from doc/seeds.py into seeded/<id>/ and confirm them.
usage: seed.py [--tests] [--nocheck] ID...   (no ID: every id without a directory)
       seed.py --regen                        (rewrite all patches against HEAD)"""
import json, os, subprocess, sys, shutil
V = "/verif"; R = os.environ.get("SEED_REPO", "/repo")
SEEDS = {}
def S(id, prop, file, old, new, needs, breaks, demo, more=(), flags=""):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo, flags=flags)
exec(open(V + "/doc/seeds.py").read())
RES = V + "/doc/seeded_results.json"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def revert(): sh(f"git -C {R} checkout -- .")
def apply(s):
    for f, o, n in s["edits"]:
        p = f"{R}/{f}"; t = open(p).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o))
        open(p, "w").write(t.replace(o, n))
def write(s):
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    try:
        apply(s); open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    finally: revert()
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the library behaves as documented; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++-10 -std=gnu++17 -O1 -g {s['flags']} -I "$PWD" -I "$here" -o "$tmp/demo" "$here/demo.cpp" || exit 3
timeout 100 "$tmp/demo"
""")
    os.chmod(d + "/demo.sh", 0o755)
    if "<atcoder/" in s["demo"] + open(f"{R}/{s['edits'][0][0]}").read() or s.get("acl"):
        shutil.copytree(V + "/acl/atcoder", d + "/atcoder", dirs_exist_ok=True)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return d
def main():
    a = sys.argv[1:]
    assert sh(f"git -C {R} status --porcelain").stdout == "", "repo dirty"
    if "--regen" in a:
        for s in SEEDS.values(): write(s)
        return
    ids = [x for x in a if not x.startswith("--")] or [i for i in SEEDS if not os.path.isdir(f"{V}/seeded/{i}")]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    for i in ids:
        s = SEEDS[i]; d = write(s); ok = True
        c = sh(d + "/demo.sh", cwd=R)
        if c.returncode: print(i, "DEMO FAILS ON CLEAN TREE", c.stdout[-500:], c.stderr[-1500:]); ok = False
        try:
            r = sh(f"git -C {R} apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
            c = sh(d + "/demo.sh", cwd=R)
            if c.returncode in (0, 3): print(i, "DEMO DOES NOT FAIL", c.returncode, c.stderr[-1500:]); ok = False
            if "--tests" in a:
                sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/seedtest.json"); t = json.load(open("/tmp/seedtest.json"))
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); 
                bad = st - set(t.get("passed", []))
                if bad: print(i, "TESTS FAIL", bad); ok = False
            caught = None
            if "--nocheck" not in a:
                c = sh(f"MON_REPO={R} MON_EVIDENCE=/tmp/seed_ev MON_BUILD=/tmp/seed_build python3 {V}/run.py check {s['prop']}", cwd=V)
                caught = c.returncode == 1 and f"VIOLATION property={s['prop']}" in c.stdout
                print(i, s["prop"], "caught" if caught else f"MISSED rc={c.returncode} {c.stdout[-300:]}", flush=True)
                if ok: res[i] = dict(property=s["prop"], caught=caught)
        finally: revert()
        if not ok: shutil.rmtree(d)
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
main()
