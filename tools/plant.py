#!/usr/bin/env python3
"""Confirms planted bugs: plant.py [--checks P01,P02] [--no-demo] ID...
Applies each patch to /repo, builds, runs the demonstration (must fail), the tests (must pass) and the checks of its
property, then undoes it. Appends to /tmp/plant.log; never run at the same time as anything else that uses /repo."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
demo = '--no-demo' not in a
a = [x for x in a if x != '--no-demo']
checks = None
secs = None
while a and a[0].startswith('--'):
    if a[0] == '--checks': checks = [c for c in a[1].split(',') if c]
    if a[0] == '--seconds': secs = a[1]
    a = a[2:]

def sh(c, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
for i in a:
    d = os.path.join(V, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    out = [i, m['property']]
    rc, o = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (d, d))
    if rc:
        print(i, 'does not apply', o); continue
    try:
        if demo:
            rc, o = sh('bash /opt/vp/test.sh /tmp/plant.json')
            if 'build failed' in o or rc not in (0, 1):
                out.append('BUILD? rc=%d %s' % (rc, o[-300:]))
            j = json.load(open('/tmp/plant.json'))
            t = subprocess.run(['python3', '-c', 'import json;a=json.load(open("/opt/vp/BASELINE.json"));b=json.load(open("/tmp/plant.json"));S=set(a["stable"]);P=set(b["passed"]);print(len(S-P),sorted(S-P)[:3])'], stdout=subprocess.PIPE).stdout.decode().strip()
            out.append('missing tests: ' + t)
            rc, o = sh('bash %s/demo.sh' % d, 300)
            out.append('demo rc=%d' % rc + (' (NOT SHOWN)' if rc == 0 else ''))
        for c in (checks if checks is not None else [m['property']] + m.get('also', [])):
            e = 'VERIF_SEED=1 VERIF_TIER=quick '
            rc, o = sh('cd %s && %s timeout 880 python3 tools/check.py %s %s' % (V, e, c, '--seconds ' + secs if secs else ''))
            v = re.findall(r'^(\S+ \(profile .*)$', o, re.M)
            out.append('%s: rc=%d %s' % (c, rc, (v[0][:140] if v else o[-200:] if rc not in (0, 1) else '')))
    finally:
        sh('git checkout -- .')
    l = ' | '.join(out)
    print(l, flush=True)
    open('/tmp/plant.log', 'a').write(l + '\n')
if demo:
    sh('bash /opt/vp/build.sh')
