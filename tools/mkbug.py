"""mkbug(id, property, needs, breaks, edits, demo, ssl...) writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/pl'


def sh(c):
    return subprocess.run(c, shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()


def mkbug(id, prop, needs, breaks, edits, demo, also=(), files=None, sh_demo=None):
    if not os.path.isdir(W):
        subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    sh('git checkout -q -- . && git pull -q')
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, f, 'matches', s.count(old)); sys.exit(1)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff'))
    sh('git checkout -q -- .')
    m = dict(property=prop, needs=needs, what_it_breaks=breaks)
    if also:
        m['also'] = list(also)
    json.dump(m, open(d + '/meta.json', 'w'), indent=1)
    if demo:
        shutil.copy(V + '/tools/px.py', d + '/px.py')
        open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom px import *\n\n\n' + demo.strip('\n') + '\n')
    for n, t in (files or {}).items():
        open(os.path.join(d, n), 'w').write(t.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(sh_demo or '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    print(id, open(d + '/patch.diff').read().count('\n'), 'lines')
