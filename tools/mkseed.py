"""from mkseed import mk: writes seeded/<id>/ from edits applied to a scratch copy of /repo's HEAD"""
import subprocess, os, json, shutil, tempfile
V = os.environ.get('SEEDDIR', '/verif/seeded')
def mk(id, prop, needs, breaks, edits, demo, files=None):
    d = os.path.join(V, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call('git -C /repo archive HEAD src include | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (w, w), shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old)); open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    shutil.rmtree(w)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copy('/verif/tools/demo/lib.py', d + '/lib.py')
    open(d + '/demo.py', 'w').write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n' + demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    for k, v in (files or {}).items(): open(d + '/' + k, 'w').write(v)
