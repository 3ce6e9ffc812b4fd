"""seed(id, property, edits, needs, breaks, demo): writes /verif/seeded/<id> from exact text replacements in /repo's HEAD."""
import os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
def seed(i, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (w, w), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, 'src', f); s = open(p, newline='').read()
            if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
    finally: shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 200 python3 "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom srv import *\n' + demo.strip() + '\nrun(demo)\n')
    shutil.copy(HERE + '/srv.py', d + '/srv.py')
    print(i, len(diff))
