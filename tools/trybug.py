#!/usr/bin/env python3
"""trybug.py [-n] [-c] ID...: validates planted bugs in scratch copies of /repo (own user, mount and network namespace):
builds, runs the stable tests (-n: not), runs demo.sh without and with the patch, runs the property's check on the patched tree.
-c: only the check (all properties with -a)."""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = '/verif/seeded'
args = [a for a in sys.argv[1:] if not a.startswith('-')]; opt = [a for a in sys.argv[1:] if a.startswith('-')]
if not args: args = sorted(os.listdir(HERE))
SH = r'''
mount --bind %(w)s /repo && ip link set lo up; cd /repo
if [ %(only)d = 0 ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BASEBUILD FAIL"
(timeout 300 bash %(d)s/demo.sh >/tmp/demo.%(id)s.0 2>&1); echo "demo-unpatched rc=$?"
fi
git apply %(d)s/patch.diff || echo "APPLY FAIL"
if [ %(only)d = 0 ]; then
bash /opt/vp/build.sh >/tmp/build.%(id)s 2>&1 || echo "BUILD FAIL"
(timeout 300 bash %(d)s/demo.sh >/tmp/demo.%(id)s.1 2>&1); echo "demo-patched rc=$?"
fi
if [ %(test)d = 1 ]; then bash /opt/vp/test.sh /tmp/res.%(id)s.json >/dev/null 2>&1; fi
for p in %(props)s; do timeout 900 python3 /verif/check.py $p | cut -c1-260 | head -3 ; done
'''
def run(i):
    d = os.path.join(HERE, i); p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo/.', w], check=True)
    only = '-c' in opt
    props = p
    s = SH % dict(w=w, d=d, id=i, only=only, test=0 if only or '-n' in opt else 1, props=props)
    r = subprocess.run(['unshare', '-Urmn', 'bash', '-c', s], capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    out = r.stdout + r.stderr[-300:]
    f = '/tmp/res.%s.json' % i
    if not only and '-n' not in opt and os.path.exists(f):
        b = json.load(open('/opt/vp/BASELINE.json')); st = set(b.get('stable', b.get('passed', [])))
        t = json.load(open(f)); miss = st - set(t['passed']); out += 'tests: %d stable, missing %s\n' % (len(st), sorted(miss)[:5])
        os.unlink(f)
    return '== %s (%s)\n%s' % (i, p, out)
with ThreadPoolExecutor(3 if '-n' in opt or '-c' in opt else 4) as ex:
    for o in ex.map(run, args): print(o, flush=True)
