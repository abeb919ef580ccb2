"""mkseed.py <id> <meta json> <demo.py path> file old new [file old new ...]  -> /verif/seeded/<id>/ (edits are undone)"""
import json, os, subprocess, sys, shutil
id, meta, demo = sys.argv[1:4]
ed = sys.argv[4:]
R = '/repo'
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip()
for f, o, n in zip(ed[0::3], ed[1::3], ed[2::3]):
    p = os.path.join(R, f)
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
json.dump(json.loads(meta), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo-XXXXXX)
cd "$w"
export PYTHONPATH=/opt/vp/pkgroot PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
timeout 250 /opt/venv/bin/python -W ignore "$d/demo.py" > "$w/log" 2>&1
rc=$?
tail -5 "$w/log"
cd /
rm -rf "$w"
exit $rc
''')
os.chmod(d + '/demo.sh', 0o755)
if os.path.abspath(demo) != d + '/demo.py':
    shutil.copy(demo, d + '/demo.py')
