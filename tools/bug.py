#!/usr/bin/env python3
"""bug.py ID: build seeded/ID/patch.diff from seeded-edit description and try it.
seeded/ID/ holds demo.sh, demo.py, meta.json.  Edits are given in tools/bugs.json-like
python file /tmp/w/bugs/ID.py defining FILE, OLD, NEW (or EDITS list)."""
import json, os, shutil, subprocess, sys
PY = '/opt/venv/bin/python'
ID = sys.argv[1]
flags = sys.argv[2:]
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = VERIF + '/seeded/' + ID
copy = '/tmp/w/bugcopy_' + ID
shutil.rmtree(copy, ignore_errors=True)
shutil.copytree(REPO, copy, symlinks=True)
subprocess.check_call(['git', '-C', copy, 'checkout', '-q', '--', '.'])
env = dict(os.environ, PYTHONPATH=copy + ':/opt/vp/support', PYTHONHASHSEED='0',
           PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', SLOW_TESTS='1',
           LC_ALL='C.UTF-8', TZ='UTC')
ns = {}
src = '/tmp/w/bugs/%s.py' % ID
if os.path.exists(src):
    exec(open(src).read(), ns)
    for f, old, new in ns['EDITS']:
        p = os.path.join(copy, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', copy, 'diff'], text=True)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    if 'DEMO' in ns:
        open(d + '/demo.py', 'w').write(ns['DEMO'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds here, 1 when it is broken\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py" 2>/dev/null\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
else:
    subprocess.check_call(['git', '-C', copy, 'apply', d + '/patch.diff'])
# only original lines
prop = json.load(open(d + '/meta.json'))['property']
ok = True
r = subprocess.run(['bash', d + '/demo.sh'], cwd=REPO, timeout=300)
print('demo clean  :', r.returncode); ok &= r.returncode == 0
r = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, timeout=300)
print('demo patched:', r.returncode); ok &= r.returncode != 0
if 'notest' not in flags:
    r = subprocess.run([PY, '-bb', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '-p', 'vp_hachoir',
                        '--timeout=300', '-W', 'error', '-W', 'ignore::pytest.PytestCollectionWarning', 'tests'],
                       cwd=copy, env=env, capture_output=True, text=True)
    tail = r.stdout.strip().splitlines()[-3:]
    print('tests:', tail)
    ok &= '130 passed' in tail[-1]
if 'nocheck' not in flags:
    e2 = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE='/tmp/w/ev_' + ID, VERIF_SEED='1')
    os.makedirs(e2['VERIF_EVIDENCE'], exist_ok=True)
    r = subprocess.run(['bin/check', prop, 'quick'], cwd=VERIF, env=e2, capture_output=True, text=True)
    out = r.stdout.splitlines()
    v = [l[:300] for l in out if l.startswith('VIOLATION')]
    print('check', prop, 'rc', r.returncode, v[:2] or out[-3:])
    shutil.rmtree(e2['VERIF_EVIDENCE'], ignore_errors=True)
shutil.rmtree(copy)
print(ID, 'VALID' if ok else 'INVALID')
