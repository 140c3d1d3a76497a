"""Create and confirm planted bugs.  plant.py FILE  (FILE defines BUGS: list of dicts
id, property, file, edits=[(old,new)...], demo (python text), needs, what)"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '90980a5'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
DEMO = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
d=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **k), capture_output=True, text=True)


for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    t = tempfile.mkdtemp(prefix='plant')
    try:
        r = t + '/causets'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        orig = {}
        edits = b['edits'] if isinstance(b['edits'], dict) else {b['file']: b['edits']}
        ok = True
        for fn, eds in edits.items():
            s = open(r + '/' + fn, newline='').read()
            for old, new in eds:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    print(b['id'], 'BAD EDIT: %d matches of %r' % (s.count(old), old[:60])); ok = False
                s = s.replace(old, new)
            open(r + '/' + fn, 'w', newline='').write(s)
        if not ok:
            continue
        diff = subprocess.run('git diff', shell=True, cwd=r, capture_output=True).stdout
        # changed lines must be original
        bad = []
        for fn in edits:
            blame = sh('git blame -s -l HEAD -- ' + fn, r).stdout.splitlines()
            d = sh('git diff -U0 -- ' + fn, r).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                for ln in range(a, a + n):
                    if not blame[ln - 1].startswith('^' + BASE) and BASE not in blame[ln-1][:45]:
                        bad.append((fn, ln, blame[ln - 1][:9]))
        if bad:
            print(b['id'], 'CHANGES FIX LINES', bad[:5]); continue
        d = HERE + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']),
                  open(d + '/meta.json', 'w'), indent=1)
        with open(d + '/demo.py') as f:
            txt = f.read()
        for w in ('/repo', 'sys.exit', '_exit', 'getsource', 'open(__file__'):
            if w in txt:
                print(b['id'], 'DEMO USES', w)
        good = sh('bash %s/demo.sh' % d, '/repo')
        brk = sh('bash %s/demo.sh' % d, r, PYTHONPATH=t)
        # tests in the scratch copy
        tst = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', r, PYTHONPATH=t)
        print(b['id'], 'good', good.returncode, 'patched', brk.returncode,
              (brk.stderr.strip().splitlines() or [''])[-1][:100], '|', tst.stdout.strip().splitlines()[-1:][0])
        if good.returncode != 0:
            print(good.stderr[-500:])
        if good.returncode or not brk.returncode:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(t)
