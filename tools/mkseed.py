"""plant a bug: mkseed.py SPEC.py   (SPEC defines id, prop, edits=[(file, old, new)], demo (python source), needs, breaks)
Applies the edit in /repo, builds, runs the stable tests and the demo with and without it, runs the property's check, undoes it."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
quick = '--nocheck' in sys.argv
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
d = '/verif/seeded/' + ns['id']
os.makedirs(d, exist_ok=True)
open(d + '/demo.py', 'w').write(ns['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
b = any(f.endswith(('.pyx', '.pxd', '.f90')) for f, _, _ in ns['edits'])
build = lambda: sh('bash /opt/vp/build.sh').returncode if b else 0
r = sh('bash %s/demo.sh' % d, cwd=R)
print('demo clean rc', r.returncode, '' if r.returncode == 0 else r.stdout[-800:])
ok = r.returncode == 0
try:
    for f, old, new in ns['edits']:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        base = sh('git -C /repo show 773e14c:%s' % f).stdout
        for l in old.splitlines():
            if l not in new.splitlines() and l not in base.splitlines():
                print('WARNING: line not in base:', l)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    print('build', build())
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo patched rc', r.returncode, r.stdout[-200:])
    ok &= r.returncode != 0
    r = sh('bash /verif/tools/runtests.sh')
    print(r.stdout[-150:].strip())
    ok &= 'all stable tests pass' in r.stdout
    if not quick:
        r = sh('cd /verif; bash check.sh ' + ns['prop'])
        print('check rc', r.returncode, '\n'.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l)[:300], r.stdout[-200:])
finally:
    sh('git -C /repo checkout -- .')
    if b:
        build()
print('SEED', ns['id'], 'OK' if ok else 'BAD')
