"""Builds the repository's Cython modules (plus probe functions) from the
current tree in a scratch copy, for replaying on compiled code."""
import os
import shutil
import subprocess
import sys
import sysconfig

MODS = ['cyfield', 'cyamr', 'cycalc', 'integrate', 'streamline', 'null_tools']


def build(repo, dst, probes=None, need=None):
    """-> Popen list; call finish() on the result.  Modules not in need are
    taken as built in the repository (they are only imported)."""
    src = os.path.join(repo, 'viscid')

    def ign(d, names):
        return [n for n in names if n == '__pycache__' or
                (os.path.basename(d) == 'cython' and (n.endswith('.so') or n.endswith('.c')))]
    shutil.copytree(src, os.path.join(dst, 'viscid'), ignore=ign, symlinks=True)
    for n in ('sample', 'resources'):
        if os.path.isdir(os.path.join(repo, n)):
            
            if not os.path.lexists(os.path.join(dst, n)):
                os.symlink(os.path.join(repo, n), os.path.join(dst, n))
    d = os.path.join(dst, 'viscid', 'cython')
    for name, text in (probes or {}).items():
        with open(os.path.join(d, name + '.pyx'), 'a') as f:
            f.write('\n' + text)
    for fn in os.listdir(d):
        if fn.endswith('.pyx'):           # array accesses are checked in the replay build
            with open(os.path.join(d, fn)) as f:
                t = f.read()
            with open(os.path.join(d, fn), 'w') as f:
                f.write(t.replace('boundscheck=False', 'boundscheck=True'))
    import numpy
    inc = numpy.get_include()
    pyinc = sysconfig.get_paths()['include']
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    mods = sorted(n[:-4] for n in os.listdir(d) if n.endswith('.pyx'))
    procs = []
    for m in mods:
        old = os.path.join(src, 'cython', m + suf)
        if need is not None and m in MODS and m not in need and os.path.exists(old):
            shutil.copy(old, d)
            continue
        cmd = ("%s -W ignore -m cython -X emit_code_comments=False viscid/cython/%s.pyx "
               "&& gcc -O0 -w -shared -fPIC -fwrapv -fno-strict-aliasing -I%s -I%s viscid/cython/%s.c "
               "-o viscid/cython/%s%s -lm" % (sys.executable, m, inc, pyinc, m, m, suf))
        lg = open(os.path.join(dst, m + '.log'), 'w')
        procs.append((m, subprocess.Popen(['sh', '-c', cmd], cwd=dst, stdout=lg, stderr=lg)))
    return procs


def finish(procs, dst):
    bad = []
    for m, p in procs:
        if p.wait() != 0:
            with open(os.path.join(dst, m + '.log')) as f:
                bad.append("%s: %s" % (m, f.read()[-1500:]))
    return bad
