"""MANIFEST.json from properties.jsonl and the harnesses that exist"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
try:
    from na import NA
except ImportError:
    NA = {}
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(root, 'harness', i + '.py')
    if os.path.exists(f) and i not in NA:
        ns = {}
        src = open(f).read()
        kind = 'translated Cython' if 'CYTHON' in src else ('translated Fortran' if 'f90' in src and 'ftrans' in src else 'real Python')
        checks.append(dict(property=i, quick_cmd='bash check.sh ' + i,
                           thorough_cmd='VERIF_TIER=thorough bash check.sh ' + i,
                           technique='symbolic execution of the %s code, SMT (Z3) verdict per path' % kind.replace('real ', ''),
                           level='model_checking',
                           level_note='bounded symbolic execution of /repo\'s current source; every assertion is decided by Z3 for '
                                      'all values within the bounds listed in the evidence file; counterexamples are replayed on the real code'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='no hooks in /repo; see DESIGN.md'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
