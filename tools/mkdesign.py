"""DESIGN.md from tools/design_head.md, the harness modules and tools/design_tail.md"""
import ast, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(root, 'tools'))
from na import NA
from oracles import ORACLE
CAUGHT = {}
for l in open(os.path.join(root, 'tools', 'seeds.txt')):
    if l.strip():
        k, v = l.rstrip('\n').split('\t')
        CAUGHT[k] = v
out = [open(os.path.join(root, 'tools/design_head.md')).read()]
n = 0
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    out.append('### %s  %s\n' % (i, p['title']))
    if i in NA:
        out.append('Not claimed: %s.\n' % NA[i])
        continue
    c = {}
    for node in ast.parse(open(os.path.join(root, 'harness', i + '.py')).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                c[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    out.append('- Encoded: ' + '; '.join(c['ENCODED']))
    out.append('- Oracle: ' + ORACLE[i])
    out.append('- Bounds (quick; thorough enlarges them): ' + c['BOUNDS'])
    if c.get('ASSUME'):
        out.append('- Assumed: ' + '; '.join(c['ASSUME']))
    if c.get('OUTSIDE'):
        out.append('- Outside: ' + c['OUTSIDE'])
    out.append('')
out.append(open(os.path.join(root, 'tools/design_tail.md')).read())
rows = ['', '| change | property | needs | result |', '|---|---|---|---|']
sd = os.path.join(root, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], CAUGHT.get(s, 'caught by ' + m['property'])))
out.append('\n'.join(rows) + '\n')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
