import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_data import P
out = []
for (i, t, s, over, q, why, files, mech) in P:
    assert len(t) <= 80, (i, len(t))
    out.append(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))))
open(os.path.join(here, '..', 'properties.jsonl'), 'w').write("\n".join(out) + "\n")
print(len(out))
