import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
L=[]
def walk(o):
    if isinstance(o,dict):
        if 'wall_s' in o and ('case' in o or 'name' in o): L.append((o['wall_s'], o.get('case') or o.get('name'), o.get('paths')))
        for v in o.values(): walk(v)
    elif isinstance(o,list):
        for v in o: walk(v)
walk(e); L.sort(reverse=True)
for x in L[:int(sys.argv[2]) if len(sys.argv)>2 else 15]: print(*x)
print('sum',sum(x[0] for x in L))
