import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from rules.registry import PROPS
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
NA=json.load(open(os.path.join(V,'tools','na.json')))
m={'version':1,'setup_cmd':'python3 engine/facts.py default flush_aggregation','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in PROPS:
        s=PROPS[i]
        m['checks'].append({'property':i,'quick_cmd':'python3 check.py %s --tier quick'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,'technique':s['technique'],'level':'other','level_note':s['note']})
    else: m['not_applicable'].append({'property':i,'reason':NA.get(i,'no static rule claimed for this property yet')})
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'checks',len(m['not_applicable']),'n/a')
