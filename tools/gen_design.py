import json,os,sys,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from rules.registry import PROPS
rd=lambda f:open(os.path.join(V,f)).read()
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
NA=json.loads(rd('tools/na.json')); K=json.loads(rd('known_findings.json'))
C=json.loads(rd('tools/caught.json'))
out=[rd('tools/design_head.md'),'\n## 3. Properties\n\nPer property: what is enumerated, the deciding method, what the rules require (rule names as printed in reports), and the reach.\n']
import re
def rules(pid):
    f=os.path.join(V,'evidence',pid+'.json')
    if not os.path.exists(f): return None
    return json.load(open(f))
rf=os.path.join(V,'tools','rulenames.json')
RN=json.load(open(rf)) if os.path.exists(rf) else {}
for p in props:
    i=p['id']
    if i not in PROPS: continue
    s=PROPS[i]; e=rules(i)
    if e:
        seen=[]
        for x in e['coverage']['samples']:
            r=x.split(' @ ')[0]
            if r not in seen: seen.append(r)
        c=e['coverage']; RN[i]=[seen,c['paths'],c['obligations'],c['functions_followed']]
    seen,np_,no,nf=RN[i]
    out.append('\n### %s %s\n\n* Enumerated: %s.\n* Method: %s (`%s`).\n* Rules: %s.\n* Size on the pinned tree (quick): %d paths, %d obligations, %d functions followed.\n* Reach: %s\n'%(i,p['title'],s['explain'],s['technique'],'`, `'.join('rules/%s.py:%s'%x for x in s['rules']),'; '.join(seen) or '-',np_,no,nf,s.get('note') or ''))
json.dump(RN,open(rf,'w'),indent=0)
t=rd('tools/design_tail.md')
t=t.replace('@FIXED@','\n'.join('* '+(x if isinstance(x,str) else str(x)).replace('fixed: ','') for x in K['fixed']))
t=t.replace('@KNOWN@','\n'.join('* **%s** `%s` at `%s`: %s'%(x['property'],x['rule'],x['where'],x['what']) for x in K['findings']))
rows=['| change | property | breaks | needs | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V,'seeded','*'))):
    m=json.load(open(os.path.join(d,'meta.json'))); n=os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |'%(n,m['property'],m['what_it_breaks'],m['needs'],', '.join(C.get(n,['?']))))
t=t.replace('@SEEDS@','\n'.join(rows))
t=t.replace('@NA@','\n'.join('* **%s** %s: %s.'%(p['id'],p['title'],NA[p['id']]) for p in props if p['id'] not in PROPS))
open(os.path.join(V,'DESIGN.md'),'w').write(''.join(out)+t)
