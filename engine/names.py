"""Private items that were merely renamed or moved keep the name the rules know them by.

A name of the analysed crate that the rules were written against (names.json: every local structure with its fields'
types, every local function with its signature and what it calls) and that is missing from the current tree is matched
to an item of the current tree that is new, has exactly the same shape and, for functions, largely the same callees.
Only the name is carried over: what the item does is decided on its current source like everything else."""
import json,os,re
HERE=os.path.dirname(os.path.abspath(__file__)); FILE=os.path.join(HERE,'names.json')
def shapes(j):
    """{structure: [[variant, [[field,type],...]],...]}"""
    return {p:[[v['name'],[[f['name'],j['types'][f['ty']]['s']] for f in v['fields']]] for v in a['variants']] for p,a in j['adts'].items() if a['local']}
def sigs(j):
    out={}
    for f in j['fns']:
        if '{closure' in f['path']: continue
        b=f['body']; cs=set()
        for B in b['blocks']:
            t=B['t']
            if t[0]=='call' and isinstance(t[1],dict) and 'k' in t[1] and t[1]['k'].get('fn'): cs.add(t[1]['k']['fn'])
        out[f['path']]=[[j['types'][b['locals'][i][0]]['s'] for i in range(b['argc']+1)],sorted(cs)]
    return out
def record(files):
    A={};F={}
    for fp in files:
        j=json.load(open(fp))
        A.update(shapes(j)); F.update(sigs(j))
    json.dump({'adts':A,'fns':F},open(FILE,'w'),indent=0,sort_keys=True)
def rename(text,new,old):
    return re.sub(r'(?<![\w:])'+re.escape(new)+r'(?!\w)',lambda m:old,text)
def canonical(text):
    """(facts with the known names, [(current name, known name)])"""
    if not os.path.exists(FILE): return json.loads(text),[]
    B=json.load(open(FILE)); j=json.loads(text); done=[]
    # structures
    cur=shapes(j)
    for old in sorted(set(B['adts'])-set(cur)):
        def shape(p,vs): return [[None if v==p.split('::')[-1] else v,[[f,re.sub(r'(?<![\w:])'+re.escape(p)+r'(?!\w)','Self',t)] for f,t in fs]] for v,fs in vs]
        want=shape(old,B['adts'][old])
        loose=lambda sh:[[t for _,t in fs] for _,fs in sh]
        c=[p for p in cur if p not in B['adts'] and shape(p,cur[p])==want] or [p for p in cur if p not in B['adts'] and loose(shape(p,cur[p]))==loose(want) and sum(len(fs) for _,fs in want)>=2]
        if len(c)!=1: continue
        new=c[0]; text=rename(text,new,old); n,o=new.split('::')[-1],old.split('::')[-1]
        if n!=o: text=text.replace('"name": "%s"'%n,'"name": "%s"'%o)
        done.append((new,old)); j=json.loads(text); cur=shapes(j)
    # fields and variants
    for p in sorted(set(B['adts'])&set(cur)):
        b,a=B['adts'][p],cur[p]
        if [[t for _,t in fs] for _,fs in b]!=[[t for _,t in fs] for _,fs in a]: continue
        bn={v for v,_ in b}|{f for _,fs in b for f,_ in fs}; an={v for v,_ in a}|{f for _,fs in a for f,_ in fs}
        for (v,fs),(w,gs) in zip(b,a):
            for (o,_),(n,_) in [((v,0),(w,0))]+list(zip(fs,gs)):
                if o!=n and n not in bn and o not in an:
                    text=text.replace(json.dumps(n),json.dumps(o)); done.append((p+'.'+n,p+'.'+o))
    if done: j=json.loads(text)
    # functions
    ch=True
    while ch:
        ch=False; cur=sigs(j); fresh={p:v for p,v in cur.items() if p not in B['fns']}
        if not fresh: break
        for old in sorted(set(B['fns'])-set(cur)):
            sg,cs=B['fns'][old]; best=[]
            for p,(sg2,cs2) in fresh.items():
                if sg2!=sg: continue
                a,b=set(cs),set(cs2)
                best.append((len(a&b)/len(a|b) if a|b else 1.0,p))
            best.sort(reverse=True)
            if not best or best[0][0]<0.5 or len(best)>1 and best[1][0]>best[0][0]-0.2: continue
            text=rename(text,best[0][1],old); j=json.loads(text); done.append((best[0][1],old)); ch=True; break
    for n,o in done:
        for f in j['fns']:
            if f['path']==o: f['name']=o.split('::')[-1]
    return j,done
if __name__=='__main__':
    import sys; record(sys.argv[1:])
