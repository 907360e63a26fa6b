"""List and queue iterators: what each step reports, in which order, and where it ends (part of C29)."""
from rules.hist import *
from rules.colls import *
from rules.results import *

def directions(C,R,root,fam,RO):
    """direction flags set by the constructors of this iterator: {direction:{field:value}}"""
    r={}
    it=root[1:].split(' as ')[0]
    for q in RO[fam]:
        v=verb(q)
        if not v.startswith('iter') or istyped(q): continue
        for t in C.paths(q):
            if t.kind!='return' or t.ret is None: continue
            x=canon(t.ret)
            if x.op=='agg' and x.a[0]==it: r.setdefault('b' if 'backwards' in v else 'f',[]).append((q,x))
    return r
def C29_iter(C,R):
    RO=rootsof(C); n={'end':0,'item':0,'err':0,'dir':0,'rng':0,'ctor':0}
    for fam in('list','queue'):
        for r in RO[fam]:
            if verb(r)!='next': continue
            w=tag(r); D=directions(C,R,r,fam,RO)
            flags={}
            for d,l in D.items():
                for q,x in l:
                    b={str(f_):canon(fld(x,f_)) for f_ in fieldnames(C,x)}
                    n['ctor']+=1
                    for f_,v in b.items():
                        if isc(v): flags.setdefault(f_,{}).setdefault(d,set()).add(v.a[0])
                        elif v.op=='agg' and v.a[1] and not v.a[3]: flags.setdefault(f_,{}).setdefault(d,set()).add(v.a[1])
            R.check('iterators are built for both directions',w,set(D)=={'f','b'},'constructors found for %s'%sorted(D))
            use=[f_ for f_,m in flags.items() if set(m)=={'f','b'} and len(m['f'])==len(m['b'])==1 and m['f']!=m['b']]
            R.check('the constructors tell the two directions apart',w,len(use)>=1,'no field of the iterator differs between forward and backward construction')
            for h in hists(C,r):
                t=h.t
                if t.kind not in('return','loop'): continue
                analyse(C,h)
                # walking the recorded positions
                ri=[x for x in t.S if x.k in('Iter','IterEnd') and isrange(x)]
                for x in ri:
                    if x.k!='Iter': continue
                    d=direction_(x)
                    for y in t.conds(x.i):
                        p=h.norm(y.ptr); v=y.op
                        while p.op=='not': p=p.a[0]; v=1-v
                        if p.op=='is': p=p.a[0]
                        if p.op=='fld' and str(p.a[1]) in use:
                            n['dir']+=1; m=flags[str(p.a[1])]
                            want=[k for k in m if v in m[k]]
                            R.check('elements are walked in the order asked for',w,want==[d],'walks %s for an iterator built %s'%({'f':'forwards','b':'backwards'}.get(d,d),{'f':'forwards','b':'backwards'}.get((want or ['?'])[0])),t,x)
                # the recorded positions walked are those of the collection
                hd=[o for o in h.ops if o.key is not None and keyrole(C,h,o)[0]=='hdr' and o.kind=='get']
                for o in hd:
                    if o.out!='Some': continue
                    H=somev(o.res)
                    ws=[a for x in t.by('W') if x.i>o.x.i for a in [h.norm(x.val)] if contains(a,lambda y:y.op=='agg' and str(y.a[0]).endswith('Range'))]
                    rg=[y for a in ws for y in subterms(a) if isinstance(y,V) and y.op=='agg' and str(y.a[0]).endswith('Range')]+[x.col for x in ri if x.col is not None and x.col.op=='rng']
                    n['rng']+=1
                    R.check('the iterator walks the recorded range',w,any(bounds_(y,H) for y in rg),'the range walked is %s'%(show(rg[0])[:160] if rg else 'not taken from the collection'),t,o.x)
                if t.kind!='return' or t.ret is None: continue
                res=h.norm(t.ret); rv,f_=variant(C,h,res)
                got=seen_(C,h,fam); last=ri[-1] if ri else None
                bad=[o for o in h.ops if o.st=='Err']
                if rv=='None':
                    n['end']+=1
                    ended=last is not None and last.k=='IterEnd'
                    none=bool(hd) and hd[-1].out=='None' and not ri
                    R.check('an iterator ends only behind its last element',w,ended or none,'ends although the recorded range was not walked to its end',t)
                    R.check('an element found is reported',w,not got,'skips an element that was found',t,got[-1].x if got else None)
                    R.check('an error met while iterating is reported',w,not bad,'ends after a failed operation',t,bad[-1].x if bad else None)
                    continue
                if rv!='Some': R.check('an iterator step reports an element, an error or the end',w,False,'reports %s'%show(res)[:150],t); continue
                iv,g_=variant(C,h,f_[0])
                if iv=='Err':
                    n['err']+=1
                    R.check('an error reported while iterating is that of a failed operation',w,bool(bad) and bad[-1] is h.ops[-1],'reports an error although no operation failed',t)
                elif iv=='Ok':
                    n['item']+=1
                    R.check('an element is reported only if there is one',w,bool(got) and not bad and last is not None and last.k=='Iter','reports an element that was not found',t)
                    R.check('an element found is reported',w,len(got)==1,'%d elements found in one step'%len(got),t)
                    pay=g_[0]
                    if fam=='queue':
                        pos=fld(pay,'0'); k=[keyrole(C,h,o)[1] for o in got]
                        R.check('an element is reported with its position',w,bool(k) and k[-1].num() is not None and (canon(pos) is canon(k[-1].num()) or h.lin.same(pos,k[-1].num())),'reports position %s'%show(pos)[:100],t)
                        R.check('an element is reported with its own value',w,bool(got) and canon(fld(pay,'1')) is canon(somev(got[-1].res)),'reports %s'%show(fld(pay,'1'))[:120],t)
                    else:
                        e=got[-1].e if got else None
                        R.check('an element is reported with its own value',w,e is not None and fromelem(fld(pay,'0'),e,0) and fromelem(fld(pay,'1'),e,1),'reports key %s, value %s'%(show(fld(pay,'0'))[:80],show(fld(pay,'1'))[:80]),t)
        for r in RO[fam]:
            v=verb(r); d='f' if v.endswith(('head','head_with_idx')) else 'b' if v.endswith(('tail','tail_with_idx')) else None
            if d is None or not v.startswith(('peek','pop')): continue
            for h in hists(C,r):
                for x in h.t.by('Iter'):
                    e=direction_(x)
                    if e is None: continue
                    n['dir']+=1
                    R.check('elements are looked for from the end asked for',tag(r),e==d,'looks for elements %s'%('forwards' if e=='f' else 'backwards'),h.t,x)
    for k,m in(('end',8),('item',8),('err',6),('dir',80),('rng',20),('ctor',4)): R.floor('iteration steps',k,m,n[k])
def fieldnames(C,x):
    a=C.P.adts.get(x.a[0])
    return [f['name'] for f in a['variants'][0]['fields']] if a else []
def isrange(x):
    v=x.ptr
    if x.col is not None and x.col.op in('rng',): return True
    if x.op=='opaque' or x.col is not None and x.col.op=='item': return True
    return x.k=='IterEnd' and v is not None and (contains(v,lambda y:y.op=='agg' and str(y.a[0]).endswith('Range')) or v.op in('fld','as'))
def direction_(x):
    for v in(x.col,x.res):
        if v is None: continue
        if v.op=='rng': return v.a[3]
        if v.op=='item': return v.a[2]
    return None
def bounds_(y,H):
    if y.op=='rng': a,b=canon(y.a[1]),canon(y.a[2])
    else: a,b=canon(y.a[3][0]),canon(y.a[3][1])
    def of(v,f): return v.op=='fld' and v.a[1]==f and contains(v,lambda z:z is H)
    return of(a,'head_idx') and of(b,'tail_idx')
class Seen: pass
def seen_(C,h,fam):
    r=[]
    if fam=='queue':
        for o in h.ops:
            if o.key is not None and o.kind=='get' and o.out=='Some' and keyrole(C,h,o)[0]=='qitem': r.append(o)
        return r
    for e in dict.fromkeys(list(h.scan.kend)+list(h.scan.vend)):
        if any(st==1 for st,_,_ in h.scan.kend.get(e,())) and any(st==1 for st,_,_ in h.scan.vend.get(e,())):
            s_=Seen(); s_.e=e; s_.x=h.ops[-1].x; r.append(s_)
    return r
def fromelem(v,e,i):
    v=canon(v); q=canon(fld(e,str(i)))
    return v.op=='slice' and canon(v.a[0]) is q
