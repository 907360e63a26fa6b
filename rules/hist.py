"""Histories of single-key operations performed by one API call: normalised keys, outcomes, critical sections, and what is known about
which key is present at each point. Shared by the list/queue/key rules."""
import re
from fractions import Fraction
from rules.lib import *
from rules import api

# ------------------------------------------------------------------ linear facts
class Lin:
    """equalities established on a path, as linear relations over value-numbered atoms"""
    def __init__(s): s.rows={}
    def vec(s,t):
        k,m=unlin(t); d={x:Fraction(n) for x,n in m.items()}
        if k: d[1]=Fraction(k)
        return d
    def reduce(s,d):
        d=dict(d)
        ch=True
        while ch:
            ch=False
            for p in list(d):
                r=s.rows.get(p)
                if r is not None and d.get(p):
                    f=d[p]
                    for x,n in r.items():
                        d[x]=d.get(x,0)-f*n
                        if d[x]==0: del d[x]
                    ch=True
        return d
    def eq(s,a,b):
        d=s.reduce(s.vec(sub(a,b)))
        ps=[x for x in d if x!=1]
        if not ps: return not d          # inconsistent when a constant is left
        p=min(ps,key=lambda x:x.id); f=d[p]; row={x:n/f for x,n in d.items()}
        for q,r in list(s.rows.items()):
            if p in r:
                g=r[p]
                for x,n in row.items():
                    r[x]=r.get(x,0)-g*n
                    if r[x]==0: del r[x]
        s.rows[p]=row
        return True
    def same(s,a,b):
        if a is b: return True
        return not s.reduce(s.vec(sub(a,b)))
    def diff(s,a,b):
        """a-b when it is a known constant"""
        d=s.reduce(s.vec(sub(a,b)))
        if not d: return 0
        if set(d)=={1} and d[1].denominator==1: return int(d[1])
        return None
NUMERIC=('lin','c')
def numeric(t): return t.op not in('cb','cat','bytes','slice','agg','arr','splice')

# ------------------------------------------------------------------ keys
def pieces(C,t):
    """key bytes as a list of pieces: V terms of variable length, ('u64',term), ('PH',term), constant bytes"""
    out=[]
    def go(x):
        if x.op=='cat':
            for y in x.a[0]: go(y)
        elif x.op=='cb':
            if out and isinstance(out[-1],bytes): out[-1]=out[-1]+x.a[0]
            elif x.a[0]: out.append(bytes(x.a[0]))
        elif x.op=='bytes':
            T,v=x.a
            if T==PH: out.append(('PH',v)); return
            ad=C.P.adts.get(T)
            if ad and ad['kind']=='struct' and ad['repr_c']:
                for f in ad['variants'][0]['fields']: go(mk('bytes',ftype(C,f),fld(v,f['name'])))
                return
            if T=='u8' and isc(v): go(mk('cb',bytes([v.a[0]&255]))); return
            if T in SIZES: out.append((T,v)); return
            out.append(x)
        elif x.op=='repeat' and isc(x.a[0]) and isc(x.a[1]): go(mk('cb',bytes([x.a[0].a[0]])*x.a[1].a[0]))
        else: out.append(x)
    go(t)
    return out
def ftype(C,f):
    ty=f['ty']
    if isinstance(ty,int): ty=C.P.types[ty]
    if isinstance(ty,dict): ty=ty.get('s') or ty.get('str') or ty.get('path') or str(ty)
    return mir.strip_generics(ty) if '::' in ty else ty
def fields(C,T):
    ad=C.P.adts.get(T)
    return [f['name'] for f in ad['variants'][0]['fields']] if ad else None
def join(ps): return cat([mk('cb',p) if isinstance(p,bytes) else mk('bytes',PH if p[0]=='PH' else p[0],p[1]) if isinstance(p,tuple) else p for p in ps])
class Key:
    __slots__=('t','ns','body','shape','tail')
    def __init__(s,C,t):
        s.t=t; ps=pieces(C,t)
        s.ns=None; s.tail=b''
        if ps and isinstance(ps[-1],bytes): s.ns=ps[-1][-1]; s.tail=ps[-1]
        b=list(ps)
        if s.ns is not None:
            b[-1]=b[-1][:-1]
            if not b[-1]: b.pop()
        s.body=b
        s.shape=tuple('v' if isinstance(p,V) else ('c%d'%len(p) if isinstance(p,bytes) else p[0]) for p in b)
    @property
    def role(s):
        """hdr (whole key is user bytes), item (user bytes + list hash), chain (list hash + index), qitem (user bytes + index)"""
        sh=tuple(x for x in s.shape if not(x=='u32' or x[0]=='c' and x[1:].isdigit()))      # constants and type ids are part of the user's key
        return {('v',):'hdr',('v','PH'):'item',('PH','u64'):'chain',('v','u64'):'qitem'}.get(sh,'?')
    def user(s):
        """bytes of the body in front of the fixed part"""
        if s.role=='hdr': return join(s.body)
        if s.role in('item','qitem'): return join(s.body[:max(k for k,p in enumerate(s.body) if isinstance(p,tuple) and p[0] in('PH','u64'))])
    def num(s):
        return next((p[1] for p in s.body if isinstance(p,tuple) and p[0]=='u64'),None)
    def ph(s):
        return next((p[1] for p in s.body if isinstance(p,tuple) and p[0]=='PH'),None)
def unph(t):
    """the key a hash was computed from"""
    if t is None: return None
    if t.op=='agg' and t.a[0]==PH: t=fld(t,'0')
    return t.a[1] if t.op=='ph' else None
def okv(res): return fld(asv(res,'Ok'),'0')
def somev(res): return fld(asv(okv(res),'Some'),'0')

class Op:
    __slots__=('kind','x','key','val','mode','res','out','st','n','g')
    def __repr__(s): return '%s#%d %s'%(s.kind,s.n,show(s.key.t) if s.key else '')
class Hist:
    """one feasible trace of an API call, as operations on keys"""
    def __init__(s,C,t,root):
        s.C=C; s.t=t; s.root=root; s.ops=[]; s.lin=Lin(); s.feasible=True; s.why=''
        s.settle()
        s.tab.update(ctor(C,root))
        if root.startswith('typed::'): s.tab[fld(mk('arg','self'),'store')]=mk('arg','self')
        for x in t.S:
            if x.k=='Call': s.call(x)
        s.facts()
        if s.feasible: s.presence()
    def settle(s):
        """field of a structure carried through a loop that no iteration changes -> its initial value"""
        s.tab={}
        steps={}
        for x in s.t.S:
            if x.k=='Step': steps.setdefault(x.ptr.a[0],[]).append((x.ptr,x.val))
        s.steps=steps
    def norm(s,v):
        def f(x):
            if x.op=='fld' and x.a[0].op=='lv':
                l=x.a[0]
                if all(canon(fld(val,x.a[1])) is canon(fld(p,x.a[1])) for p,val in s.steps.get(l.a[0],[])): return s.norm(fld(canon(l.a[2]),x.a[1]))
            if x.op=='slice':
                # key[..len-9] + the same 9 bytes established as its end
                pass
            return None
        return rebuild(v,s.tab,f)
    def call(s,x):
        n=x.op.split('::')[-1]; own=x.op.split('::')[-2] if '::' in x.op else ''
        if x.res is None: return
        o=Op(); o.x=x; o.res=x.ev.res; o.key=o.val=o.mode=None; o.n=len(s.ops)
        o.st=s.t.ok(o.res)
        if own=='ShardRouter' and n=='insert':
            o.kind='insert'; o.key=Key(s.C,s.norm(x.val[2])); o.val=s.norm(x.val[3]); o.mode=s.norm(x.val[4])
        elif own=='Shard' and n in('get','remove'):
            o.kind=n; o.key=Key(s.C,s.norm(x.val[2]))
        elif own=='Shard' and n=='get_by_hash': o.kind='scan'; o.val=s.norm(x.val[1])
        else: return
        o.out=s.t.p.conds.get(mk('is',okv(o.res))) if o.st=='Ok' else None
        o.g=[g for g in x.ev.held if (s.t.gcls.get(g) or s.t.gcls.get(g.a[0]))=='KEYED']
        s.ops.append(o)
    def counted(s):
        """quantities that grow by one in every iteration of a loop over a collection agree with the position in the collection"""
        s.lin.walks=[]
        its={}
        for x in s.t.S:
            if x.k=='Iter' and x.mode and x.col is not None and x.col.op=='iv' and x.col.a[-1]=='f': its.setdefault(x.mode,[]).append(x.col)
            elif x.k=='IterEnd' and x.mode and x.col is not None and x.col.op not in('arr','cb') and len(its.get(x.mode,[]))==1:
                iv=its[x.mode][0]
                if iv.a[1] is x.col: s.lin.walks.append((blen(s.norm(x.col)),s.norm(iv)))
        seen=set(); ad={y.mode for y in s.t.by('Adapt')}
        for x in s.t.S:
            if x.k=='Iter': seen.add(x.mode)
            elif x.k=='IterEnd' and x.op=='end' and x.mode and x.mode not in seen|ad and x.col is not None and x.col.op in('gvec','collected'): s.lin.eq(blen(s.norm(x.col)),c(0))
        s.lin.ivs=[s.norm(z) for l in its.values() for z in l]
        if not its: return
        K=counters(s.C,s.root)
        lvs=set()
        for v in [x.ptr for x in s.t.conds()]+[z for o in s.ops for z in(o.val,o.key.t if o.key else None) if z is not None]+([canon(s.t.ret)] if s.t.ret is not None else []):
            lvs|={y for y in subterms(v) if isinstance(y,V) and y.op=='lv' and isinstance(y.a[0],tuple) and y.a[1]==1 and y.a[0][:3] in its}
        for l in sorted(lvs,key=lambda y:y.id):
            if K.get(ckey(l))=={1} and len(its[l.a[0][:3]])==1 and numeric(l.a[2]):
                s.lin.eq(l,add(s.norm(its[l.a[0][:3]][0]),s.norm(l.a[2])))
    def facts(s):
        neq=[]; ge=[]
        s.counted()
        # a loop over an empty collection runs no iteration: everything it carries keeps its initial value
        empty={x.mode for x in s.t.by('IterEnd') if x.col is not None and x.col.op=='cb' and not x.col.a[0]}-{x.mode for x in s.t.by('Iter')}
        if empty:
            lvs=set()
            for v in [x.ptr for x in s.t.conds()]+[o.val for o in s.ops if o.val is not None]+([canon(s.t.ret)] if s.t.ret is not None else []):
                lvs|={y for y in subterms(v) if isinstance(y,V) and y.op=='lv' and isinstance(y.a[0],tuple) and y.a[0][:3] in empty}
            for l in lvs:
                if numeric(l.a[2]) and l.a[2].op not in('agg','cb'): s.lin.eq(l,canon(l.a[2]))
        for x in s.t.conds():
            p=s.norm(x.ptr); v=x.op
            while p.op=='not': p=p.a[0]; v=1-v if v in(0,1) else v
            if isc(p) and v in(0,1) and p.a[0]!=v: s.bad('branch on a constant'); return
            if p.op=='eq' and numeric(p.a[0]) and numeric(p.a[1]) and not p.a[0].op=='is':
                if v==1:
                    if not s.lin.eq(*p.a): s.bad('contradictory equalities'); return
                elif v==0: neq.append(p)
            elif p.op=='lt' and v in(0,1):
                if v==1: neq.append(p)
                ge.append(sub(sub(p.a[1],p.a[0]),c(1)) if v==1 else sub(p.a[0],p.a[1]))
        for n,iv in getattr(s.lin,'walks',()): ge.append(sub(sub(n,iv),c(1)))
        for p in neq:
            if numeric(p.a[0]) and numeric(p.a[1]) and s.lin.same(*p.a): s.bad('contradicts an equality'); return
        stored=s.stored()+s.lemmas()
        for i,a in enumerate(ge):
            for b in ge[i:]+stored:
                k,m=unlin(add(a,b))
                if k<0 and all(n<0 for n in m.values()): s.bad('contradictory bounds'); return     # all quantities are unsigned
        for l in s.lemmas():
            for i,a in enumerate(ge):
                for b in ge[i:]:
                    k,m=unlin(add(add(a,b),l))
                    if k<0 and all(n<0 for n in m.values()): s.bad('contradictory bounds'); return
        for n,iv in getattr(s.lin,'walks',()):
            for b in stored:
                d=s.lin.reduce(s.lin.vec(add(sub(sub(n,iv),c(1)),b)))
                if d.get(1,0)<0 and all(z<=0 for z in d.values()): s.bad('contradictory bounds'); return
        if s.negcycle(ge+stored): s.bad('contradictory bounds'); return
        # a collection is either empty or not, every time it is walked
        z={}
        it={}
        for x in s.t.S:
            if x.k=='Iter' and x.mode:
                it.setdefault(x.mode,x)
                if x.col is not None and x.col.op=='iv' and isinstance(x.col.a[1],V) and z.setdefault(x.col.a[1],False): s.bad('collection both empty and not'); return
            elif x.k=='IterEnd' and not x.mode and x.col is not None and x.col.op=='arr' and x.col.a[0] and not any(y.k=='Iter' and y.i<x.i and y.ptr is x.ptr for y in s.t.S): s.bad('no iteration over elements that are there'); return
            elif x.k=='IterEnd' and x.mode and x.col is not None:
                e=x.mode not in it; it.pop(x.mode,None)
                if isc(x.col) or x.col.op=='cb': continue
                if z.setdefault(x.col,e)!=e: s.bad('collection both empty and not'); return
    def negcycle(s,ge):
        """difference constraints x-y>=k on unsigned quantities, with loop counters that only move one way and ranges that never cross"""
        E=set()
        def add_(t):
            k,m=unlin(t)
            pos=[x for x,n in m.items() if n==1]; neg=[x for x,n in m.items() if n==-1]
            for n_,_ in getattr(s.lin,'walks',()):
                if n_ in neg and len(m)>2: add_(sub(add(t,n_),c(1))); return       # what was walked has at least one element
            if len(pos)+len(neg)==len(m) and len(pos)<=1 and len(neg)<=1 and m: E.add((pos[0] if pos else 0,neg[0] if neg else 0,-k))   # pos-neg>=-k
        for g in ge: add_(g)
        for x in s.t.conds():
            p=s.norm(x.ptr)
            if p.op=='eq' and x.op==1 and numeric(p.a[0]) and numeric(p.a[1]): add_(sub(*p.a)); add_(sub(p.a[1],p.a[0]))
        if not any(a!=0 and b!=0 for a,b,_ in E): return False
        mono={}
        for l,ps in s.steps.items():
            ds=[sub(canon(v),p) for p,v in ps]
            if ds and all(isc(d) for d in ds): mono[l]=1 if all(d.a[0]>=0 for d in ds) else -1 if all(d.a[0]<=0 for d in ds) else 0
        seen=set(); work=[a for e in E for a in e[:2] if a!=0]
        while work:
            a=work.pop()
            if a in seen: continue
            seen.add(a)
            if a.op=='lv' and isinstance(a.a[0],tuple):
                i=canon(a.a[2]); m=mono.get(a.a[0])
                if m: add_(sub(a,i) if m>0 else sub(i,a)); work+=list(unlin(i)[1])
            if a.op=='rng':
                lo,hi=canon(a.a[1]),canon(a.a[2]); add_(sub(a,lo)); add_(sub(sub(hi,a),c(1))); work+=list(unlin(lo)[1])+list(unlin(hi)[1])
            if a.op=='fld' and a.a[0].op=='from':
                f=fields(s.C,a.a[0].a[0])
                if f and len(f)==3: add_(sub(fld(a.a[0],f[1]),fld(a.a[0],f[0]))); work+=[fld(a.a[0],f[1]),fld(a.a[0],f[0])]
        N={0}|{a for e in E for a in e[:2]}
        D={n:0 for n in N}
        L=[(x,y,k) for x,y,k in E]+[(n,0,0) for n in N if n!=0]
        for i in range(len(N)+1):
            ch=False
            for x,y,k in L:          # x>=y+k : longest path
                if D[y]+k>D[x]: D[x]=D[y]+k; ch=True
            if not ch: return False
        return True
    def lemmas(s):
        """arithmetic of chunked slices and minima that occur on the path"""
        r=[]; seen=set()
        vs=[s.norm(x.ptr) for x in s.t.conds()]+[o.val for o in s.ops if o.val is not None]
        for v in vs:
            for y in subterms(v):
                if not isinstance(y,V) or y in seen: continue
                seen.add(y)
                if y.op=='len' and y.a[0].op=='chunk':
                    k,b=y.a[0].a[2],blen(canon(y.a[0].a[1]))
                    r+=[sub(k,y),sub(b,y)]
                    for m in list(seen):
                        if m.op=='min' and set(map(canon,m.a))=={k,b}: r.append(sub(m,y))
                elif y.op=='min':
                    r+=[sub(canon(z),y) for z in y.a]
                    r+=[sub(y,canon(z)) for z in y.a if s.lin.same(canon(z),c(0))]
                    for m in list(seen):
                        if m.op=='len' and m.a[0].op=='chunk' and set(map(canon,y.a))=={m.a[0].a[2],blen(canon(m.a[0].a[1]))}: r.append(sub(y,m))
        return r
    def stored(s,before=None):
        """an entry found in the store passed the size checks when it was stored (C13)"""
        r=[]; mx=fld(fld(mk('arg','self'),'config'),'max_shard_size'); kb,vb=(1<<14)-1,(1<<16)-1
        seen=set()
        def entry(k,v):
            if (k,v) in seen: return
            seen.add((k,v)); r.extend([sub(c(kb),k),sub(c(vb),v),sub(sub(mx,k),v)])
        for o in s.ops:
            if before is not None and o.x.i>=before: break
            if o.key is not None and (o.kind=='get' and o.out=='Some' or o.kind=='insert' and o.out=='AlreadyExists'):
                v=somev(o.res) if o.kind=='get' else fld(asv(okv(o.res),'AlreadyExists'),'0')
                entry(blen(o.key.t),blen(v))
                if o.key.role=='hdr': entry(blen(o.key.t),c(24))
            elif o.kind=='insert' and o.out: entry(blen(o.key.t),blen(o.val))
        for x in s.t.by('Iter'):
            v=x.val
            if v is not None and v.op=='idx' and v.a[0].op=='fld' and v.a[0].a[0].op=='as': entry(blen(fld(v,'0')),blen(fld(v,'1')))
        return r
    def bad(s,w): s.feasible=False; s.why=w
    def presence(s):
        """what is known about each key at each operation, within the lock that protects it"""
        FE={'Set':('Added','Replaced'),'GetOrCreate':('Added','AlreadyExists')}
        known={}                        # key term -> (guard, 'present'|'absent', value)
        for o in s.ops:
            if o.key is None or o.st!='Ok': continue
            g=tuple(o.g); k=o.key.t
            kn=known.get(k)
            if kn is not None and (kn[0]!=g or not g): kn=None
            pr=kn[1] if kn else None
            if o.kind=='get':
                if o.out in('Some','None') and pr and (pr=='present')!=(o.out=='Some'): return s.bad('presence')
                if o.out: known[k]=(g,'present' if o.out=='Some' else 'absent',somev(o.res))
            elif o.kind=='remove':
                if o.out in('Some','None') and pr and (pr=='present')!=(o.out=='Some'): return s.bad('presence')
                known[k]=(g,'absent',None)
            elif o.kind=='insert' and o.out:
                m=o.mode.a[1]
                if m in FE and o.out not in FE[m]: return s.bad('outcome of mode')
                if m=='Replace':
                    e=o.mode.a[3][0] if o.mode.a[3] else None
                    al=['Replaced','KeyDoesNotExist']
                    if e is None or not(e.op=='agg' and e.a[1]=='None'): al.append('AlreadyExists')
                    if e is not None and e.op!='agg':
                        ev=s.t.p.conds.get(mk('is',e))
                        if ev=='None': al.remove('AlreadyExists')
                    if o.out not in al: return s.bad('outcome of mode')
                was={'Added':'absent','KeyDoesNotExist':'absent','Replaced':'present','AlreadyExists':'present'}.get(o.out)
                if was is None: return s.bad('outcome of mode')      # SplitNeeded: never returned by the router (C26)
                if pr and was and pr!=was: return s.bad('presence')
                if o.out in('Added','Replaced'): known[k]=(g,'present',o.val)
                elif o.out=='KeyDoesNotExist': known[k]=(g,'absent',None)
                else: known[k]=(g,'present',fld(asv(okv(o.res),'AlreadyExists'),'0'))
    # ---------------------------------------------------------------- sections
    def sections(s):
        r={}
        for o in s.ops:
            for g in o.g: r.setdefault(g,[]).append(o)
        return r
    def muts(s): return [o for o in s.ops if o.kind in('insert','remove')]
    def effects(s): return [o for o in s.ops if changes(o)]
def changes(o):
    """did the operation change the store (as far as known)"""
    if o.kind=='remove': return o.out!='None'
    if o.kind=='insert': return o.out in('Added','Replaced',None)
    return False

def ctor(C,root):
    """what the fields of an iterator hold, according to every public function that makes one"""
    if not root.startswith('<') or 'Iterator' not in root: return {}
    ty=root[1:].split(' as ')[0]; mod=ty.split('::')[0]; vals={}
    c_=C.__dict__.setdefault('_ctors',{})
    if ty in c_: return c_[ty]
    for p,f in sorted(C.P.fns.items()):
        if not(p.startswith(mod+'::') and f.pub) or '{closure' in p or 'ter' not in p.split('::')[-1]: continue
        if not any(p.startswith(mod+'::'+q) for q in('iter','owned_iter','CandyStore::iter')): continue
        for t in api.run(C,p):
            if t.kind=='return' and t.ret is not None and t.ret.op=='agg' and t.ret.a[0]==ty:
                for n,v in zip(t.ret.a[2],t.ret.a[3]): vals.setdefault(n,set()).add(canon(v))
    me=mk('arg','self'); tab={}
    for n,vs in vals.items():
        if len(vs)==1:
            v=next(iter(vs))
            if v.op in('cat','arg') or v.op=='agg' and v.a[0]==PH: tab[fld(me,n)]=v
    c_[ty]=tab
    return tab
def rootsof(C):
    pub=[p for p,f in C.P.fns.items() if f.pub and '{closure' not in p]
    own=lambda m:[p for p in pub if p.startswith(m)]
    it=lambda m:[p for p in C.P.fns if p.startswith('<'+m) and p.endswith('Iterator>::next')]
    plain=['get','owned_get','contains','owned_contains','remove','owned_remove','set','owned_set','replace','owned_replace','get_or_create','owned_get_or_create']
    st='store::CandyStore::'
    R={'list':own('lists::')+it('lists::')+[p for p in own('typed::CandyTypedList::') if not p.endswith('::new')],
       'queue':own('queues::')+it('queues::')+[p for p in own('typed::CandyTypedDeque::') if not p.endswith('::new')],
       'plain':[p for p in own(st) if p[len(st):] in plain],
       'big':[p for p in own(st)+own('typed::CandyTypedStore::') if p.endswith('_big')],
       'typed':[p for p in own('typed::CandyTypedStore::') if not p.endswith('_big') and not p.endswith('::new')]}
    return R
FLOORS={'list':30,'queue':20,'plain':10,'big':3,'typed':5}
def ckey(l):
    n=l.a[0]
    return (n[0],n[1],re.sub(r'^L\d+\.','L.',str(n[3])))
def counters(C,root):
    """{loop-carried quantity: set of its changes per iteration}, over all paths of root"""
    c_=C.__dict__.setdefault('_counters',{})
    if root not in c_:
        r={}
        for t in api.run(C,root):
            for x in t.by('Step'):
                if x.ptr.op!='lv' or not isinstance(x.ptr.a[0],tuple): continue
                d=sub(canon(x.val),x.ptr)
                r.setdefault(ckey(x.ptr),set()).add(d.a[0] if isc(d) else None)
        c_[root]=r
    return c_[root]
def hists(C,root):
    c_=C.__dict__.setdefault('_hists',{})
    if root not in c_:
        c_[root]=[h for h in (Hist(C,t,root) for t in api.run(C,root)) if h.feasible]
    return c_[root]
def short(p): return p.split('::')[-1] if not p.startswith('<') else p[1:].split(' as ')[0].split('::')[-1]+'::'+p.split('::')[-1]
def tag(p): return ('' if not p.startswith('typed::') else p.split('::')[1]+'::')+short(p)
