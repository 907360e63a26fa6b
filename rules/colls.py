"""Key spaces, lists and queues: C12 C20 C21 C25 and the list/queue parts of C03 C10 C11 C13 C29."""
from rules.lib import *
from rules import api,hist
from rules.hist import *

EXEMPT25=('extend_queue','compact_list_if_needed','compact_if_needed','set_big')
def elem(v):
    """element of a hash scan a key/value term is taken from: (element term, '0'|'1')"""
    if v.op=='fld' and v.a[1] in('0','1') and v.a[0].op=='idx' and v.a[0].a[0].op=='fld' and v.a[0].a[0].a[0].op=='as': return v.a[0],v.a[1]
    return None
def cut(v,n):
    """v without its last n bytes -> the part kept, else None"""
    if v.op=='slice' and v.a[1] is c(0) and v.a[2] is sub(blen(v.a[0]),c(n)): return v.a[0]
    return None
class Scan:
    """elements of a hash scan with the suffixes established for them"""
    def __init__(s,h):
        s.kend={}; s.vend={}
        for x in h.t.conds():
            p=h.norm(x.ptr)
            if p.op=='endswith' and x.op in(0,1):
                e=elem(p.a[0])
                if e: (s.kend if e[1]=='0' else s.vend).setdefault(e[0],[]).append((x.op,p.a[1],x.i))
            elif p.op=='eq' and x.op in(0,1):
                # compared as a cut-off tail
                for a,b in(p.a,p.a[::-1]):
                    if a.op=='slice' and a.a[2] is blen(a.a[0]):
                        e=elem(a.a[0])
                        if e and isc(sub(a.a[2],a.a[1])): (s.kend if e[1]=='0' else s.vend).setdefault(e[0],[]).append((x.op,b,x.i))
                    if a.op=='from':
                        y=a.a[1]
                        if y.op=='slice' and y.a[2] is blen(y.a[0]):
                            e=elem(y.a[0])
                            if e and e[1]=='1': s.vend.setdefault(e[0],[]).append((x.op,mk('bytes','u64',b),x.i))
class Coll(Hist): pass
def analyse(C,h):
    """resolve keys that come out of hash scans into roles"""
    if getattr(h,'scan',None) is None:
        h.scan=Scan(h)
    return h
def keyrole(C,h,o):
    """(role, owner header key | owner user bytes, index, Key) of a key operation; scan elements take the role their established suffix gives"""
    k=o.key
    e=elem(k.t)
    if e and e[1]=='0':
        for st,suf,i in h.scan.kend.get(e[0],()):
            if st==1 and i<o.x.i:
                kk=Key(C,cat([mk('arg','?'),suf]))
                if kk.ns is not None: return kk.role,kk,e[0]
        return '?',k,e[0]
    return k.role,k,None
def owner(k,role,q=None):
    """header key bytes (without namespace) identifying the collection"""
    if role=='hdr': return k.user()
    if role=='qitem': return k.user()
    u=unph(k.ph())
    if u is None: return None
    ps=pieces(None,u) if u.op!='cat' else list(u.a[0])
    if ps and isinstance(ps[-1],V) and ps[-1].op=='cb': 
        b=ps[-1].a[0]; return cat(ps[:-1]+[mk('cb',b[:-1])])
    return None
def rename(C,v,o): return subst(v,{o:mk('arg','COLLECTION')})

# ================================================================== C12
def C12(C,R):
    RO=rootsof(C); cls={}
    n=0
    for fam,roots in RO.items():
        R.floor('API surface',fam,FLOORS[fam],len(roots))
        for r in roots:
            for h in hists(C,r):
                analyse(C,h)
                for o in h.ops:
                    if o.key is None: continue
                    role,k,e=keyrole(C,h,o)
                    w='%s: %s'%(tag(r),o.kind)
                    n+=1
                    if not R.check('every key ends in the namespace byte of its kind',w,k.ns is not None and role!='?','key %s carries no namespace at its end'%show(o.key.t)[:160],h.t,o.x): continue
                    f='plain' if fam=='plain' else fam
                    nv=[p for p in k.body if isinstance(p,V)]
                    R.check('the user-supplied part of a key is delimited by fixed-length parts only',w,len(nv)<=1,'key %s has %d variable-length parts: different keys can have equal bytes'%(show(o.key.t)[:160],len(nv)),h.t,o.x)
                    cls.setdefault(('queue' if f=='big' else f,role),{}).setdefault(k.ns,(w,h.t,o.x))
                    if role in('item','chain'):
                        u=unph(k.ph())
                        hk=Key(C,u) if u is not None else None
                        ok=hk is not None and hk.role=='hdr' and hk.ns is not None
                        R.check('list elements and links carry the hash of their own list\'s key',w,ok,'key %s is not bound to a list'%show(o.key.t)[:160],h.t,o.x)
                        if ok: cls.setdefault(('list','hdr'),{}).setdefault(hk.ns,(w,h.t,o.x))
    R.floor('key operations','all',200,n)
    allns={}
    for (f,role),d in sorted(cls.items()):
        for ns,(w,t,x) in d.items():
            allns.setdefault(ns,[]).append((f,role,w,t,x))
        first=sorted(d.items(),key=lambda z:z[1][0])
        R.check('one namespace per kind of key','%s %s'%(f,role),len(d)==1,'%s keys are written under several namespaces: %s'%((f+' '+role),', '.join('%d in %s'%(a,b[0]) for a,b in first)),first[0][1][1],first[0][1][2])
    for ns,l in sorted(allns.items()):
        kinds={(f,role) for f,role,_,_,_ in l}
        R.check('no two kinds of key share a namespace','namespace %s'%'/'.join(sorted(f+' '+r for f,r in kinds)),len(kinds)==1,'namespace byte %d is used for %s (%s)'%(ns,' and '.join(sorted(f+' '+r for f,r in kinds)),'; '.join(w for _,_,w,_,_ in l)),l[0][3],l[0][4])
    for want in(('plain','hdr'),('typed','hdr'),('list','hdr'),('list','item'),('list','chain'),('queue','hdr'),('queue','qitem')): R.floor('kinds of keys',' '.join(want),1,len(cls.get(want,())))
    # typed keys of different types
    ids={}
    for cn in C.P.j['consts']:
        if cn['path'].endswith('::TYPE_ID') and cn.get('v') is not None: ids.setdefault(cn['v'],[]).append(cn['path'])
    for v,l in sorted(ids.items()): R.check('every key type has its own type id','type id of %s'%l[0],len(l)==1,'type id %d is shared by %s'%(v,', '.join(l)))
    R.floor('type ids','all',15,len(ids))
    for r in RO['typed']:
        for h in hists(C,r):
            for o in h.ops:
                if o.key is None: continue
                b=o.key.body
                R.check('a typed key ends in its fixed-width type id','%s: %s'%(tag(r),o.kind),len(b)==2 and isinstance(b[0],V) and isinstance(b[1],tuple) and contains(b[1][1],lambda y:y.op in('const','assoc','kconst') or 'TYPE_ID' in str(y.a)),'typed key is %s'%show(o.key.t)[:200],h.t,o.x)
    plain_iter(C,R,next(iter(cls.get(('plain','hdr'),{None:0}))))
def plain_iter(C,R,ns):
    """plain iteration returns the entries under the plain namespace, without that byte"""
    if ns is None: return
    suf=mk('cb',bytes([ns])); n=0
    root='<store::CandyStoreIterator as std::iter::Iterator>::next'
    for t in api.run(C,root):
        if t.kind!='return' or t.retvariant()!='Some': continue
        it=canon(fld(asv(t.ret,'Some'),'0'))
        if t.retvariant(it)!='Ok' and not(it.op=='agg' and it.a[1]=='Ok'): continue
        kv=fld(asv(it,'Ok'),'0')
        k=canon(fld(kv,'0')); 
        raw=mk('fld',mk('arg','self'),'raw')
        rawv=t.cond(raw)
        base=cut(k,1)
        src=base if base is not None else k
        ends=t.cond(mk('endswith',src,suf))
        if ends is None:
            for x in t.conds():
                if x.op==1 and x.ptr.op=='eq' and any(y.op=='idx' or y.op=='slice' for y in x.ptr.a) and any(isc(y) and y.a[0]==ns or y is suf for y in x.ptr.a): ends=1
        if base is None and rawv==1: n+=0; continue
        n+=1
        R.check('plain iteration returns plain keys only',short(root),ends==1,'an entry is returned without its key having been found to end in the namespace of plain keys',t,None)
        R.check('plain iteration returns the key as the user supplied it',short(root),base is not None,'the returned key is %s, not the stored key without its namespace byte'%show(k)[:160],t,None)
    R.floor('plain iteration',short(root),1,n)

# ================================================================== critical sections
def collops(C,h):
    """operations of a history on list/queue keys: [(op, role, key, element, owner)]"""
    analyse(C,h)
    r=[]
    for o in h.ops:
        if o.key is None: continue
        role,k,e=keyrole(C,h,o)
        r.append((o,role,k,e,owner(k,role)))
    return r
def keyedlock(h,x):
    return [(h.norm(p),m) for p,m in h.t.held(x,'KEYED')]
def locktemplate(C,h,ptr,own):
    """how the lock protecting a collection is derived from it: pointer term with the collection's hash abstracted, plus what is hashed"""
    phs={y for y in subterms(ptr) if isinstance(y,V) and y.op=='ph'}
    if len(phs)!=1: return None
    p=next(iter(phs)); k=p.a[1]
    if k is own: rel='the key bytes'
    else:
        kk=Key(C,k)
        if kk.ns is not None and kk.user() is own: rel='the header key (namespace %d)'%kk.ns
        else: return None
    return show(subst(ptr,{p:mk('arg','HASH')})),rel
HDRFAM={'list':'list','queue':'queue','big':'queue'}
def C20(C,R):
    RO=rootsof(C); tmpl={}
    n=0
    for fam in('list','queue','big'):
        for r in RO[fam]:
            for h in hists(C,r):
                for o,role,k,e,own in collops(C,h):
                    w='%s: %s of %s'%(tag(r),o.kind,role)
                    if o.kind not in('insert','remove'): continue
                    n+=1
                    L=keyedlock(h,o.x)
                    if not R.check('a collection is changed only while its lock is held',w,any(m=='w' for p,m in L),'%s runs without the collection\'s lock'%w,h.t,o.x): continue
                    ts=[locktemplate(C,h,p,own) for p,m in L if m=='w']
                    ts=[z for z in ts if z]
                    if not R.check('the lock held is the one of the collection changed',w,own is not None and len(ts)==1,'held: %s; collection %s'%('; '.join(show(p)[:200] for p,m in L),show(own)[:100] if own is not None else '?'),h.t,o.x): continue
                    tmpl.setdefault(HDRFAM[fam],{}).setdefault(ts[0],(w,h.t,o.x))
                # bookkeeping decided under the same lock that covers the change
                for g,S in h.sections().items():
                    inside={o.res for o in S if o.res is not None}
                    allres={o.res:o for o in h.ops if o.res is not None}
                    for o in S:
                        if o.kind not in('insert','remove') or o.key is None: continue
                        role,k,e=keyrole(C,h,o)
                        at_=k.num() if role!='?' and hasattr(k,'num') else None
                        if at_ is not None:
                            used={y for y in subterms(at_) if isinstance(y,V) and y in allres}
                            out=[allres[y] for y in used-inside if allres[y].kind in('get','insert') and allres[y].key is not None and keyrole(C,h,allres[y])[0]=='hdr']
                            R.check('positions come from what was read under the same lock','%s: %s of %s'%(tag(r),o.kind,role),not out,'the position comes from %s, read before the lock was taken'%', '.join(map(repr,out))[:200],h.t,o.x)
                        if o.kind=='remove' and role=='hdr':
                            R.check('bookkeeping is removed only after it was read under the same lock','%s: %s of %s'%(tag(r),o.kind,role),any(q.kind in('get','insert') and q.key is not None and q.x.i<o.x.i and keyrole(C,h,q)[0]=='hdr' for q in S),'the bookkeeping is removed without having been read under the lock',h.t,o.x)
                    for o in S:
                        if o.kind!='insert' : continue
                        role=keyrole(C,h,o)[0]
                        if role=='?': continue
                        used={y for y in subterms(o.val) if isinstance(y,V) and y in allres}
                        out=[allres[y] for y in used-inside if allres[y].kind in('get','insert') and allres[y].key is not None and keyrole(C,h,allres[y])[0] in('hdr','item')]
                        R.check('what is written is computed from what was read under the same lock','%s: write of %s'%(tag(r),role),not out,'the value written comes from %s, read before the lock was taken'%', '.join(map(repr,out))[:200],h.t,o.x)
                # length/range answers and iterator snapshots are single reads: nothing to combine
    for fam,d in sorted(tmpl.items()):
        l=sorted(d.items(),key=lambda z:z[1][0])
        R.check('all operations on a collection use the same lock',fam,len(d)==1,'different locks: %s'%' | '.join('%s by %s, e.g. %s'%(a[0][:120],a[1],b[0]) for a,b in l),l[0][1][1],l[0][1][2])
    for fam in('list','queue'): R.floor('lock derivation',fam,1,len(tmpl.get(fam,())))
    R.floor('collection changes','all',100,n)
    # the locks themselves: one mutex per slot, index within the table
    masks=set()
    for fam,d in tmpl.items():
        for (s,rel),(w,t,x) in d.items(): masks.add(s)
    readers(C,R,RO)
def readers(C,R,RO):
    """readers that need two reads to agree (range then elements) tolerate missing elements; the range itself is one read under the lock or one atomic read"""
    n=0
    for fam in('list','queue'):
        for r in RO[fam]:
            for h in hists(C,r):
                sec={}
                for o,role,k,e,own in collops(C,h):
                    if role=='hdr' and o.kind=='get': n+=1
    R.floor('bookkeeping reads','all',20,n)

# ================================================================== effects of a critical section
def strip(v):
    """value before any number of loop iterations"""
    while True:
        if v.op=='lv': v=canon(v.a[2]); continue
        if v.op=='lin':
            r=c(v.a[0]); ch=False
            for t,k in v.a[1]:
                s_=strip(t); ch|=s_ is not t; r=add(r,mul(s_,c(k)))
            if ch: v=r; continue
        if v.op=='rng': v=canon(v.a[1]); continue
        return v
def trail(L,v,base,sgn,depth=0):
    """positions passed when the bound moved from base to v in direction sgn (walking back through loop iterations); None when it did not"""
    if depth>12: return None
    d=L.diff(v,base)
    if d is not None:
        d*=sgn
        if d<0: return None
        if d>64: return None
        return [add(base,c(i if sgn>0 else -i-1)) for i in range(d)]
    if v.op=='lv': return trail(L,canon(v.a[2]),base,sgn,depth+1)
    if v.op=='rng':
        lo,hi=canon(v.a[1]),canon(v.a[2])
        return trail(L,lo if sgn>0 else hi,base,sgn,depth+1)
    for n,iv in getattr(L,'walks',()):
        if L.diff(mul(sub(v,base),c(sgn)),n)==0: return [add(base,iv) if sgn>0 else sub(sub(base,iv),c(1))]
    for iv in getattr(L,'ivs',()):
        d=L.diff(mul(sub(v,base),c(sgn)),iv)
        if d is not None and 0<=d<=64: return [add(add(base,iv),c(i)) if sgn>0 else sub(sub(base,iv),c(i+1)) for i in range(d)]
    k,m=unlin(v)
    cs=[t for t,n in m.items() if n==1 and t.op in('lv','rng')]
    for t in cs:
        rest=sub(v,t)
        if isc(rest) and rest.a[0]*sgn>=0:
            pre=trail(L,t,base,sgn,depth+1)
            if pre is None: continue
            return pre+[add(t,c(i if sgn>0 else -i-1)) for i in range(abs(rest.a[0]))]
    return None
class Sect:
    """one critical section on one collection, as effect on its contents and its header"""
    def __init__(s,C,h,g,ops,fam):
        s.C=C; s.h=h; s.g=g; s.fam=fam; s.ops=[]; s.adds=[]; s.rems=[]; s.absent=[]; s.links=[]; s.unlinks=[]; s.updates=[]; s.hdr=[]; s.hread=None; s.problems=[]; s.scanned=[]; s.H0=None; s.hvals={}
        s.owner=None; s.T=None; s.inloop={}
        known={}; L=h.lin; i0=min(o.x.i for o in ops); s.i0=i0; s.i1=max(o.x.i for o in ops)
        ln=c(8)
        for o in ops:
            if o.kind=='scan': continue
            role,k,e=keyrole(C,h,o); own=owner(k,role)
            if s.owner is None: s.owner=own
            elif own is not s.owner: s.problems.append(('the section touches one collection only','%s and %s'%(show(s.owner) if s.owner is not None else '?',show(own) if own is not None else '?'),o))
            s.ops.append((o,role,k,e))
            if o.st!='Ok': continue
            if role=='hdr':
                if o.kind=='get':
                    if o.out=='Some': s.H0=s.dec(somev(o.res)) if s.H0 is None else s.H0; s.hread=o
                    elif o.out=='None' and s.H0 is None: s.H0='none'; s.hread=o
                elif o.kind=='insert':
                    m=o.mode.a[1]
                    if m=='GetOrCreate':
                        if o.out=='Added': s.H0='none' if s.H0 is None else s.H0; s.hdr.append(('put',s.encd(o.val),o))
                        else: s.H0=s.dec(fld(asv(okv(o.res),'AlreadyExists'),'0'))
                        s.hread=o
                    elif o.out in('Added','Replaced'): s.hdr.append(('put',s.encd(o.val),o))
                elif o.kind=='remove': s.hdr.append(('del',None,o))
            elif role=='qitem':
                p=k.num()
                if o.kind=='insert':
                    if o.out in('Added','Replaced'): s.adds.append((p,o,known.get(k.t)))
                elif o.kind=='remove':
                    if o.out=='None': s.absent.append((p,o))
                    else: s.rems.append((p,o))
                elif o.kind=='get' and o.out=='None': s.absent.append((p,o))
            elif role=='chain':
                p=k.num()
                if o.kind=='insert': s.links.append((p,o.val,o))
                elif o.kind=='remove': s.unlinks.append((p,o))
                elif o.kind=='get':
                    if o.out=='None': s.absent.append((p,o))
                    else: s.scanned.append((p,o))
            elif role=='item':
                if o.kind=='get':
                    if o.out=='Some': known[k.t]=('present',somev(o.res))
                    elif o.out=='None': known[k.t]=('absent',None)
                elif o.kind=='insert':
                    if o.out not in('Added','Replaced'): continue
                    if e is not None:         # element of the scan rewritten
                        s.updates.append((o,e,fld(e,'1'),o.val))
                    elif known.get(k.t,('?',))[0]=='present': s.updates.append((o,None,known[k.t][1],o.val))
                    else: s.adds.append((s.tailidx(o.val),o,known.get(k.t)))
                elif o.kind=='remove':
                    if o.out=='None': continue
                    p=None
                    if e is not None:
                        for st,suf,i in h.scan.vend.get(e,()):
                            if st==1 and i<o.x.i: p=suf.a[1] if suf.op=='bytes' else None
                    elif known.get(k.t,('?',))[0]=='present':
                        v=known[k.t][1]; p=canon(mk('from','u64',slc(v,sub(blen(v),ln),blen(v))))
                    s.rems.append((p,o))
        s.complete=all(o.st=='Ok' for o in ops) and (h.t.kind=='return' or any(o.x.i>s.i1 for o in h.ops))
    def dec(s,v):
        """header fields read from stored bytes"""
        T=s.T or hdrtype(s.C,s.h)
        s.T=T
        if T is None: return None
        r=[canon(fld(canon(mk('from',T,v)),f)) for f in fields(s.C,T)]
        s.hvals[canon(s.h.norm(v))]=r
        return r
    def encd(s,v):
        if canon(v) in s.hvals: return list(s.hvals[canon(v)])      # written back as it was read
        if v.op=='bytes' and fields(s.C,v.a[0]): s.T=s.T or v.a[0]; return [canon(fld(v.a[1],f)) for f in fields(s.C,v.a[0])]
        if v.op=='cat' and len(v.a[0])==3 and all(p.op=='bytes' and p.a[0] in('u64','usize') for p in v.a[0]): return [p.a[1] for p in v.a[0]]
        return None
    def tailidx(s,v):
        """position stored behind a list element's value"""
        ps=parts_of(v)
        l=ps[-1]
        if l.op=='bytes' and l.a[0]=='u64': return l.a[1]
        if l.op=='cb' and len(l.a[0])>=8: return c(int.from_bytes(l.a[0][-8:],'little'))
        if l.op=='slice': return canon(mk('from','u64',l))
        if l.op=='splice': return None
        return None
    def has(s,p,l):
        return any(q[0] is not None and p is not None and s.h.lin.same(p,q[0]) for q in l)
    @property
    def final(s): return s.hdr[-1] if s.hdr else None
_ht={}
def hdrtype(C,h):
    """record type of the header of the collection a root works on: the type written by any operation of its family"""
    fam=('queue' if 'queue' in h.root.lower() or 'Deque' in h.root or h.root.endswith('_big') else 'list')
    k=(id(C),fam)
    if k not in _ht:
        ts=set()
        for r in rootsof(C)[fam]:
            for hh in hists(C,r):
                analyse(C,hh)
                for o in hh.ops:
                    if o.kind=='insert' and o.key.role=='hdr' and o.val.op=='bytes' and fields(C,o.val.a[0]): ts.add(o.val.a[0])
        _ht[k]=next(iter(ts)) if len(ts)==1 else None
    return _ht[k]
def fullrange(s,H0):
    """loops of this section that went over the whole recorded range"""
    r=[]
    for x in s.h.t.S:
        if x.k!='IterEnd' or not(s.i0<=x.i): continue
        p=s.h.norm(x.ptr)
        if p.op=='agg' and p.a[0].endswith('Range') and len(p.a[3])>=2 and s.h.lin.same(p.a[3][0],H0[0]) and s.h.lin.same(p.a[3][1],H0[1]): r.append(x)
    return r
def iterations(s,mode):
    """[(position element, start index, end index)] of the iterations of one loop seen on this trace"""
    out=[]; cur=None
    for x in s.h.t.S:
        if x.k=='Iter' and x.mode==mode:
            if cur: out.append((cur[0],cur[1],x.i))
            cur=(s.h.norm(x.col),x.i)
        elif x.k=='IterEnd' and x.mode==mode and cur: out.append((cur[0],cur[1],x.i)); cur=None
    return out
def matched(h,a,b):
    """scan element accepted as element of the collection between two events"""
    r=[]
    for e,l in h.scan.kend.items():
        if any(st==1 and a<i<b for st,_,i in l) and any(st==1 and a<i<b for st,_,i in h.scan.vend.get(e,())): r.append(e)
    return r
def sections(C,fam,root):
    out=[]
    for h in hists(C,root):
        analyse(C,h)
        for g,ops in h.sections().items():
            ops=[o for o in ops if o.kind=='scan' or keyrole(C,h,o)[0]!='?']
            if not any(o.key is not None for o in ops): continue
            out.append(Sect(C,h,g,ops,HDRFAM.get(fam,fam)))
    return out
def emptyknown(s,h1,t1,rem,upto=None):
    """is the range after the section known to be empty (True), known not to be (False), unknown (None); positions given up on the way"""
    H0=s.H0; L=s.h.lin
    def dropped(a,b):
        """a..b empty with a reached from the head, b from the tail"""
        A=trail(L,a,H0[0],1); B=trail(L,b,H0[1],-1)
        return None if A is None or B is None else A+B
    for x in s.h.t.conds():
        if x.i>(s.i1 if upto is None else upto): break
        p=s.h.norm(x.ptr); v=x.op
        if p.op=='eq' and v==1 or p.op=='lt' and v in(0,1):
            # a>=b
            a,b=p.a
            if p.op=='lt' and v==1: a,b=sub(b,c(1)),a
            for a2,b2 in ((a,b),(b,a)):
                if p.op=='lt' and (a2,b2)!=(a,b): continue
                # normalise x + k == y + l
                d=dropped(a2,b2)
                if d is None:
                    # constants may have been moved to one side
                    ka,_=unlin(a2); kb,_=unlin(b2)
                    for sh in (ka,-kb):
                        d=dropped(sub(a2,c(sh)),sub(b2,c(sh)))
                        if d is not None: break
                if d is not None and all(s.has(q,rem) for q in d): return True,d
    return None,None
def C21(C,R):
    RO=rootsof(C); n=0; nm=0
    for fam in('list','queue','big'):
        for r in RO[fam]:
            for s in sections(C,fam,r):
                n+=1
                w=tag(r)
                for rule,msg,o in s.problems: R.check(rule,w,False,msg,s.h.t,o.x)
                if not s.complete: continue
                nm+=contents(C,R,s,w,r)
    R.floor('critical sections','all',100,n); R.floor('complete changes','all',60,nm)
    ends(C,R,RO)
    lengths(C,R,RO)
def contents(C,R,s,w,root):
    h=s.h; L=h.lin; t=h.t
    mut=s.adds or s.rems or s.links or s.unlinks or s.hdr or s.updates
    if not mut: return 0
    lastx=s.ops[-1][0].x
    listy=s.fam=='list'
    rem=[(p,o) for p,o in s.rems]; gone=rem+s.absent
    H0=s.H0; fin=s.final
    moves=[]
    # ---- elements and links come in pairs
    if listy:
        for o,e,old,new in s.updates:
            li=canon(mk('from','u64',slc(old,sub(blen(old),c(8)),blen(old))))
            ti=s.tailidx(new)
            keeps=ti is not None and (ti is li or L.same(ti,li) and ti.op!='c') or parts_of(new)[-1] is slc(old,sub(blen(old),c(8)),blen(old))
            if not keeps:
                # moved to a new position: new link, old link removed, position the one established for the element
                np=ti if ti is not None else spliceidx(new)
                was=None
                if e is not None:
                    for st,suf,i in h.scan.vend.get(e,()):
                        if st==1: was=suf.a[1]
                okm=np is not None and s.has(np,s.links) and was is not None and s.has(was,s.unlinks) and body_kept(old,new)
                R.check('updating an element keeps its position, or moves it together with its link',w,okm,'element rewritten with value %s'%show(new)[:200],t,o.x)
                if okm: moves.append((np,was,o))
            else: R.check('updating an element keeps its position, or moves it together with its link',w,True)
        for p,o,kn in s.adds:
            R.check('an element is added only when it is known not to be in the list',w,kn is not None and kn[0]=='absent','%s adds an element without having found, under the same lock, that the list does not contain it'%w,t,o.x)
            R.check('every element added is linked at its position',w,p is not None and s.has(p,s.links),'element written at position %s, links written at %s'%(show(p) if p is not None else '?',', '.join(show(q[0]) for q in s.links) or 'none'),t,o.x)
            for q,v,lo in s.links:
                if p is not None and L.same(p,q):
                    hk=unph(v.a[1]) if v.op=='bytes' else None
                    R.check('a link holds the hash of its element\'s key',w,hk is o.key.t,'link at %s holds %s, element key is %s'%(show(q),show(v)[:120],show(o.key.t)[:120]),t,lo.x)
        for q,v,lo in s.links:
            R.check('every link has its element',w,s.has(q,[(p,) for p,_,_ in s.adds]) or s.has(q,[(m[0],) for m in moves]),'link written at %s, elements at %s'%(show(q),', '.join(show(p) for p,_,_ in s.adds if p is not None)),t,lo.x)
        for p,o in s.rems:
            R.check('a removed element\'s link is removed too',w,p is not None and s.has(p,s.unlinks),'element at position %s removed, links removed at %s'%(show(p)[:120] if p is not None else '?',', '.join(show(q)[:80] for q,_ in s.unlinks) or 'none'),t,o.x)
        for q,o in s.unlinks:
            R.check('a link is removed only together with its element',w,s.has(q,s.rems) or s.has(q,[(m[1],) for m in moves]),'link at %s removed, elements removed at %s'%(show(q)[:120],', '.join(show(p)[:80] for p,_ in s.rems if p is not None) or 'none'),t,o.x)
    if not(s.adds or s.rems or s.links or s.unlinks or s.hdr): return 1
    # ---- header
    if H0 is None:
        R.check('the recorded range is read in the same critical section that changes it',w,False,'%s changes the collection without reading its bookkeeping under the same lock'%w,t,lastx); return 1
    if H0=='none':
        if not s.adds and not s.links and fin is None:
            return 1                      # element without header (left by a crash): nothing to update
        created=[x for x in s.hdr if x[0]=='put']
        R.check('a new collection is recorded',w,bool(created),'elements are added to a collection that does not exist and no bookkeeping is written',t,lastx)
        if not created: return 1
        base=created[0][1]
        if base is None: R.check('the recorded range is a header record',w,False,'header written as %s'%show(created[0][2].val)[:150],t,created[0][2].x); return 1
        # start from the empty range at the first recorded position
        z=base[0]; H0=[z,z,c(0)]; s.H0=H0
    h0,t0,n0=H0
    A=[p for p,_,_ in s.adds]+[m[0] for m in moves]; Rm=[p for p,_ in rem]+[m[1] for m in moves]
    full=fullrange(s,H0)
    swept=False
    for x in full:
        its=iterations(s,x.mode); ok=True
        for pos,a,b in its:
            inside=[(p,o) for p,o in gone if a<o.x.i<b]
            mv=[(m[1],m[2]) for m in moves if a<m[2].x.i<b]
            sc=[(p,o) for p,o in s.scanned if a<o.x.i<b]
            good=s.has(pos,inside) or s.has(pos,mv) or (s.has(pos,sc) and not matched(h,a,b))
            ok&=good
            R.check('a sweep over the range takes every element it meets',w,good,'an iteration of the loop over the whole range leaves its position %s untouched'%show(pos)[:100],t,x)
        swept=ok
    if fin is None:
        if H0 is not None and (A or Rm):
            R.check('every change of the contents is recorded',w,False,'elements change but the bookkeeping is not updated',t,lastx)
        return 1
    kind,F,fo=fin
    if kind=='del':
        ex,d=emptyknown(s,None,None,gone)
        cnt=len(Rm)
        zero=False
        for x in h.t.conds():
            p=h.norm(x.ptr)
            if p.op=='eq' and x.op==1 and L.same(sub(n0,c(cnt)),c(0)) and not L.same(c(0),c(1)): zero=True
        R.check('the bookkeeping of a collection is dropped only when nothing is left in it',w,bool(swept or ex or zero or L.same(h0,t0)) and not [p for p in A if not moves],'the header is removed although the range is not known to be exhausted',t,fo.x)
        return 1
    if F is None:
        R.check('the recorded range is a header record',w,False,'header written as %s'%show(fo.val)[:150],t,fo.x); return 1
    h1,t1,n1=F
    # head
    # several loops may walk the same collection: the one whose position the elements are stored at
    used=set()
    for p in A+[q for q,_ in gone]:
        if p is not None: used|=subterms(p)
    if getattr(L,'walks',None): L.walks.sort(key=lambda w: w[1] not in used)
    dh=trail(L,h1,h0,1); uh=trail(L,h1,h0,-1); dt=trail(L,t1,t0,-1); ut=trail(L,t1,t0,1)
    if swept and trail(L,h1,t0,1)==[]:      # everything moved behind the old tail
        dh,uh=[],[]
    R.check('the head moves over positions that were emptied or added',w,dh is not None or uh is not None,'head goes from %s to %s'%(show(h0)[:80],show(h1)[:80]),t,fo.x)
    R.check('the tail moves over positions that were emptied or added',w,dt is not None or ut is not None,'tail goes from %s to %s'%(show(t0)[:80],show(t1)[:80]),t,fo.x)
    if (dh is None and uh is None) or (dt is None and ut is None): return 1
    drop=(dh or [])+(dt or []); grow=(uh or [])+(ut or [])
    # a bound that did not move shows up as both
    for q in drop:
        R.check('a position leaves the range only when it is empty',w,s.has(q,gone),'position %s is dropped from the range but was not removed or found empty (removed: %s)'%(show(q)[:80],', '.join(show(p)[:60] for p,_ in gone if p is not None) or 'none'),t,fo.x)
    g2=[(q,) for q in grow]
    for p in A:
        R.check('every element added lies in the recorded range',w,p is not None and s.has(p,g2),'element added at %s, range grows by %s'%(show(p)[:80] if p is not None else '?',', '.join(show(q)[:60] for q in grow) or 'nothing'),t,fo.x)
    for q in grow:
        R.check('the range grows by occupied positions only',w,s.has(q,[(p,) for p in A]),'range grows by %s, elements added at %s'%(show(q)[:80],', '.join(show(p)[:60] for p in A if p is not None) or 'none'),t,fo.x)
    if dh and dt:
        R.check('head and tail never pass each other',w,not any(L.same(p,q) for p in dh for q in dt),'head goes to %s and tail to %s: both give up the same position'%(show(h1)[:80],show(t1)[:80]),t,fo.x)
    # number of elements
    d=L.diff(strip(n1),strip(n0)); want=len(A)-len(Rm)
    if d!=want:
        # grows by the length of the collection walked, one element being added in each round
        for nw,iv in getattr(L,'walks',()):
            d2=L.diff(sub(strip(n1),strip(n0)),nw)
            if d2 is not None and iv in used: d=d2+1
    exact=L.same(n1,sub(t1,h1)) and swept and bool(A or not grow)
    R.check('the recorded length changes by what was added and removed',w,d==want or exact,'length goes from %s to %s, contents change by %+d'%(show(n0)[:80],show(n1)[:80],want),t,fo.x)
    # not empty
    ne=bool(A) or nonempty(s,h1,t1)
    R.check('no bookkeeping is kept for a collection without a range',w,ne,'the header is written without it being known that the range is not empty',t,fo.x)
    # removed elements must have been inside
    return 1
def nonempty(s,h1,t1):
    for x in s.h.t.conds():
        p=s.h.norm(x.ptr)
        if p.op=='eq' and x.op==0 and s.h.lin.same(sub(p.a[0],p.a[1]),sub(h1,t1)): return True
        if p.op=='eq' and x.op==0 and s.h.lin.same(sub(p.a[1],p.a[0]),sub(h1,t1)): return True
        if p.op=='lt' and x.op==1 and s.h.lin.same(sub(p.a[0],p.a[1]),sub(h1,t1)): return True
        if p.op=='eq' and x.op==0 and (isc(p.a[0]) or isc(p.a[1])):
            d=sub(p.a[0],p.a[1])
            n1=s.final[1][2]
            if s.h.lin.same(d,n1) or s.h.lin.same(mul(d,c(-1)),n1): return True
    return False
def spliceidx(v):
    """position written over the last 8 bytes of a value"""
    if v.op=='splice':
        b,at,nv=v.a[0],v.a[1],v.a[-1]
        if isinstance(nv,V) and nv.op=='bytes' and nv.a[0]=='u64': return nv.a[1]
    l=parts_of(v)[-1]
    return l.a[1] if l.op=='bytes' and l.a[0]=='u64' else None
def body_kept(old,new):
    if new.op=='splice': return new.a[0] is old and new.a[1] is sub(blen(old),c(8))
    ps=parts_of(new)
    return len(ps)==2 and ps[0] is slc(old,c(0),sub(blen(old),c(8)))
HEAD=('push_to_queue_head','pop_queue_head','pop_queue_head_with_idx','push_head','pop_head','pop_head_with_idx')
TAIL=('push_to_queue_tail','pop_queue_tail','pop_queue_tail_with_idx','push_tail','pop_tail','pop_tail_with_idx')
def ends(C,R,RO):
    """pushes and pops work on the end they are named after, and take the first element there"""
    n=0
    for r in RO['queue']:
        nm=short(r)
        if nm not in HEAD+TAIL and nm!='extend_queue': continue
        hd=nm in HEAD; w=tag(r)
        for s in sections(C,'queue',r):
            if not s.complete or s.H0 in(None,'none'): continue
            fin=s.final; L=s.h.lin; h0,t0=s.H0[:2]
            if fin and fin[0]=='put' and fin[1]:
                h1,t1=fin[1][:2]; n+=1
                other=L.same(t1,t0) if hd else L.same(h1,h0)
                if 'pop' in nm or 'push' in nm or nm=='extend_queue':
                    R.check('an operation at one end leaves the other end alone',w,other,'the %s moves from %s to %s'%(('tail',show(t0)[:60],show(t1)[:60]) if hd else ('head',show(h0)[:60],show(h1)[:60])),s.h.t,fin[2].x)
            if 'pop' in nm:
                for p,o in s.rems:
                    # every position between the end and the one taken was found empty
                    tr=trail(L,add(p,c(1)) if hd else p,h0 if hd else t0,1 if hd else -1)
                    n+=1
                    ok=tr is not None and all(s.has(q,s.absent) or L.same(q,p) for q in tr)
                    R.check('a pop takes the element nearest to its end',w,ok,'the element taken is at %s, reached from %s over %s'%(show(p)[:80],show(h0 if hd else t0)[:60],'; '.join(show(q)[:60] for q in tr) if tr is not None else '?'),s.h.t,o.x)
            for p,o,_ in s.adds:
                if 'push' in nm or nm=='extend_queue':
                    n+=1
                    tr=trail(L,p if hd else add(p,c(1)),h0 if hd else t0,-1 if hd else 1)
                    R.check('a push adds directly at its end',w,tr is not None and len(tr)>=1 and all(s.has(q,[(a[0],) for a in s.adds]) for q in tr),'the element is added at %s, the end is at %s'%(show(p)[:80],show(h0 if hd else t0)[:60]),s.h.t,o.x)
    R.floor('ends','queues',20,n)
    # lists: insertion at the tail
    m=0
    for r in RO['list']:
        for s in sections(C,'list',r):
            if not s.complete or s.H0 in(None,'none') or short(r) in('compact_list_if_needed','compact_if_needed'): continue
            for p,o,_ in s.adds:
                m+=1
                tr=trail(s.h.lin,add(p,c(1)),s.H0[1],1) if p is not None else None
                R.check('a list insert adds directly at the tail',tag(r),tr is not None and len(tr)>=1,'the element is added at %s, the tail is at %s'%(show(p)[:80] if p is not None else '?',show(s.H0[1])[:60]),s.h.t,o.x)
    R.floor('ends','lists',4,m)
def lengths(C,R,RO):
    """length and range queries report the recorded values"""
    want={'list_len':2,'owned_list_len':2,'queue_len':2,'len':2}
    n=0
    for fam in('list','queue'):
        for r in RO[fam]:
            nm=short(r)
            if nm not in want and nm not in('queue_range','range'): continue
            for h in hists(C,r):
                analyse(C,h); t=h.t
                if not t.isok(): continue
                gets=[o for o in h.ops if o.kind=='get' and o.key.role=='hdr']
                R.check('length and range come from one read of the bookkeeping',tag(r),len(gets)==1 and len([o for o in h.ops if o.kind!='get'])==0,'%d reads'%len(gets),t)
                if len(gets)!=1: continue
                g=gets[0]; pay=canon(h.norm(t.payload())); n+=1
                T=hdrtype(C,h)
                if g.out=='Some':
                    f=[canon(fld(canon(mk('from',T,somev(g.res))),x)) for x in fields(C,T)]
                    ok=pay is f[2] if nm in want else (pay.op=='agg' and pay.a[3][0] is f[0] and pay.a[3][1] is f[1])
                    R.check('the reported length or range is the recorded one',tag(r),ok,'returns %s'%show(pay)[:200],t)
                elif g.out=='None':
                    ok=pay is c(0) if nm in want else (pay.op=='agg' and pay.a[3][0] is pay.a[3][1])
                    R.check('a collection that does not exist has length 0 and an empty range',tag(r),ok,'returns %s'%show(pay)[:200],t)
    R.floor('length queries','all',8,n)

# ================================================================== C25
def C25(C,R):
    RO=rootsof(C); n=0; m=0
    for fam in('list','queue','big'):
        for r in RO[fam]:
            if short(r) in EXEMPT25: continue
            for s in sections(C,fam,r):
                h=s.h; L=h.lin; w=tag(r); t=h.t; listy=s.fam=='list'
                elems=[(p,o) for p,o,_ in s.adds]
                for p,o in elems:
                    n+=1
                    if p is None: R.check('an element\'s position is known',w,False,'element written without its position',t,o.x); continue
                    cov=[]
                    for k,F,ho in s.hdr:
                        if k!='put' or F is None: continue
                        if covers(s,F,p): cov.append(ho.x.i)
                    li=[lo.x.i for q,v,lo in s.links if L.same(p,q)] if listy else []
                    first=min(li) if li else o.x.i
                    R.check('the range that covers an element is recorded before the element (or its link) is written',w,bool(cov) and min(cov)<first,'the element at %s is written %s'%(show(p)[:80],'before the header that covers it' if cov else 'without any header write that covers it before'),t,o.x)
                    if listy: R.check('the link is written before the element',w,bool(li) and min(li)<o.x.i,'the element at %s is written before its link'%show(p)[:80],t,o.x)
                if listy:
                    for q,v,lo in s.links:
                        if not any(p is not None and L.same(p,q) for p,_ in elems):      # stopped in between: link without element yet
                            n+=1
                            cov=[ho.x.i for k,F,ho in s.hdr if k=='put' and F is not None and covers(s,F,q)]
                            R.check('the range that covers an element is recorded before the element (or its link) is written',w,bool(cov) and min(cov)<lo.x.i,'the link at %s is written before the header that covers it'%show(q)[:80],t,lo.x)
                lastmut=[]
                for p,o in s.rems:
                    if o.kind!='remove': continue
                    m+=1
                    un=[uo.x.i for q,uo in s.unlinks if p is not None and L.same(p,q)]
                    if listy: R.check('an element is removed before its link',w,not un or min(un)>o.x.i,'the link of the element at %s is removed before the element: what is left cannot be reached any more'%(show(p)[:80] if p is not None else '?'),t,o.x)
                    sh=[ho.x.i for k,F,ho in s.hdr if ho.x.i<o.x.i and (k=='del' or F is None or not covers(s,F,p))]
                    R.check('a position leaves the recorded range only after its element was removed',w,not sh,'the header no longer covers the element at %s when the element is removed'%(show(p)[:80] if p is not None else '?'),t,o.x)
                for q,uo in s.unlinks:
                    m+=1
                    R.check('a link is removed only after its element',w,any(p is not None and L.same(p,q) and o.x.i<uo.x.i for p,o in s.rems),'the link at %s is removed although its element was not removed before'%show(q)[:80],t,uo.x)
                    sh=[ho.x.i for k,F,ho in s.hdr if ho.x.i<uo.x.i and (k=='del' or F is None or not covers(s,F,q))]
                    R.check('a position leaves the recorded range only after its element was removed',w,not sh,'the header no longer covers position %s when its link is removed'%show(q)[:80],t,uo.x)
    R.floor('elements written','all',30,n); R.floor('elements removed','all',30,m)
def covers(s,F,p):
    """does the recorded range F contain position p (known statically)"""
    L=s.h.lin; H0=s.H0
    if p is None: return False
    h1,t1=F[0],F[1]
    d=L.diff(p,h1); e=L.diff(t1,p)
    if d is not None and d>=0 and e is not None and e>0: return True
    if H0 in(None,'none'): return d is not None and d>=0 and e is not None and e>0
    h0,t0=H0[0],H0[1]
    # inside the part that was recorded before and not given up
    grow=(trail(L,h1,h0,-1) or [])+(trail(L,t1,t0,1) or [])
    drop=(trail(L,h1,h0,1) or [])+(trail(L,t1,t0,-1) or [])
    if s.has(p,[(q,) for q in grow]): return True
    if (trail(L,h1,h0,-1) is None and trail(L,h1,h0,1) is None) or (trail(L,t1,t0,1) is None and trail(L,t1,t0,-1) is None): return False
    if s.has(p,[(q,) for q in drop]): return False
    # not one of the positions added here: it was in the recorded range before
    return not s.has(p,[(q,) for q,_,_ in s.adds]+[(q,) for q,_,_ in s.links])
