"""C18: every key is read and written at the same place."""
from rules.lib import *
from rules.shard import *
from rules.copy import router_selector
from rules.rows import contains,shard_boundary,router_bound,merge_bound
from rules import bulk,copy,rows,api,hist
from rules.locks import short_

def only(C,R,f,rules):
    """the rules of another property that this one relies on"""
    q=Report(R.pid); q.tier=getattr(R,'tier','quick'); f(C,q); seen=set()
    for k,(n,bad) in q.ob.items():
        if k[0] not in rules and k[0]!='anchor': continue
        seen.add(k[0]); m,b=R.ob.get(k,(0,0)); R.ob[k]=(m+n,b+bad)
        if k in q.viol and k not in R.viol: R.viol[k]=q.viol[k]
    for r in rules: R.floor('instances',r,1,int(r in seen))

SELF=mk('arg','self')
KEYED=('get','insert','remove','get_by_hash')
def phs(v): return [q for q in subterms(v) if q.op=='ph']
def leavesof(v):
    return {q for q in subterms(v) if isinstance(q,V) and sum(1 for _ in subterms(q))==1}

def C18(C,R):
    routing(C,R)
    hashing(C,R)
    placing(C,R)
    spans(C,R)
    tree(C,R)
    only(C,R,copy.C07,('copied to the row the key hashes to','entry goes to the half responsible for it','target covers the sources','target file is known'))
    only(C,R,rows.C11,('search in the row the key hashes to',))
    import rules.shard as sd
    only(C,R,sd.C01,('marker-belongs-to-key',))
    from rules import open as op
    only(C,R,op.C30,('each shard starts where the previous one ends','the hash space is covered to its end','what is covered is tracked','gaps before a shard are filled','every kept file is served','spans are read as they are written','the files found become the tree','only covered ranges are dropped','a covered range is not kept'))
    only(C,R,bulk.C04,('new shards serve the published files','both halves replace the split shard'))
    only(C,R,bulk.C06,('neighbours are merged in order',))

# ------------------------------------------------------------------ the way down the tree
def routing(C,R):
    sel=router_selector(C); n=0
    for r in('ShardRouter::insert','ShardRouter::shared_op'):
        F=C.fn(r); B=shard_boundary(C); B[F.path]='event'
        ph=[a for a,ty in argty(C,r) if 'PartedHash' in ty]
        num=[a for a,ty in argty(C,r) if ty=='u32']
        s=sel(fld(ph[0],'0')) if ph else num[0] if num else None
        if s is None: R.missing('the selector handed to '+r); continue
        nd=fld(fld(SELF,'node'),'$')
        down={'0':0,'1':0,'leaf':0}
        for t in C.paths(r,boundary=B,key='pl'):
            for x in t.by('Call','Callback'):
                if x.k=='Callback':
                    down['leaf']+=1
                    a=[canon(q) for q in x.ev.args if isinstance(q,V)]
                    R.check('an operation reaches the shard of its key',r,any(contains(q,lambda z: z is fld(asv(nd,'Leaf'),'0')) for q in a),'works on %s'%', '.join(show(q) for q in a)[:80],t,x)
                    continue
                if x.op==F.path:
                    ch=bulk.child(x.val[0]) if isinstance(x.val[0],V) else None
                    if not R.check('an operation reaches the shard of its key',r,ch is not None and ch[0] is nd,'goes on with %s'%show(x.val[0])[:80],t,x): continue
                    k=ch[1]; n+=1; down[k]+=1
                    b=fld(fld(fld(asv(nd,'Vertex'),'0'),'span'),'end'); b2=fld(fld(fld(asv(nd,'Vertex'),'1'),'span'),'start')
                    e=[t.entails(cmp_lt(s,z),x.i) for z in(b,b2)]
                    want=1 if k=='0' else 0
                    R.check('the half responsible for the key is taken',r,want in e and 1-want not in e,'goes on with the %s half although its range was not shown to contain the key'%('lower' if k=='0' else 'upper'),t,x)
                    own=[mk('arg',F.lname(i+1)) for i in range(1,F.argc)]
                    R.check('the request is handed on unchanged',r,list(x.val[1:])==own,'hands on %s'%', '.join(show(q) for q in x.val[1:] if isinstance(q,V))[:80],t,x)
                elif x.op.split('::')[-2:-1]==['Shard'] and x.op.split('::')[-1] in KEYED:
                    down['leaf']+=1
                    R.check('an operation reaches the shard of its key',r,x.val[0] is fld(asv(nd,'Leaf'),'0'),'works on %s'%show(x.val[0])[:80],t,x)
        R.floor('ways down','%s'%r,3,sum(1 for v in down.values() if v))
    R.floor('steps down the tree','ShardRouter',4,n)

# ------------------------------------------------------------------ the hash
def hashing(C,R):
    rs,ss=selectors(C); sel=router_selector(C); h=mk('arg','h!')
    for nm,f in(('row',rs),('signature',ss),('shard',sel)):
        v=f(h)
        R.check('the place depends on nothing but the hash',nm,all(q is h or isc(q) for q in leavesof(v)),'%s depends on %s'%(nm,show(v)[:100]))
    r='PartedHash::new'; F=C.fn(r); n=0
    for t in C.paths(r,boundary={},key='ph'):
        if t.kind!='return': continue
        n+=1
        arg=[mk('arg',F.lname(i+1)) for i in range(F.argc)]
        v=canon(t.ret)
        eff=[x for x in t.S if x.k in('Ext','Callback','Call','Astore','W')]
        lv=[q for q in leavesof(v) if not isc(q) and q not in arg]
        R.check('the hash depends on nothing but the key and the seed',r,not eff and not lv or C.config=='whitebox_testing','also on %s'%', '.join(show(q) for q in lv)[:80],t,eff[0] if eff else None)
        src=[q for q in subterms(v) if isinstance(q,V) and q.op=='siphash']+[q for x in t.conds() for q in subterms(x.ptr) if isinstance(q,V) and q.op=='siphash']
        R.check('the hash depends on nothing but the key and the seed',r,bool(src) and all(len(arg)==2 and q.a[1] is arg[1] and contains(q.a[0],lambda z: z is arg[0]) for q in src) ,'not of the complete key under the seed',t,None)
        top=sel(fld(v,'0'))
        R.check('every key has a shard',r,bound(t,top,1<<16),'the selector %s is not bounded by the hash space'%show(top)[:60],t,None)
    R.floor('hashes',r,1,n)
def bound(t,v,n):
    if v.op in('c','bf'):
        m=v.a[0] if v.op=='c' else v.a[1]
        if v.op=='bf': m=max([m]+[1<<(sh+k) for _,_,k,sh in v.a[0]])-1 if m< max([1<<(sh+k) for _,_,k,sh in v.a[0]]) else m
        if 0<=m<n: return True
    return t.entails(cmp_lt(v,c(n)))==1

# ------------------------------------------------------------------ every key operation
def placing(C,R):
    sel=router_selector(C); n=0; nr=0
    ri=C.fn('ShardRouter::insert').path
    for fam,rs in sorted(hist.rootsof(C).items()):
        for root in rs:
            try: ts=api.run(C,root)
            except Missing as e: R.missing(e); continue
            nr+=1; w=short_(root)
            for t in ts:
                for x in t.by('Call'):
                    m=x.op.split('::')[-1]; own=x.op.split('::')[-2:-1]
                    if x.op==ri: obj=None; a=list(x.val)
                    elif own==['Shard'] and m in KEYED: obj=x.val[0]; a=list(x.val)
                    else: continue
                    n+=1
                    hs=[canon(q) for q in a[1:2]]
                    h=fld(hs[0],'0')
                    if obj is not None:
                        R.check('an operation asks the shard its hash selects',w,obj.op=='shardof' and obj.a[0] is sel(h),'%s is done on %s'%(m,show(obj)[:80]),t,x)
                    else:
                        R.check('an operation asks the shard its hash selects',w,rooted(a[0]),'%s on %s'%(m,show(a[0])[:60]),t,x)
                    if m=='get_by_hash': continue
                    key=canon(a[2])
                    R.check('the hash is that of the key',w,h.op=='ph' and h.a[1] is key,'%s of %s is done with the hash %s'%(m,show(key)[:60],show(h)[:60]),t,x)
                    if h.op=='ph': R.check('one seed for every hash',w,seedok(h.a[0]),'hashed with %s'%show(h.a[0])[:60],t,x)
    R.floor('key operations','store',500,n); R.floor('operations','store',60,nr)
    # reorganisations hash with the same seed
    n=0
    for r in BULK:
        try: ts=C.paths(r)
        except Missing as e: R.missing(e); continue
        for t in ts:
            for x in t.S:
                for v in (x.row,x.val,x.ptr):
                    if not isinstance(v,V): continue
                    for q in phs(v):
                        n+=1
                        if not R.check('one seed for every hash',r,seedok(q.a[0]),'hashed with %s'%show(q.a[0])[:60],t,x): break
    R.floor('hashes in reorganisations','Shard',20,n)
def rooted(v): return v.op=='fld' and v.a[1]=='root'
def seedok(v):
    while v.op=='cast' or v.op=='slice': v=v.a[-1] if v.op=='cast' else v.a[0]
    return v.op=='fld' and v.a[1]=='hash_seed' and (v.a[0].op=='arg' and v.a[0].a[0]=='config' or v.a[0].op=='fld' and v.a[0].a[1]=='config')

# ------------------------------------------------------------------ ranges of routers
def nodespan(t,v):
    """(start,end) of the shards below the contents of a node"""
    v=canon(v)
    k=v.a[1] if v.op=='agg' else t.p.conds.get(mk('is',v))
    g=lambda m: asv(v,k) if v.op!='agg' else v
    if k=='Leaf':
        sh=fld(g(k),'0'); return fld(fld(sh,'span'),'start'),fld(fld(sh,'span'),'end')
    if k=='Vertex':
        return fld(fld(fld(g(k),'0'),'span'),'start'),fld(fld(fld(g(k),'1'),'span'),'end')
    return None
def routervals(t):
    r={}
    vs=[(x,v) for x in t.S for v in (x.val,x.ptr) if isinstance(v,V)]+[(x,q) for x in t.S for q in (x.ev.args or ()) if isinstance(q,V)]
    if t.ret is not None: vs.append((None,t.ret))
    for x,v in vs:
        for q in subterms(canon(v)):
            if q.op=='agg' and q.a[0].split('::')[-1]=='ShardRouter': r.setdefault(q,x)
    return r
def runs(C):
    yield 'ShardRouter::new',C.paths('ShardRouter::new',boundary=router_bound(C),key='rb')
    yield 'ShardRouter::insert',C.paths('ShardRouter::insert',boundary=dict(shard_boundary(C),**{C.fn('ShardRouter::insert').path:'event'}),key='pl')
    yield 'ShardRouter::treeify',C.paths('ShardRouter::treeify',boundary=shard_boundary(C),key='tr')
    b=merge_bound(C); m=C.fn('ShardRouter::_merge').path
    yield 'ShardRouter::_merge',C.paths('ShardRouter::_merge',boundary=dict(b,**{m:'event'}),key='mg')
    yield 'ShardRouter::merge_small_shards',C.paths('ShardRouter::merge_small_shards',boundary=b,key='mb')
def spans(C,R):
    n=0
    for r,ts in runs(C):
        for t in ts:
            if t.kind=='panic': continue
            for q,x in routervals(t).items():
                n+=1
                nd=fld(fld(q,'node'),'$'); s=nodespan(t,nd)
                R.check('the range of a node is that of the shards below it',r,s is not None and fld(fld(q,'span'),'start') is s[0] and fld(fld(q,'span'),'end') is s[1],'a node is given the range %s'%show(fld(q,'span'))[:100],t,x)
                if nd.op=='agg' and nd.a[1]=='Vertex': pass
            for x in t.by('W'):
                if x.ptr.op=='fld' and x.ptr.a[1]=='span' or x.ptr.op=='fld' and x.ptr.a[0].op=='fld' and x.ptr.a[0].a[1]=='span' :
                    R.check('a range never changes',r,False,'the range %s is changed'%show(x.ptr)[:60],t,x)
            for x in bulk.node_writes(t):
                v=canon(x.val)
                if v.op=='agg' and v.a[1]=='Vertex':
                    a,b=[(fld(fld(z,'span'),'start'),fld(fld(z,'span'),'end')) for z in v.a[3][:2]]
                    src=a[0].a[0].a[0] if a[0].op=='fld' and a[0].a[0].op=='fld' else None
                    src2=b[0].a[0].a[0] if b[0].op=='fld' and b[0].a[0].op=='fld' else None
                    R.check('the lower half comes first',r,src is not None and src2 is not None and half(src)=='0' and half(src2)=='1' and src.a[0] is src2.a[0],'the halves of a split shard are exchanged',t,x)
    R.floor('nodes','ShardRouter',10,n)
    # the halves of a split meet in the middle
    r='Shard::split'; n=0
    for t in C.paths(r):
        if not t.isok(): continue
        n+=1
        p=t.payload(); lo,hi=fld(p,'0'),fld(p,'1')
        sp=lambda v:(fld(fld(v,'span'),'start'),fld(fld(v,'span'),'end'))
        a,b,s=sp(lo),sp(hi),sp(SELF)
        R.check('the halves make up the range',r,a[0] is s[0] and a[1] is b[0] and b[1] is s[1],'%s..%s and %s..%s'%tuple(show(z)[:40] for z in a+b),t,None)
    R.floor('splits',r,5,n)
    r='Shard::merge'; n=0; F=C.fn(r); own=[mk('arg',F.lname(i+1)) for i in range(F.argc)]
    for t in C.paths(r):
        if not t.isok(): continue
        p=t.payload()
        if p.op!='agg' or p.a[1]!='Some': continue
        n+=1; sh=p.a[3][0]
        sp=lambda v:(fld(fld(v,'span'),'start'),fld(fld(v,'span'),'end'))
        m=sp(sh); a,b=sp(own[0]),sp(own[1])
        R.check('a merged shard has the range of both',r,m[0] is a[0] and m[1] is b[1],'%s..%s'%tuple(show(z)[:40] for z in m),t,None)
    R.floor('merges',r,1,n)
def half(v):
    return v.a[1] if v.op=='fld' else None

# ------------------------------------------------------------------ the tree built from the shards
def base(v,t):
    """list value -> (underlying list, edits from the outside in)"""
    ed=[]
    while v.op in('with','without'):
        ed.append((v.op,)+tuple(v.a[1:])); v=v.a[0]
    return v,ed
def content_of(v):
    """symbolic sequence taken out of / put into a list, at one position: (list, position, taken count, inserted values)"""
    b,ed=base(v,None)
    pos=None; win=[]; taken=0      # window [pos, pos+taken) of b is replaced by win
    for e in reversed(ed):
        if e[0]=='without':
            i=e[1]
            if pos is None: pos=i; taken=1; continue
            d=sub(i,pos)
            if not isc(d): return None
            d=d.a[0]
            if 0<=d<len(win): win=win[:d]+win[d+1:]
            elif d==len(win): taken+=1
            elif d==-1: pos=i; taken+=1
            else: return None
        else:
            i,x=e[1],e[2]
            if pos is None: pos=i
            d=sub(i,pos)
            if not isc(d) or not 0<=d.a[0]<=len(win): return None
            win=win[:d.a[0]]+[x]+win[d.a[0]:]
    return b,pos,taken,win
def itemof(v,b):
    """index in list b of a value taken out of it (removed(without*(b),i)), or None"""
    if v.op=='removed':
        lst,i=v.a
        c_=content_of(lst)
        if c_ is None or c_[0] is not b or c_[3]: return None
        if c_[1] is None: return i
        d=sub(i,c_[1])
        if not isc(d): return None
        return add(i,c(c_[2])) if d.a[0]>=0 else i
    if v.op=='idx' and v.a[0] is b: return v.a[1]
    return None
def inorder(v):
    """the nodes a tree value is made of, in order"""
    v=canon(v)
    if v.op=='agg' and v.a[1]=='Vertex':
        r=[]
        for q in v.a[3]: r+=inorder(fld(fld(q,'node'),'$'))
        return r
    return [v]
def tree(C,R):
    r='ShardRouter::treeify'; nv=nl=nret=0
    F=C.fn(r); sh=[a for a,ty in argty(C,r) if 'Shard' in ty and 'Vec' in ty]
    if not sh: R.missing('the shards handed to treeify'); return
    sh=sh[0]
    for t in C.paths(r,boundary=shard_boundary(C),key='tr'):
        if t.kind=='panic': continue
        lists={}
        for x in t.by('Step'):
            if x.ptr.op!='lv' or x.val is x.ptr: continue
            v=canon(x.val)
            if v.op=='cat':
                parts=list(v.a[0]); el=[q for q in parts if q.op=='elem']
                if not any(contains(q,lambda z: z.op=='agg' and z.a[0].split('::')[-1]=='ShardNode') for q in el): continue
                nl+=1
                it=[y for y in t.by('Iter') if y.i<x.i]
                ok=parts[0] is x.ptr and len(parts)==2 and el and el[0].a[0].op=='agg' and el[0].a[0].a[1]=='Leaf' and it and el[0].a[0].a[3][0] is it[-1].val and it[-1].ptr.op=='it' and it[-1].ptr.a[1] is sh and not bulk.adapted(t,it[-1])
                R.check('every shard becomes a node, in order',r,ok,'adds %s'%show(el[0] if el else v)[:80],t,x)
                lists.setdefault(x.ptr,[]).append(x)
            elif v.op in('with','without','swapped'):
                c_=content_of(v)
                if not R.check('pairing keeps every node, in order',r,c_ is not None and c_[1] is not None,'the list is changed in a way that is not followed',t,x): continue
                b,pos,taken,win=c_; nv+=1
                R.check('pairing keeps every node, in order',r,b is x.ptr or same(t,b,x.ptr),'another list takes the place of this one',t,x)
                lv=[itemof(z,b) for w in win for z in inorder(w)]
                want=[add(pos,c(i)) for i in range(taken)]
                R.check('pairing keeps every node, in order',r,len(lv)==taken and all(p is q for p,q in zip(lv,want)),'nodes %s are replaced by %s'%([show(q)[-12:] for q in want],[show(q)[-12:] if q is not None else '?' for q in lv]),t,x)
                for w in win:
                    nd=inorder(w)
                    if len(nd)!=2: continue
                    ss=[nodespan(t,z) for z in nd]
                    # lengths known equal
                    ls=[lenof(t,b,itemof(z,b),z) for z in nd]
                    R.check('only ranges of the same size are paired',r,eqlen(t,ls,x.i),'shards of different size are paired: merging them leaves a range that cannot be paired when the store is opened again',t,x)
        if t.kind=='return':
            nret+=1
            v=canon(t.ret)
            l=v.a[0] if v.op in('removed','idx') else None
            one=l is not None and t.entails(cmp_eq(blen(l),c(1)))==1
            R.check('the tree contains every shard',r,one,'the tree is taken from a list that may hold more than one node',t,None)
            ends=[y for y in t.by('IterEnd') if y.ptr.op=='it' and y.ptr.a[1] is sh]
            R.check('the tree contains every shard',r,bool(ends),'not every shard is looked at',t,None)
    R.floor('shards that become nodes',r,10,nl); R.floor('pairs',r,4,nv); R.floor('trees',r,10,nret)
def same(t,a,b):
    return a is b
def lenof(t,b,i,z):
    """length terms known for a node: by the value taken out, or by the element it was"""
    r=[]
    for q in ([z]+([idx(b,i)] if i is not None else [])):
        s=nodespan(t,q)
        if s: r.append(sub(s[1],s[0]))
    return r
def eqlen(t,ls,before):
    for a in ls[0]:
        for b in ls[1]:
            if t.entails(cmp_eq(a,b),before)==1: return True
    # both equal to a common quantity
    for x in t.conds(before):
        if x.ptr.op=='eq' and x.op==1:
            p=sub(x.ptr.a[0],x.ptr.a[1])
            for y in t.conds(before):
                if y is x or y.ptr.op!='eq' or y.op!=1: continue
                q=sub(y.ptr.a[0],y.ptr.a[1])
                for a in ls[0]:
                    for b in ls[1]:
                        for sg in(1,-1):
                            for sh in(1,-1):
                                u=scale(p,sg); w=scale(q,sh)
                                # u = a-u0, w = b-u0  =>  u-w = a-b
                                if sub(sub(u,w),sub(a,b)) is c(0): return True
    return False
def scale(v,k): return v if k==1 else sub(c(0),v)

def C10_way(C,R):
    """what was asked for reaches the row as it was asked for, also after a split"""
    import rules.progress as pg, rules.rows as rows
    only(C,R,pg.C26,('the same request is tried again',))
    only(C,R,rows.C29_shard,('replacement only with the expected value',))
