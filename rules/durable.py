"""C15: flush, and flush aggregation."""
from rules.lib import *

def synced(t,files,before=None,after=-1):
    """files of a shard (term of its files lock) known to be synchronised successfully in (after,before)"""
    r=set()
    for x in t.by('Sync'):
        if x.i<=after or before is not None and x.i>=before: continue
        if t.ok(x.res)=='Ok': r.add(canon(x.file))
    return r
def filesof(sh): return fld(sh,'files')
def halves(files):
    d=mk('fld',files,'$') if False else fld(files,'$')
    return fld(d,'0'),fld(d,'1')
def complete(t,files,after=-1):
    """None, or what is missing for 'every file of the shard is synchronised'"""
    f0,f1=map(canon,halves(files)); S=synced(t,files,after=after)
    if f0 not in S: return 'the main file is not synchronised'
    if canon(fld(asv(f1,'Some'),'0')) in S: return None
    for x in t.by('Sync'):
        if x.i>after and canon(x.file) is f0 and t.ok(x.res)=='Ok' and known(t,x,f1)=='None': return None
    return 'the file of a running compaction is not synchronised'
def known(t,x,f1):
    """what is known about f1 throughout the section of the files lock that x lies in"""
    lo,hi=x.i,len(t.S)
    while lo>0 and t.held(t.S[lo],'FILES'): lo-=1
    for y in t.S[x.i:]:
        if not t.held(y,'FILES'): hi=y.i; break
    v=[y.op for y in t.conds() if y.ptr.op=='is' and canon(y.ptr.a[0]) is f1 and lo<=y.i<=hi]
    return v[-1] if v else None
def nodeconds(t):
    """{node term: Leaf/Vertex} tested on the trace"""
    return {x.ptr.a[0]:x.op for x in t.conds() if x.ptr.op=='is' and x.op in('Leaf','Vertex')}
def walkrule(C,R,root,leaf,rule,seen,n,boundary=None):
    """every successful return of a tree walk did its work on the leaf it met or walked both children"""
    F=C.fn(root)
    if F.path in seen: return
    seen.add(F.path); w=fname_(F.path)
    for t in C.paths(F.path,boundary=boundary,key='walk') if boundary else C.paths(F.path):
        if t.kind=='loop': continue
        if t.kind!='return': continue
        if t.retvariant()!='Ok': continue
        N=nodeconds(t)
        if not N: R.check(rule,w,False,'returns success without having looked at the tree',t); continue
        for node,v in N.items():
            n[0]+=1
            if v=='Leaf':
                m=leaf(t,canon(fld(asv(node,'Leaf'),'0')))
                R.check(rule,w,m is None,m or '',t)
            else:
                for i in('0','1'):
                    ch=canon(fld(asv(node,'Vertex'),i))
                    cs=[x for x in t.by('Call') if x.val and canon(x.val[0]) is ch]
                    ok=[x for x in cs if t.ok(x.ev.res)=='Ok']
                    R.check(rule,w,bool(ok),'the %s half of the tree is %s'%('lower' if i=='0' else 'upper','not visited' if not cs else 'visited without checking for failure'),t)
                    for x in ok:
                        yield x
def fname_(p): return p.split('::',1)[-1]
def tree(C,R,root,leaf,rule,boundary=None):
    seen=set(); n=[0]; todo=[root]; first=True
    while todo:
        r=todo.pop()
        if r in seen: continue
        def lf(t,sh,first=first):
            m=leaf(t,sh)
            if m is None: return None
            # a walk that hands every leaf to its caller
            for x in t.by('Callback'):
                if t.ok(x.ev.res)=='Ok' and any(contains(a,lambda y:y is sh) for a in map(canon,[z for z in x.ev.args if isinstance(z,V)])): return None
            for x in t.by('Callback'):
                if t.ok(x.ev.res)=='Ok': return None
            return m
        for x in walkrule(C,R,r,lf,rule,seen,n,boundary):
            # a call passing the work along must pass it unchanged
            if x.op not in seen and x.op not in todo: todo.append(x.op)
        first=False
    return n[0],len(seen)
def C15(C,R):
    # 1. the shard
    n=0
    for t in C.paths('Shard::flush'):
        if not t.isok(): continue
        n+=1; m=complete(t,fld(mk('arg','self'),'files'))
        R.check('a flushed shard has every file of it synchronised','Shard::flush',m is None,m or '',t)
        for x in t.by('Sync'): R.check('the files are synchronised while they cannot be exchanged','Shard::flush',bool(t.held(x,'FILES')),'synchronises without the files lock',t,x)
    R.floor('flushing paths','Shard::flush',2,n)
    # 2. the store: every shard
    a,b=tree(C,R,'CandyStore::flush',lambda t,sh: complete(t,filesof(sh)),'flush reaches every shard')
    R.floor('tree walks','flush',4,a); R.floor('walks','flush',2,b)
    for t in C.paths('CandyStore::flush'):
        if t.kind!='return': continue
        bad=[x for x in t.S if x.k in('Sync','Call') and x.res is not None and t.ok(x.ev.res if x.k=='Call' else x.res)=='Err']
        R.check('a failure to synchronise is reported','CandyStore::flush',not bad or t.retvariant()=='Err','returns success although synchronising failed',t,bad[0] if bad else None)
        un=[x for x in t.by('Sync') if t.ok(x.res) is None]
        R.check('a failure to synchronise is reported','CandyStore::flush',not un,'the result of synchronising is not looked at',t,un[0] if un else None)
    # 3. flush aggregation
    if C.config=='flush_aggregation': aggregation(C,R)
def aggregation(C,R):
    me=mk('arg','self'); files=fld(me,'files'); k=j=s_=0
    rule='an acknowledged change was synchronised before the call returned'
    for root in('Shard::insert','Shard::remove'):
        for t in C.paths(root):
            w=root
            locks(R,t,w)
            s_+=sum(1 for x in t.by('Sync'))
            if t.kind!='return': continue
            ch=[x for x in t.S if x.k in('SigW','OffW')]
            if not ch: continue
            last=ch[-1].i
            if t.retvariant()!='Ok': continue
            k+=1
            off=any(x.i>=0 and x.ptr.op=='is' and x.op=='None' and contains(x.ptr,lambda y:y.op=='fld' and y.a[1]=='flush_aggregation_delay') for x in t.conds())
            if off: R.check(rule,w,True); continue
            if complete(t,files,after=last) is None: R.check(rule,w,True); continue
            j+=1
            # waited for somebody else's synchronisation that began after the change
            R.check(rule,w,waited(t,last),'returns without synchronising and without having waited for a synchronisation known to have begun after the change',t,ch[-1])
    R.floor('changes','flush aggregation',6,k); R.floor('waits','flush aggregation',2,j); R.floor('synchronisations','flush aggregation',8,s_)
def flagof(t):
    return [canon(x.ptr) for x in t.by('Astore','Aload') if canon(x.ptr).op=='fld']
def waited(t,last):
    for a in t.by('Aload'):
        if a.i<last: continue
        if t.cond(canon(a.res))!=1 : continue
        for l in t.by('Lock'):
            if l.i<a.i or l.cls!='SYNC' or l.mode!='w': continue
            g=[x for x in t.conds() if x.i>l.i and x.op==1 and x.ptr.op=='fld' and x.ptr.a[1]=='$' and canon(x.ptr.a[0]) is canon(l.ptr)]
            if g: return True
    return False
def locks(R,t,w):
    """the flag read by waiters is set only by the holder of the lock, cleared before files are synchronised, and the outcome is left in the lock"""
    rl='waiting for somebody else\'s synchronisation is sound'
    st={}
    for x in t.S:
        if x.k=='Astore' and x.ptr.op=='fld' and isc(x.val):
            if not t.held(x,'SYNC'): 
                if x.val.a[0]==1: R.check(rl,w,False,'announces a pending synchronisation without holding the lock',t,x)
                continue
            st[x.ptr]=x.val.a[0]
            R.check(rl,w,True)
        if x.k=='Sync' and t.held(x,'SYNC'):
            R.check(rl,w,all(v==0 for v in st.values()),'synchronises while others are still told that it has not begun',t,x)
        if x.k=='Unlock' and x.cls=='SYNC':
            ss=[y for y in t.by('Sync') if y.i<x.i and t.held(y,'SYNC')]
            ws=[y for y in t.by('W') if y.i<x.i and canon(y.ptr).op=='fld' and canon(y.ptr).a[1]=='$' and canon(canon(y.ptr).a[0]) is canon(x.ptr)]
            if ss:
                v=t.entails(ws[-1].val) if ws else None
                good=all(t.ok(y.res)=='Ok' for y in ss)
                R.check(rl,w,ws and v==(1 if good else 0) or (not good and v==0),'the outcome left for waiters is %s although synchronising %s'%(v,'succeeded' if good else 'failed'),t,x)
            elif any(y.k=='Astore' and y.i<x.i for y in t.S if y.k=='Astore'):
                R.check(rl,w,False,'announced a synchronisation but did none',t,x)
