"""C26: a store operation splits and retries until it succeeds or fails. C28: what a failed background compaction leaves behind."""
from rules.locks import *
from rules import bulk,rows
from rules.rows import shard_boundary,no_empty_slot,contains,peel
from rules.shard import layout,bytes_args
EFFECTS=('DataW','SigW','OffW','HdrA','MetaW','SetLen','Open','Rename','Remove','Send','RawW')
def field(C,adt,pat):
    """name of the field of a struct whose type matches"""
    r=[f['name'] for f in C.P.adts[adt]['variants'][0]['fields'] if re.search(pat,C.P.types[f['ty']]['s'])]
    if len(r)!=1: raise Missing('field of %s with type %s: %s'%(adt,pat,r))
    return r[0]
def handlef(C): return field(C,'shard::Shard',r'Mutex<.*Option<')
def filesf(C): return field(C,'shard::Shard',r'RwLock<.*\(.*MmapFile')
SELF=mk('arg','self')
def content(o,f): return fld(fld(o,f),'$')
def at(t,key,before=None):
    """last known branch on `key` before an index"""
    r=None
    for x in t.S:
        if before is not None and x.i>=before: break
        if x.k=='Cond' and x.ptr is key: r=(x.op,x.i)
    return r
def none_since(t,term,cls,lockptr,before):
    """is(term)=None established while the lock has been held without interruption"""
    k=at(t,mk('is',term),before)
    if k is None or k[0]!='None': return False
    l=[x for x in t.by('Lock') if x.cls==cls and x.ptr is lockptr and x.i<k[1]]
    if not l: return False
    g=l[-1].res
    return not any(u.k=='Unlock' and u.res is g and l[-1].i<u.i<before for u in t.S)
def isnil(v): return v.op=='agg' and v.a[1]=='None'
def issome(v): return v.op=='agg' and v.a[1]=='Some'
def inner(x): return fld(asv(x.res,'Ok'),'0')

def C26(C,R):
    # ---- the retry loop
    r='ShardRouter::insert'; F=C.fn(r); loc=sorted(C.calls()[F.path][0])
    ts=C.paths(r,boundary=shard_boundary(C),key='L1')
    nret=nloop=nsp=0
    for t in ts:
        calls=[x for x in t.by('Call') if x.op.endswith('Shard::insert') or x.op==F.path]
        for x in calls:
            own=[mk('arg',F.lname(i+1)) for i in range(1,F.argc)]
            R.check('the same request is tried again',r,list(x.val[1:])==own,'%s is called with %s'%(short_(x.op),', '.join(show(a) for a in x.val[1:])),t,x)
        if t.kind=='return' and t.retvariant()=='Ok':
            nret+=1; v=t.payload()
            src=[x for x in calls if fld(asv(x.res,'Ok'),'0') is v]
            if not R.check('the outcome is that of the shard',r,bool(src),'returns %s'%show(v),t,None): continue
            st=t.p.conds.get(mk('is',v))
            no=any(isinstance(k,V) and k.op=='isnt' and k.a[0] is v and k.a[1]=='SplitNeeded' for k in t.p.conds)
            R.check('the retry condition is never exposed',r,(st is not None and st!='SplitNeeded') or no or (st is None and src[0].op==F.path),'the caller can be told to split',t,src[0])
        elif t.kind=='return' and t.retvariant()!='Ok':
            e=canon(t.ret)
            src=[x for x in t.by('Call') if x.res in subterms(e)]
            R.check('only real failures are returned',r,bool(src),'returns %s'%show(e)[:80],t,None)
        elif t.kind=='loop':
            nloop+=1
            need=[x for x in calls if t.p.conds.get(mk('is',fld(asv(x.res,'Ok'),'0')))=='SplitNeeded']
            if not R.check('only a full shard is a reason to try again',r,bool(need),'the operation is repeated although no shard asked for it',t,None): continue
            x0=need[-1]
            l=[x for x in t.by('Lock') if x.cls=='NODE' and x.mode=='w' and x.i>x0.i]
            if not R.check('a full shard is split before trying again',r,bool(l),'nothing is done about the full shard before trying again',t,x0): continue
            nd=fld(l[-1].ptr,'$'); k=at(t,mk('is',nd))
            after=[x for x in t.conds() if x.ptr is mk('is',nd) and x.i>l[-1].i]
            sp=[x for x in t.by('Call') if x.op.endswith('Shard::split') and x.i>l[-1].i and t.ok(x.res)=='Ok']
            w=[x for x in t.by('W') if x.ptr is nd and x.i>l[-1].i and x.val.op=='agg' and x.val.a[1]=='Vertex']
            done=bool(sp) and bool(w); already=bool(after) and after[-1].op=='Vertex'
            nsp+=done
            R.check('a full shard is split before trying again',r,done or already,'the operation is repeated although the shard is still full: it can go on forever',t,x0)
    R.floor('outcomes',r,4,nret); R.floor('retries',r,2,nloop); R.floor('splits before a retry',r,1,nsp)
    # ---- the split narrows the range
    r='Shard::split'; nsplit=nref=0
    sp=fld(SELF,'span'); width=sub(fld(sp,'end'),fld(sp,'start'))
    for t in C.paths(r):
        eff=[x for x in t.S if x.k in('Open','Rename','Remove','SetLen','DataW')]
        if eff:
            nsplit+=1
            w1=t.entails(cmp_lt(c(1),width),eff[0].i); w2=t.entails(cmp_lt(fld(sp,'start'),mk('div',add(fld(sp,'start'),fld(sp,'end')),c(2))),eff[0].i)
            R.check('a range is only split when both halves are smaller',r,w1==1 or w2==1 or atleast2(t,width,eff[0].i),'a shard of one selector would be split into an empty one and itself, over its own file',t,eff[0])
        if t.kind=='return' and t.retvariant()=='Err' and not eff: nref+=1
        if t.kind=='return' and t.isok():
            v=t.payload()
            R.check('a successful split has split',r,bool(eff),'',t,None)
    R.floor('splits',r,10,nsplit); R.floor('refusals',r,1,nref)
    # ---- when a shard asks to be split
    r='Shard::insert'; nask=0; L=layout(C)
    for t in C.paths(r):
        if not(t.kind=='return' and t.isok()): continue
        v=t.payload()
        if not(v.op=='agg' and v.a[1]=='SplitNeeded'):
            if v.op!='agg': R.check('the retry condition is recognisable',r,t.p.conds.get(mk('is',v)) is not None,'',t,None)
            continue
        nask+=1
        eff=[x for x in t.S if x.k in('DataW','SigW','OffW','HdrA') and not(x.k=='HdrA' and x.field not in('write_offset','wasted_bytes','num_inserts','num_removals')) and not begun(t,x)]
        R.check('asking to be split changes nothing',r,not eff,'the shard was changed (%s) although the operation is repeated'%(eff[0].k if eff else ''),t,eff[0] if eff else None)
        full=any(x.ptr.op=='is' and x.op=='None' and x.ptr.a[0].op=='pos' and x.ptr.a[0].a[1] is c(0) for x in t.conds()) or any(contains(e.ptr,lambda q: q.op=='fld' and q.a[1]=='signatures') for e in t.by('IterEnd'))
        big=any(x.ptr.op=='lt' and contains(x.ptr,lambda q: q.op=='fld' and q.a[1]=='max_shard_size') and contains(x.ptr,lambda q: q.op in('al','hd') and 'write_offset' in show(q)) for x in t.conds())
        R.check('only a full shard is split',r,full or big,'a split is asked for although neither the row nor the file is full',t,None)
    R.floor('requests to split',r,2,nask)
    # errors of an insertion are those of the system (or of the 32-bit offset)
    for t in C.paths(r):
        if t.kind=='return' and t.retvariant()=='Err':
            from rules.open import selfdecided
            R.check('an entry that fits is stored',r,not selfdecided(t),'the shard refuses an entry: %s'%show(canon(t.ret))[:100],t,None)
    # ---- entries that fit
    n=0
    ins=C.fn('ShardRouter::insert').path
    for p,(lc,ex) in sorted(C.calls().items()):
        if ins not in lc or p==ins or '{closure' in p: continue
        for t in C.paths(p,boundary={q:'event' for q in C.P.fns if q==ins},key='ins'):
            for x in t.by('Call'):
                if x.op!=ins: continue
                n+=1
                k,v=x.val[2],x.val[3]
                mx=[q for q in t.conds(x.i) if contains(q.ptr,lambda q: q.op=='fld' and q.a[1]=='max_shard_size')]
                lim=[y for q in mx for y in subterms(q.ptr) if y.op=='fld' and y.a[1]=='max_shard_size']
                R.check('an entry that cannot fit any shard is refused at once',short_(p),bool(lim) and t.entails(cmp_lt(lim[0],add(blen(k),blen(v))),x.i)==0,'an entry larger than a shard would be split for until no shard can be split further',t,x)
    R.floor('insertions','ShardRouter::insert',1,n)
    # ---- search loops move on
    n=0
    for r in('Shard::insert','Shard::get','Shard::remove','Shard::get_by_hash'):
        for t in C.paths(r):
            g={}
            for x in t.by('Step'):
                if x.ptr.op=='lv': g.setdefault(tuple(x.ptr.a[0])[:3],[]).append(x)
            its={tuple(x.mode) for x in t.by('Iter')}
            for h,st in g.items():
                n+=1
                ok=any(h[0]==m[0] and h[1]==m[1] for m in its)
                for x in st:
                    k,tsx=unlin(sub(x.val,x.ptr))
                    if k>=1 and all(tsx[q]>0 for q in tsx): ok=True
                R.check('a search moves on',r,ok,'the search for the key goes on from where it was: it can go on forever',t,st[-1])
    R.floor('searches','Shard',4,n)
    # ---- compactions that cannot start
    r='Shard::begin_compaction'; H=handlef(C); Fl=filesf(C); nf=0
    for t in C.paths(r):
        if t.kind=='return' and t.retvariant()!='Ok':
            nf+=1
            w=[x for x in t.by('W') if (x.ptr is content(SELF,H) or x.ptr is fld(content(SELF,Fl),'1')) and issome(x.val)]
            R.check('a compaction that cannot start leaves the shard as it was',r,not w,'after a failed start the shard goes on as if it were being compacted: its later writes are limited by nothing and never compacted',t,w[0] if w else None)
    R.floor('failing starts',r,4,nf)
    pool(C,R)
def atleast2(t,w,before):
    return any(t.entails(b,before)==0 for b in(cmp_lt(w,c(2)),))or t.entails(cmp_eq(w,c(1)),before)==0 and t.entails(cmp_lt(c(0),w),before)==1
def begun(t,x):
    """part of starting a compaction (after the row operation)"""
    o=[y for y in t.by('Open') if y.i<x.i and (fname(y.path) or ('',))[0]=='compact_']
    return bool(o)
def pool(C,R):
    """the threads that run the background work"""
    L=locks_(C)
    n=0
    for p in L.callers:
        pass
    sp=[q for q,(lc,ex) in C.calls().items() if any(e.endswith('thread::spawn') or e.endswith('thread::Builder::spawn') for e in ex)]
    for q in sp:
        for t in C.paths(q,boundary={},key='pool'):
            if t.kind!='return': continue
            s=[x for x in t.by('Ext') if x.op.split('::')[-1]=='spawn']
            if s: n+=1; continue
            # a path without a thread: the range must be non-empty
            ends=[x for x in t.by('IterEnd')]
            ok=any(nonempty(C,x) for x in ends)
            R.check('there is always a thread for background work',short_(q),ok,'with this configuration no thread is started, and no compaction can ever start',t,None)
    R.floor('thread pools','spawn',1,n)
    # a worker ends only when it is told to, or when no one can wait for its results any more
    n=0
    for p in L.spawned:
        u=L.units[p]
        for t in u.T:
            if t.kind!='return': continue
            n+=1
            end=bool(t.by('IterEnd')) or any(x.ptr.op=='is' and x.op=='None' and x.ptr.a[0].op=='item' for x in t.conds()) or any(t.ok(x.res)=='Err' for x in t.by('Send')) or any(t.ok(x.res)=='Err' for x in t.by('Wait'))
            R.check('a worker goes on after a failure',short_(p),end,'the thread ends after a failed task: later tasks are never run and those waiting for them hang',t,None)
    R.floor('workers','ends',2,n)
def nonempty(C,x):
    v=x.ptr
    for q in subterms(v):
        if q.op=='agg' and q.a[0].endswith('Range'):
            lo,hi=fld(q,'start'),fld(q,'end')
            if isc(lo) and hi.op=='max' and any(isc(a) and a.a[0]>lo.a[0] for a in hi.a): return True
            if isc(lo) and isc(hi) and hi.a[0]>lo.a[0]: return True
    return False
def locks_(C):
    if not hasattr(C,'_locks'): C._locks=Locks(C,None)
    return C._locks

# ------------------------------------------------------------------ C28
def C28(C,R):
    from rules.open import handlekept
    bulk.waits(C,R); handlekept(C,R)
    L=locks_(C); H=handlef(C); Fl=filesf(C); h=content(SELF,H); tgt=fld(content(SELF,Fl),'1')
    # ---- the result of a task is taken exactly once, with its handle, and reported
    nw=nt=0
    roots=[r for r in ('Shard::begin_compaction','Shard::split','Shard::wait_for_compaction','Shard::get_stats','Shard::insert')]
    more=sorted(p for p in L.units if '::Shard' in p or 'Shard as' in p)
    for r in roots+[p for p in more if not any(p.endswith(q) for q in roots)]:
        ts=L.units[r].T if r in L.units else C.paths(r)
        for t in ts:
            for x in t.by('Wait'):
                if x.op=='join' or not contains(x.ptr,lambda q: q.op=='fld' and q.a[1]==H): continue
                nw+=1
                o=handleof(x.ptr,H)
                taken=[y for y in t.by('W') if y.ptr is o and isnil(y.val) and y.i<x.i]
                back=[y for y in t.by('Send') if x.res in subterms(y.val) and y.i>x.i]
                kept=[y for y in t.by('W') if y.i>x.i and contains(y.ptr,lambda q: q is o) and any(contains(y.val,lambda q: q is fld(z.res,'1')) for z in t.by('Ext') if CHAN.search(z.op) and any(b.ptr is fld(z.res,'0') for b in back))]
                put=bool(back) and bool(kept)
                R.check('the outcome of a task is taken with its handle',r,bool(taken) or put,'the result is consumed but the handle stays: the next one to wait gets an error for nothing, or none at all',t,x)
                bad=t.ok(x.res)=='Err' or t.ok(inner(x))=='Err'
                R.check('nothing goes on after a failed compaction as if it had succeeded',r,not bad or put or t.kind!='panic','a failed compaction makes a later operation panic',t,x)
                drop='::drop' in r or r.endswith('drop')
                if bad and t.kind=='return' and not put and not drop: R.check('a failed compaction is reported',r,t.retvariant()=='Err','a failed compaction is swallowed',t,x)
            for y in t.by('W'):
                if isnil(y.val) and y.ptr.op=='fld' and y.ptr.a[1]=='$' and y.ptr.a[0].op=='fld' and y.ptr.a[0].a[1]==H and t.kind=='return':
                    nt+=1
                    k=at(t,mk('is',y.ptr))
                    R.check('a handle is never dropped unread',r,(k is not None and k[0]=='None') or any(handleof(x.ptr,H) is y.ptr for x in t.by('Wait')),'a handle is dropped: the failure of its task is lost, and so is the thread that reports it',t,y)
                if issome(y.val) and y.ptr.op=='fld' and y.ptr.a[1]=='$' and y.ptr.a[0].op=='fld' and y.ptr.a[0].a[1]==H:
                    k=at(t,mk('is',y.ptr),y.i); w=[x for x in t.by('Wait') if handleof(x.ptr,H) is y.ptr and x.i<y.i]
                    R.check('a handle is never overwritten',r,(k is not None and k[0]=='None') or bool(w),'the handle of an earlier task is overwritten',t,y)
    R.floor('waits for background work','Shard',20,nw); R.floor('handles taken','Shard',5,nt)
    # ---- data already redirected is not truncated or ignored
    n=0
    for r in('Shard::begin_compaction',):
        for t in C.paths(r):
            for x in t.by('Open'):
                n+=1
                R.check('a target in use is not truncated',r,none_since(t,tgt,'FILES',fld(SELF,Fl),x.i),'the new file of an earlier compaction, which holds acknowledged writes, is created again',t,x)
            if t.kind=='panic':
                w=[x for x in t.by('Wait') if t.ok(x.res)=='Ok' and t.ok(inner(x))=='Ok']
                R.check('starting a compaction does not panic after a failed one',r,bool(w) and at(t,mk('is',tgt)) is not None and at(t,mk('is',tgt))[0]=='Some','',t,t.S[-1])
    R.floor('targets created','Shard::begin_compaction',6,n)
    n=0
    for r in('Shard::split',):
        for t in C.paths(r):
            for x in t.S:
                if x.k in('Open','Rename','Remove','SetLen','DataW'):
                    n+=1
                    R.check('a shard with a failed compaction is not reorganised',r,none_since(t,tgt,'FILES',fld(SELF,Fl),x.i),'rows that were moved to the new file would be left out',t,x)
                    R.check('running background work is waited for first',r,waited(t,h,H,x.i),'the shard is reorganised while background work may go on',t,x)
            if t.kind=='panic':
                k=at(t,mk('is',tgt)); R.check('a split does not panic after a failed compaction',r,not(k is not None and k[0]=='Some'),'splitting a shard whose compaction failed panics',t,t.S[-1])
            if t.kind=='return' and t.retvariant()!='Ok':
                w=[x for x in t.by('W') if x.ptr is content(SELF,Fl) or contains(x.ptr,lambda q: q is content(SELF,Fl))]
                R.check('a refused split changes nothing',r,not w,'',t,w[0] if w else None)
    R.floor('effects','Shard::split',50,n)
    n=0
    r='Shard::merge'; F=C.fn(r); own=[mk('arg',F.lname(i+1)) for i in range(F.argc)]
    for t in C.paths(r):
        for x in t.S:
            if x.k in('Open','Rename','Remove','SetLen','DataW'):
                n+=1
                R.check('a shard with a failed compaction is not reorganised',r,all(none_since(t,fld(content(o,Fl),'1'),'FILES',fld(o,Fl),x.i) for o in own),'rows that were moved to the new file would be left out',t,x)
        if t.kind=='panic':
            ks=[at(t,mk('is',fld(content(o,Fl),'1'))) for o in own]
            R.check('a merge does not panic after a failed compaction',r,not any(k is not None and k[0]=='Some' for k in ks),'merging shards one of whose compactions failed panics',t,t.S[-1])
    R.floor('effects',r,20,n)
    r='ShardRouter::merge_small_shards'; n=0
    for t in C.paths(r,boundary=rows.merge_bound(C),key='mb'):
        for x in t.by('Call'):
            if not x.op.endswith(('::_merge','::load')): continue
            n+=1
            l=[y for y in t.by('Lock') if y.cls=='NODE' and y.mode=='w' and y.i<x.i]
            w=[y for y in t.by('Call') if y.op.endswith('wait_for_compactions') and t.ok(y.res)=='Ok' and l and l[-1].i<y.i<x.i]
            R.check('running background work is waited for first',r,bool(w),'shards are merged or reopened while background work may go on or has failed',t,x)
    R.floor('reorganisations',r,2,n)
    # ---- the background task: what it leaves behind when it fails, and that its outcome always arrives
    worker(C,R,L,Fl)
    # ---- leftovers are taken over when the shard is opened again; operations use the right file
    bulk_adopt(C,R)
    # ---- closing waits
    n=0
    for d in L.dropfn:
        if 'shard::Shard' not in d: continue
        for t in L.units[d].T if d in L.units else C.paths(d):
            if t.kind!='return': continue
            n+=1
            hk=at(t,mk('is',h))
            wt=[x for x in t.by('Wait') if handleof(x.ptr,H) is h]+[x for x in t.by('Call') if x.op.endswith('wait_for_compaction')]
            R.check('closing the store waits for background work',short_(d),bool(wt) or (hk is not None and hk[0]=='None'),'a shard is dropped while its files are still being written',t,None)
    R.floor('closing','Shard::drop',1,n)
    # ---- statistics
    n=0
    for r in('Shard::get_stats','CandyStore::stats'):
        for t in C.paths(r) if r.startswith('Shard') else C.paths(r,boundary=shard_boundary(C),key='L1'):
            n+=1
            if r.startswith('Shard'):
                if t.kind=='return' and t.retvariant()!='Ok':
                    R.check('statistics are no reason to fail',r,not t.by('Wait') or t.kind=='panic','the failure of a compaction is taken by the statistics, which cannot report it',t,t.by('Wait')[0])
                if t.kind=='panic': R.check('statistics are no reason to fail',r,False,'',t,t.S[-1])
    R.floor('statistics','paths',2,n)
def handleof(ptr,H):
    while ptr.op in('fld','as'):
        if ptr.op=='fld' and ptr.a[1]=='$' and ptr.a[0].op=='fld' and ptr.a[0].a[1]==H: return ptr
        ptr=ptr.a[0]
    return None
def waited(t,h,H,before):
    k=at(t,mk('is',h),before)
    w=[x for x in t.by('Wait') if handleof(x.ptr,H) is h and x.i<before and t.ok(x.res)=='Ok' and t.ok(inner(x))=='Ok']
    if not((k is not None and k[0]=='None') or w): return False
    l=[x for x in t.by('Lock') if x.cls=='HANDLE' and x.i<before]
    return bool(l) and not any(u.k=='Unlock' and u.res is l[-1].res and u.i<before for u in t.S)
def worker(C,R,L,Fl):
    nerr=nok=0
    for p in L.spawned:
        u=L.units[p]; w=short_(p)
        for t in u.T:
            it=[x for x in t.by('Iter') if x.op=='opaque']
            sends=t.by('Send')
            job=[x for x in it if t.p.conds.get(mk('is',x.res))=='Some']
            if t.kind=='panic' or not job: continue
            R.check('every task reports its outcome',w,len(sends)==len({x.res for x in job}),'%d outcomes are sent for %d tasks'%(len(sends),len(job)),t,job[-1])
            swap=[x for x in t.by('W') if contains(x.ptr,lambda q: q.op=='fld' and q.a[1]==Fl)]
            fails=[x for x in t.S if x.k in('DataR','DataW','Rename','Remove','Call') and x.res is not None and t.ok(x.res)=='Err']
            for x in sends:
                v=x.val; k=v.a[1] if v.op=='agg' else t.p.conds.get(mk('is',v))
                R.check('every task reports its own outcome',w,any(contains(x.ptr,lambda q: q is j.res) for j in job),'the outcome goes to %s'%show(x.ptr)[:60],t,x)
                if fails:
                    nerr+=1
                    R.check('a failed task reports its failure',w,k=='Err','a task that failed reports success',t,x)
                    bad=[y for y in swap if y.i>fails[0].i]
                    R.check('a failed task leaves both files in use',w,not bad,'after a failure the files are switched: what is only in the other one is hidden',t,bad[0] if bad else None)
                    rm=[y for y in t.by('Remove','Rename') if y.i>fails[0].i or y.k=='Remove']
                    R.check('a failed task leaves both files in place',w,not rm,'after a failure a file is removed or renamed',t,rm[0] if rm else None)
                elif k=='Ok':
                    nok+=1
                    sw=[y for y in swap if y.i<x.i]
                    lock=all(any(m in('w+','w') for q,m in t.held(y,'FILES')) for y in sw)
                    R.check('success is reported only when the new file is in use',w,len(sw)>=2 and lock and any(y.k=='Rename' for y in t.S if y.i<sw[0].i),'success is reported before the shard uses the new file',t,x)
            un=[y for y in t.by('Call') if y.op.startswith('shard::Shard::') and y.res is not None and t.ok(y.res) is None and isresult_(C,y.op)]
            for y in un:
                R.check('a failed task reports its failure',w,any(contains(x.val,lambda q: q is y.res) for x in sends),'the outcome of %s is ignored'%short_(y.op),t,y)
    R.floor('failed tasks','worker',2,nerr); R.floor('finished tasks','worker',1,nok)
def isresult_(C,p):
    F=C.P.fns.get(p); return F is not None and tystr(C,F,0).startswith('std::result::Result<')
def bulk_adopt(C,R):
    """a leftover that may hold writes is taken over, not removed or ignored, when the shard is opened"""
    r='Shard::open'; n=0
    from rules.open import fresh
    L=layout(C)
    for t in C.paths(r):
        if not t.isok(): continue
        main=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='shard_']
        if not main: continue
        n+=1
        if fresh(C,L,t,main[-1].file,len(t.E)+1): continue
        op=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='compact_']
        gone=any(bulk.notfound(t,o.res) for o in op)
        use=[x for x in t.by('Rename') if (fname(x.path) or ('',))[0]=='compact_']
        R.check('writes made after a failed compaction are taken over',r,gone or bool(use),'the new file of a failed compaction is ignored when the shard is opened again',t,op[0] if op else None)
    R.floor('openings',r,2,n)
