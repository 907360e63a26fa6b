"""C23: the counters and the statistics made of them."""
from rules.lib import *
from rules.shard import *
from rules import api,rows
from rules.place import only
from rules.locks import short_

SELF=mk('arg','self')
CNT=('num_inserts','num_removals','wasted_bytes','write_offset')
def flat(v):
    """the value after the one generic round that was followed"""
    v=canon(v)
    for _ in range(12):
        w=rebuild(v,{},lambda q: q.a[2] if q.op=='lv' else None)
        if w is v: return v
        v=w
    return v
def total(xs):
    s=c(0)
    for x in xs: s=add(s,flat(x.val))
    return s
def C23(C,R):
    points(C,R)
    bulk_(C,R)
    shardstats(C,R)
    report(C,R)
    allshards(C,R)
    derived(C,R)
    resetting(C,R)
    internal(C,R)

# ------------------------------------------------------------------ counters kept with the slots
def entrysize(L,w,v):
    """is v the number of bytes of the entry that word w refers to"""
    return rebuild(v,{},lambda q: L.word if q is w else None) is add(KW,VW)
def samelen(t,a,v):
    """v, and v with the length of one byte string in place of that of another known to be equal to it"""
    out=[v]
    for y in t.conds(a.i):
        if y.ptr.op!='eq' or y.op!=1 or len(y.ptr.a)<2: continue
        p,q=y.ptr.a[:2]
        if not(isinstance(p,V) and isinstance(q,V)): continue
        for m,n in((p,q),(q,p)):
            lm,ln=blen(m),blen(n)
            for w in[v]+([canon(v)] if canon(v) is not v else []):
                if lm in subterms(w) and lm is not ln: out.append(rebuild(w,{},lambda z: ln if z is lm else None))
    return out
def wordsof(t,x):
    """the words of the slot that x writes, as they occur in a term"""
    def f(v): return [w for w in words(v) if t.slotptr(w) and t.slotptr(w)[0] is x.file and t.slotptr(w)[1]=='offsets_and_sizes' and t.slotptr(w)[2] is x.row and t.slotptr(w)[3] is x.col]
    return f
def points(C,R):
    L=layout(C); n={'add':0,'rem':0,'repl':0}
    for r,ts in roots(C,R):
        for t in ts:
            for a in t.by('HdrA'):
                if a.field in CNT[:3]: R.check('counters only grow',r,a.op=='fetch_add','%s is changed by %s'%(a.field,a.op),t,a)
            if r not in POINT or t.kind!='return': continue
            files=[]
            for x in t.by('SigW','OffW','HdrA'):
                if not any(x.file is f for f in files): files.append(x.file)
            for f in files:
                sw=[x for x in t.by('SigW') if x.file is f]
                pub=[x for x in sw if not iszero(x.val)]; clr=[x for x in sw if iszero(x.val)]
                rep=[x for x in t.by('OffW') if x.file is f and not any(y.row is x.row and y.col is x.col for y in sw)]
                A={k:[x for x in t.by('HdrA') if x.file is f and x.field==k] for k in CNT}
                n['add']+=len(pub); n['rem']+=len(clr); n['repl']+=len(rep)
                s=total(A['num_inserts'])
                R.check('an addition counts one insert',r,s is c(len(pub)),'%d entries are added and %s are counted'%(len(pub),show(s)),t,(pub or A['num_inserts'] or [None])[0])
                s=total(A['num_removals'])
                R.check('a removal counts one removal',r,s is c(len(clr)),'%d entries are removed and %s are counted'%(len(clr),show(s)),t,(clr or A['num_removals'] or [None])[0])
                for x in pub: R.check('an entry is counted before it can be found',r,not A['num_inserts'] or A['num_inserts'][0].i<x.i,'a crash leaves an entry that was never counted, its removal is counted',t,x)
                for x in A['num_removals']+A['wasted_bytes']:
                    R.check('what is removed is counted afterwards',r,any(y.i<x.i for y in clr+rep),'a crash leaves the entry in place, and it is counted again',t,x)
                # garbage
                left=list(clr+rep); was=[(a,a.val) for a in A['wasted_bytes']]
                if len(left)==1 and len(was)>1:
                    tot=c(0)
                    for a,v in was: tot=add(tot,canon(v))
                    was=[(was[0][0],tot)] # counted in parts
                for a,val in was:
                    m=[x for x in left for val2 in samelen(t,a,val) if any(entrysize(L,w,val2) for w in wordsof(t,x)(val2))]
                    if R.check('garbage is the entry that was given up',r,bool(m),'%s is counted as garbage'%show(val)[:90],t,a): left.remove(m[0])
                for x in left: R.check('what is given up is garbage',r,False,'an entry is given up and not counted as garbage',t,x)
                if not left and clr+rep: R.check('what is given up is garbage',r,True,'',t,None)
    for k,v in n.items(): R.floor('slot changes',k,2,v)
def bulk_(C,R):
    n={}
    for r,ts in roots(C,R):
        if r not in BULK: continue
        for t in ts:
            for a in t.by('HdrA'):
                if a.field in('num_removals','wasted_bytes'): R.check('a reorganisation removes nothing',r,False,'%s is changed'%a.field,t,a)
            if not(t.kind=='loop' or t.kind=='return' and t.isok()): continue
            files=[]
            for x in t.by('SigW','HdrA'):
                if not any(x.file is f for f in files): files.append(x.file)
            for f in files:
                pub=[x for x in t.by('SigW') if x.file is f and not iszero(x.val)]
                ins=[x for x in t.by('HdrA') if x.file is f and x.field=='num_inserts']
                n[r]=n.get(r,0)+len(pub)
                s=total(ins)
                R.check('every entry taken over is counted',r,s is c(len(pub)),'%d entries are taken over and %s are counted'%(len(pub),show(s)[:60]),t,(ins or pub or [None])[0])
                for x in t.by('HdrA'):
                    if x.file is f and x.field=='compacted_up_to' and x.op=='fetch_add':
                        R.check('a row is counted before it is handed over',r,all(y.i<x.i for y in ins) or any(y.i>x.i and z.i>x.i for y in ins for z in pub),'entries of the row can be removed before they are counted',t,x)
                        R.check('a row is counted before it is handed over',r,bool(t.held(x,'ROW')),'the row is not locked when it is handed over',t,x)
    for r in('Shard::split','Shard::merge','Shard::background_compact'): R.floor('entries taken over',r,1,n.get(r,0))

# ------------------------------------------------------------------ the counters of one shard
def shardstats(C,R):
    r='Shard::get_stats'; L=layout(C); fs=fld(fld(SELF,'files'),'$'); f0=fld(fs,'0'); o1=fld(fs,'1'); f1=fld(asv(o1,'Some'),'0')
    n={'one':0,'two':0,'rest':0}
    klen,vlen=None,None
    for t in C.paths(r):
        if t.kind=='panic' : R.check('the statistics of a shard are always available',r,False,'may panic',t,None); continue
        if t.kind!='return': continue
        v=canon(t.ret)
        if not R.check('the statistics of a shard are always available',r,v.op=='agg' and v.a[1]=='Ok','returns %s'%show(v)[:60],t,None): continue
        g=v.a[3][0]
        st=t.p.conds.get(mk('is',o1)); two=st=='Some'
        if not R.check('both files of a shard are considered',r,st is not None,'the counters are read without looking for an unfinished compaction',t,None): continue
        F=f1 if two else f0
        n['two' if two else 'one']+=1
        ld={}
        for x in t.by('HdrL'):
            if x.field in CNT: 
                R.check('the counters of the newest file are read',r,x.file is F,'reads %s of %s'%(x.field,show(x.file)[:60]),t,x)
                ld.setdefault(x.field,[]).append(x)
                R.check('the counters are read while the files stay',r,bool(t.held(x,'FILES')),'',t,x)
        # the part that is still in the old file
        extra=[]
        if two:
            rowsits=[x for x in t.by('Iter') if x.op=='range' and x.col.op=='rng' and x.col.a[1] is c(0) and x.col.a[2] is c(NROWS)]
            ends=[x for x in t.by('IterEnd') if isinstance(x.ptr,V) and x.ptr.op=='agg' and list(x.ptr.a[3])==[c(0),c(NROWS)]]
            R.check('the rows that were not compacted are counted',r,bool(rowsits or ends),'rows of the old file are left out',t,None)
            for x in rowsits:
                row=x.col
                lt=[y for y in t.conds() if y.i>x.i and y.ptr.op=='lt' and y.ptr.a[0] is row and y.ptr.a[1].op=='al' and any(z.res is y.ptr.a[1] and z.field=='compacted_up_to' and z.file is f1 for z in t.by('HdrL'))]
                lk=[y for y in t.by('Acq') if y.cls=='ROW' and y.i>x.i and rows.rowindex(y.ptr) is row]
                if not R.check('the rows that were not compacted are counted',r,bool(lt),'a row is not compared with the progress of the compaction',t,x): continue
                R.check('a row is looked at while it stays',r,bool(lk) and lk[0].i<[z for z in t.by('HdrL') if z.res is lt[0].ptr.a[1]][0].i,'the row is not locked',t,x)
                if lt[0].op==1: continue
                sig=[y for y in t.by('Iter','IterEnd') if y.i>x.i and y.mode!=x.mode]
                slots=[y for y in t.by('Rd') if y.i>x.i and y.field=='signatures' and y.file is f0 and y.row is row]
                if not R.check('the rows that were not compacted are counted',r,bool(sig) and bool(slots),'the slots of a row are not looked at',t,x): continue
                n['rest']+=1
                for y in t.by('Iter'):
                    if y.i<x.i or y.mode==x.mode or y.op=='Adapt': continue
                    cols=y.col
                    full=cols.op=='iv' and t.slotptr(cols.a[1]) and t.slotptr(cols.a[1])[0] is f0 or cols.op=='rng' and cols.a[1] is c(0) and cols.a[2] is c(NCOLS)
                    if not R.check('the rows that were not compacted are counted',r,bool(full) and not [a for a in t.by('Adapt') if a.mode==y.mode and a.op not in('enumerate','map','copied','cloned')],'only part of the row is looked at',t,y): continue
                    eq=[z for z in t.conds() if z.i>y.i and z.ptr.op=='eq' and c(0) in z.ptr.a and any(t.slotptr(q) and t.slotptr(q)[0] is f0 and t.slotptr(q)[1]=='signatures' and t.slotptr(q)[2] is row and t.slotptr(q)[3] is cols for q in z.ptr.a)]
                    if not R.check('the rows that were not compacted are counted',r,bool(eq),'empty slots are not told from entries',t,y): continue
                    if eq[0].op==0:
                        extra.append(idx(fld(sigs(t,eq[0],f0).a[0].a[0],'offsets_and_sizes'),cols))
        for k in CNT:
            val=flat(fld(g,k)) if g.op!='?' else None
            xs=ld.get(k,[])
            if not R.check('every counter of a shard is in its own field',r+' '+k,bool(xs),'%s is not read'%k,t,None): continue
            d=sub(val,xs[-1].res); ws=[w for w in words(d) if w in extra]
            if k=='num_inserts': ok=d is c(len(extra))
            elif k=='write_offset' and extra: ok=len(extra)==1 and bool(ws) and entrysize(L,ws[0],d)
            else: ok=d is c(0)
            R.check('every counter of a shard is in its own field',r+' '+k,ok,'%s is %s'%(k,show(val)[:110]),t,xs[-1])
        for a,b in(('num_removals','num_inserts'),('wasted_bytes','write_offset')):
            if ld.get(a) and ld.get(b):
                R.check('what was taken away is read first',r,ld[a][-1].i<ld[b][-1].i,'%s is read before %s: an entry added and removed in between makes the difference negative'%(b,a),t,ld[b][-1])
                R.check('what was taken away is read first',r,str(ld[a][-1].op).split('::')[-1] in('Acquire','SeqCst'),'%s is read with %s ordering, the reads can be swapped'%(a,ld[a][-1].op),t,ld[a][-1])
        w=[x for x in t.by('Wait')]; h=[x for x in t.by('Acq') if x.cls=='HANDLE']
        fl=[x for x in t.by('Acq') if x.cls=='FILES']
        R.check('a running compaction is waited for',r,bool(h) and bool(fl) and h[0].i<fl[0].i and (bool(w) or t.p.conds.get(mk('is',fld(fld(SELF,'compaction_handle'),'$')))=='None'),'the counters are read in the middle of a compaction',t,None)
    R.floor('statistics of a shard',r,2,n['one']); R.floor('statistics of a shard',r+' two files',2,n['two']); R.floor('statistics of a shard',r+' rest',2,n['rest'])
    for r2,ts in roots(C,R,['Shard::insert','Shard::remove']):
        for t in ts:
            for a in t.by('HdrA'):
                if a.field in('num_removals','wasted_bytes'): R.check('what was taken away is counted in order',r2,str(a.mode).split('::')[-1] in('Release','AcqRel','SeqCst'),'%s is counted with %s ordering'%(a.field,a.mode),t,a)
def sigs(t,x,f):
    return [q for q in x.ptr.a if t.slotptr(q) and t.slotptr(q)[0] is f][0]
# ------------------------------------------------------------------ the report
def fields(C,ty):
    a=[v for p,v in C.P.adts.items() if p.split('::')[-1]==ty]
    if not a: raise Missing('no structure '+ty)
    return [(f['name'],C.P.types[f['ty']]['s']) for f in a[0]['variants'][0]['fields']]
PER={'num_shards':None,'occupied_bytes':'write_offset','wasted_bytes':'wasted_bytes','num_inserts':'num_inserts','num_removals':'num_removals'}
def report(C,R):
    r='CandyStore::stats'; SF=fields(C,'Stats'); IF={n for n,_ in fields(C,'InternalStats')}
    cs=C.fn('ShardRouter::call_on_all_shards').path
    n={'some':0,'none':0}
    for t in C.paths('store::CandyStore::stats',boundary={cs:'event'},key='counters',stats_event=False):
        if t.kind!='return': continue
        v=canon(t.ret)
        ca=[x for x in t.by('Call') if x.op==cs]
        if not R.check('a report includes all shards',r,len(ca)==1 and ca[0].val[0] is fld(SELF,'root'),'the shards are not asked',t,None): continue
        col=fld(asv(ca[0].res,'Ok'),'0')
        it=[x for x in t.by('Iter') if contains_(x,col)]; en=[x for x in t.by('IterEnd') if contains_(x,col)]
        if not R.check('a report includes all shards',r,bool(en or any(sumof(q,col,g) for q in subterms(v) for g in PER.values())) and not [a for a in t.by('Adapt') if any(a.mode==q.mode for q in it+en)],'not all shards are included',t,None): continue
        n['some' if it else 'none']+=1
        src=it[0].val if it else None
        for f,ty in SF:
            val=flat(fld(v,f))
            if f in PER:
                want=c(0) if not it else c(1) if PER[f] is None else fld(src,PER[f])
                raw=canon(fld(v,f))
                R.check('the counters of the shards are added up',r+' '+f,summed(raw,want,bool(it)) or PER[f] is None and raw is mk('len',col) or sumof(raw,col,PER[f]),'%s is %s'%(f,show(val)[:90]),t,None)
            elif f in IF:
                ok=val.op=='al' and val.a[-1] is fld(fld(SELF,'stats'),f) or any(q is fld(fld(SELF,'stats'),f) for q in subterms(val)) and not any(q is fld(fld(SELF,'stats'),g) for g in IF-{f} for q in subterms(val)) or drained(t,val,f)
                R.check('every counter is in its own field',r+' '+f,ok,'%s is %s'%(f,show(val)[:90]),t,None)
            else: R.check('every counter is in its own field',r+' '+f,False,'nothing is counted for it',t,None)
        cl=[q for q in subterms(ca[0].val[1]) if q.op=='agg' and q.a[0].startswith('closure:')] if isinstance(ca[0].val[1],V) else []
        if R.check('a report asks every shard for its counters',r,len(cl)==1,'',t,ca[0]):
            p=cl[0].a[0][8:]
            for u in C.paths(p,boundary=api.bound(C),key='api'):
                if u.kind!='return': continue
                g=[x for x in u.by('Call') if x.op.endswith('Shard::get_stats')]
                R.check('a report asks every shard for its counters',r,len(g)==1 and canon(u.ret) is g[0].res,'returns %s'%show(canon(u.ret))[:60],u,None)
    R.floor('reports',r,1,n['some']); R.floor('reports of no shards',r,1,n['none'])
def sumof(v,col,f):
    """the sum of field f over all elements of col"""
    return f is not None and v.op=='sum' and v.a[0] is col and v.a[2] is fld(idx(col,v.a[1]),f)
def summed(v,want,some):
    """is v the sum, from 0, of want over the elements of a loop? (v is its value after a generic round, or after none)"""
    if v.op!='lv': return v is want and not some
    if not some: return flat(v) is c(0)
    w=canon(v.a[2])
    return any(q.op=='lv' and q.a[0]==v.a[0] and sub(w,q) is want and flat(q) is c(0) for q in subterms(w))
def contains_(x,col): return any(isinstance(v,V) and col in subterms(v) for v in(x.col,x.val,x.ptr))
def drained(t,val,f):
    """the list of an empty ring"""
    if any(contains_(x,fld(fld(SELF,'stats'),f)) for x in t.by('Iter')): return False
    return val.op=='cb' and len(val.a[0])==0 and any(contains_(x,fld(fld(SELF,'stats'),f)) or any(isinstance(v,V) and fld(fld(SELF,'stats'),f) in subterms(v) for v in(x.ptr,x.col)) for x in t.by('IterEnd','Acq'))
def allshards(C,R):
    r='ShardRouter::call_on_all_shards'; P=C.fn(r).path; nd=fld(fld(SELF,'node'),'$'); n={'leaf':0,'down':0}
    for t in C.paths(r,boundary={P:'event'},key='counters'):
        if t.kind!='return' or not t.isok(): continue
        v=canon(t.ret); v=v.a[3][0] if v.op=='agg' else fld(asv(v,'Ok'),'0')
        vs=subterms(v)
        if t.p.conds.get(mk('is',nd))=='Leaf':
            n['leaf']+=1
            cb=t.by('Callback')
            R.check('every shard is asked',r,len(cb)==1 and any(isinstance(a,V) and fld(asv(nd,'Leaf'),'0') in subterms(canon(a)) for a in cb[0].x_args()) if cb and hasattr(cb[0],'x_args') else len(cb)==1 and any(isinstance(a,V) and fld(asv(nd,'Leaf'),'0') in subterms(canon(a)) for a in cb[0].ev.args),'the shard is not asked',t,None)
            R.check('every answer is included',r,bool(cb) and fld(asv(cb[0].res,'Ok'),'0') in vs,'the answer is lost',t,None)
        else:
            n['down']+=1
            ca=[x for x in t.by('Call') if x.op==P]
            R.check('every shard is asked',r,sorted(show(x.val[0]) for x in ca)==sorted(show(fld(asv(nd,'Vertex'),k)) for k in'01'),'not both halves are asked',t,None)
            R.check('every answer is included',r,all(fld(asv(x.res,'Ok'),'0') in vs for x in ca) and (v.op!='cat' or len(v.a[0])==2),'answers are lost: %s'%show(v)[:80],t,None)
    R.floor('steps',r+' leaf',1,n['leaf']); R.floor('steps',r+' vertex',1,n['down'])
def derived(C,R):
    S=lambda f: fld(SELF,f)
    hs=layout(C).base
    for p,want in(('stats::Stats::num_entries',sub(S('num_inserts'),S('num_removals'))),('shard::ShardStats::num_items',sub(S('num_inserts'),S('num_removals'))),
                  ('stats::Stats::data_bytes',sub(S('occupied_bytes'),S('wasted_bytes'))),
                  ('stats::Stats::total_occupied_bytes',add(mul(S('num_shards'),hs if isinstance(hs,V) else c(hs)),S('occupied_bytes')))):
        m=0
        for t in C.paths(p):
            if t.kind!='return': continue
            m+=1; v=canon(t.ret)
            R.check('the figures derived from the counters',p,v is want,'returns %s'%show(v),t,None)
        R.floor('derived figures',p,1,m)

# ------------------------------------------------------------------ clearing
def resetting(C,R):
    IF=fields(C,'InternalStats'); r='InternalStats::clear'
    k=0; some={}
    for t in C.paths(r,stats_event=False,key='counters'):
        if t.kind!='return': continue
        # a loop over a written-out list of counters: a path follows it for one of them
        listed=[]; skip=False
        for x in t.by('IterEnd'):
            for q in subterms(x.ptr) if isinstance(x.ptr,V) else ():
                if q.op=='arr' and q.a[0]:
                    listed+=[canon(e) for e in q.a[0]]; skip|=not any(y.mode==x.mode for y in t.by('Iter'))
        if skip: continue
        k+=1
        for f,ty in IF:
            me=fld(SELF,f)
            st=[x for x in t.by('Astore') if x.ptr is me]
            w=[x for x in t.by('W') if isinstance(x.ptr,V) and me in subterms(x.ptr)]
            if me in listed: some.setdefault(f,[]).append(bool(st) and st[-1].val is c(0)); continue
            if 'Atomic' in ty: R.check('clearing resets every counter',r+' '+f,bool(st) and st[-1].val is c(0),'%s is not reset'%f,t,None)
            else:
                ring=[x for x in w if x.ptr is fld(fld(me,'$'),'idx') or x.ptr is fld(me,'$')]
                R.check('clearing resets every counter',r+' '+f,bool(ring) and (ring[-1].val is c(0) or ring[-1].ptr is fld(me,'$')),'%s is not reset'%f,t,None)
        for x in t.by('Armw'): R.check('clearing resets every counter',r,False,'changes %s'%show(x.ptr),t,x)
    for f,b in some.items(): R.check('clearing resets every counter',r+' '+f,any(b),'%s is not reset'%f,None,None)
    R.floor('clearing',r,1,k)
    r='CandyStore::clear'; k=0
    for t in api.run(C,'store::CandyStore::clear'):
        if t.kind!='return' or not t.isok(): continue
        k+=1
        a=[x for x in t.by('Call') if x.op.endswith('ShardRouter::clear')]; b=[x for x in t.by('Call') if x.op.endswith('InternalStats::clear')]
        R.check('clearing the store clears the statistics',r,bool(a) and bool(b) and b[-1].val[0] is fld(SELF,'stats') and a[-1].i<b[-1].i,'the statistics of the old entries stay',t,None)
    R.floor('clearing',r,1,k)

# ------------------------------------------------------------------ counters of operations
def internal(C,R):
    """lookups, updates, reads, writes, splits and compactions are counted where they happen"""
    L=layout(C); st=lambda f: fld(fld(SELF,'stats'),f)
    def count(t,f): return total([x for x in t.by('Armw') if x.op=='fetch_add' and x.ptr is st(f)])
    n={'hit':0,'miss':0,'upd':0,'col':0}
    for t in C.paths('Shard::get'):
        if t.kind!='return' or not t.isok(): continue
        v=canon(t.ret).a[3][0] if canon(t.ret).op=='agg' else None
        if v is None or v.op!='agg': continue
        hit=v.a[1]=='Some'; n['hit' if hit else 'miss']+=1
        R.check('a lookup counts once, as what it was','Shard::get',count(t,'num_positive_lookups') is c(int(hit)) and count(t,'num_negative_lookups') is c(int(not hit)),'a lookup that %s counts %s positive, %s negative'%('succeeded' if hit else 'found nothing',show(count(t,'num_positive_lookups')),show(count(t,'num_negative_lookups'))),t,None)
    for t in C.paths('Shard::insert'):
        if t.kind!='return': continue
        sw=[(x.row,x.col) for x in t.by('SigW')]
        rep=[x for x in t.by('OffW') if not any(a is x.row and b is x.col for a,b in sw)]
        if rep: n['upd']+=1
        R.check('an update counts once','Shard::insert',count(t,'num_updates') is c(len(rep)),'%d values are replaced and %s are counted'%(len(rep),show(count(t,'num_updates'))),t,(rep or [None])[0])
    for k in('hit','miss','upd'): R.floor('operations counted',k,1,n[k])
    # reads and writes
    reads=writes=0
    for r,ts in roots(C,R):
        if r not in POINT: continue
        for t in ts:
            if t.kind!='return': continue
            ok=[x for x in t.by('DataR') if t.ok(x.res)=='Ok']
            reads+=len(ok)
            R.check('a read counts once',r,count(t,'num_read_ops') is c(len(ok)),'%d entries are read and %s reads are counted'%(len(ok),show(count(t,'num_read_ops'))),t,(ok or [None])[0])
            b=c(0)
            for x in ok: b=add(b,flat(blen(x.buf)))
            R.check('a read counts its bytes',r,count(t,'num_read_bytes') is b,'%s bytes are counted'%show(count(t,'num_read_bytes'))[:80],t,(ok or [None])[0])
            ok=[x for x in t.by('DataW') if t.ok(x.res)=='Ok' and not headerwrite(L,x)]; ae=[x for x in t.by('Call') if x.op.endswith('InternalStats::add_entry')]
            writes+=len(ok)
            R.check('a write counts once',r,[flat(x.val[1]) for x in ae]==[flat(blen(x.buf)) for x in ok],'%d entries are written, counted are %s'%(len(ok),[show(x.val[1])[:40] for x in ae]),t,(ok or [None])[0])
    R.floor('operations counted','reads',4,reads); R.floor('operations counted','writes',2,writes)
    sizes(C,R)
    # splits and compactions
    for r,rep,fld_ in(('Shard::split','report_split','num_splits'),('Shard::background_compact','report_compaction','num_compactions')):
        k=0
        for t in C.paths(r):
            if t.kind!='return' or not t.isok(): continue
            a=[x for x in t.by('Call') if x.op.endswith('InternalStats::'+rep)]
            d=[x for x in t.by('Rename')] if r.endswith('compact') else [1]
            if not d and not a: continue
            k+=1
            R.check('a reorganisation counts once',r,len(a)==1,'%d are counted'%len(a),t,(a or [None])[0])
        R.floor('operations counted',rep,1,k)
        for t in C.paths('InternalStats::'+rep,stats_event=False,key='counters'):
            if t.kind!='return': continue
            xs=t.by('Armw')
            R.check('a reorganisation counts once','InternalStats::'+rep,[(x.ptr,x.op,canon(x.val)) for x in xs]==[(fld(SELF,fld_),'fetch_add',c(1))],'changes %s'%[show(x.ptr) for x in xs],t,None)
LIM={'entries_under_128':(0,128),'entries_under_1k':(128,1024),'entries_under_8k':(1024,8192),'entries_under_32k':(8192,32768),'entries_over_32k':(32768,None)}
def sizes(C,R):
    r='InternalStats::add_entry'; F=C.fn(r); sz=mk('arg',F.lname(2)); seen=set()
    for t in C.paths(r,stats_event=False,key='counters'):
        if t.kind!='return': continue
        xs=t.by('Armw')
        g={}
        for x in xs:
            nm=x.ptr.a[1] if x.ptr.op=='fld' and x.ptr.a[0] is SELF else '?'
            g[nm]=add(g.get(nm,c(0)),canon(x.val)); R.check('a write counts once',r,x.op=='fetch_add' and (nm in LIM or nm in('num_write_bytes','num_write_ops')),'changes %s by %s'%(nm,x.op),t,x)
        R.check('a write counts once',r,g.get('num_write_ops') is c(1) and g.get('num_write_bytes') is sz,'counts %s writes of %s bytes'%(show(g.get('num_write_ops',c(0))),show(g.get('num_write_bytes',c(0)))),t,None)
        b=[k for k in LIM if k in g]
        if not R.check('an entry is counted by its size',r,len(b)==1 and g[b[0]] is c(1),'counted as %s'%b,t,None): continue
        seen.add(b[0]); lo,hi=LIM[b[0]]
        R.check('an entry is counted by its size',r+' '+b[0],(lo==0 or t.entails(cmp_lt(sz,c(lo)))==0) and (hi is None or t.entails(cmp_lt(sz,c(hi)))==1),'sizes outside %s..%s are counted as %s'%(lo,hi,b[0]),t,None)
    R.floor('sizes','InternalStats',len(LIM),len(seen))
