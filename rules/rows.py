"""Rules about single-row operations: locking of rows and files, key comparison, conditional updates, results, compaction order."""
from rules.lib import *
from rules.shard import *
from rules.copy import copies,fresh_lock,re_open,slot,head

# ------------------------------------------------------------------ helpers
def lockroot(ptr):
    """object a files/row_locks lock belongs to"""
    b,pr=peel(ptr); cur=b
    for p in pr:
        if p[0]=='f' and p[1] in('files','row_locks','node'): return cur
        cur=fld(cur,p[1]) if p[0]=='f' else asv(cur,p[1]) if p[0]=='d' else idx(cur,p[1]) if p[0]=='i' else cur
    return cur
def rowindex(ptr):
    b,pr=peel(ptr)
    r=[p[1] for p in pr if p[0]=='i']
    return r[-1] if r else None
def opened_here(t,f):
    """file opened (or mapped from a file opened) on this trace and not yet reachable by others"""
    return any(x.file is f for x in t.by('Open')) or not contains(f,lambda q: q.op=='fld' and q.a[1]=='$')
def contains(v,p):
    return any(p(x) for x in subterms(v))
def cover(f,ptr):
    """does the lock at ptr protect file f"""
    return any(x is fld(fld(ptr,'$'),'0') or x is fld(fld(ptr,'$'),'1') for x in subterms(f))
def unupd(v):
    while v.op=='upd': v=v.a[0]
    return v
def sign(x):
    return x.k=='Rd'
def keyeq(t,L,key,before=None):
    """{word: 1/0} outcome of comparing the complete key with the complete stored key of a slot"""
    r={}
    for x in t.conds(before):
        if x.ptr.op!='eq': continue
        for p,q in ((x.ptr.a[0],x.ptr.a[1]),(x.ptr.a[1],x.ptr.a[0])):
            if p is key:
                k=L.piece(t,q)
                if k and k[0]=='key' and k[1] is not None: r[k[1]]=x.op
    return r
def sigs_of(word): return fld(word.a[0].a[0],'signatures')
def start_ok(t,st,S,sig,seen,n=0):
    """is `st` reached by examining every earlier candidate of S with this signature"""
    if n>10: return False
    if isc(st): return st.a[0]==0
    if st.op=='lv':
        steps=[x for x in t.by('Step') if x.ptr is st]
        for x in steps:
            if x.val is st: continue
            if not step_ok(t,x.val,st,S,sig,seen): return False
        return start_ok(t,st.a[2],S,sig,seen,n+1) if not isc(st.a[2]) else st.a[2].a[0]==0
    return step_ok(t,st,None,S,sig,seen,n)
def step_ok(t,v,prev,S,sig,seen,n=0):
    """v = (previous match)+1"""
    for q in subterms(v):
        if q.op=='pos' and q.a[1] is sig and q.a[0].op=='slice' and q.a[0].a[0] is S:
            i=add(q.a[0].a[1],fld(asv(q,'Some'),'0'))
            if v is add(i,c(1)) and (prev is None or q.a[0].a[1] is prev):
                seen.add(i)
                return prev is not None or start_ok(t,q.a[0].a[1],S,sig,seen,n+1)
    return False
def exhausted(t,L,key,S,sig,before=None):
    """was every slot of row signatures S whose signature is `sig` compared with key (and found different) before event `before`?
    returns None when fully examined, otherwise the reason"""
    eqs=keyeq(t,L,key,before); why='the row is not searched for the signature'
    wordof=lambda i: idx(fld(S.a[0],'offsets_and_sizes'),i)
    for x in t.conds(before):
        if x.ptr.op=='is' and x.op=='None' and x.ptr.a[0].op=='pos':
            q=x.ptr.a[0]
            if q.a[1] is not sig: continue
            b=q.a[0]; st=c(0)
            if b.op=='slice':
                if b.a[0] is not S: continue
                if b.a[2] is not blen(S) and b.a[2] is not c(NCOLS): why='only part of the row is searched'; continue
                st=b.a[1]
            elif b is not S: continue
            seen=set()
            if not start_ok(t,st,S,sig,seen): why='the search skips candidates (start %s)'%show(st); continue
            bad=[i for i in seen if eqs.get(wordof(i))!=0]
            if bad: why='a candidate slot is passed over without comparing its key'; continue
            return None
    # element-wise scans
    for e in t.by('IterEnd'):
        if before is not None and e.i>=before: continue
        its=[x for x in t.by('Iter') if x.mode==e.mode]
        if [a for a in t.by('Adapt') if a.mode==e.mode]: continue
        ends=contains(e.ptr,lambda q: q is S) or any(contains(x.val,lambda q: q is S) for x in its if x.val is not None)
        full=ends or any(x.col.op=='rng' and x.col.a[1] is c(0) and x.col.a[2] is c(NCOLS) for x in its)
        if not full: continue
        bad=None
        for x in its:
            lim=[y.i for y in t.by('Iter','IterEnd') if y.mode==x.mode and y.i>x.i]
            tst=[y for y in t.conds(min(lim) if lim else None) if y.i>x.i and y.ptr.op=='eq' and sig in y.ptr.a and idx(S,x.col) in y.ptr.a]
            if not tst: bad='a slot is not compared with the signature'; break
            if tst[-1].op==1 and eqs.get(wordof(x.col))!=0: bad='a candidate slot is passed over without comparing its key'; break
        if bad is None and (its or ends): return None
        why=bad or why
    return why
def empty_slot(t,file,row,col,before):
    """was slot (row,col) found empty"""
    S=None
    for x in t.conds(before):
        if x.ptr.op=='is' and x.ptr.a[0].op=='pos' and x.op=='Some':
            q=x.ptr.a[0]
            if q.a[1] is not c(0): continue
            b=q.a[0]; lo=c(0)
            if b.op=='slice': lo=b.a[1]; b=b.a[0]
            if add(lo,fld(asv(q,'Some'),'0')) is col:
                s=t.slotptr(b)
                if s and s[0] is file and s[1]=='signatures' and s[2] is row: return True
        if x.ptr.op=='eq' and x.op==1 and c(0) in x.ptr.a:
            for p in x.ptr.a:
                s=t.slotptr(p)
                if s and s[0] is file and s[1]=='signatures' and s[2] is row and s[3] is col: return True
    return False
def no_empty_slot(t,S,before=None):
    for x in t.conds(before):
        if x.ptr.op=='is' and x.op=='None' and x.ptr.a[0].op=='pos' and x.ptr.a[0].a[1] is c(0):
            b=x.ptr.a[0].a[0]
            if b is S or (b.op=='slice' and b.a[0] is S and start_ok(t,b.a[1],S,c(0),set())): return True
    for e in t.by('IterEnd'):
        if contains(e.ptr,lambda q: q is S): return True
    return False
def modecond(t,arg,before=None):
    """(variant of the insert mode, Some/None of the expectation, expectation term)"""
    m=t.p.conds.get(mk('is',arg))
    e=None; ev=None
    if m=='Replace' or m is None:
        x=fld(asv(arg,'Replace'),'0'); e=t.p.conds.get(mk('is',x)); ev=fld(asv(x,'Some'),'0')
        if e is not None and m is None: m='Replace'
    return m,e,ev
def excluded(t,arg,var):
    """is `var` ruled out for the enum argument"""
    v=t.p.conds.get(mk('is',arg))
    if v is not None: return v!=var
    for k,b in t.p.conds.items():
        if isinstance(k,V) and k.op=='isnt' and k.a[0] is arg and k.a[1]==var: return True
    return False

# ------------------------------------------------------------------ C08
def C08(C,R):
    nr=nw=nc=nchoice=0
    for r,ts in roots(C,R,ROOTS+(['Shard::begin_compaction'] if C.has('Shard::begin_compaction') else [])):
        for t in ts:
            for x in t.by('Rd','SigW','OffW'):
                if opened_here(t,x.file): continue
                fl=[(p,m) for p,m in t.held(x,'FILES') if cover(x.file,p)]
                if not R.check('files lock held while a row is touched',r,bool(fl),'%s of %s without holding its files lock'%('read' if x.k=='Rd' else 'write',show(x.file)),t,x): continue
                if any(m=='w' for p,m in fl): continue
                wr=x.k!='Rd'
                rl=[(p,m) for p,m in t.held(x,'ROW') if lockroot(p) is lockroot(fl[0][0])]
                mine=[m for p,m in rl if rowindex(p) is x.row]
                if wr: nw+=1
                else: nr+=1
                if wr: R.check('slot changed only under the exclusive lock of its row',r,'w' in mine,'slot of row %s changed while holding %s'%(show(x.row),[(show(rowindex(p)),m) for p,m in rl] or 'no row lock'),t,x)
                else: R.check('slot read only under the lock of its row',r,bool(mine),'slot of row %s read while holding %s'%(show(x.row),[(show(rowindex(p)),m) for p,m in rl] or 'no row lock'),t,x)
                if r not in BULK:
                    nchoice+=1
                    choice(R,t,x,r)
            for x in t.by('W'):
                b,pr=peel(x.ptr)
                own=[i for i,p in enumerate(pr) if p==('f','$')]
                if not own: continue
                cur=b
                for p in pr[:own[-1]]: cur=fld(cur,p[1]) if p[0]=='f' else asv(cur,p[1]) if p[0]=='d' else idx(cur,p[1]) if p[0]=='i' else cur
                if fresh_lock(cur): continue
                cl=t.lcls.get(cur) or next((l.cls for l in t.by('Lock') if l.ptr is cur),None)
                hs=[m for c_ in ('FILES','NODE','HANDLE','SYNC','KEYED','ROW') for p,m in t.held(x,c_) if p is cur]
                if cl in('FILES','NODE') or not hs: 
                    nc+=1
                    R.check('shared structure replaced only under its exclusive lock',r,any(m in('w','w+') for m in hs) or (bool(hs) and cl not in('FILES','NODE')),'%s is replaced while holding %s'%(show(x.ptr),hs or 'no lock'),t,x)
    R.floor('row reads','Shard',6,nr); R.floor('row writes','Shard',4,nw); R.floor('file choices','Shard',6,nchoice); R.floor('file replacement','Shard',1,nc)
    # whole-shard operations exclude all others: exclusive files lock on every file they read
    for r in('Shard::split','Shard::merge'):
        try: ts=C.paths(r)
        except Missing as e: R.missing(e); continue
        n=0
        for t in ts:
            for x in t.by('Rd'):
                if opened_here(t,x.file): continue
                n+=1
                R.check('reorganisation excludes every other operation',r,any(m=='w' and cover(x.file,p) for p,m in t.held(x,'FILES')),'rows are copied without the exclusive files lock',t,x)
            for x in t.by('Rename'):
                fl={p for p,m in t.held(x,'FILES') if m=='w'}
                R.check('exclusive lock kept until the files are published',r,bool(fl),'the files lock is released before the new files are published',t,x)
            for x in t.by('Remove'):
                n_=fname(x.path)
                if n_ and n_[0]=='shard_': R.check('exclusive lock kept until the originals are deleted',r,any(m=='w' for p,m in t.held(x,'FILES')),'the files lock is released before the original is deleted',t,x)
        R.floor('rows read',r,1,n)
    # router: an operation reaches a shard only under the node's lock
    nn=0
    for r,b in (('ShardRouter::insert',router_bound(C)),('ShardRouter::shared_op',router_bound(C)),('ShardRouter::call_on_all_shards',router_bound(C)),('ShardRouter::clear',router_bound(C)),('ShardRouter::merge_small_shards',merge_bound(C))):
        try: ts=C.paths(r,boundary=b,key='router')
        except Missing as e: R.missing(e); continue
        for t in ts:
            for x in t.by('Call','Callback'):
                args=x.val or tuple(canon(a) for a in x.ev.args)
                for a in args:
                    if not isinstance(a,V): continue
                    for q in subterms(a):
                        if q.op=='fld' and q.a[1]=='$' and q.a[0].op=='fld' and q.a[0].a[1]=='node' and not fresh_lock(q.a[0]):
                            nn+=1
                            R.check('shard used only under its node\'s lock',r,any(p is q.a[0] for p,m in t.held(x,'NODE')),'%s uses the contents of %s without its lock'%(x.op,show(q.a[0])),t,x)
                            break
            for x in t.by('W'):
                b_,pr=peel(x.ptr)
                if ('f','node') in pr and ('f','$') in pr:
                    i=pr.index(('f','$')); cur=b_
                    for p in pr[:i]: cur=fld(cur,p[1])
                    if not fresh_lock(cur):
                        nn+=1
                        R.check('tree changed only under the node\'s exclusive lock',r,any(p is cur and m=='w' for p,m in t.held(x,'NODE')),'',t,x)
    R.floor('router accesses','ShardRouter',6,nn)
def shard_boundary(C,extra=()):
    b={}
    for p in C.P.fns:
        if '{closure' in p: continue
        n=p.split('::')
        if len(n)>=2 and n[-2]=='Shard': b[p]='event'
    for e in extra:
        for p in C.P.fns:
            if p.endswith(e) and '{closure' not in p: b[p]='event'
    return b
def router_bound(C):
    return shard_boundary(C,('ShardRouter::load','ShardRouter::create_initial_shards','ShardRouter::treeify','ShardRouter::wait_for_compactions'))
def merge_bound(C):
    return shard_boundary(C,('ShardRouter::load','ShardRouter::create_initial_shards','ShardRouter::treeify','ShardRouter::wait_for_compactions','ShardRouter::_merge','ShardRouter::call_on_all_shards'))
def choice(R,t,x,r):
    """old or compacted file chosen by the marker, under the row lock"""
    f=x.file; b,pr=peel(f)
    if not pr: return
    base=None
    for l,m in t.held(x,'FILES'):
        if cover(f,l): base=fld(l,'$')
    if base is None: return
    other=fld(base,'1'); tgt=fld(asv(other,'Some'),'0')
    isn=t.cond(mk('is',other),x.i)
    mark=None
    for y in t.by('HdrL'):
        if y.i<x.i and y.field=='compacted_up_to' and y.file is tgt: mark=y
    if f is tgt:
        ok_=mark is not None and t.entails(cmp_lt(x.row,mark.res),x.i)==1
        R.check('compacted file used only for rows already moved',r,ok_,'the new file is used for row %s without knowing that it lies below the progress marker'%show(x.row),t,x)
    elif f is fld(base,'0'):
        ok_=isn=='None' or (mark is not None and t.entails(cmp_lt(x.row,mark.res),x.i)==0)
        R.check('old file used only for rows not yet moved',r,ok_,'the old file is used for row %s although it may already have moved to the new one'%show(x.row),t,x)
    else:
        R.check('only the current files are used',r,False,show(f),t,x); return
    if mark is not None:
        R.check('marker read under the row\'s lock',r,any(rowindex(p) is x.row for p,m in t.held(mark,'ROW')),'the progress marker is read before the lock of row %s is taken'%show(x.row),t,mark)
        R.check('marker read with acquire ordering',r,mark.op in('Acquire','SeqCst'),'marker loaded with %s ordering'%mark.op,t,mark)

# ------------------------------------------------------------------ C10
def C10(C,R):
    L=layout(C)
    n=0
    for r in('Shard::insert','Shard::remove'):
        try: ts=C.paths(r)
        except Missing as e: R.missing(e); continue
        for t in ts:
            ev=t.by('Rd','SigW','OffW')
            if not ev: continue
            n+=1
            common=None
            for x in ev:
                g={h for h in x.ev.held if t.gcls.get(h)=='ROW' or t.gcls.get(h.a[0])=='ROW'}
                g={h for h in g if h.a[2]=='w'}
                common=g if common is None else common&g
            R.check('decision and change under one exclusive row lock',r,bool(common),'the row lock is released (or only shared) between looking at the row and changing it',t,ev[-1])
            fcommon=None
            for x in ev:
                g={h for h in x.ev.held if t.gcls.get(h)=='FILES' or t.gcls.get(h.a[0])=='FILES'}
                fcommon=g if fcommon is None else fcommon&g
            R.check('same files during the whole step',r,bool(fcommon),'',t,ev[-1])
            fs={x.file for x in ev}
            R.check('one file per operation',r,len(fs)==1,'looks at %s'%', '.join(map(show,fs)),t,ev[-1])
    mode=mode_arg(C,'Shard::insert')
    for t in C.paths('Shard::insert'):
        if t.kind!='return': continue
        m,e,evt=modecond(t,mode)
        ow=[y for y in t.by('OffW') if not iszero(y.val)]
        eqs=keyeq(t,L,L.key)
        for y in ow:
            target=word_at(L,y)
            repl=eqs.get(target)==1
            if repl:
                R.check('get-or-create never changes an existing value','Shard::insert',m!='GetOrCreate' and (m is not None or excluded(t,mode,'GetOrCreate')),'an existing value is overwritten in mode %s'%m,t,y)
                if m is None or m=='Replace':
                    cur=[v for (x,w,us) in L.reads(t) if w is target for (a,b,k,v) in us if k=='val']
                    good=e=='None' or (m is None and excluded(t,mode,'Replace'))
                    if not good:
                        for z in t.conds(y.i):
                            if z.ptr.op=='eq' and z.op==1 and any(z.ptr is cmp_eq(evt,v) for v in cur): good=True
                    R.check('replace only if the complete current value is the expected one','Shard::insert',good,'the value is replaced without it being known to equal the expected one (or that none is expected)',t,y)
            else:
                R.check('replace never creates','Shard::insert',m!='Replace' and (m is not None or excluded(t,mode,'Replace')),'an entry is added in replace mode',t,y)
    R.floor('conditional operations','Shard',6,n)
    try: listcond(C,R)
    except Missing as e: R.missing(e)
def word_at(L,y):
    """location-word term of the slot an OffW event stores to"""
    p=canon(y.ev.args[0]); return p
def listcond(C,R): pass

# ------------------------------------------------------------------ C11
def point_setup(C,r):
    L=layout(C); rowf,sigf=selectors(C)
    h=fld(ph_arg(C,r),'0')
    return L,rowf(h),sigf(h)
def rowsigs(t,f,row):
    return fld(idx(fld(fld(fld(f,'mmap'),'rows'),'0'),row),'signatures')
def rowS(t):
    """(file,row,S) of the row a point operation works on"""
    r={}
    for x in t.by('Rd'):
        if x.field=='signatures':
            b=canon(x.ev.args[0])
            while b.op in('slice','idx'): b=b.a[0]
            r[b]=(x.file,x.row)
    return r
def val_slot(C,t,L,v):
    p=L.piece(t,v)
    return p[1] if p and p[0]=='val' else None
def C11(C,R):
    for r in('Shard::get','Shard::remove','Shard::insert'):
        try:
            ts=C.paths(r); L,row,sig=point_setup(C,r)
            key=L.key if r=='Shard::insert' else bytes_args(C,r)[0]
        except (Missing,IndexError) as e: R.missing(e); continue
        some=none=0
        for t in ts:
            for x in t.by('Rd','SigW','OffW'):
                if not R.check('search in the row the key hashes to',r,x.row is row,'row %s is used'%show(x.row),t,x): break
            eqs=keyeq(t,L,key)
            for x in t.by('SigW','OffW'):
                w=slot_word(t,x)
                k=eqs.get(w)
                if k==1 and before_eq(t,L,key,w,x.i): continue
                if r=='Shard::insert' and not (x.k=='SigW' and iszero(x.val)):
                    R.check('a slot is changed only if it holds the key or is empty',r,empty_slot(t,x.file,x.row,x.col,x.i),'slot %s is overwritten although it was neither found empty nor found to hold this key'%show(x.col),t,x)
                    S=w_sigs(w); y=exhausted(t,L,key,S,sig,x.i)
                    R.check('added only if no candidate holds the key',r,y is None,y or '',t,x)
                else:
                    R.check('a slot is changed only if it holds the key or is empty',r,False,'slot %s is changed although its key was not compared with the complete requested key'%show(x.col),t,x)
            if t.kind!='return' or not t.isok(): continue
            p=t.payload()
            if p.op!='agg': R.check('result understood',r,False,show(p),t); continue
            if p.a[1] in('Some','Replaced','AlreadyExists'):
                some+=1
                w=val_slot(C,t,L,p.a[3][0])
                R.check('value of the same key',r,w is not None and eqs.get(w)==1,'the value returned belongs to a slot whose key was not found equal to the requested one',t)
            elif p.a[1] in('None','KeyDoesNotExist'):
                none+=1
                ss=rowS(t)
                y='the row is not looked at'
                for S in ss:
                    y=exhausted(t,L,key,S,sig)
                    if y is None: break
                R.check('absence reported only after every candidate was compared',r,y is None,y or '',t)
        R.floor('results with a value',r,1,some); R.floor('results without a value',r,1,none)
    try:
        ts=C.paths('Shard::get_by_hash'); L,row,sig=point_setup(C,'Shard::get_by_hash'); n=0
        for t in ts:
            for x in t.by('Rd'): R.check('search in the row the key hashes to','Shard::get_by_hash',x.row is row,'row %s'%show(x.row),t,x)
            if not t.isok(): continue
            n+=1
            y=all_candidates(t,L,sig)
            R.check('every entry with this hash is returned','Shard::get_by_hash',y is None,y or '',t)
        R.floor('results','Shard::get_by_hash',1,n)
    except (Missing,IndexError) as e: R.missing(e)
    try:
        n=0; L=layout(C)
        for t in C.paths('Shard::read_at'):
            if not t.isok(): continue
            p=t.payload()
            tests=[x for x in t.conds() if x.ptr.op=='eq' and c(0) in x.ptr.a and any((t.slotptr(q) or (0,0,0,0))[1]=='signatures' for q in x.ptr.a)]
            n+=1
            want=0 if p.op=='agg' and p.a[1]=='Some' else 1
            ok_=bool(tests) and tests[-1].op==want
            if ok_ and want==0:
                q=[q for q in tests[-1].ptr.a if q is not c(0)][0]; s=t.slotptr(q)
                w=L.piece(t,fld(p.a[3][0],'1'))
                ok_=w is not None and w[1] is not None and slotof(w[1])[1] is s[3] and t.slotptr(w[1])[:1]==s[:1]
            R.check('entry reported exactly if its slot is occupied','Shard::read_at',ok_,'%s is returned although the slot was%s found occupied'%(p.a[1] if p.op=='agg' else show(p),'' if want else ' not'),t)
        R.floor('results','Shard::read_at',2,n)
    except Missing as e: R.missing(e)
def slot_word(t,x):
    return idx(fld(idx(fld(fld(fld(x.file,'mmap'),'rows'),'0'),x.row),'offsets_and_sizes'),x.col) if isinstance(x.col,V) else None
def w_sigs(w): return fld(w.a[0].a[0],'signatures')
def before_eq(t,L,key,w,i):
    return keyeq(t,L,key,i).get(w)==1
def all_candidates(t,L,sig):
    rd={w:us for x,w,us in L.reads(t) if w is not None}
    got=set()
    for v in terms_of(t):
        for e in subterms(v): got.add(e)
    for x in t.conds():
        if x.ptr.op=='is' and x.op=='None' and x.ptr.a[0].op=='pos' and x.ptr.a[0].a[1] is sig:
            b=x.ptr.a[0].a[0]; st=c(0); S=b
            if b.op=='slice': st=b.a[1]; S=b.a[0]
            seen=set()
            if not start_ok(t,st,S,sig,seen): return 'the search skips candidates'
            for i in seen:
                w=idx(fld(S.a[0],'offsets_and_sizes'),i)
                us=rd.get(w)
                if us is None: return 'a candidate is not read'
                if not any(k=='val' and v in got for a,b2,k,v in us): return 'a candidate is not returned'
            return None
    for e in t.by('IterEnd'):
        its=[x for x in t.by('Iter') if x.mode==e.mode]
        Ss=[s for s in rowS(t) if contains(e.ptr,lambda q: q is s) or any(contains(x.val,lambda q: q is s) for x in its if x.val is not None) or any(x.col.op=='rng' and x.col.a[1] is c(0) and x.col.a[2] is c(NCOLS) for x in its)]
        if Ss and not [a for a in t.by('Adapt') if a.mode==e.mode]:
            S=Ss[0]
            for x in its:
                lim=[y.i for y in t.by('Iter','IterEnd') if y.mode==x.mode and y.i>x.i]
                tst=[y for y in t.conds(min(lim) if lim else None) if y.i>x.i and y.ptr.op=='eq' and sig in y.ptr.a and idx(S,x.col) in y.ptr.a]
                if not tst: return 'a slot is not compared with the signature'
                if tst[-1].op==1 and idx(fld(S.a[0],'offsets_and_sizes'),x.col) not in rd: return 'a candidate is not read'
            return None
    return 'the row is not searched to its end'

# ------------------------------------------------------------------ C29 (shard level)
def C29_shard(C,R):
    L,row,sig=point_setup(C,'Shard::insert'); mode=mode_arg(C,'Shard::insert'); seen={}
    for t in C.paths('Shard::insert'):
        if t.kind!='return' or not t.isok(): continue
        p=t.payload(); v=p.a[1] if p.op=='agg' else None
        W=t.by('SigW','OffW'); m,e,evt=modecond(t,mode)
        D=[d for d in t.by('DataW') if not headerwrite(L,d)]; seen[v]=seen.get(v,0)+1
        if v=='Added':
            sg=[x for x in W if x.k=='SigW']
            R.check('addition reported only when an entry was added','Shard::insert',len(sg)==1 and not iszero(sg[0].val) and len([x for x in W if x.k=='OffW'])==1,'Added is reported with %d slot changes'%len(W),t)
            if len(sg)==1:
                d=[L.data_of(t,y) for y in W if y.k=='OffW']
                R.check('the entry added is the one given','Shard::insert',d and d[0] is not None and parts_of(d[0].buf)==[L.key,L.val],'wrote %s'%(show(d[0].buf) if d and d[0] is not None else '?'),t)
            R.check('addition impossible in replace mode','Shard::insert',m!='Replace' and (m is not None or excluded(t,mode,'Replace')),'',t)
        elif v=='Replaced':
            w=val_slot(C,t,L,p.a[3][0])
            R.check('previous value is the one replaced','Shard::insert',w is not None,'Replaced(%s)'%show(p.a[3][0]),t)
            ow=[x for x in W if x.k=='OffW']; sw=[x for x in W if x.k=='SigW']
            if ow:
                d=L.data_of(t,ow[0])
                R.check('replacement reported only when the value was replaced','Shard::insert',len(ow)==1 and not sw and slot_word(t,ow[0]) is w and d is not None and parts_of(d.buf)==[L.key,L.val],'slot changed: %s'%', '.join(map(repr,W))[:200],t,ow[0])
            else:
                same=any(x.op==1 and x.ptr is cmp_eq(p.a[3][0],L.val) for x in t.conds())
                R.check('replacement reported only when the value was replaced','Shard::insert',same and not sw,'nothing is written although the new value was not found equal to the current one',t)
            if m=='GetOrCreate' or (m is None and not excluded(t,mode,'GetOrCreate')): R.check('get-or-create never reports a replacement','Shard::insert',False,'',t)
            if m=='Replace' and e!='None':
                R.check('replacement only with the expected value','Shard::insert',e=='Some' and any(x.op==1 and x.ptr is cmp_eq(evt,p.a[3][0]) for x in t.conds()),'reported as replaced without comparing the expected value',t)
        elif v=='AlreadyExists':
            R.check('refusal changes nothing','Shard::insert',not W and not D,'',t)
            w=val_slot(C,t,L,p.a[3][0])
            R.check('value reported is the current one','Shard::insert',w is not None,'',t)
            cur=p.a[3][0]
            neq=m=='Replace' and e=='Some' and any((x.op==0 and x.ptr in(cmp_eq(evt,cur),cmp_eq(blen(evt),blen(cur)))) or (x.op==1 and x.ptr in(cmp_lt(blen(evt),blen(cur)),cmp_lt(blen(cur),blen(evt)))) for x in t.conds())
            R.check('refused only for a reason','Shard::insert',m=='GetOrCreate' or neq,'refused in mode %s'%m,t)
        elif v=='KeyDoesNotExist':
            R.check('refusal changes nothing','Shard::insert',not W and not D,'',t)
            R.check('missing key refused only in replace mode','Shard::insert',m=='Replace','reported in mode %s'%m,t)
        elif v=='SplitNeeded':
            R.check('refusal changes nothing','Shard::insert',not W and not D,'',t)
        else: R.check('result understood','Shard::insert',False,show(p),t)
    for v in('Added','Replaced','AlreadyExists','KeyDoesNotExist','SplitNeeded'): R.floor('paths reporting '+v,'Shard::insert',1,seen.get(v,0))
    try:
        L,row,sig=point_setup(C,'Shard::remove'); n=0
        for t in C.paths('Shard::remove'):
            if not t.isok(): continue
            p=t.payload(); W=t.by('SigW','OffW'); n+=1
            if p.op=='agg' and p.a[1]=='Some':
                w=val_slot(C,t,L,p.a[3][0])
                z=[x for x in W if x.k=='SigW' and iszero(x.val)]
                R.check('removal reported exactly when the entry was removed','Shard::remove',w is not None and len(W)==1 and len(z)==1 and slot_word(t,z[0]) is w,'',t)
            else: R.check('removal reported exactly when the entry was removed','Shard::remove',not W,'the entry is removed but reported as absent',t)
        R.floor('results','Shard::remove',2,n)
    except (Missing,IndexError) as e: R.missing(e)
    for t in C.paths('Shard::get'): R.check('lookups change nothing','Shard::get',not t.by('SigW','OffW','DataW'),'',t)
