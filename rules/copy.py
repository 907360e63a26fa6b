"""Rules about bulk reorganisation (split, merge, compaction, opening): copy completeness, publication, removal of originals."""
from rules.lib import *
from rules.shard import *
BULKS=['Shard::split','Shard::merge','Shard::background_compact','Shard::open']

class Copy:
    __slots__=('t','y','d','x','word','src','srow','scol','tgt','trow','tcol','key','h')
def slot(t,term):
    r=t.slotptr(term)
    return r if r and r[1] in('signatures','offsets_and_sizes') else None
def completed(r,t):
    """the path finished its reorganisation (and did not decide against it)"""
    if not t.isok(): return False
    p=t.payload()
    return not (p.op=='agg' and p.a[1]=='None')
def copies(C,t):
    L=layout(C); out=[]
    for y in t.by('OffW'):
        if iszero(y.val): continue
        d=L.data_of(t,y)
        if d is None: continue
        ws=words(y.val)
        if len(ws)!=1: continue
        k=Copy(); k.t=t; k.y=y; k.d=d; k.word=ws[0]
        s=slot(t,k.word)
        if s is None: continue
        k.src,_,k.srow,k.scol=s; k.tgt,k.trow,k.tcol=y.file,y.row,y.col
        xs=[x for x in t.by('SigW') if x.i>y.i and x.file is y.file and x.row is y.row and x.col is y.col and not iszero(x.val)]
        k.x=xs[0] if xs else None
        k.key=entry_key(L,t,d,y); k.h=hashof(t,L,k.key) if k.key is not None else None
        out.append(k)
    return out
def head(mode): return (mode[0],mode[1]) if mode else None
class Dom:
    """where a row or column index comes from: loop id, whether the loop covers 0..n completely, text"""
    def __init__(s,loop,full,txt,kind): s.loop=loop; s.full=full; s.txt=txt; s.kind=kind
def from_marker(t,v,n): return n==NROWS and v.op=='al' and any(x.res is v and x.field=='compacted_up_to' for x in t.by('HdrL'))
def domain(t,v,n,fields):
    if v.op in('rng','iv'):
        for x in t.by('Iter'):
            if x.col is v or x.res is v:
                adapt=[a for a in t.by('Adapt') if a.mode==x.mode]
                if v.op=='rng':
                    full=(v.a[1] is c(0) or from_marker(t,v.a[1],n)) and ((v.a[2] is c(n) and v.a[4]=='x') or (v.a[2] is c(n-1) and v.a[4]=='i'))
                    return Dom(x.mode,full and not adapt,'%s..%s%s'%(show(v.a[1]),show(v.a[2]),' restricted by %s'%adapt[0].op if adapt else ''),'iter')
                b=v.a[1]; whole=b.op=='fld' and (b.a[1] in fields or (b.a[1]=='0' and b.a[0].op=='fld' and b.a[0].a[1] in fields))
                return Dom(x.mode,whole and not adapt,'%s%s'%(show(b)[-60:],' restricted by %s'%adapt[0].op if adapt else ''),'iter')
        return None
    if v.op=='al':      # row chosen by the progress marker
        for x in t.by('HdrL'):
            if x.res is v and x.field=='compacted_up_to': return Dom(('marker',x.file),True,'progress marker','marker')
        return None
    if v.op=='lv':
        name=v.a[0]; full=v.a[2] is c(0)
        st=[x for x in t.by('Step') if x.ptr.op=='lv' and x.ptr.a[0]==name]
        if st and not all(x.val is add(x.ptr,c(1)) for x in st): full=False
        return Dom((name[0],name[1],name[2]),full,'counter from %s'%show(v.a[2]),('count',name,n))
    return None
def loop_ended(t,D,after,before=None,n=None):
    """event showing that the loop ran to its end after event index `after`"""
    for x in t.S:
        if x.i<=after or (before is not None and x.i>=before): continue
        if D.kind=='iter' and x.k=='IterEnd' and x.mode==D.loop: return x
        if x.k=='Cond':
            if D.kind=='marker' and x.op==0 and x.ptr.op=='lt' and x.ptr.a[1] is c(NROWS) and x.ptr.a[0].op=='al': return x
            if isinstance(D.kind,tuple):
                _,name,n=D.kind
                if x.ptr.op in('lt','eq') and x.ptr.a[1] is c(n) and x.ptr.a[0].op=='lv' and x.ptr.a[0].a[0]==name and x.op==(0 if x.ptr.op=='lt' else 1): return x
    return None
def chain(v):
    """(loop ids through which a column counter is carried, constant it starts from | None)"""
    loops=[]
    n=0
    while n<12:
        n+=1
        if v.op=='lv': loops.append((v.a[0][0],v.a[0][1],v.a[0][2])); v=v.a[2]
        elif v.op=='lin' and v.a[0]>=0 and len(v.a[1])==1 and v.a[1][0][1]==1: v=v.a[1][0][0]
        else: break
    return loops,v
def fresh_lock(ptr): return ptr.op=='agg' and ptr.a[0]=='lock'
def files_locks(t): return [x for x in t.by('Lock') if x.cls=='FILES' and not fresh_lock(x.ptr)]
def router_selector(C):
    """hash -> shard selector as used by the router when it stores a key"""
    if hasattr(C,'_rsel'): return C._rsel
    f=None
    for nm in ('ShardRouter::insert',):
        B={p:'event' for p in C.P.fns if p.endswith('Shard::insert') or p.endswith('Shard::split')}
        ts=C.paths(nm,boundary=B)
        h=None
        for a,ty in argty(C,nm):
            if 'PartedHash' in ty: h=fld(a,'0')
        for t in ts:
            for x in t.conds():
                b=x.ptr
                if b.op!='lt' or h is None: continue
                for term in unlin(sub(b.a[1],b.a[0]))[1]:
                    if h in subterms(term): f=lambda q,term=term,h=h: rebuild(term,{},lambda v: q if v is h else None); break
                if f: break
            if f: break
    if f is None: raise Missing('the router never compares a key\'s selector with a span')
    C._rsel=f
    return f
def source_span(C,r,t,src):
    """(lo,hi) of the shard a source file belongs to"""
    b,pr=peel(src)
    for i,p in enumerate(pr):
        if p==('f','files'):
            base=b
            for q in pr[:i]: base=fld(base,q[1]) if q[0]=='f' else asv(base,q[1]) if q[0]=='d' else idx(base,q[1])
            return fld(fld(base,'span'),'start'),fld(fld(base,'span'),'end')
    o=[x for x in t.by('Open') if x.file is src]
    if o:
        n=fname(o[0].path)
        if n and n[1] is not None: return n[1],n[2]
    return None
def target_name(C,r,t,tgt):
    o=[x for x in t.by('Open') if x.file is tgt]
    return fname(o[-1].path) if o else None

# ------------------------------------------------------------------ C07
def C07(C,R):
    L=layout(C)
    rowf,_=selectors(C)
    for r in BULKS:
        try: ts=C.paths(r)
        except Missing as e: R.missing(e); continue
        allc=[]; sources={}; srcid={}; doms={}; fileheads=set()
        for t in ts:
            for k in copies(C,t):
                allc.append(k); sources.setdefault(k.src,[]).append(k); srcid[k.src]=re_open(t,k.src)
        R.floor('copy sites',r,1,len(allc))
        if not allc: continue
        rowheads=set(); slotheads=set(); countcols=set()
        for k in allc:
            t=k.t
            dr=domain(t,k.srow,NROWS,('rows',)); dc=domain(t,k.scol,NCOLS,('signatures','offsets_and_sizes'))
            R.check('all rows are visited',r,dr is not None and dr.full,'rows visited: %s'%(dr.txt if dr else show(k.srow)),t,k.y)
            R.check('all slots of a row are visited',r,dc is not None and dc.full,'slots visited: %s'%(dc.txt if dc else show(k.scol)),t,k.y)
            if dr: rowheads.add((head(dr.loop),dr.kind if isinstance(dr.kind,str) else 'count')); doms.setdefault(id(t),[]).append((k,dr,dc))
            if dc: slotheads.add(head(dc.loop))
            if k.scol.op=='lv': countcols.add(k.scol.a[0][:2]+(k.scol.a[0][3],))
            # the copy is of a live slot, whole, to its own hash's row
            sig=[x for x in t.conds(k.d.i) if live_test(t,x,k)]
            R.check('only live slots are copied',r,bool(sig) and sig[-1].op==0,'slot %s is copied without having been found occupied'%show(k.scol),t,k.y)
            R.check('copied entry keeps its key and value',r,k.key is not None,'the bytes copied are not the entry of the slot visited',t,k.y)
            R.check('copied slot becomes visible',r,k.x is not None or not completed(r,t),'location copied without marking the slot occupied',t,k.y)
            if k.h is not None:
                want=rowf(k.h)
                R.check('copied to the row the key hashes to',r,k.trow is want or k.trow is k.srow,'target row %s'%show(k.trow),t,k.y)
            R.check('copy goes to another file',r,k.tgt is not k.src,'',t,k.y)
        # files visited through a loop over [bottom, top]
        for t in ts:
            for x in t.by('Iter'):
                if x.val is not None and contains(x.val,lambda q: q.op=='guard') or (x.val is not None and any(x.val is s or s in subterms(x.val) for s in sources) and x.val.op!='idx'):
                    fileheads.add(head(x.mode))
        fileheads-=slotheads; fileheads-={h for h,_ in rowheads}
        # expected sources
        exp={}
        for t in ts:
            for x in files_locks(t): exp[fld(fld(x.ptr,'$'),'0')]=fld(fld(x.ptr,'$'),'0')
            if r=='Shard::open':
                for x in t.by('Open'):
                    n=fname(x.path)
                    if n and n[0]=='shard_': exp['file shard_']=x.file
        S=set(srcid.values())
        R.check('every source file is copied',r,set(exp)<=S,'not copied: %s'%', '.join(show(f) for f in exp if f not in S))
        for f in sources:
            R.check('only the current files are copied',r,srcid[f] in exp,'copies from %s'%show(f),sources[f][0].t,sources[f][0].y)
        # newest version: no compaction target may exist
        if r in('Shard::split','Shard::merge'):
            for k in allc:
                t=k.t; b,pr=peel(k.src)
                if pr and pr[-1]==('f','0'):
                    other=fld(k.src.a[0],'1')
                    hit=[x for x in t.conds(k.d.i) if x.ptr is mk('is',other)]
                    lock=[x for x in t.by('Lock') if x.cls=='FILES' and fld(x.ptr,'$') is k.src.a[0] and x.mode=='w']
                    good=bool(hit) and hit[-1].op=='None' and bool(lock) and lock[0].i<hit[-1].i
                    R.check('rows already moved by a compaction are not ignored',r,good,'%s is copied although rows may already have moved to its compaction target'%show(k.src),t,k.y)
        # target columns
        colfile={}
        for k in allc:
            t=k.t; v=k.tcol
            dr=domain(t,k.srow,NROWS,('rows',)); dc=domain(t,k.scol,NCOLS,('signatures','offsets_and_sizes'))
            if v is k.scol and len(S)==1: continue
            if looked_up_empty(t,k): continue
            loops,init=chain(v)
            hs=[head(l) for l in loops]
            msg=None
            if not loops or not (init is c(0)): msg='slot index %s does not count from zero'%show(v)
            elif dc is not None and dc.loop not in loops: msg='slot counter is not carried through the loop over the slots'
            elif dr is not None and dr.loop in loops: msg='slot counter is not reset for each row'
            else:
                f=[x for x in t.by('Iter') if head(x.mode) in fileheads]
                if f and not any(x.mode in loops for x in f): msg='slot counter restarts for each source file of the same row'
                if not f and len(S)>1:
                    # sources are copied one after the other: the counter must continue
                    others=[k2 for k2 in copies(C,t) if k2.src is not k.src and k2.y.i<k.y.i]
                    for k2 in others:
                        l2,_=chain(k2.tcol)
                        if l2 and l2[0] not in loops: msg='slot counter restarts for the second source file of the same row'
            R.check('no two entries share a target slot',r,msg is None,msg or '',t,k.y)
            if v.op=='lv':
                colfile.setdefault(v.a[0][:2]+(v.a[0][3],),set()).add(re_open(t,k.tgt))
                st=[x for x in t.by('Step') if x.ptr is v]
                done=[z for z in t.S if z.k in('Step',) and z.i>k.y.i]
                if done: R.check('slot counter advances with each copy',r,bool(st) and st[0].val is add(v,c(1)),'after a copy the slot counter becomes %s'%(show(st[0].val) if st else '(unchanged)'),t,k.y)
        for q,fs in colfile.items():
            if len(fs)>1: R.check('one slot counter per target',r,False,'the same slot counter is used for different target files',allc[0].t,allc[0].y)
        # responsible target
        sel=None
        for k in allc:
            nm=target_name(C,r,k.t,k.tgt); sp=source_span(C,r,k.t,k.src)
            if nm is None or nm[1] is None: 
                R.check('target file is known',r,r=='Shard::background_compact','cannot tell which file %s is'%show(k.tgt),k.t,k.y); continue
            if sp is None: R.check('source span is known',r,False,show(k.src),k.t,k.y); continue
            if sel is None: sel=router_selector(C)
            s=sel(k.h) if k.h is not None else None
            lo,hi=nm[1],nm[2]
            if r=='Shard::merge':
                cov=covers_merge(C,ts,lo,hi,sources)
                R.check('target covers the sources',r,cov,'merged file is named %s'%shown(nm),k.t,k.y); continue
            if lo is not sp[0]:
                R.check('entry goes to the half responsible for it',r,s is not None and k.t.entails(cmp_lt(s,lo),k.y.i)==0,'entry copied to %s without its selector being known to be >= %s'%(shown(nm),show(lo)),k.t,k.y)
            if hi is not sp[1]:
                R.check('entry goes to the half responsible for it',r,s is not None and k.t.entails(cmp_lt(s,hi),k.y.i)==1,'entry copied to %s without its selector being known to be < %s'%(shown(nm),show(hi)),k.t,k.y)
        # every live slot seen on a finished path is copied exactly once, every slot visited is tested
        srcs=set(sources)
        for t in ts:
            if not completed(r,t): continue
            ks=copies(C,t)
            if not t.by('SigW','DataW','Iter'): continue
            pub=publication(r,t)
            for x in t.conds():
                s=sigtest(t,x)
                if s is None or re_open(t,s[0]) not in S: continue
                n=[k for k in ks if k.src is s[0] and k.srow is s[1] and k.scol is s[2]]
                if x.op==0:
                    R.check('every live slot is copied exactly once',r,len(n)==1 and n[0].x is not None,'a live slot is copied %d times'%len(n),t,x)
                else: R.check('deleted slots are not copied',r,not n,'',t,x)
            slots=[x for x in t.by('Iter') if head(x.mode) in slotheads]
            for x in slots:
                nxt=[y.i for y in t.by('Iter','IterEnd') if y.mode==x.mode and y.i>x.i]
                lim=min(nxt) if nxt else 1<<30
                tested=[y for y in t.conds() if x.i<y.i<lim and sigtest(t,y) is not None and (sigtest(t,y)[2] is x.col or sigtest(t,y)[2] is x.res)]
                R.check('every slot visited is tested for being live',r,bool(tested),'a slot is passed over without looking at whether it is occupied',t,x)
                R.check('slot loops run to their end',r,any(y.k=='IterEnd' and y.mode==x.mode and y.i>x.i for y in t.S),'the loop over the slots of a row is left early',t,x)
            for (fn_,hd_,nm_) in countcols:
                en=[x for x in t.conds() if x.ptr.op in('lt','eq') and x.ptr.a[1] is c(NCOLS) and x.ptr.a[0].op=='lv' and (x.ptr.a[0].a[0][0],x.ptr.a[0].a[0][1],x.ptr.a[0].a[0][3])==(fn_,hd_,nm_)]
                for x in en:
                    if x.op==(1 if x.ptr.op=='lt' else 0):
                        R.check('every slot visited is tested for being live',r,any(sigtest(t,y) is not None and sigtest(t,y)[2] is x.ptr.a[0] for y in t.conds()),'a slot is passed over without looking at whether it is occupied',t,x)
                if en: R.check('slot loops run to their end',r,en[-1].op==(0 if en[-1].ptr.op=='lt' else 1),'the loop over the slots of a row is left early',t,en[-1])
            # loops over rows (and files) run to their end before publication, and contain the inner loops
            if r in('Shard::split','Shard::merge') or t.by('HdrL'):
                marks=[x for x in t.by('HdrL') if x.field=='compacted_up_to']
                for hd,kind in rowheads:
                    if kind=='iter':
                        it=[x for x in t.by('Iter') if head(x.mode)==hd]; en=[x for x in t.by('IterEnd') if head(x.mode)==hd]
                        R.check('row loop runs to its end before publication',r,bool(en) and (not it or en[-1].i>it[-1].i) and (pub is None or en[-1].i<pub.i),'the files are published although the loop over the rows did not finish',t,pub)
                        for x in it:
                            inner=[y for y in t.by('IterEnd') if head(y.mode) in slotheads|fileheads and y.i>x.i]
                            inner+=[y for y in t.conds() if y.i>x.i and y.op==0 and y.ptr.op=='lt' and y.ptr.a[1] is c(NCOLS)]
                            need=len(S) if not fileheads and r=='Shard::merge' else 1
                            R.check('each row visited is scanned',r,len({(y.mode,y.col) if y.k=="IterEnd" else y.ptr for y in inner})>=need,'a row is passed over without scanning its slots',t,x)
                    elif kind=='marker' and pub is not None:
                        en=[x for x in t.conds(pub.i) if x.op==0 and x.ptr.op=='lt' and x.ptr.a[1] is c(NROWS) and x.ptr.a[0].op=='al']
                        R.check('row loop runs to its end before publication',r,bool(en),'the file is published although the progress marker was not seen to have passed the last row',t,pub)
                    elif kind=='count' and pub is not None:
                        en=[x for x in t.conds(pub.i) if x.ptr.op in('lt','eq') and x.ptr.a[1] is c(NROWS) and x.ptr.a[0].op=='lv' and x.op==(0 if x.ptr.op=='lt' else 1)]
                        R.check('row loop runs to its end before publication',r,bool(en),'the files are published although the loop over the rows did not finish',t,pub)
    # the dimensions used above are those of the file format
    for F in C.P.fns.values(): pass
    R.check('index dimensions','ShardRow',dims_ok(C),'the index is not %d rows of %d slots'%(NROWS,NCOLS))
def dims_ok(C):
    a=[t['s'] for t in C.P.types if t['s'].startswith('[u32; ')]; b=[t['s'] for t in C.P.types if t['s'].startswith('[shard::ShardRow; ')]
    return '[u32; %d]'%NCOLS in a and '[shard::ShardRow; %d]'%NROWS in b
def re_open(t,f):
    """identify files opened on different paths by what they are, not by event numbers"""
    for x in t.by('Open'):
        if x.file is f:
            n=fname(x.path); return 'file '+(n[0] if n else show(x.path))
    return f
def sigtest(t,x):
    """Cond event that tests a signature for zero: (file,row,col)"""
    b=x.ptr
    if b.op!='eq': return None
    for p,q in((b.a[0],b.a[1]),(b.a[1],b.a[0])):
        if q is c(0):
            s=t.slotptr(p)
            if s and s[1]=='signatures' and s[3] is not None: return (s[0],s[2],s[3])
    return None
def live_test(t,x,k):
    s=sigtest(t,x)
    return s is not None and s[0] is k.src and s[1] is k.srow and s[2] is k.scol
def looked_up_empty(t,k):
    for v in subterms(k.tcol):
        if v.op=='pos' and v.a[1] is c(0):
            s=[q for q in subterms(v.a[0]) if q.op=='fld' and q.a[1]=='signatures']
            if s: return True
    return False
def covers_merge(C,ts,lo,hi,sources):
    sp=set()
    for f in sources:
        s=source_span(C,'Shard::merge',None,f)
        if s is None: return False
        sp.add(s)
    return any(s[0] is lo for s in sp) and any(s[1] is hi for s in sp) and len(sp)==2 and all((s[0] is lo)!=(s[1] is hi) for s in sp)
def publication(r,t):
    ren=[x for x in t.by('Rename')]
    return ren[0] if ren else None
