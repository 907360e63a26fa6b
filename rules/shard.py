"""Rules about the shard file: publication order, reservations, codec, locking, copies, conditional updates."""
from rules.lib import *
ROOTS=['Shard::open','Shard::split','Shard::merge','Shard::insert','Shard::remove','Shard::get','Shard::get_by_hash','Shard::read_at','Shard::flush','Shard::get_stats','Shard::background_compact']
BULK={'Shard::open','Shard::split','Shard::merge','Shard::background_compact'}
POINT={'Shard::insert','Shard::remove','Shard::get','Shard::get_by_hash','Shard::read_at'}
KW=mk('w','klen',14); VW=mk('w','vlen',16); OW=mk('w','off',32)
NROWS=64; NCOLS=512

def roots(C,R,names=ROOTS):
    for r in names:
        try: yield r,C.paths(r)
        except Missing as e: R.missing(e)
def argty(C,suffix):
    F=C.fn(suffix)
    return [(mk('arg',F.lname(i+1) or 'a%d'%(i+1)),C.P.tys(F.locals[i+1][0])) for i in range(F.argc)]
def bytes_args(C,suffix): return [a for a,t in argty(C,suffix) if t.endswith('[u8]') and t.startswith('&')]
def ph_arg(C,suffix):
    for a,t in argty(C,suffix):
        if 'PartedHash' in t: return a
    raise Missing('%s has no PartedHash parameter'%suffix)
def mode_arg(C,suffix):
    for a,t in argty(C,suffix):
        if 'InsertMode' in t: return a
    raise Missing('%s has no InsertMode parameter'%suffix)

def words(t):
    return [x for x in subterms(t) if x.op=='idx' and x.a[0].op=='fld' and x.a[0].a[1]=='offsets_and_sizes']
def outof(x):
    """pattern: is term o the contents filled in by read event x"""
    n=x.res.a[0]
    def f(o): return o.op=='out' and str(o.a[1]).split('::')[-1]==x.op and n<o.a[0]<=n+3
    return f
def uses(terms,isout):
    """[(lo,hi)|None] how the read buffer is used inside terms (None: as a whole); lengths of it are not uses"""
    seen=set(); r=set()
    st=[t for t in terms if isinstance(t,V)]
    while st:
        v=st.pop()
        if isinstance(v,tuple): st.extend(v); continue
        if not isinstance(v,V) or v in seen: continue
        seen.add(v)
        if v.op=='len' and isout(v.a[0]): continue
        if v.op=='slice' and isout(v.a[0]):
            r.add((v.a[1],v.a[2],v)); st.extend((v.a[1],v.a[2])); continue
        if isout(v): r.add((None,None,v)); continue
        st.extend(v.a)
    return r
def terms_of(t):
    for x in t.S:
        for n in ('row','col','val','off','buf','ptr'):
            y=getattr(x,n)
            if isinstance(y,V): yield y
            elif isinstance(y,tuple):
                for z in y:
                    if isinstance(z,V): yield z
    if t.ret is not None: yield canon(t.ret)

class Layout:
    """the packing used by the writing side, derived from Shard::insert"""
    def __init__(s,C):
        s.C=C; s.word=None; s.base=None; s.err=None; s.pieces={}
        ba=bytes_args(C,'Shard::insert')
        if len(ba)<2: raise Missing('Shard::insert takes no key and value slices')
        s.key,s.val=ba[0],ba[1]
        for t in C.paths('Shard::insert'):
            for y in t.by('OffW'):
                d=s.data_of(t,y)
                if d is None: continue
                w=s.norm(y.val,d,{mk('len',s.key):KW,mk('len',s.val):VW})
                if s.word is None:
                    s.word=w; s.base=sub(d.off,reservation(d.off)) if reservation(d.off) is not None else None
                elif s.word is not w: s.err='two different packings in Shard::insert: %s / %s'%(show(s.word),show(w))
        if s.word is None or s.base is None: raise Missing('no entry write with a reserved offset in Shard::insert')
        # the layout must keep all three fields apart
        p,k=bf(s.word,64); used=k; s.fields_ok=True
        for (x,lo,n,sh) in p:
            m=((1<<n)-1)<<sh
            if used&m: s.fields_ok=False
            used|=m
        for w,n in((KW,14),(VW,16),(OW,32)):
            if sum(q[2] for q in p if q[0] is w)!=n: s.fields_ok=False
    def norm(s,word,d,table=None):
        """writer word with lengths, source words and reservation replaced by width-limited atoms"""
        tb=dict(table or {})
        r=reservation(d.off)
        if r is not None: tb[r]=OW
        for w in words(word)+words(d.off): tb[w]=s.word if s.word is not None else w
        return rebuild(word,{},lambda x: tb.get(x))
    def data_of(s,t,y):
        """the data write an offset word refers to: same file, reservation occurs in the word"""
        for d in reversed(t.by('DataW')):
            if d.i<y.i and d.file is y.file:
                r=reservation(d.off)
                if r is not None and r in subterms(y.val): return d
        return None
    def reads(s,t):
        """[(DataR, word term, [(lo,hi,kind,term)])] kind in key/val/entry/bad"""
        if id(t) in s.pieces: return s.pieces[id(t)]
        T_=list(terms_of(t)); r=[]
        for x in t.by('DataR'):
            ws=set(words(x.off))
            if not ws and x.off is not None:
                r.append((x,None,[])); continue
            w=list(ws)[0] if len(ws)==1 else None
            if w is None: r.append((x,None,[])); continue
            ev=lambda v: rebuild(v,{},lambda q: s.word if q in ws else None)
            d=sub(ev(x.off),add(s.base,OW))
            L=ev(blen(x.buf))
            us=[]
            for lo,hi,v in uses(T_,outof(x)):
                a=add(d,ev(lo) if lo is not None else c(0)); b=add(d,ev(hi) if hi is not None else L)
                k='bad'
                if a is c(0) and b is KW: k='key'
                elif a is KW and b is add(KW,VW): k='val'
                elif a is c(0) and b is add(KW,VW): k='entry'
                elif a is b: k='empty'
                us.append((a,b,k,v))
            r.append((x,w,us))
        s.pieces[id(t)]=r
        return r
    def piece(s,t,term):
        """(kind, word, DataR) when term is part of an entry that was read on this trace"""
        term=canon(term)
        for x,w,us in s.reads(t):
            for a,b,k,v in us:
                if v is term: return (k,w,x)
        return None
def reservation(off):
    k,ts=unlin(off)
    r=[v for v in ts if v.op=='af']
    return r[0] if len(r)==1 and len(ts)==1 and ts[r[0]]==1 else None
def layout(C):
    if not hasattr(C,'_lay'): C._lay=Layout(C)
    return C._lay
def iszero(v): return v is c(0) or (v.op=='repeat' and v.a[0] is c(0)) or (v.op=='arr' and all(x is c(0) for x in v.a[0]))
def slotof(w):
    """(row term, col) of a word term X.offsets_and_sizes[col]"""
    row=w.a[0].a[0]
    return (row,w.a[1])
def selectors(C):
    """the functions hash -> row index / signature, as used by insert"""
    if hasattr(C,'_sel'): return C._sel
    h=fld(ph_arg(C,'Shard::insert'),'0'); row=sig=None
    for t in C.paths('Shard::insert'):
        for x in t.by('SigW'):
            if not iszero(x.val): row,sig=x.row,x.val
    if row is None: raise Missing('no slot publication in Shard::insert')
    C._sel=(lambda q: rebuild(row,{},lambda v: q if v is h else None),lambda q: rebuild(sig,{},lambda v: q if v is h else None))
    return C._sel
def hashof(t,L,key):
    """hash term ph(seed,key) occurring on the trace for this key"""
    for v in terms_of(t):
        for x in subterms(v):
            if x.op=='ph' and x.a[1] is key: return x
    return None
def rd_between(t,i,j): return [x for x in t.S if i<x.i<j]

# ------------------------------------------------------------------ C01
def C01(C,R):
    L=layout(C)
    npub=noff=nrm=0
    for r,ts in roots(C,R):
        for t in ts:
            for x in t.by('SigW'):
                if iszero(x.val): nrm+=1; continue
                npub+=1
                offs=[y for y in t.by('OffW') if y.i<x.i and y.file is x.file and y.row is x.row and y.col is x.col]
                if not R.check('location-before-marker',r,bool(offs),'a slot is made visible (signature written) before its location word is written',t,x): continue
                y=offs[-1]
                fenced=x.mode in('Release','SeqCst') or any(f.op in('fence:SeqCst','fence:Release','fence:AcqRel') for f in t.by('Fence') if y.i<f.i<x.i)
                R.check('marker-fenced-after-location',r,fenced,'no release fence (or releasing store) between the location word and the signature of the same slot',t,x)
                d=L.data_of(t,y)
                if d is not None:
                    key=entry_key(L,t,d,y)
                    h=None
                    if key is not None:
                        h=fld(ph_arg(C,'Shard::insert'),'0') if r=='Shard::insert' and key is L.key else hashof(t,L,key)
                    R.check('marker-belongs-to-key',r,key is not None and h is not None and selectors(C)[1](h) is x.val,'the signature written is not the signature of the hash of the key written: %s'%show(x.val),t,x)
            for y in t.by('OffW'):
                if iszero(y.val): continue
                noff+=1
                d=L.data_of(t,y)
                if not R.check('entry-before-location',r,d is not None,'a location word is stored that does not refer to an entry written (to the same file) earlier on the path: %s'%show(y.val),t,y): continue
                R.check('write-confirmed-before-location',r,t.ok(d.res)=='Ok' and any(z.k=='Cond' and z.ptr is mk('is',d.res) and d.i<z.i<y.i for z in t.S),'the location is stored although the entry write was not confirmed to have succeeded',t,y)
                R.check('entry written completely before location',r,whole(t,d),'the entry is written with an operation that may write a part of it',t,d)
                R.check('whole-word-store',r,y.col is not None and not isinstance(y.col,tuple),'location words written as a range',t,y)
            for d in t.by('DataW'):
                if t.ok(d.res)=='Err' and not headerwrite(L,d):
                    after=[z for z in t.by('SigW','OffW') if (z.i>d.i or r in POINT)]
                    R.check('failed-write-leaves-slot',r,not after,'after a failed entry write the slot is modified',t,after[0] if after else d)
    R.floor('publication sites','Shard',4,len({w for (q,w) in R.ob if q=='marker-fenced-after-location'}))
    R.floor('removals','Shard::remove',1,nrm)
    # no valid key hashes to the "empty" signature
    try:
        _,sigf=selectors(C)
        for t in C.paths('PartedHash::from_hash'):
            h=fld(canon(t.ret),'0') if t.ret is not None else None
            s=sigf(h); ok_=nonzero(t,s)
            R.check('no key gets the empty signature','PartedHash::from_hash',ok_,'a hash can yield the signature that marks an empty slot: %s'%show(s),t)
    except Missing as e: R.missing(e)
def nonzero(t,s):
    if isc(s): return s.a[0]!=0
    if s.op=='bf' and s.a[1]!=0: return True
    return t.entails(cmp_eq(s,c(0)))==0
def entry_key(L,t,d,y):
    """the key bytes of the entry written by d according to the length recorded in word y; None if they do not match up"""
    w=L.norm(y.val,d,{mk('len',L.key):KW,mk('len',L.val):VW})
    if w is not L.word: return None
    ps=parts_of(d.buf)
    if len(ps)==2:
        k,v=ps
        if k is L.key and v is L.val: return k
        a,b=L.piece(t,k),L.piece(t,v)
        if a and b and a[0]=='key' and b[0]=='val' and a[1] is b[1] and words(y.val) and set(words(y.val))=={a[1]}: return k
    if len(ps)==1:
        a=L.piece(t,ps[0])
        if a and a[0]=='entry' and set(words(y.val))=={a[1]}:
            for x,w2,us in L.reads(t):
                if w2 is a[1]:
                    for lo,hi,k,v in us:
                        if k=='key': return v
    return None

# ------------------------------------------------------------------ C02
def C02(C,R):
    L=layout(C)
    hdr=C.P.sizes
    hs=SIZES.get('shard::ShardHeader')
    R.check('data area starts after the header','HEADER_SIZE',isc(L.base) and hs is not None and L.base.a[0]>=hs,'entries are written at offset %s, inside the %s-byte header'%(show(L.base),hs))
    nw=0
    for r,ts in roots(C,R):
        for t in ts:
            used={}
            for x in t.by('Ext'):
                if x.op.endswith('map_mut'):
                    o=canon(x.ev.args[0])
                    ln=dict(o.a[0]).get('len') if o.op=='mmapopt' else None
                    R.check('index mapping stays below the data area',r,ln is not None and isc(ln) and isc(L.base) and ln.a[0]<=L.base.a[0],'the mapped index (%s) overlaps the data area'%show(ln) if ln is not None else 'unbounded mapping',t,x)
            for d in t.by('DataW'):
                nw+=1
                if headerwrite(L,d):
                    R.check('a header is only written into an empty file',r,emptyfile(C,L,t,d.file,d.i),'%s is written over the header of a file that can hold entries'%show(d.buf),t,d); continue
                rv=reservation(d.off) if d.off is not None else None
                src=[a for a in t.by('HdrA') if rv is not None and a.res is rv]
                okr=bool(src) and src[0].op=='fetch_add' and src[0].field=='write_offset' and src[0].file is d.file and src[0].i<d.i
                if not R.check('entry goes to its own reservation',r,okr,'an entry is written at %s, which is not a range reserved by an atomic advance of the same file\'s write position'%(show(d.off) if d.off is not None else 'the current position'),t,d): continue
                sl=sub(src[0].val,blen(d.buf))
                R.check('reservation covers the entry',r,isc(sl) and sl.a[0]>=0,'reserved %s bytes but writes %s'%(show(src[0].val),show(blen(d.buf))),t,d)
                R.check('entry offsets fit their field',r,t.entails(cmp_lt(c((1<<32)-1),rv),d.i)==0,'an entry is written at an offset that may not fit the 32 bits kept for it',t,d)
                R.check('reservation beyond the header',r,sub(d.off,rv) is L.base,'entry offset %s'%show(d.off),t,d)
                R.check('reservation used once',r,rv not in used,'one reservation is used for two writes',t,d)
                used[rv]=1
            for a in t.by('HdrA'):
                if a.field=='write_offset': R.check('write position only advances',r,a.op=='fetch_add','write position changed by %s'%a.op,t,a)
            for x in t.by('SetLen'): R.check('no live file is shortened',r,setlen_ok(C,L,t,x),'set_len(%s) on a file that can hold live entries'%show(x.val),t,x)
            for x in t.by('Open'):
                if x.opts.get('truncate',FALSE) is FALSE: continue
                n=fname(x.path)
                if n and n[0] in('bottom_','top_','merge_'): good=True
                elif n and n[0]=='compact_': good=any(canon(o.path) is canon(x.path) and o.i<x.i and emptyfile(C,L,t,o.file,x.i) for o in t.by('Open')) or t.cond(mk('is',mk('fld',mk('fld',mk('fld',mk('arg','self'),'files'),'$'),'1')),x.i)=='None'
                elif n and n[0]=='shard_': good=r=='Shard::open' and x.opts['truncate'].op=='arg'
                else: good=False
                R.check('only unused temporaries are truncated',r+' '+(n[0] if n else '?'),good,'a file that may be in use is opened with truncation: %s'%shown(n),t,x)
    R.floor('entry writes','Shard',6,nw)
    for F in C.P.fns.values():
        for b in getattr(F,'blocks',[]):
            tt=b['t']
            if tt[0]=='call':
                k=tt[1].get('k') or {}
                n=strip_generics(k.get('fn') or '')
                if n.split('::')[-1] in('write_all_at','write_at','set_len') and 'shard::' not in F.path:
                    R.check('data files are written only by the shard layer',F.path,False,'%s called outside the shard module'%n)
def strip_generics(s): 
    from mir import strip_generics as g
    return g(s)
def setlen_ok(C,L,t,x):
    """allowed: files created empty on this path, or a file known to be empty / just cleared under the user's opt-in"""
    op=[o for o in t.by('Open') if o.file is x.file and o.i<x.i]
    if op and op[-1].opts.get('truncate',FALSE) is TRUE: return isc(sub(x.val,L.base)) or nonneg(sub(x.val,L.base))
    if op:
        if x.val is c(0):       # clearing: only with the opt-in flag
            return any(z.k=='Cond' and z.op==1 and z.i<x.i and z.ptr.op=='fld' and z.ptr.a[1]=='clear_on_unsupported_version' for z in t.S)
        return emptyfile(C,L,t,x.file,x.i) and nonneg(sub(x.val,L.base))
    return False
def lengths(t,file):
    """terms for the length of a file"""
    meta={fld(asv(x.res,'Ok'),'0') for x in t.by('Ext') if x.op.split('::')[-1]=='metadata' and x.ev.args and t.fileid(x.ev.args[0]) is file}
    return {x.res for x in t.by('Ext') if x.op.split('::')[-1]=='len' and x.ev.args and canon(x.ev.args[0]) in meta}
def headerwrite(L,d): return d.off is not None and isc(d.off) and isc(blen(d.buf)) and isc(L.base) and d.off.a[0]+blen(d.buf).a[0]<=L.base.a[0]
def emptyfile(C,L,t,file,before):
    """no entry can be stored in the file: created empty, cleared on this path, or too short to hold even the header"""
    op=[o for o in t.by('Open') if o.file is file and o.i<before]
    if op and op[-1].opts.get('truncate',FALSE) is TRUE: return True
    if op and op[-1].opts.get('truncate') is not None and t.cond(op[-1].opts['truncate'],before)==1: return True
    if [s for s in t.by('SetLen') if s.file is file and s.i<before and s.val is c(0) and t.ok(s.res)=='Ok']: return True
    ls=lengths(t,file)
    for z in t.conds(before):
        if z.op!=1: continue
        if z.ptr.op=='eq' and any(q in ls for q in z.ptr.a) and any(isc(q) and q.a[0]<L.base.a[0] for q in z.ptr.a): return True
        if z.ptr.op=='lt' and z.ptr.a[0] in ls and isc(z.ptr.a[1]) and z.ptr.a[1].a[0]<=L.base.a[0]: return True
    return False
def nonneg(v):
    k,ts=unlin(v)
    return k>=0 and all(m>=0 for m in ts.values())

# ------------------------------------------------------------------ C03 (entry codec)
def C03(C,R):
    L=layout(C)
    R.check('one packing','Shard::insert',L.err is None,L.err or '')
    R.check('fields do not overlap','location word',L.fields_ok,'key size, value size and offset share bits or lose bits in %s'%show(L.word))
    nr=0
    for r,ts in roots(C,R):
        for t in ts:
            for y in t.by('OffW'):
                if iszero(y.val): continue
                d=L.data_of(t,y)
                if d is None: continue
                R.check('written entry matches its location word',r,entry_key(L,t,d,y) is not None,'word %s does not describe the bytes written (%s)'%(show(y.val),show(d.buf)),t,y)
            for x,w,us in L.reads(t):
                nr+=1
                R.check('read position comes from one location word',r,w is not None,'read at %s'%show(x.off),t,x)
                if w is None: continue
                sp=t.slotptr(w)
                R.check('entry read from the file that owns the slot',r,sp is not None and sp[0] is x.file,'location word of %s used to read %s'%(show(sp[0]) if sp else '?',show(x.file)),t,x)
                R.check('exact read',r,x.op=='read_exact_at','%s may return fewer bytes'%x.op,t,x)
                for a,b,k,v in us:
                    R.check('bytes used are exactly the key or the value',r,k!='bad','bytes %s..%s of the entry are used; the writer stores key = 0..klen, value = klen..klen+vlen'%(show(a),show(b)),t,x)
    R.floor('reads','Shard',8,nr)
    # roles of the parts in results
    def role(root,t,term,want,what):
        p=L.piece(t,term)
        R.check('%s returns the stored %s'%(root,want),root,p is not None and p[0]==want,'%s is %s'%(what,show(term)),t)
    for r in('Shard::get','Shard::remove','Shard::insert','Shard::read_at'):
        try: ts=C.paths(r)
        except Missing as e: R.missing(e); continue
        n=0
        for t in ts:
            if not t.isok(): continue
            p=t.payload()
            if r in('Shard::get','Shard::remove') and p.op=='agg' and p.a[1]=='Some': role(r,t,p.a[3][0],'val','result'); n+=1
            elif r=='Shard::insert' and p.op=='agg' and p.a[1] in('Replaced','AlreadyExists'): role(r,t,p.a[3][0],'val','result'); n+=1
            elif r=='Shard::read_at' and p.op=='agg' and p.a[1]=='Some':
                kv=p.a[3][0]; role(r,t,fld(kv,'0'),'key','key'); role(r,t,fld(kv,'1'),'val','value'); n+=1
        R.floor('value-returning paths',r,1,n)
    try:
        n=0
        for t in C.paths('Shard::get_by_hash'):
            for v in terms_of(t):
                for e in subterms(v):
                    if e.op=='elem' and e.a[0].op=='agg' and len(e.a[0].a[3])==2:
                        role('Shard::get_by_hash',t,e.a[0].a[3][0],'key','key'); role('Shard::get_by_hash',t,e.a[0].a[3][1],'val','value'); n+=1
        R.floor('collected pairs','Shard::get_by_hash',1,n)
    except Missing as e: R.missing(e)
