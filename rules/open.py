"""Opening and clearing a directory: C16 (lock), C17 (file validation), C24 (clear), C30 (what opening destroys and covers)."""
from rules.lib import *
from rules.shard import *
from rules import bulk
from rules.bulk import same_span,same_dir
from rules.rows import contains,shard_boundary

# ------------------------------------------------------------------ types
def involving(C,words):
    """local types that contain, directly or through other local types, a type whose name has one of the words"""
    S={a for a in C.P.adts if any(a.split('::')[-1]==w for w in words)}; S|=set(words)
    more=True
    while more:
        more=False
        for a,d in C.P.adts.items():
            if a in S or not d.get('variants'): continue
            if any(mentions(fieldty(C,f),S) for v in d['variants'] for f in v['fields']): S.add(a); more=True
    return S
import re
def mentions(ty,S):
    """ty is a type string; does it own or refer to one of the types"""
    ids={m for m in re.findall(r'[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*',ty)}
    last={i.split('::')[-1] for i in ids}
    return any(s in ids or s.split('::')[-1] in last for s in S)
def fieldty(C,f): return f['ty'] if isinstance(f['ty'],str) else C.P.tys(f['ty'])
FSPURE=('create_dir_all','create_dir','metadata','symlink_metadata','canonicalize','exists','try_exists','is_dir','is_file','current_dir','new','read','write','create','truncate','append','len','mode','permissions')
def touches(n):
    """external function that reads or changes data files"""
    if n.startswith(('memmap::','libc::','std::os::unix::fs::','nix::')): return n.split('::')[-1] not in('new','len')
    if n.startswith(('std::fs::','std::io::Read','std::io::Write')):
        l=n.split('::')[-1]
        if n.startswith('std::fs::OpenOptions') or n.startswith('std::fs::DirEntry') or n.startswith('std::fs::FileType') or n.startswith('std::fs::Metadata'): return l=='open'
        if n in('std::fs::read','std::fs::write'): return True
        return l not in FSPURE
    return False
def innerfns(C): return [p for p in C.P.fns if '{closure' not in p and (p.startswith(('router::','shard::','stats::')) or '<shard::' in p or '<router::' in p)]
def C16(C,R):
    r='CandyStore::open'
    b={p:'event' for p in innerfns(C)}
    ts=C.paths(r,boundary=b,key='open16')
    FX=('Open','Remove','Rename','SetLen','DataR','DataW','Sync','SigW','OffW','MetaW','RawW','HdrA')
    nok=nref=0
    for t in ts:
        lo=[x for x in t.by('Ext') if x.op.startswith('fslock::') and x.op.split('::')[-1]=='open']
        lk=[x for x in t.by('Ext') if x.op.startswith('fslock::') and 'lock' in x.op.split('::')[-1]]
        for x in lk:
            R.check('the lock is requested without waiting',r,x.op.split('::')[-1].startswith('try_lock'),'%s waits until the other process is done instead of failing'%x.op,t,x)
        acq=None
        for x in lk:
            v=fld(asv(x.res,'Ok'),'0')
            for y in t.conds():
                if y.i>x.i and y.ptr is v and y.op==1: acq=(x,y); break
        at=acq[1].i if acq else len(t.E)+1
        for x in t.S:
            if x.i>=at: break
            bad=x.k in FX or (x.k=='Ext' and touches(x.op)) or (x.k=='Call' and x.op in C.P.fns and C.reaches(x.op,touches))
            R.check('nothing is touched before the lock is held',r,not bad,'%s happens without the lock of the directory'%x.k,t,x)
        for x in lk:
            if t.ok(x.res)=='Err' or (acq is None and t.kind=='return'):
                nref+=1
                R.check('a directory in use is refused',r,t.retvariant()=='Err','open succeeds although the lock was not obtained',t,x)
        # the lock protects the directory the store uses
        for x in lo:
            d=fdir(canon(x.ev.args[-1])) if x.ev.args else None
            n=fname(canon(x.ev.args[-1])) if x.ev.args else None
            good=d is not None and n is not None and n[1] is None
            R.check('the lock file has one fixed place in the directory',r,good,'the lock is taken on %s'%(show(canon(x.ev.args[-1])) if x.ev.args else '?'),t,x)
            if good:
                R.check('the lock file is not taken for a data file',r,not n[0].startswith(('shard_','compact_','bottom_','top_','merge_')),n[0],t,x)
                dirs={canon(fld(q,'dir_path')) for y in t.by('Call') for a in y.val if isinstance(a,V) for q in subterms(a) if q.op=='agg' and 'dir_path' in q.a[2]}
                R.check('the lock is that of the directory used',r,dirs<={d},'locked: %s, used: %s'%(show(d),', '.join(map(show,dirs))),t,x)
        if t.kind=='return' and t.retvariant()!='Err':
            nok+=1
            R.check('success means the lock is held',r,acq is not None,'a store is returned without the lock',t,None)
            if acq and lo:
                h=fld(asv(lo[-1].res,'Ok'),'0')
                R.check('the store keeps the lock',r,contains(t.payload(),lambda q: q is h),'the lock is not part of the store returned',t,None)
                dr=[x for x in t.by('Drop') if x.val is h]
                R.check('the store keeps the lock',r,not dr,'the lock is released when open returns',t,dr[0] if dr else None)
                R.check('the lock asked for is the one kept',r,canon(acq[0].ev.args[0]) is h or contains(canon(acq[0].ev.args[0]),lambda q: q is h),'',t,acq[0])
        elif acq and lo:
            h=fld(asv(lo[-1].res,'Ok'),'0')
            dr=[x for x in t.by('Drop') if x.val is h]
            late=[x for x in t.S if dr and x.i>dr[0].i and (x.k in FX or (x.k=='Call' and x.op in C.P.fns and C.reaches(x.op,touches)))]
            R.check('a failed open releases the lock last',r,not late,'',t,late[0] if late else None)
    R.floor('successful opens',r,1,nok); R.floor('refusals',r,2,nref)
    # who else could touch a directory
    store=involving(C,['CandyStore'])
    for p,F in sorted(C.P.fns.items()):
        if not F.pub or '{closure' in p or not C.reaches(p,touches): continue
        if p.endswith('CandyStore::open'): continue
        own=any(mentions(C.P.tys(F.lty(i+1)),store) for i in range(F.argc))
        R.check('data files are only reachable through an open store',p,own,'a public function touches data files without a store that holds the lock')
    inner=involving(C,['Shard','MmapFile','CompactionThreadPool','LockFile'])
    for p,F in sorted(C.P.fns.items()):
        if F.pub and '{closure' not in p and F.self_ty is not None and 'CandyStore' in str(F.self_ty):
            R.check('no part of the store outlives it',p,not mentions(C.P.tys(F.lty(0)),inner-store-{'CandyStore'}) ,'returns %s'%C.P.tys(F.lty(0)))
    for p,(loc,ext) in C.calls().items():
        for n in ext:
            if n.startswith('fslock::') and n.split('::')[-1] not in('open','try_lock','try_lock_with_pid'):
                R.check('the lock is only given up with the store',p,n.split('::')[-1].startswith('lock'),'%s is called'%n)
    # order in which the parts of a store go away
    cs=[a for a in C.P.adts if a.split('::')[-1]=='CandyStore']
    R.floor('store type','CandyStore',1,len(cs))
    work=involving(C,['Shard','MmapFile','CompactionThreadPool'])
    for a in cs:
        fs=C.P.adts[a]['variants'][0]['fields']
        li=[i for i,f in enumerate(fs) if mentions(fieldty(C,f),involving(C,['LockFile']))]
        wi=[i for i,f in enumerate(fs) if mentions(fieldty(C,f),work)]
        R.floor('the store owns the lock',a,1,len(li)); R.floor('the store owns its shards',a,1,len(wi))
        for i in wi:
            R.check('the lock is released after the shards are shut down','%s.%s'%(a,fs[i]['name']),bool(li) and i<min(li),'this field is dropped after the lock is released')
    # shutting down a shard waits for its background work
    ds=[p for p in C.P.fns if p.startswith('<') and p.endswith('Shard as std::ops::Drop>::drop')]
    if R.floor('a shard waits for its background work when dropped','Shard',1,len(ds)):
        w=0
        for t in C.paths(ds[0]):
            if t.kind!='return': continue
            none=any(x.ptr.op=='is' and x.op=='None' and contains(x.ptr,lambda q: q.op=='fld' and q.a[1]=='compaction_handle') for x in t.conds())
            w+=len(t.by('Wait'))
            R.check('a shard waits for its background work when dropped','Shard',none or bool(t.by('Wait')),'a shard is dropped while its compaction may still run',t,None)
        R.floor('waits','Shard drop',1,w)
    handlekept(C,R)
def handlekept(C,R):
    """a task handed to the pool can be waited for by whoever holds the shard"""
    r='Shard::begin_compaction'; n=0
    for t in C.paths(r):
        for x in t.by('Send'):
            if t.ok(x.res)=='Err': continue
            n+=1
            h=[y for y in t.by('W') if y.i>x.i and y.ptr.op=='fld' and y.ptr.a[1]=='$' and y.ptr.a[0].op=='fld' and y.ptr.a[0].a[1]=='compaction_handle' and y.val.op=='agg' and y.val.a[1]=='Some']
            R.check('a running compaction can be waited for',r,bool(h) or t.kind!='return','a background task is started but its handle is not kept',t,x)
            if h:
                l=[p for p,m in t.held(x,'HANDLE')]
                R.check('nobody sees the task without its handle',r,bool(l) and not [y for y in t.by('Unlock') if y.cls=='HANDLE' and x.i<y.i<h[0].i],'the handle lock is not held from starting the task to storing its handle',t,x)
    R.floor('tasks started',r,1,n)

# ------------------------------------------------------------------ C17
READS=('read','read_exact','read_at','read_exact_at')
def readsof(t,f):
    return [x for x in t.S if x.k in('Ext','DataR') and str(x.op).split('::')[-1] in READS and ((x.k=='DataR' and x.file is f) or (x.k=='Ext' and x.ev.args and t.fileid(x.ev.args[0]) is f))]
def fromread(v,x):
    n=x.res.a[0]; o=str(x.op).split('::')[-1]
    return contains(v,lambda q: q.op=='out' and str(q.a[1]).split('::')[-1]==o and n<q.a[0]<=n+3)
def headerconsts(C):
    """the magic and version this version writes"""
    s=set()
    for t in C.paths('Shard::open'):
        d={}
        for x in t.by('MetaW'): d[x.field]=x.val
        if 'magic' in d and 'version' in d: s.add((d['magic'],d['version']))
    if len(s)!=1: raise Missing('one magic and version written to shard files')
    return list(s)[0]
def what(C,t,f,k):
    """which part of the header of f does this condition test: size/n/magic/version (with the value that means a match)"""
    if k.op!='eq': return None
    M,V_=headerconsts(C)
    for a,b in((k.a[0],k.a[1]),(k.a[1],k.a[0])):
        for x in readsof(t,f):
            if a is M and b.op=='fld' and b.a[1]=='magic' and fromread(b,x): return 'magic'
            if a is V_ and b.op=='fld' and b.a[1]=='version' and fromread(b,x): return 'version'
            if b is fld(asv(x.res,'Ok'),'0') and isc(a) and a.a[0]==SIZES.get('shard::MetaHeader',16): return 'n'
    return None
def header(C,L,t,f,before):
    """what is known about the header of an existing file: magic, version, n (bytes read), size -> 1 matches, 0 does not"""
    d={}
    for z in t.conds(before):
        w=what(C,t,f,z.ptr)
        if w: d[w]=z.op
    for x in readsof(t,f):
        if 'exact' in str(x.op) and x.i<before and t.ok(x.res)=='Ok': d['n']=1
    for q in lengths(t,f):
        e=t.entails(cmp_lt(q,L.base),before)
        if e is not None: d['size']=1-e
        for z in t.conds(before):
            if z.op==1 and z.ptr.op=='eq' and q in z.ptr.a and any(isc(a) and a.a[0]<L.base.a[0] for a in z.ptr.a): d['size']=0
    return d
def verified(C,L,t,f,before):
    d=header(C,L,t,f,before)
    return all(d.get(k)==1 for k in('magic','version','n','size'))
def mismatch(C,L,t,f,before): return any(v==0 for v in header(C,L,t,f,before).values())
def fresh(C,L,t,f,before):
    """the file holds nothing: created, truncated or cleared on this path, empty, or a header and nothing else"""
    op=[o for o in t.by('Open') if o.file is f and o.i<before]
    if op:
        tr=op[-1].opts.get('truncate',FALSE)
        if tr is TRUE or t.cond(tr,before)==1: return True
    if [s for s in t.by('SetLen') if s.file is f and s.i<before and s.val is c(0) and t.ok(s.res)=='Ok']: return True
    ls=lengths(t,f)
    for z in t.conds(before):
        if z.op==1 and z.ptr.op=='eq' and any(q in ls for q in z.ptr.a):
            n=[q for q in z.ptr.a if isc(q)]
            if n and n[0].a[0]==0: return True
            if n and n[0].a[0]==SIZES.get('shard::MetaHeader',16):
                d=header(C,L,t,f,before)
                if d.get('magic')==1 and d.get('version')==1 and d.get('n')==1: return True
    return False
def samepath(t,f,g):
    p={o.path for o in t.by('Open') if o.file is f}; q={o.path for o in t.by('Open') if o.file is g}
    return bool(p&q)
def selfdecided(t): return t.kind=='return' and t.retvariant()=='Err' and contains(canon(t.ret),lambda q: q.op=='anyerr') and not outgrown(t)
def outgrown(t):
    """the path fails because the file it writes to has no addressable space left"""
    return any(a.field=='write_offset' and a.op=='fetch_add' and t.entails(cmp_lt(c((1<<32)-1),a.res))==1 for a in t.by('HdrA'))
def maps(t): return [x for x in t.by('Ext') if x.op.split('::')[-1] in('map_mut','map','map_copy','map_exec','map_raw') and x.op.startswith('memmap')]
def headerof(buf):
    """(magic, version) when a buffer is the bytes of one file header"""
    b=canon(buf)
    if b.op=='bytes' and isinstance(b.a[-1],V): b=b.a[-1]
    if b.op=='agg' and 'magic' in b.a[2] and 'version' in b.a[2]: return fld(b,'magic'),fld(b,'version')
    return None
def C17(C,R):
    L=layout(C); M,V_=headerconsts(C)
    nm=nr=nc=nmain=0
    for r in('Shard::open','Shard::split','Shard::merge','Shard::begin_compaction'):
        for t in C.paths(r):
            for x in maps(t):
                f=t.fileid(x.ev.args[-1]); nm+=1
                R.check('a file is verified before it is used',r,fresh(C,L,t,f,x.i) or verified(C,L,t,f,x.i),'a file is mapped without its magic, version and size being checked: %s'%header(C,L,t,f,x.i),t,x)
            for x in t.by('MetaW'):
                w=M if x.field=='magic' else V_ if x.field=='version' else None
                R.check('one header is written',r,w is None or x.val is w,'%s = %s'%(x.field,show(x.val)),t,x)
            for x in t.by('SetLen','DataW'):
                if x.k=='DataW' and not headerwrite(L,x): continue
                if x.k=='DataW':
                    R.check('one header is written',r,headerof(x.buf)==(M,V_),'%s is written'%show(x.buf),t,x)
                if x.k=='SetLen' and x.val is c(0):
                    nc+=1
                    opt=any(z.op==1 and z.ptr.op=='fld' and z.ptr.a[1]=='clear_on_unsupported_version' for z in t.conds(x.i))
                    R.check('contents are only discarded when asked to',r,opt,'a file is emptied although the user did not opt into it',t,x)
                    R.check('only unsupported files are discarded',r,mismatch(C,L,t,x.file,x.i) or fresh(C,L,t,x.file,x.i),'a file is emptied that was not found to be unsupported',t,x)
                else:
                    R.check('an existing file is not changed before it is verified',r,fresh(C,L,t,x.file,x.i) or verified(C,L,t,x.file,x.i),'%s'%x.k,t,x)
            for x in t.by('Open'):
                n=fname(x.path)
                if r=='Shard::open' and x.opts.get('truncate') is TRUE and n and n[0] in('shard_','compact_'):
                    prev=[o for o in t.by('Open') if o.i<x.i and o.path is x.path and t.ok(o.res)=='Ok']
                    R.check('an existing file is not changed before it is verified',r,bool(prev) and fresh(C,L,t,prev[-1].file,x.i),'%s is opened with truncation'%shown(n),t,x)
            if selfdecided(t) and r=='Shard::open':
                nr+=1
                fs={o.file for o in t.by('Open')}
                R.check('only unsupported files are refused',r,any(mismatch(C,L,t,f,len(t.E)+1) for f in fs),'opening fails although nothing is wrong with the files: %s'%[header(C,L,t,f,len(t.E)+1) for f in fs],t,None)
                ch=[x for x in t.S if x.k in('Remove','Rename','SetLen') or (x.k=='DataW')]
                ch=[x for x in ch if not(x.k in('SetLen','DataW') and (fname([o.path for o in t.by('Open') if o.file is x.file][-1]) or ('',))[0]=='shard_' and fresh(C,L,t,x.file,x.i))]
                R.check('a refused directory is left as it is',r,not ch,'%s'%(ch[0].k if ch else ''),t,ch[0] if ch else None)
            if r=='Shard::open' and t.isok():
                main=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='shard_']
                if not R.check('a shard is opened by its name',r,bool(main),'',t,None): continue
                nmain+=1; f=main[-1].file
                end=len(t.E)+1
                n=fname(main[-1].path)
                if fresh(C,L,t,f,end):
                    rm=[x for x in t.by('Remove') if (fname(x.path) or ('',))[0]=='compact_' and same_span(fname(x.path)[1:],n[1:]) and same_dir(fdir(x.path),fdir(main[-1].path)) and (t.ok(x.res)=='Ok' or bulk.notfound(t,x.res))]
                    R.check('the leftovers of an empty file are discarded',r,bool(rm),'a cleared or new shard starts with the leftover of an older compaction in place',t,None)
                    op=[x for x in t.by('Open') if (fname(x.path) or ('',))[0]=='compact_']
                    R.check('the leftovers of an empty file are not used',r,not op,'',t,op[0] if op else None)
                    hd=[x for x in t.by('DataW') if x.file is f and headerof(x.buf)==(M,V_)]+([1] if {x.field for x in t.by('MetaW') if x.file is f}>={'magic','version'} else [])
                    R.check('a new file gets the header',r,bool(hd),'',t,None)
    R.floor('mappings','shard files',4,nm); R.floor('refusals','Shard::open',4,nr); R.floor('clearing','Shard::open',2,nc); R.floor('openings','Shard::open',4,nmain)
    # the mapping calls of the crate are those judged above
    for p,(loc,ext) in C.calls().items():
        for n in ext:
            if n.startswith('memmap') and n.split('::')[-1].startswith('map'):
                R.check('every mapping is judged',p,p in C.inlined or p.split('::{closure')[0] in C.inlined or any(p.endswith(r) for r in ('Shard::open','Shard::split','Shard::merge','Shard::begin_compaction')),'%s maps a file outside of the operations known'%p)

# ------------------------------------------------------------------ C30
def creation(C,L,root,prefix):
    """the states (length class, magic written, version written) a crash can leave of a file created on a path of root"""
    M,V_=headerconsts(C); S={}
    hs=SIZES.get('shard::MetaHeader',16); big=L.base.a[0]
    for t in C.paths(root):
        for o in t.by('Open'):
            n=fname(o.path)
            if n is None or n[0]!=prefix or t.ok(o.res)!='Ok': continue
            if not fresh(C,L,t,o.file,len(t.E)+1): continue
            if o.opts.get('create',FALSE) is not TRUE: continue
            cl=[s.i for s in t.by('SetLen') if s.file is o.file and s.val is c(0)]
            st=(0,0,0); S.setdefault(st,(t,o))
            for x in t.S:
                if x.i<=(cl[-1] if cl else o.i): continue
                if x.k=='Ext' and x.op.endswith('posix_fallocate') : continue
                if getattr(x,'file',None) is not o.file: continue
                ln,m,v=st
                if x.k=='SetLen': ln=big if not (isc(x.val) and x.val.a[0]<big) else x.val.a[0]
                elif x.k=='DataW' and headerof(x.buf)==(M,V_): ln=max(ln,hs); m=v=1
                elif x.k=='MetaW' and x.field=='magic': m=1
                elif x.k=='MetaW' and x.field=='version': v=1
                else: continue
                st=(ln,m,v); S.setdefault(st,(t,x))
    return S
def consistent(C,L,t,f,st,before):
    """can a path of open be taken when file f is in the given state"""
    ln,m,v=st; hs=SIZES.get('shard::MetaHeader',16); ls=lengths(t,f); ns={fld(asv(x.res,'Ok'),'0') for x in readsof(t,f)}
    ops=[o for o in t.by('Open') if o.file is f]
    for z in t.conds(before):
        k=z.ptr; w=what(C,t,f,k)
        if w in('magic','version','n'):
            if z.op!=(m if w=='magic' else v if w=='version' else int(ln>=hs)): return False
            continue
        if k.op=='eq' and any(fromread(q,x) for q in k.a for x in readsof(t,f)):
            q=[a for a in k.a if isc(a) or a.op=='repeat']       # comparison with zero
            o=[a for a in k.a if a not in q]
            if q and o and o[0].op=='fld' and o[0].a[1] in('magic','version'):
                set_=m if o[0].a[1]=='magic' else v
                if iszero(q[0]) and z.op==set_: return False
            continue
        if k.op=='is' and any(k.a[0] is x.res for x in readsof(t,f)) and z.op=='Err' and any('exact' in str(x.op) for x in readsof(t,f)) and ln<hs: continue
        e=rebuild(k,{},lambda q: c(ln) if q in ls else c(min(hs,ln)) if q in ns else None)
        if isc(e) and isinstance(z.op,int) and e.a[0]!=z.op: return False
        if k.op=='is' and z.op=='Err' and k.a[0].op=='ret': return False      # judged without I/O errors
    for o in ops:
        if o.opts.get('truncate',FALSE) is TRUE or t.cond(o.opts.get('truncate',FALSE),before)==1: return False
    for z in t.conds(before):
        if z.ptr.op=='fld' and z.ptr.a[1]=='clear_on_unsupported_version' and z.op==1: return False
    return True
def C30(C,R):
    bulk.loading(C,R); bulk.C_consolidate(C,R)
    L=layout(C)
    # full coverage
    nload=ncr=0
    for t in bulk.load_paths(C):
        cc=[x for x in t.by('Call') if x.op.endswith('consolidate_ranges')]
        R.check('opening does not panic','ShardRouter::load',t.kind!='panic','a file name in the directory makes opening panic',t,t.S[-1] if t.S else None)
        if selfdecided(t):
            pos=[p for p in (bulk.prefix_test(y) for y in t.conds()) if p and p[1]==1]
            R.check('foreign files are ignored','ShardRouter::load',bool(pos) and pos[-1][0]=='shard_','opening fails although no file of the store is wrong',t,None)
        if t.kind=='return' and t.retvariant()=='Err' and not selfdecided(t):
            e=t.payload() if False else canon(fld(asv(t.ret,'Err'),'0'))
            src=[x for x in t.S if x.res is not None and isinstance(x.res,V) and contains(e,lambda q: q is x.res)]
            R.check('opening only fails for an error of the system or of a file','ShardRouter::load',bool(src),'error: %s'%show(e),t,None)
            for x in src:
                nm=x.k=='Ext' and ('from_str' in x.op or 'parse' in x.op or 'to_str' in x.op or 'into_string' in x.op)
                R.check('foreign files are ignored','ShardRouter::load',not nm,'a file whose name is not that of a shard makes opening fail',t,x)
        if not cc: continue
        empty=t.isok() and t.entails(cmp_eq(blen(fld(cc[-1].res,'0')),c(0)))==1
        if t.isok(): nload+=1
        kept=fld(cc[-1].res,'0')
        if empty:
            op=[x for x in t.by('Call') if x.op.endswith('Shard::open')]
            R.check('nothing is created behind an empty directory','ShardRouter::load',not op,'',t,op[0] if op else None)
            continue
        bulk.tiling(C,R,'ShardRouter::load',t,kept,c(NROWSPAN(C)),t.isok(),cc[-1].i)
    for t in C.paths('ShardRouter::create_initial_shards',boundary=shard_boundary(C),key='L1'):
        ncr+=t.isok(); bulk.tiling(C,R,'ShardRouter::create_initial_shards',t,None,c(NROWSPAN(C)),t.isok())
        for x in t.by('Remove','Rename','SetLen'): R.check('creating shards removes nothing','ShardRouter::create_initial_shards',False,'',t,x)
    R.floor('loaded','ShardRouter::load',2,nload); R.floor('created','ShardRouter::create_initial_shards',1,ncr)
    # the router
    from rules.rows import router_bound
    n=0
    for t in C.paths('ShardRouter::new',boundary=router_bound(C),key='rb'):
        ld=[x for x in t.by('Call') if x.op.endswith('::load')]; cr=[x for x in t.by('Call') if x.op.endswith('create_initial_shards')]; tr=[x for x in t.by('Call') if x.op.endswith('::treeify')]
        for x in cr:
            ok=bool(ld) and ld[0].i<x.i and t.ok(ld[0].res)=='Ok' and t.entails(cmp_eq(blen(fld(asv(ld[0].res,'Ok'),'0')),c(0)),x.i)==1
            R.check('fresh shards are created only if there are none','ShardRouter::new',ok,'shards are created although the directory was not found to be empty',t,x)
        for x in t.S:
            R.check('the router changes files only through its shards','ShardRouter::new',x.k not in('Remove','Rename','SetLen','DataW','Open'),x.k,t,x)
        if t.isok():
            n+=1
            if not R.check('the files found become the tree','ShardRouter::new',bool(ld) and bool(tr),'',t,None): continue
            a=tr[-1].val[0]; l=fld(asv(ld[0].res,'Ok'),'0'); w=fld(asv(cr[-1].res,'Ok'),'0') if cr else None
            R.check('the files found become the tree','ShardRouter::new',a is (w if cr else l),'treeify is given %s'%show(a),t,tr[-1])
            if not cr: R.check('an empty store gets shards','ShardRouter::new',t.entails(cmp_eq(blen(l),c(0)))==0,'no shards are created for an empty directory',t,None)
            nd=[q for q in subterms(t.payload()) if q.op=='agg' and 'node' in q.a[2]]
            R.check('the files found become the tree','ShardRouter::new',bool(nd) and contains(fld(nd[0],'node'),lambda q: q is tr[-1].res),'node: %s'%(show(fld(nd[0],'node')) if nd else '?'),t,None)
    R.floor('routers','ShardRouter::new',2,n)
    # what opening one shard removes or renames
    for t in C.paths('Shard::open'):
        main=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='shard_']
        for x in t.by('Remove'):
            nm=fname(x.path)
            R.check('opening a shard removes only the leftover of an empty one','Shard::open',nm is not None and nm[0]=='compact_' and bool(main) and same_span(nm[1:],fname(main[-1].path)[1:]) and fresh(C,L,t,main[-1].file,x.i),'%s is removed'%shown(nm),t,x)
    # what a crash during creation leaves can be opened
    S1=creation(C,L,'Shard::open','shard_'); S2=creation(C,L,'Shard::begin_compaction','compact_')
    S2.update({k:v for k,v in creation(C,L,'Shard::open','compact_').items() if k not in S2})
    R.floor('states of a file being created','shard_',3,len(S1)); R.floor('states of a file being created','compact_',3,len(S2))
    whole=(L.base.a[0],1,1)
    for t in C.paths('Shard::open'):
        if not(selfdecided(t) or (t.kind=='panic' and not t.by('Rd'))): continue    # (a file being created has no slots in use)
        main=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='shard_']; left=[o for o in t.by('Open') if (fname(o.path) or ('',))[0]=='compact_']
        end=len(t.E)+1
        for st,(u,x) in sorted(S1.items(),key=lambda q: q[0]):
            bad=main and not left and consistent(C,L,t,main[-1].file,st,end)
            R.check('what a crash during creation leaves can be opened','shard_ length %d magic %d version %d'%st,not bad,'a crash at this point leaves a file that is refused: %s'%u.where(x),t,t.S[-1])
        for st,(u,x) in sorted(S2.items(),key=lambda q: q[0]):
            bad=main and left and consistent(C,L,t,left[-1].file,st,end) and consistent(C,L,t,main[-1].file,whole,end)
            R.check('what a crash during creation leaves can be opened','compact_ length %d magic %d version %d'%st,not bad,'a crash at this point leaves a file that is refused: %s'%u.where(x),t,t.S[-1])
def NROWSPAN(C):
    """the end of the hash space as the selector type bounds it"""
    return 1<<16

# ------------------------------------------------------------------ C24
DATA=('shard_','compact_','bottom_','top_')
def C24(C,R):
    from rules.rows import router_bound
    r='ShardRouter::clear'; nok=nrm=nskip=0; names=set()
    for t in C.paths(r,boundary=router_bound(C),key='rb'):
        w=[x for x in t.by('Lock') if x.cls=='NODE' and x.mode=='w']
        un=[x for x in t.by('Unlock') if x.cls=='NODE']
        muts=[x for x in t.S if x.k in('Remove','Rename','Open','SetLen') or (x.k=='Call' and x.op.endswith(('::load','::create_initial_shards'))) or x in bulk.node_writes(t)]
        for x in muts:
            R.check('nobody sees the store half cleared',r,bool(w) and any(m=='w' for p,m in t.held(x,'NODE')) and not [u for u in un if w[0].i<u.i<x.i],'the tree is not locked exclusively throughout',t,x)
        # no background task of the old contents
        wt=[x for x in t.by('Call') if x.op.endswith('wait_for_compactions')]
        first=[x for x in t.S if x.k=='Remove' or (x.k=='Ext' and x.op.endswith('read_dir'))]
        for x in first[:1]:
            ok=[y for y in wt if y.i<x.i and y.val[0].op=='fld' and y.val[0].a[1]=='$' and any(p is y.val[0].a[0] for p,m in t.held(y,'NODE'))]
            ok=[y for y in ok if any(m=='w' for p,m in t.held(y,'NODE')) and not [u for u in un if y.i<u.i<x.i]]
            R.check('background work is over before files are removed',r,bool(ok),'a running compaction may publish its file after the store was cleared',t,x)
        # removal
        for x in t.by('Remove'):
            nrm+=1
            if t.kind=='loop' or t.kind=='return':
                R.check('a failure to remove is reported',r,t.ok(x.res) in('Ok','Err') and (t.ok(x.res)=='Ok' or t.retvariant()=='Err'),'clear does not look at whether the file could be removed',t,x)
            pos=[p for p in (bulk.prefix_test(y) for y in t.conds(x.i)) if p and p[1]==1]
            names|={p[0] for p in pos[-1:]}
            R.check('only data files are removed',r,bool(pos) and pos[-1][0] in DATA+('merge_',),'removes files named %s'%(pos[-1][0] if pos else '(any)'),t,x)
            it=[y for y in t.by('Iter') if y.i<x.i]
            R.check('the file removed is the one looked at',r,bool(it) and contains(x.path,lambda q: q.op=='item' or q.op=='ret') ,'removes %s'%show(x.path),t,x)
        for x in t.by('Ext'):
            if x.op.endswith('read_dir'):
                a=canon(x.ev.args[0])
                R.check('the directory of the store is cleared',r,a.op=='fld' and a.a[1]=='dir_path','clears %s'%show(a),t,x)
        # completeness: an entry passed over is no data file
        for x in t.by('Iter'):
            if not(x.op=='opaque' or contains(canon(x.col),lambda q: q.op=='ret' and str(q.a[1]).endswith('read_dir'))): continue
            nxt=[y for y in t.S if y.i>x.i and (y.k in('IterEnd',) or (y.k=='Call' and not y.op.endswith('wait_for_compactions')))]
            to=nxt[0].i if nxt else len(t.E)+1
            if t.kind!='loop' and t.kind!='return': continue
            rm=[y for y in t.by('Remove') if x.i<y.i<to]
            if rm: continue
            cs=[z for z in t.conds(to) if z.i>x.i]
            err=any(z.op=='Err' for z in cs)
            if err:
                R.check('a failure to remove is reported',r,t.kind=='return' and t.retvariant()=='Err','an entry of the directory that could not be examined is passed over',t,x); continue
            nskip+=1
            neg={p[0] for p in (bulk.prefix_test(z) for z in cs) if p and p[1]==0}
            nofile=any(z.op==0 and z.ptr.op=='ret' and str(z.ptr.a[1]).endswith('is_file') or z.op==1 and z.ptr.op=='ret' and str(z.ptr.a[1]).endswith('is_dir') for z in cs)
            nostr=any(z.op in('None','Err') and contains(z.ptr,lambda q: q.op=='ret' and str(q.a[1]).split('::')[-1] in('to_str','into_string')) for z in cs)
            R.check('every data file is removed',r,nofile or nostr or neg>=set(DATA),'files named %s... are left'%sorted(set(DATA)-neg),t,x)
        ads=[a for a in t.by('Adapt')]
        R.check('every data file is removed',r,not ads,'the directory is filtered before it is looked at',t,ads[0] if ads else None)
        # what is left afterwards
        bad=[x for x in t.S if (x.k=='Remove' or (x.k=='Ext' and x.op.endswith('read_dir')) or (x.k=='Cond' and x.op=='Err' and x.ptr.op=='is' and contains(x.ptr,lambda q: q.op=='item'))) and (t.ok(x.res)=='Err' if x.k!='Cond' else True)]
        bad+=[x for x in t.by('Ext') if x.op.endswith('file_type') and t.ok(x.res)=='Err']
        if bad and t.kind=='return':
            R.check('a failure to remove is reported',r,t.retvariant()=='Err','clear succeeds although a file could not be removed',t,bad[0])
        nw=bulk.node_writes(t); tr=[x for x in t.by('Call') if x.op.endswith('::treeify')]; ld=[x for x in t.by('Call') if x.op.endswith('::load')]; cr=[x for x in t.by('Call') if x.op.endswith('create_initial_shards')]
        end=[x for x in t.by('IterEnd')]
        for x in ld+cr+[x for x in t.by('Open')]:
            R.check('new shards are made after the old files are gone',r,bool(end) and end[-1].i<x.i or bool(bad) ,'shards are opened before the directory was cleared',t,x)
            late=[y for y in t.by('Remove') if y.i>x.i]
            R.check('new shards are made after the old files are gone',r,not late,'files are removed after the new shards were made',t,late[0] if late else x)
        if t.kind=='return' and (t.by('Remove') or t.by('IterEnd')):
            failed=[x for x in ld+cr if t.ok(x.res)=='Err']
            if not failed or t.isok():
                if R.check('the old tree is replaced',r,bool(nw) and bool(tr),'the store goes on using files that were removed',t,t.S[-1]):
                    a=tr[-1].val[0]; l=[fld(asv(x.res,'Ok'),'0') for x in ld]; w_=[fld(asv(x.res,'Ok'),'0') for x in cr]
                    R.check('the old tree is replaced',r,contains(nw[-1].val,lambda q: q is tr[-1].res) and nw[-1].ptr.a[0].a[0].op=='arg','',t,nw[-1])
                    R.check('the cleared store has shards',r,a in w_ or (a in l and t.entails(cmp_eq(blen(a),c(0)),tr[-1].i)==0),'the new tree is made of %s'%show(a),t,tr[-1])
            else:
                R.check('a failed reload does not leave the old tree in use',r,bool(nw),'after removing files the old tree stays in use',t,failed[0])
        if t.isok(): nok+=1
    R.floor('removals',r,1,nrm); R.floor('files kept',r,1,nskip); R.floor('successful clears',r,1,nok)
    for n in DATA: R.check('every kind of data file is removed',n,n in names,'files named %s are not removed'%n)
    # the kinds of files the store creates are those that clear removes or that opening discards
    disc=bulk.discarded_prefixes(C)
    for rr in('Shard::open','Shard::split','Shard::merge','Shard::begin_compaction'):
        for t in C.paths(rr):
            for x in t.by('Open'):
                n=fname(x.path)
                if x.opts.get('create',FALSE) is TRUE:
                    R.check('no file of the store survives',rr,n is not None and (n[0] in names or n[0] in disc),'creates %s'%shown(n),t,x)
    # the public operation
    n=0
    for t in C.paths('CandyStore::clear',boundary={p:'event' for p in C.P.fns if p.endswith('ShardRouter::clear')},key='pub24'):
        k=[x for x in t.by('Call') if x.op.endswith('ShardRouter::clear')]
        R.check('clear clears the store','CandyStore::clear',len(k)==1 or t.kind!='return','',t,None)
        if k and t.ok(k[0].res)=='Err': R.check('a failed clear is reported','CandyStore::clear',t.retvariant()=='Err','',t,k[0])
        if t.isok():
            n+=1
            R.check('a failed clear is reported','CandyStore::clear',bool(k) and t.ok(k[0].res)=='Ok','',t,None)
    R.floor('clear','CandyStore::clear',1,n)
    handlekept(C,R); bulk.waits(C,R)
