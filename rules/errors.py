"""C14: every result of a file operation, of a wait for background work and of every internal call that may carry one is looked
at, and a failure ends as an error of the operation: not dropped, not turned into a panic, not followed by success."""
from rules.locks import *
from rules.bulk import notfound
IOEXT=re.compile(r'^(std::fs::|std::io::|<std::fs|<std::io|std::os::unix::fs|std::os::fd|memmap|fslock|libc::)|::fs::FileExt::|std::path::Path::(exists|try_exists|is_file|metadata|read_dir|canonicalize)$|FileExt::')
def locks(C):
    if not hasattr(C,'_locks'): C._locks=Locks(C,None)
    return C._locks
def isresult(ty): return ty.startswith('std::result::Result<') or ty.startswith('core::result::Result<')
def retty(C,p):
    F=C.P.fns.get(p)
    return tystr(C,F,0) if F is not None else ''
class Errs:
    def __init__(s,C):
        s.C=C; s.L=L=locks(C); g=L.g
        # functions whose result can carry the failure of a file operation or of background work
        s.io={p for p in g if C.reaches(p,lambda n: bool(IOEXT.search(n)) or n.endswith('Receiver::recv') or n.endswith('Sender::send'))}
        s.units=dict(L.units)
        # bound functions that do I/O without locks
        more=[p for p in L.bound if p in s.io and p not in s.units]+[p for p,F in C.P.fns.items() if p in s.io and '{closure' not in p and p not in s.units and (F.pub or not L.callers.get(p))]
        for p in more:
            if p not in s.units: s.units[p]=Unit(L,p)
        s.fails={p:set() for p in s.units}; ch=True
        while ch:
            ch=False
            for p,u in s.units.items():
                n=s.failing(p,u)
                if n!=s.fails[p]: s.fails[p]=n; ch=True
    def ways(s,q,args):
        """how a call of q can fail: by itself, through the function it is given ('cb')"""
        f=s.fails.get(q)
        if f is None: return {'self'}
        out=f&{'self'}
        if 'cb' in f:
            cl=closures_in(args)
            for k in cl: out|=s.ways(k,())
            if not cl: out.add('cb')
        return out
    def mayfail(s,x): return bool(s.ways(x.op,x.val))
    def failing(s,p,u):
        if not isresult(tystr(s.C,u.F,0)): return {'self'}
        out=set()
        for t in u.T:
            if t.kind!='return' or t.ret is None or t.retvariant()=='Ok': continue
            v=canon(t.ret); rv=t.retvariant()
            sub=subterms(v)|subterms(t.ret)
            src=[x for x in t.S if isinstance(x.res,V) and x.res in sub]
            if rv=='Err': src=[x for x in src if x.k in('Call','Callback') or fallible(s,t,x)]
            if not src: out.add('self')
            for x in src: out|=s.ways(x.op,x.val) if x.k=='Call' else {'cb'} if x.k=='Callback' else {'self'}
        return out
def fallible(E,t,x):
    """is x an operation whose result can carry a storage failure"""
    C=E.C
    if x.res is None: return False
    if x.k=='Wait' and x.op=='join': return False
    if x.k in('DataR','DataW','SetLen','Sync','Rename','Remove','Open','Wait','Send'): return True
    if x.k=='Iter': return x.op=='opaque' and any(y.k=='Ext' and y.op.split('::')[-1] in('read_dir','lines','bytes','split') and IOEXT.search(y.op) and y.res in subterms(x.res) for y in t.S)
    if x.k=='Ext': return bool(IOEXT.search(x.op)) and not x.op.startswith('libc::') and not INFALLIBLE.search(x.op)
    if x.k=='Call': 
        rt=retty(C,x.op); io=x.op in E.io or any(q in E.io for q in closures_in(x.val))
        return io and E.mayfail(x) and (isresult(rt) or rt.startswith('std::option::Option<std::result::Result<'))
    return False
INFALLIBLE=re.compile(r'OpenOptions::(new|read|write|create|create_new|append|truncate|mode|custom_flags)$|::(file_name|path|as_raw_fd|kind|from_raw_os_error|raw_os_error|is_file|is_dir|len|as_path|join|new|other|last_os_error|last_error)$|MmapOptions::|Mmap.*::(as_ptr|len|deref)|std::io::Error')
def results(x):
    """the result of an operation, and the result inside it (recv gives back the task's own result)"""
    return [x.res]+([fld(asv(x.res,'Ok'),'0')] if x.k=='Wait' else [])
def stat(t,v): return t.p.conds.get(mk('is',v)) or t.ok(v)
def iserr(t,v):
    return isinstance(v,V) and (v.op=='agg' and v.a[1]=='Err' or t.p.conds.get(mk('is',v))=='Err')
def reported(t):
    """does the path end in an error"""
    if t.kind!='return' or t.ret is None: return False
    if any(y.k=='Send' and iserr(t,y.val) for y in t.S): return True
    r=canon(t.ret)
    rv=t.retvariant()
    if rv=='Err': return True
    if rv=='Some' or (r.op=='agg' and r.a[1]=='Some'):
        q=fld(asv(t.ret,'Some'),'0')
        return q.op=='agg' and q.a[1]=='Err' or t.p.conds.get(mk('is',q))=='Err' or t.p.conds.get(mk('is',canon(q)))=='Err'
    return False
def C14(C,R):
    E=Errs(C); n=0; kinds={}
    WAIT={p for p,u in E.units.items() if any(a[0]=='WAIT' for a in u.sum)}
    for p,u in sorted(E.units.items()):
        F=u.F; isdrop=p.endswith('::drop'); rt=tystr(C,F,0)
        for t in u.T:
            rets=None
            for x in t.S:
                cb=x.k=='Callback'
                if not fallible(E,t,x) and not cb: continue
                w='%s: %s'%(short_(p),opname(x))
                for v in results(x):
                    st=stat(t,v); n+=1
                    if st=='Ok' or st=='None': continue
                    if st=='Some':
                        q=fld(asv(v,'Some'),'0'); st=stat(t,q)
                        if st=='Ok': continue
                        v=q
                    if st=='Err':
                        if t.kind=='panic':
                            R.check('a failure is not turned into a panic',w,False,'a failure of %s makes the operation panic'%opname(x),t,x); continue
                        if notfound(t,v): R.check('a missing file may be expected',w,True); continue
                        if waived(E,p,u,t,x,WAIT): R.check('failures that do not matter',w,True); continue
                        if t.kind=='loop':
                            R.check('a failure is reported',w,False,'after a failure of %s the operation goes on'%opname(x),t,x); continue
                        if p in E.L.spawned and v is not x.res: continue
                        R.check('a failure is reported',w,reported(t),'a failure of %s is not reported: the operation returns %s'%(opname(x),show(canon(t.ret))[:80] if t.ret is not None else '?'),t,x)
                    elif st is None:
                        # nobody looked at it: it must be handed on
                        if t.kind not in('return','loop'): continue
                        if rets is None: rets=handed(t)
                        if v in rets or any(canon(y) is canon(v) for y in rets if isinstance(y,V) and y.op==v.op): R.check('a result is looked at or handed on',w,True); continue
                        if v is not x.res and (x.res in rets): continue
                        if stat(t,x.res)=='Err': continue
                        if cb and not isresult_cb(C,u): continue
                        if waived(E,p,u,t,x,WAIT): R.check('failures that do not matter',w,True); continue
                        if abandoned(t,x): continue
                        R.check('a result is looked at or handed on',w,False,'whether %s succeeded is never looked at'%opname(x),t,x)
                kinds[x.k]=kinds.get(x.k,0)+1
    # whole reads and writes
    m=0
    for p,u in sorted(E.units.items()):
        for t in u.T:
            for x in t.S:
                nm=str(x.op).split('::')[-1] if x.op else ''
                if x.k in('DataR','DataW') or (x.k=='Ext' and IOEXT.search(x.op or '') and nm in('read','write','read_at','write_at','read_vectored','write_vectored','copy_file_range')):
                    m+=1
                    w='%s: %s'%(short_(p),nm)
                    if nm in('read_exact_at','write_all_at','read_exact','write_all'): R.check('reads and writes are complete',w,True); continue
                    if t.ok(x.res)!='Ok' or t.kind!='return' or reported(t): continue
                    R.check('reads and writes are complete',w,whole(t,x),'%s may transfer fewer bytes than asked for, and the number is not looked at'%nm,t,x)
    R.floor('operations that can fail','file and background operations',2000,n)
    R.floor('reads and writes','file reads and writes',20,m)
    for k in('DataR','DataW','SetLen','Sync','Rename','Remove','Open','Wait','Send','Call'):
        R.floor('operations that can fail',k,1,kinds.get(k,0))
def opname(x):
    if x.k=='Wait': return 'waiting for background work'
    if x.k=='Send': return 'handing over work'
    if x.k=='Open': return 'opening a file'
    if x.k=='Iter': return 'reading the directory'
    if x.k=='Callback': return 'the function it runs'
    return str(x.op).split('::')[-1] if x.op else {'SetLen':'set_len','Sync':'sync','Rename':'rename','Remove':'removing a file','DataR':'reading','DataW':'writing'}.get(x.k,x.k)
def isresult_cb(C,u): return True
def handed(t):
    out=set()
    if t.ret is not None: out|=subterms(t.ret)|subterms(canon(t.ret))
    for y in t.S:
        if y.k=='Send' and isinstance(y.val,V): out|=subterms(y.val)
        elif y.k in('Step','W') and isinstance(y.val,V): out|=subterms(y.val)
        elif y.k=='Call': 
            for a in y.val:
                if isinstance(a,V): out|=subterms(a)
    return out
def abandoned(t,x):
    """the path failed for another reason before the result could matter"""
    return reported(t) and any(stat(t,v)=='Err' for y in t.S if y.i!=x.i and y.res is not None and y.k in('DataR','DataW','SetLen','Sync','Rename','Remove','Open','Wait','Send','Call','Ext') for v in results(y))
def waived(E,p,u,t,x,WAIT):
    """waiting for background work before its files or shards are given up: the outcome no longer matters"""
    # a channel made on this path is still open at its other end
    if x.k=='Send' and any(CHAN.search(y.op) and fld(y.res,'0') is x.ptr for y in t.by('Ext')): return True
    w=x.k=='Wait' or x.k=='Call' and x.op in WAIT
    if not w: return False
    if p.endswith('::drop'): return True
    # everything the task worked on is removed afterwards
    return any(y.k=='Remove' and y.i>x.i for y in t.S) or any(y.k=='Call' and y.i>x.i and E.C.reaches(y.op,lambda n:n.endswith('fs::remove_file')) and not E.C.reaches(y.op,lambda n:n.endswith('fs::rename')) for y in t.S)
