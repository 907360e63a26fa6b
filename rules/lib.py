"""Semantic layer over the abstract traces: classifies raw events into operations on shard files, slots, locks and the
directory, and provides the obligation bookkeeping used by all rules."""
import sys,os,json,time,functools
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,os.path.join(VERIF,'engine'))
from interp import *
from val import *
from models import loadall
import mir,pp

# ------------------------------------------------------------------ term utilities
def rebuild(v,memo,f):
    """bottom-up rewriting with re-normalisation"""
    if not isinstance(v,V):
        return tuple(rebuild(x,memo,f) for x in v) if isinstance(v,tuple) else v
    r=memo.get(v)
    if r is not None: return r
    r=f(v)
    if r is not None: memo[v]=r; return r
    a=tuple(rebuild(x,memo,f) for x in v.a)
    if a==v.a: r=v
    else:
        o=v.op
        if o=='fld': r=fld(*a)
        elif o=='idx': r=idx(*a)
        elif o=='as': r=asv(*a)
        elif o=='slice': r=slc(*a)
        elif o=='cat': r=cat(list(a[0]))
        elif o=='lin':
            r=c(a[0])
            for t,k in a[1]: r=add(r,mul(t,c(k)))
        elif o=='bf':
            r=c(a[1])
            for (x,lo,n,sh) in a[0]:
                y=band(shr(x,lo,64),c((1<<n)-1),64)
                r=bor(r,shl(y,sh,64),64) if not isc(r) or r.a[0] else shl(y,sh,64)
        elif o=='len': r=blen(a[0])
        elif o=='eq': r=cmp_eq(*a)
        elif o=='and': r=band(a[0],a[1],64)
        elif o=='lt': r=cmp_lt(*a)
        elif o=='not': r=bnot(a[0])
        elif o=='div': r=c(a[0].a[0]//a[1].a[0]) if isc(a[0]) and isc(a[1]) and a[1].a[0] else mk('div',*a)
        else: r=mk(o,*a)
    memo[v]=r
    return r
def subst(v,table): return rebuild(v,{},lambda x: table.get(x))
_canon={}
def _cf(v):
    if v.op=='lv' and isinstance(v.a[0],tuple) and str(v.a[0][3]).startswith('M'): return canon(v.a[2])   # memory seen through a loop
    if v.op=='ver': return canon(v.a[1])          # contents of a lock after it was re-acquired
    if v.op=='out' and len(v.a)==3 and isinstance(v.a[2],V) and (v.a[2].op in('fld','ret','arg')): return canon(v.a[2])  # handle passed as &mut
    return None
def canon(v): return rebuild(v,_canon,_cf)
def peel(t):
    pr=[]
    while t.op in('fld','idx','as','slice'):
        if t.op=='fld': pr.append(('f',t.a[1]))
        elif t.op=='idx': pr.append(('i',t.a[1]))
        elif t.op=='as': pr.append(('d',t.a[1]))
        else: pr.append(('s',t.a[1],t.a[2]))
        t=t.a[0]
    pr.reverse(); return t,pr
def teval(t,env):
    """constant-fold a term under an assignment of atoms; None when it does not fold"""
    def f(x):
        return env.get(x)
    r=rebuild(t,{},f)
    return r.a[0] if isc(r) else None
def width(v):
    return 64

# ------------------------------------------------------------------ semantic events
class Sem:
    __slots__=('k','ev','i','file','row','col','val','field','op','off','buf','res','cls','mode','ptr','path','path2','opts')
    def __init__(s,k,ev,i,**kw):
        s.k=k; s.ev=ev; s.i=i
        for n in s.__slots__[3:]: setattr(s,n,kw.get(n))
    def __repr__(s): return s.k+' '+' '.join('%s=%s'%(n,show(getattr(s,n)) if isinstance(getattr(s,n),V) else getattr(s,n)) for n in s.__slots__[3:] if getattr(s,n) is not None)
HDR_FIELDS={'wasted_bytes','write_offset','num_inserts','num_removals','compacted_up_to'}
def fname(t):
    """path term -> (prefix, lo, hi) for span-named files, (literal,None,None) for fixed names, None otherwise"""
    t=canon(t)
    if t.op!='path': return None
    s=t.a[1]
    if s.op=='cb': return (s.a[0].decode('latin1'),None,None)
    if s.op!='str': return None
    p=s.a[0]
    if len(p)==1 and p[0].op=='cb': return (p[0].a[0].decode('latin1'),None,None)
    def num(x): return x.op=='ph_' and x.a[3].op=='fa' and x.a[3].a[0]=='lower_hex' and x.a[1]==4
    if len(p)==4 and p[0].op=='cb' and num(p[1]) and p[2].op=='cb' and p[2].a[0]==b'-' and num(p[3]):
        return (p[0].a[0].decode('latin1'),p[1].a[3].a[1],p[3].a[3].a[1])
    return None
def fdir(t):
    t=canon(t); return t.a[0] if t.op=='path' else None
def shown(f):
    if f is None: return '?'
    return f[0] if f[1] is None else '%s%s-%s'%(f[0],show(f[1]),show(f[2]))
def lockclass(ptr,ty):
    ty=ty or ''
    if 'MmapFile' in ty: return 'FILES'
    if 'ShardNode' in ty: return 'NODE'
    if 'TPHandle' in ty: return 'HANDLE'
    b,pr=peel(canon(ptr)) if isinstance(ptr,V) else (None,[])
    names=[p[1] for p in pr if p[0]=='f']
    if 'RwLock' in ty and '()' in ty: return 'ROW'
    if 'Mutex' in ty and '()' in ty:
        return 'SYNC' if 'sync_agg_mutex' in names else 'KEYED'
    if 'Mutex' in ty and 'bool' in ty: return 'SYNC'
    return 'OTHER:'+ty
class T:
    """semantic view of one trace"""
    def __init__(s,p):
        s.p=p; s.kind=p.kind; s.ret=p.ret; s.E=p.events
        s.mm={}; s.opens={}; s.gcls={}; s.lcls={}; s.cache={}
        for e in s.E:
            if e.k=='ext' and e.name.endswith('map_mut') and e.res is not None: s.mm[fld(asv(e.res,'Ok'),'0')]=canon(e.args[-1])
            elif e.k=='ext' and e.name.split('::')[-1] in('open','create','create_new') and 'fs::' in e.name: s.opens[fld(asv(e.res,'Ok'),'0')]=e
            elif e.k=='lock':
                cl=lockclass(e.args[0],e.x) if e.x else s.lcls.get(e.args[0])
                if cl is None: cl=lockclass(e.args[0],'')
                s.lcls[e.args[0]]=cl; s.gcls[e.res]=cl
                if e.res.op=='guard': s.gcls[e.res.a[0]]=cl
        s.S=[]
        for i,e in enumerate(s.E): s.classify(i,e)
    def fileid(s,t):
        t=canon(t)
        if t in s.mm: return s.fileid(s.mm[t])
        if t.op=='fld' and t.a[1] in('file','mmap'): return canon(t.a[0])
        if t.op=='agg' and 'file' in t.a[2]: return s.fileid(fld(t,'file'))
        return t
    def slotptr(s,t):
        """(file,row,what,col|None) when t addresses row memory of a mapped header, (file,field) header field, None"""
        b,pr=peel(canon(t))
        # find the mapping boundary
        cur=b
        chain=[(cur,0)]
        for n,p in enumerate(pr):
            cur=fld(cur,p[1]) if p[0]=='f' else asv(cur,p[1]) if p[0]=='d' else idx(cur,p[1]) if p[0]=='i' else slc(cur,p[1],p[2])
            chain.append((cur,n+1))
        for t2,n in chain:
            hit=t2 in s.mm or (n>0 and pr[n-1]==('f','mmap'))
            if hit:
                rest=pr[n:]; f=s.fileid(t2)
                if len(rest)>=3 and rest[0]==('f','rows') and rest[1]==('f','0') and rest[2][0]=='i':
                    row=rest[2][1]
                    if len(rest)==3: return (f,'row',row,None)
                    if rest[3][0]=='f':
                        what=rest[3][1]
                        if len(rest)==4: return (f,what,row,None)
                        if len(rest)==5 and rest[4][0]=='i': return (f,what,row,rest[4][1])
                        if rest[4][0]=='s': return (f,what,row,('s',)+tuple(rest[4][1:]))
                    return (f,'?',row,None)
                if len(rest)==1 and rest[0][0]=='f': return (f,'hdr',rest[0][1],None)
                if rest and rest[0]==('f','metadata'): return (f,'meta',rest[-1][1] if len(rest)>1 else None,None)
                return (f,'?',None,None)
        return None
    def add(s,k,e,i,**kw): s.S.append(Sem(k,e,i,**kw))
    def classify(s,i,e):
        k=e.k
        if k=='write':
            r=s.slotptr(e.args[0])
            if r is None: s.add('W',e,i,ptr=canon(e.args[0]),val=canon(e.args[1])); return
            f,w,a,b=r
            val=canon(e.args[1])
            if w=='signatures': s.add('SigW',e,i,file=f,row=a,col=b,val=val)
            elif w=='offsets_and_sizes': s.add('OffW',e,i,file=f,row=a,col=b,val=val)
            elif w=='hdr' and a in HDR_FIELDS: s.add('HdrA',e,i,file=f,field=a,op='plain',val=val)
            elif w=='meta': s.add('MetaW',e,i,file=f,field=a,val=val)
            elif w=='hdr' and a=='metadata' and val.op=='agg':
                # all of its fields at once
                for n,x in zip(val.a[2],val.a[3]): s.add('MetaW',e,i,file=f,field=n,val=x)
            else: s.add('RawW',e,i,file=f,field=w,val=val,row=a)
        elif k in('armw','astore','aload'):
            r=s.slotptr(e.args[0])
            if r and r[1]=='hdr':
                if k=='aload': s.add('HdrL',e,i,file=r[0],field=r[2],op=e.name,res=e.res)
                else: s.add('HdrA',e,i,file=r[0],field=r[2],op=e.name if k=='armw' else 'store',val=canon(e.args[1]),res=e.res,mode=e.x if k=='armw' else e.name)
            elif r:
                if k=='astore' and r[1] in('signatures','offsets_and_sizes'): s.add('SigW' if r[1]=='signatures' else 'OffW',e,i,file=r[0],row=r[2],col=r[3],val=canon(e.args[1]),mode=e.name)
                elif k!='aload': s.add('RawW',e,i,file=r[0],field=r[1])
            else: s.add({'armw':'Armw','astore':'Astore','aload':'Aload'}[k],e,i,ptr=canon(e.args[0]),val=canon(e.args[1]) if len(e.args)>1 else None,op=e.name,res=e.res,mode=e.x)
        elif k=='rd':
            r=s.slotptr(e.args[0])
            if r and r[1] in('signatures','offsets_and_sizes'): s.add('Rd',e,i,file=r[0],field=r[1],row=r[2],col=r[3])
        elif k=='user': s.add('User',e,i,op=e.name)
        elif k=='fence': s.add('Fence',e,i,op=e.name)
        elif k=='lock': s.add('Lock',e,i,cls=s.lcls[e.args[0]],mode=e.name,ptr=canon(e.args[0]),res=e.res)
        elif k=='acq': s.add('Acq',e,i,cls=lockclass(e.args[0],e.x) if e.x else s.lcls.get(e.args[0],'?'),mode=e.name,ptr=canon(e.args[0]))
        elif k=='unlock': s.add('Unlock',e,i,cls=s.gcls.get(e.res) or s.gcls.get(e.res.a[0] if isinstance(e.res,V) and e.res.op=='guard' else None) or s.lcls.get(e.args[0],'?'),mode=e.name,ptr=canon(e.args[0]),res=e.res)
        elif k=='ext':
            n=e.name.split('::')[-1]
            if n in('write_all_at','write_at','write_all','write') and len(e.args)>=2: s.add('DataW',e,i,file=s.fileid(e.args[0]),buf=canon(e.args[1]),off=canon(e.args[2]) if len(e.args)>2 else None,res=e.res,op=n)
            elif n in('read_exact_at','read_at') and len(e.args)==3: s.add('DataR',e,i,file=s.fileid(e.args[0]),buf=canon(e.args[1]),off=canon(e.args[2]),res=e.res,op=n)
            elif n=='set_len': s.add('SetLen',e,i,file=s.fileid(e.args[0]),val=canon(e.args[1]),res=e.res)
            elif n in('sync_data','sync_all'): s.add('Sync',e,i,file=s.fileid(e.args[0]),res=e.res,op=n)
            elif 'fs::' in e.name and n in('rename','copy','hard_link'): s.add('Rename',e,i,path=canon(e.args[0]),path2=canon(e.args[1]),res=e.res,op=n)
            elif 'fs::' in e.name and n in('remove_file','remove_dir_all','remove_dir'): s.add('Remove',e,i,path=canon(e.args[0]),res=e.res,op=n)
            elif 'fs::' in e.name and n in('open','create','create_new'):
                o=e.args[0]
                opts=dict((x,y) for x,y in o.a[0]) if o.op=='oo' else ({'write':TRUE,'create':TRUE,'truncate':TRUE} if n!='open' else {'read':TRUE})
                s.add('Open',e,i,path=canon(e.args[-1]),opts=opts,res=e.res,file=fld(asv(e.res,'Ok'),'0'))
            elif n=='recv' or n.startswith('recv_') or n=='join': s.add('Wait',e,i,ptr=canon(e.args[0]),res=e.res,op=n)
            elif n=='send': s.add('Send',e,i,ptr=canon(e.args[0]),val=canon(e.args[1]),res=e.res)
            else: s.add('Ext',e,i,op=e.name,res=e.res)
        elif k=='call' or k=='rec': s.add('Call',e,i,op=e.name,res=e.res,val=tuple(canon(a) for a in e.args))
        elif k=='callback': s.add('Callback',e,i,op=e.name,res=e.res)
        elif k=='cond': s.add('Cond',e,i,ptr=canon(e.name),op=e.x)
        elif k=='iter': s.add('Iter',e,i,op=e.name,ptr=canon(e.args[0]),res=e.res,mode=e.x,col=canon(e.args[1]) if len(e.args)>1 else e.res,val=canon(e.args[2]) if len(e.args)>2 else None)
        elif k=='iterend': s.add('IterEnd',e,i,op=e.name,ptr=canon(e.args[0]),mode=e.x,col=canon(e.args[1]) if len(e.args)>1 else None)
        elif k=='adapt': s.add('Adapt',e,i,op=e.name,ptr=canon(e.args[0]),mode=e.x)
        elif k=='step': s.add('Step',e,i,ptr=e.args[0],val=canon(e.args[1]))
        elif k=='panic': s.add('Panic',e,i,op=e.name)
        elif k=='drop': s.add('Drop',e,i,op=e.name,val=canon(e.args[0]))
        elif k=='consume': s.add('Consume',e,i,op=e.name,ptr=canon(e.args[0]),res=e.res,mode=e.x)
    # -------------------------------------------------------------- queries
    def ok(s,res):
        """'Ok'/'Err'/None established anywhere on the trace for a Result term"""
        if res is None: return None
        r=s.p.conds.get(mk('is',res))
        return r
    def by(s,*ks): return [x for x in s.S if x.k in ks]
    def conds(s,before=None): return [x for x in s.S if x.k=='Cond' and (before is None or x.i<before)]
    def cond(s,key,before=None):
        """value a branch established for canonical key"""
        neg=key.op=='not'
        if neg: key=key.a[0]
        r=None
        for x in s.S:
            if before is not None and x.i>=before: break
            if x.k=='Cond' and x.ptr is key: r=x.op
        return 1-r if neg and r is not None else r
    def entails(s,b,before=None):
        """is boolean term b established (1), refuted (0) or unknown (None) by the branches taken before index `before`"""
        if isc(b): return b.a[0]
        if b.op=='not':
            r=s.entails(b.a[0],before); return None if r is None else 1-r
        C={}
        for x in s.S:
            if before is not None and x.i>=before: break
            if x.k=='Cond': C[x.ptr]=x.op
        class St: pass
        st=St(); st.conds=C
        return Interp.known(None,st,b) if False else _known(C,b)
    def retvariant(s,v=None):
        v=s.ret if v is None else v
        if v is None: return None
        if v.op=='agg': return v.a[1]
        return s.p.conds.get(mk('is',v))
    def isok(s): return s.kind=='return' and s.retvariant() in('Ok',)
    def payload(s):
        if s.ret is None: return None
        return canon(fld(asv(s.ret,'Ok'),'0'))
    def held(s,x,cls):
        """[(ptr,mode)] of locks of class held at event x"""
        return [(canon(g.a[1]),g.a[2]) for g in x.ev.held if (s.gcls.get(g) or s.gcls.get(g.a[0]) or s.lcls.get(g.a[1]))==cls]
    def where(s,x): 
        return '%s %s'%(x.ev.site[0],x.ev.site[1] or '')
def _known(C,b):
    class St: pass
    st=St(); st.conds=C
    return Interp.known(_I,st,b)
class _Dummy: pass
_I=_Dummy(); _I.known=lambda st,b: Interp.known(_I,st,b)

# ------------------------------------------------------------------ program context
PH='hashing::PartedHash'
def m_ph(I,st,k):
    seed=I.deep(st,loadall(I,st,k.args[0])); b=I.deep(st,loadall(I,st,k.args[1]))
    return [('v',st,agg(PH,None,('0',),(mk('ph',canon(seed),canon(b)),)))]
class Missing(Exception): pass
class Ctx:
    def __init__(s,facts,config='default'):
        s.P=mir.load(facts); s.config=config; s.runs={}; s.inlined=set(); s.unknown={}
        s.npaths=0; s.nevents=0; s.roots=set(); s.steps=0
    def fn(s,suffix):
        c_=[p for p in s.P.fns if p==suffix]
        if not c_: c_=[p for p in s.P.fns if p.endswith('::'+suffix) and '{closure' not in p]
        if len(c_)!=1: raise Missing('anchor function %s %s'%(suffix,'not found' if not c_ else 'ambiguous: '+', '.join(c_)))
        return s.P.fns[c_[0]]
    def has(s,suffix):
        try: s.fn(suffix); return True
        except Missing: return False
    def calls(s):
        """static call graph: function -> (local functions, external functions) it mentions; bodies handed to a new thread are left out"""
        if hasattr(s,'_calls'): return s._calls
        g={}
        for p,F in s.P.fns.items():
            loc=set(); ext=set(); clo={}; spawned=set()
            for b in F.blocks:
                if b['c']: continue
                for st in b['s']:
                    if st[0]=='=' and st[2][0]=='agg' and st[2][1] and st[2][1][0]=='closure': clo[(st[1][0])]=mir.strip_generics(st[2][1][1])
                t=b['t']
                if t[0]=='call' and (t[1].get('k') or {}).get('fn','').split('::')[-1]=='spawn':
                    for a in t[2]:
                        pl=a.get('m') or a.get('c')
                        if pl and pl[0] in clo: spawned.add(clo[pl[0]])
            def walk(j):
                if isinstance(j,dict):
                    if 'fn' in j:
                        r=mir.strip_generics(j['res']) if j.get('res') else None
                        if r in s.P.fns: loc.add(r)
                        elif mir.strip_generics(j['fn']) in s.P.fns: loc.add(mir.strip_generics(j['fn']))
                        else: ext.add(mir.strip_generics(j['fn']))
                    for v in j.values(): walk(v)
                elif isinstance(j,list):
                    if len(j)==2 and j[0]=='closure' and isinstance(j[1],str):
                        q=mir.strip_generics(j[1])
                        if q in s.P.fns and q not in spawned: loc.add(q)
                    for v in j: walk(v)
            for b in F.blocks:
                if not b['c']: walk(b)
            g[p]=(loc,ext)
        s._calls=g
        return g
    def reaches(s,path,pred):
        """does the function reach an external function satisfying pred"""
        g=s.calls(); seen=set(); todo=[path]
        while todo:
            p=todo.pop()
            if p in seen or p not in g: continue
            seen.add(p)
            loc,ext=g[p]
            if any(pred(e) for e in ext): return True
            todo+=loc
        return False
    def paths(s,suffix,boundary=None,key='',args=None,raw=False,stats_event=True,maxp=60000,init=None):
        F=s.fn(suffix)
        k=(F.path,key,stats_event)
        if k in s.runs: return s.runs[k]
        b={}
        newf=[p for p in s.P.fns if p.endswith('PartedHash::new')]
        for p in newf: b[p]=m_ph
        if boundary: b.update(boundary)
        def bf(G,st):
            if stats_event and 'stats::InternalStats::' in G.path: return 'event'
            return None
        I=Interp(s.P,b,max_paths=maxp,opts={'boundary_fn':bf})
        a=args or [mk('arg',F.lname(i+1) or 'a%d'%(i+1)) for i in range(F.argc)]
        ps=I.run(F,a,init)
        ts=[T(p) for p in ps]
        s.runs[k]=ts; s.inlined|=I.inlined; s.npaths+=len(ps); s.nevents+=sum(len(p.events) for p in ps); s.roots.add(F.path); s.steps+=I.steps
        for n,m in I.unknown.items(): s.unknown[n]=s.unknown.get(n,0)+m
        return ts

# ------------------------------------------------------------------ obligations
class Report:
    def __init__(s,pid):
        s.pid=pid; s.ob={}; s.viol={}; s.notes=[]; s.t0=time.time(); s.samples={}
    def check(s,rule,where,cond,msg='',t=None,x=None):
        """one obligation: `rule` instantiated at `where` (a stable textual key, no line numbers)"""
        k=(rule,where); n,bad=s.ob.get(k,(0,0)); s.ob[k]=(n+1,bad+(0 if cond else 1))
        if not cond and k not in s.viol:
            loc=t.where(x) if t is not None and x is not None else ''
            s.viol[k]=(msg,loc,t)
        return cond
    def floor(s,rule,where,n,have):
        """fail closed when a rule matched fewer sites than confirmed by hand"""
        return s.check(rule,where,have>=n,'only %d instance(s) found, expected at least %d: the construct this rule decides is missing'%(have,n))
    def missing(s,what): s.check('anchor',str(what),False,str(what))

def whole(t,x):
    """a read or write that succeeded moved all of its bytes: by contract, or because the number was compared with the length"""
    nm=str(x.op).split('::')[-1] if x.op else ''
    if nm in('read_exact_at','write_all_at','read_exact','write_all','read_to_end'): return True
    got=fld(asv(x.res,'Ok'),'0'); mine=set(subterms(got))
    n=blen(x.buf) if getattr(x,'buf',None) is not None else None
    for y in t.conds():
        if got not in subterms(y.ptr): continue
        if n is None or isc(n): return True
        if any(q not in mine and q.op!='c' and not any(isinstance(z,V) for z in q.a) for q in subterms(y.ptr)): return True
    return False
