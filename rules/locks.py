"""C09: lock order, re-acquisition, waiting for background work and caller-supplied code, by summaries over the functions that
cross a module boundary or recurse; everything else is inlined."""
from rules.lib import *
import re
LK=re.compile(r'(parking_lot|lock_api|std::sync|std::thread|crossbeam_channel)\b.*::(lock|read|write|upgradable_read|read_recursive|with_upgraded|upgrade|recv|recv_timeout|join|try_lock|wait|lock_arc|read_arc|write_arc|send)$')
CALLBACK=re.compile(r'std::ops::(FnOnce::call_once|FnMut::call_mut|Fn::call)$')
def module(p): return p.lstrip('<&').split('::')[0]
HOLDS=re.compile(r'\b(shard::Shard|router::ShardRouter|router::ShardNode)\b')
CHAN=re.compile(r'(crossbeam_channel|mpsc)\b.*::(bounded|unbounded|channel|sync_channel|array_queue)$')
def tystr(C,F,i): return C.P.types[F.locals[i][0]]['s'] if i<len(F.locals) else ''
class Locks:
    def __init__(s,C,R):
        s.C=C; s.R=R; g=s.g=C.calls()
        s.callers={}
        for p,(loc,ext) in g.items():
            for q in loc: s.callers.setdefault(q,set()).add(p)
        s.lockish={p for p in g if C.reaches(p,lambda n: LK.search(n) or CALLBACK.search(n))}
        reach={}
        def reached(p):
            if p not in reach:
                seen=set(); todo=list(g[p][0])
                while todo:
                    q=todo.pop()
                    if q in seen or q not in g: continue
                    seen.add(q); todo+=g[q][0]
                reach[p]=seen
            return reach[p]
        s.recursive={p for p in g if p in reached(p)}
        s.bound={}
        for p in g:
            if '{closure' in p or p.endswith('PartedHash::new'): continue
            F=C.P.fns[p]
            if any('Guard<' in tystr(C,F,i) for i in range(F.argc+1)): continue
            cross=any(module(q)!=module(p) for q in s.callers.get(p,()))
            if cross or p in s.recursive: s.bound[p]='event'
        direct=set(); todo=[p for p in g if any(LK.search(e) or CALLBACK.search(e) for e in g[p][1])]
        while todo:
            p=todo.pop()
            if p in direct: continue
            direct.add(p)
            for q in s.callers.get(p,()):
                if p not in s.bound: todo.append(q)
        for p in g:
            if '{closure' in p or p.endswith('PartedHash::new') or p in s.bound or p in direct: continue
            F=C.P.fns[p]
            if any('Guard<' in tystr(C,F,i) for i in range(F.argc+1)): continue
            if any('{closure' in q for q in g[p][0] if q in direct): continue
            if (p in s.lockish or loops(F)): s.bound[p]='event'
        s.dropfn=[p for p in g if p.endswith('::drop') and ' as std::ops::Drop>' in p]
        for p in s.dropfn:
            if not any('Guard<' in tystr(C,C.P.fns[p],i) for i in range(C.P.fns[p].argc+1)): s.bound.setdefault(p,'event')
        s.spawned=spawned(C)
        roots=set(q for q in s.bound if q in s.lockish)
        for p,F in C.P.fns.items():
            if p in s.lockish and '{closure' not in p and (F.pub or not s.callers.get(p)): roots.add(p)
        roots|=set(s.spawned)
        s.built={}; s.units={}; todo=sorted(roots)
        while todo:
            p=todo.pop()
            if p in s.units or p not in C.P.fns: continue
            u=s.units[p]=Unit(s,p)
            for c_ in u.calls: 
                for q in c_.closures:
                    if q not in s.units: todo.append(q)
        s.summaries()
    def summaries(s):
        ch=True
        while ch:
            ch=False
            for u in s.units.values():
                for c_ in u.calls:
                    for a in s.through(u,c_):
                        if a not in u.sum: u.sum[a]=(c_.x,c_.t); ch=True
    def through(s,u,c_):
        """what a call acquires, in the terms of the calling unit"""
        out=[]
        v=s.units.get(c_.callee)
        if v is not None:
            tab=v.actuals(c_.args)
            for (cls,w,mode) in v.sum:
                if w is not None and fresh(s.C,w.term): continue
                out.append((cls,w.to(u,tab) if w else None,mode))
        for q in c_.closures:
            v=s.units.get(q)
            if v is not None:
                for (cls,w,mode) in v.sum: out.append((cls,None,mode))
        return out
def spawned(C):
    r=[]
    for p,F in C.P.fns.items():
        clo={}
        for b in F.blocks:
            for st in b['s']:
                if st[0]=='=' and st[2][0]=='agg' and st[2][1] and st[2][1][0]=='closure': clo[st[1][0]]=mir.strip_generics(st[2][1][1])
        for b in F.blocks:
            t=b['t']
            if not b['c'] and t[0]=='call' and (t[1].get('k') or {}).get('fn','').split('::')[-1]=='spawn':
                for a in t[2]:
                    pl=a.get('m') or a.get('c')
                    if pl and pl[0] in clo: r.append(clo[pl[0]])
    return r
def loops(F):
    def succ(b):
        t=F.blocks[b]['t']; out=[]
        def walk(j):
            for v in j:
                if isinstance(v,int) and 0<=v<len(F.blocks): out.append(v)
                elif isinstance(v,(list,tuple)): walk(v)
        if t[0]=='goto': out=[t[1]]
        elif t[0]=='call': out=[t[4]] if t[4] is not None else []
        elif t[0]=='drop': out=[t[2]]
        elif t[0]=='assert': out=[t[4]]
        elif t[0]=='switch': out=[y for _,y in t[2]]+([t[3]] if t[3] is not None else [])
        return out
    col={}; st=[(0,iter(succ(0)))]; col[0]=1
    while st:
        b,it=st[-1]
        for n in it:
            if col.get(n)==1: return True
            if n not in col: col[n]=1; st.append((n,iter(succ(n)))); break
        else: col[b]=2; st.pop()
    return False
class Where:
    """a lock: the term that addresses it, or (below) anything under the contents of the lock/object `term`"""
    __slots__=('term','below')
    def __init__(s,term,below=False): s.term=term; s.below=below
    def key(s): return (s.term,s.below)
    def __eq__(s,o): return isinstance(o,Where) and s.key()==o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return ('below ' if s.below else '')+show(s.term)
    def root(s): return rootof(s.term)
    def to(s,u,tab):
        r=rootof(s.term)
        if r.op!='arg': return None
        if r not in tab: return None
        t=canon(subst(s.term,{r:tab[r]}))
        return where(t,s.below)
def rootof(t):
    while t.op in('fld','idx','as','slice'): t=t.a[0]
    return t
def where(t,below=False):
    """collapse everything under the contents of a lock to that lock"""
    cur=t; chain=[t]
    while cur.op in('fld','idx','as','slice'): cur=cur.a[0]; chain.append(cur)
    chain.reverse()
    # exact as long as the path crosses at most one lock
    cross=[x for x in chain if x.op=='fld' and x.a[1]=='$']
    if len(cross)>1: return Where(cross[1],True)
    return Where(t,below)
def under(t,lock):
    """is the term t part of the contents of `lock`"""
    d=fld(lock,'$')
    while True:
        if t is d: return True
        if t.op in('fld','idx','as','slice'): t=t.a[0]
        else: return False
def fresh(C,t):
    """an object built on this path that no one else can reach"""
    r=rootof(t)
    if r.op in('agg','lock'): return True
    if r.op=='ret':
        F=C.P.fns.get(next((x for x in r.a if isinstance(x,str)),''))
        if F is not None:
            ty=tystr(C,F,0); return '&' not in ty and 'Arc<' not in ty and bool(HOLDS.search(ty))
    return False
class Acq_:
    __slots__=('cls','w','mode','held','x','t')
class Call_:
    __slots__=('callee','args','closures','held','x','t','drop')
class Unit:
    def __init__(s,L,p):
        C=L.C; F=C.P.fns[p]; s.path=p; s.F=F
        s.params=[mk('arg',F.lname(i+1) or 'a%d'%(i+1)) for i in range(F.argc)]
        b={q:k for q,k in L.bound.items() if q!=p}
        s.T=C.paths(p,boundary=b,key='locks',stats_event=False)
        s.acqs=[]; s.calls=[]; s.cbs=[]; s.waits=[]; s.users=[]; s.sends=[]; s.sum={}; s.req={}
        s.leaks=[]
        for t in s.T:
            for x in t.S:
                H=held(t,x)
                if x.k=='Acq':
                    a=Acq_(); a.cls=cls_of(t,x); a.w=where(x.ptr); a.mode=x.mode; a.held=H; a.x=x; a.t=t; s.acqs.append(a)
                    same=[h for h in H if h[1] is x.ptr]
                    if not(x.mode=='rr' and any(h[2] in('r','rr','try_r') for h in same)): s.sum.setdefault((a.cls,a.w,a.mode),(x,t))
                elif x.k=='Wait':
                    s.waits.append((x,t,H)); s.sum.setdefault(('WAIT',None,''),(x,t))
                elif x.k=='User': s.users.append((x,t,H)); s.sum.setdefault(('USER',None,x.op),(x,t))
                elif x.k=='Send': s.sends.append((x,t,H))
                elif x.k=='Callback':
                    s.cbs.append((x,t,H))
                    f=x.ev.args[0] if x.ev.args else None
                    r=rootof(canon(f)) if isinstance(f,V) else None
                    s.sum.setdefault(('CALLBACK',Where(r) if r is not None and r.op=='arg' else None,''),(x,t))
                elif x.k=='Call' or x.k=='Drop':
                    if x.k=='Call': tg=[x.op]; args=x.val
                    else:
                        tg=[] if 'Guard<' in x.op or x.op.startswith('&') or not HOLDS.search(x.op) or unstarted(L,x.val) else [d for d in L.dropfn if HOLDS.search(d)]
                        args=()
                    for q in tg:
                        if q not in L.bound and q!=p: continue
                        c_=Call_(); c_.callee=q; c_.args=args; c_.held=H; c_.x=x; c_.t=t; c_.drop=x.k=='Drop'
                        c_.closures=[y for y in closures_in(args)]
                        if q in L.lockish or c_.closures: s.calls.append(c_)
                if t.kind!='panic' and x is t.S[-1]: pass
            if t.kind=='return':
                out=[x for x in t.p.held] if hasattr(t.p,'held') else []
                ret=subterms(t.ret) if t.ret is not None else set()
                g=[h for h in ret if isinstance(h,V) and h.op=='guard']
                if g: s.leaks.append((t,g))
        s.params_set=set(s.params)
    def actuals(s,args): return {p_:a for p_,a in zip(s.params,args)}
def unstarted(L,v,depth=0):
    """a shard that was just built: no compaction handle, no one else knows it"""
    if v.op=='agg' and v.a[0].endswith('shard::Shard'):
        try:
            h=fld(fld(v,'compaction_handle'),'$')
            return h.op=='agg' and h.a[1]=='None'
        except Exception: return False
    if v.op=='agg': return all(unstarted(L,y,depth) for y in v.a[3] if isinstance(y,V) and holds(L,y))
    r=rootof(v)
    if r.op=='ret' and depth<3 and v.op!='ret':
        p=next((x for x in r.a if isinstance(x,str)),'')
        F=L.C.P.fns.get(p)
        if F is None or not HOLDS.search(tystr(L.C,F,0)) or '&' in tystr(L.C,F,0) or 'Arc<' in tystr(L.C,F,0): return False
        if p not in L.built:
            L.built[p]=False
            b={q:k for q,k in L.bound.items() if q!=p}
            ts=[t for t in L.C.paths(p,boundary=b,key='locks',stats_event=False) if t.kind=='return' and t.ret is not None]
            L.built[p]=bool(ts) and all(t.retvariant()=='Err' or t.payload() is not None and unstarted(L,t.payload(),depth+1) for t in ts)
        return L.built[p]
    return False
def holds(L,y):
    return not(y.op in('c','cb','len')) 
def closures_in(args):
    out=[]
    for a in args:
        if not isinstance(a,V): continue
        # what was collected into a list has been computed already
        if contains(a,lambda q:q.op in('gvec','iv')): a=rebuild(a,{},lambda q: mk('made',q.a[0]) if q.op in('gvec','iv') else None)
        for y in subterms(a):
            if isinstance(y,V) and y.op=='agg' and isinstance(y.a[0],str) and y.a[0].startswith('closure:'): out.append(y.a[0][8:])
    return sorted(set(out))
def cls_of(t,x):
    c_=x.cls
    return c_
def held(t,x):
    return [(t.gcls.get(g) or t.gcls.get(g.a[0]) or t.lcls.get(g.a[1]) or '?',canon(g.a[1]),g.a[2]) for g in x.ev.held]

# ------------------------------------------------------------------ the rule
WAITS_FOR='background work'
def C09(C,R):
    L=Locks(C,R)
    sh='shared locks: '
    # 1. what background work needs
    W=set()
    for p in L.spawned:
        u=L.units.get(p)
        if u is None: R.missing('no body found for the background thread'); continue
        W|={a[0] for a in u.sum}
    R.floor('the background thread takes locks','threads',1,len(W&{'FILES','ROW'}))
    R.check('background work never waits for background work','threads','WAIT' not in W,'the background thread waits for the result of a task, which only a background thread can produce')
    edges={}
    def edge(a,b,u,x,t,why): edges.setdefault((a,b),(u.path,x,t,why))
    # 2. same-class acquisitions, requirements
    pend=[]
    for u in L.units.values():
        for a in u.acqs: conflict(C,R,L,u,a.cls,a.w,a.mode,a.held,a.x,a.t,edge,'')
        for (x,t,H) in u.waits:
            for h in H:
                if h[0] in W and finished(C,t,x,h):
                    R.check('a wait under a lock the task needs is only for a finished task','%s %s'%(short_(u.path),h[0]),True); continue
                edge(h[0],'WAIT',u,x,t,'')
        for c_ in u.calls:
            via=short_(c_.callee)
            for (cls,w,mode) in L.through(u,c_):
                if cls in('USER','CALLBACK'): continue
                if cls=='WAIT':
                    for h in c_.held: edge(h[0],'WAIT',u,c_.x,c_.t,' through '+via)
                    continue
                conflict(C,R,L,u,cls,w,mode,c_.held,c_.x,c_.t,edge,' through '+via)
            # closures run with what the callee holds when it calls back
            v=L.units.get(c_.callee)
            if v is not None and c_.closures:
                H=calledback(L,v)
                for q in c_.closures:
                    k=L.units.get(q)
                    if k is None: continue
                    for (cls,w,mode) in k.sum:
                        if cls in('USER','CALLBACK'): continue
                        for h in H:
                            if cls=='WAIT' or cls!=h: edge(h,cls,u,c_.x,c_.t,' in the closure run by '+via)
                            else: R.check('no lock is taken again while held','%s %s'%(short_(u.path),cls),False,'a closure run by %s takes a %s lock while %s already holds one'%(via,cls,via),c_.t,c_.x)
    # 3. requirements: an exclusive ancestor of the parameters
    ch=True; seen=set()
    while ch:
        ch=False
        for u in list(L.units.values()):
            for c_ in u.calls:
                v=L.units.get(c_.callee)
                if v is None or not v.req: continue
                tab=v.actuals(c_.args)
                for prm in v.req:
                    a=tab.get(prm)
                    if a is None: continue
                    k=(u.path,c_.x.i,id(c_.t),prm)
                    if k in seen: continue
                    seen.add(k)
                    if any(h[0]=='NODE' and h[2] in('w','w+') and under(a,h[1]) for h in c_.held) or fresh(C,a):
                        R.check('two locks of a kind are only held under an exclusive ancestor','%s -> %s'%(short_(u.path),short_(v.path)),True); continue
                    r=rootof(a)
                    if r in u.params_set and '{closure' not in u.path and not u.F.pub:
                        if r not in u.req: u.req[r]=(c_.x,c_.t); ch=True
                        seen.discard(k) if False else None
                        continue
                    R.check('two locks of a kind are only held under an exclusive ancestor','%s -> %s'%(short_(u.path),short_(v.path)),False,'%s takes two locks of one kind on its arguments, and %s calls it without holding the part of the tree they are in for writing'%(short_(v.path),short_(u.path)),c_.t,c_.x)
    for u in L.units.values():
        if u.req and (u.F.pub or not any(c_.callee==u.path for v in L.units.values() for c_ in v.calls)):
            x,t=next(iter(u.req.values()))
            R.check('two locks of a kind are only held under an exclusive ancestor',short_(u.path),False,'takes two locks of one kind, and nothing keeps another thread from taking them in the other order',t,x)
    # 4. one global order
    for c_ in W:
        if c_!='WAIT': edges.setdefault(('WAIT',c_),('background thread',None,None,'the task waited for'))
    G={}
    for (a,b) in edges: G.setdefault(a,set()).add(b)
    reach={}
    for a in G:
        sn=set(); td=[a]
        while td:
            y=td.pop()
            for z in G.get(y,()):
                if z not in sn: sn.add(z); td.append(z)
        reach[a]=sn
    def path(a,b):
        prev={a:None}; td=[a]
        while td:
            y=td.pop(0)
            if y==b: break
            for z in sorted(G.get(y,())):
                if z not in prev: prev[z]=y; td.append(z)
        out=[]; y=b
        while y is not None: out.append(y); y=prev.get(y)
        return out[::-1]
    for (a,b),(p,x,t,why) in sorted(edges.items()):
        cyc=a in reach.get(b,())
        m=''
        if cyc: 
            pt=path(b,a); m='%s takes or waits for %s while holding %s%s, but elsewhere the order is %s (%s)'%(short_(p),b,a,why,' > '.join(pt),'; '.join('%s > %s in %s'%(c1,c2,short_(edges[(c1,c2)][0])) for c1,c2 in zip(pt,pt[1:])))
        R.check('locks are taken in one global order','%s > %s'%(a,b),not cyc,m,t,x)
    for a,b in (('NODE','FILES'),('FILES','ROW'),('HANDLE','FILES'),('KEYED','NODE'),('HANDLE','WAIT'),('NODE','WAIT')):
        R.check('the expected orders are seen','%s > %s'%(a,b),(a,b) in edges or a=='NODE' and b=='FILES' and ('NODE','FILES') in edges,'no place was found that takes %s while holding %s: the analysis lost track of a lock'%(b,a))
    # 5. caller-supplied code
    for u in L.units.values():
        for (x,t,H) in u.users:
            R.check('no caller-supplied code runs under a lock','%s %s'%(short_(u.path),x.op),not H,'%s is code of the caller\'s type, and runs while %s is held'%(x.op,', '.join(sorted({h[0] for h in H}))),t,x)
        for c_ in u.calls:
            th=L.through(u,c_)
            us=sorted({a[2] for a in th if a[0]=='USER'})
            if us:
                R.check('no caller-supplied code runs under a lock','%s via %s'%(short_(u.path),short_(c_.callee)),not c_.held,'%s runs code of the caller\'s type (%s) while %s is held'%(short_(c_.callee),', '.join(us),', '.join(sorted({h[0] for h in c_.held}))),c_.t,c_.x)
        if u.F.pub or '{closure' in u.path:
            for (x,t,H) in u.cbs:
                if u.F.pub: R.check('no caller-supplied code runs under a lock','%s callback'%short_(u.path),not H,'a function given by the caller runs while %s is held'%', '.join(sorted({h[0] for h in H})),t,x)
        if u.F.pub:
            for c_ in u.calls:
                for (cls,w,mode) in L.through(u,c_):
                    if cls=='CALLBACK' and w is not None and rootof(w.term) in u.params_set and calledback(L,L.units[c_.callee]):
                        R.check('no caller-supplied code runs under a lock','%s callback via %s'%(short_(u.path),short_(c_.callee)),False,'a function given by the caller is run by %s, which holds %s'%(short_(c_.callee),', '.join(sorted(calledback(L,L.units[c_.callee])))),c_.t,c_.x)
        if u.path not in C.P.fns or '{closure' in u.path: continue
        R.check('no operation returns while still holding a lock',short_(u.path),not u.leaks,'the result carries a lock guard: %s'%(show(u.leaks[0][1][0]) if u.leaks else ''))
    # 6. sends never block: queues are unbounded; a bounded channel carries at most as many results as it has room for
    nch=0
    for p,(loc,ext) in sorted(L.g.items()):
        if not any(CHAN.search(e) for e in ext): continue
        for t in C.paths(p,boundary={q:k for q,k in L.bound.items() if q!=p},key='locks',stats_event=False):
            for x in t.S:
                if x.k!='Ext' or not CHAN.search(x.op): continue
                nch+=1; w=short_(p)
                if x.op.split('::')[-1] in('unbounded','channel'): R.check('handing over work or results never blocks',w,True); continue
                cap=canon(x.ev.args[0]) if x.ev.args else None
                tx=fld(x.res,'0')
                sent=[y for y in t.by('Send') if tx in subterms(y.val)]
                direct=[y for y in t.by('Send') if isinstance(y.ptr,V) and tx in subterms(y.ptr)]
                R.check('handing over work or results never blocks',w,isc(cap) and cap.a[0]>=1 and len(sent)+len(direct)==1,'a channel of limited capacity: its sender can be kept waiting',t,x)
    R.floor('handing over work or results never blocks','channels',2,nch)
    for p in L.spawned:
        u=L.units.get(p)
        if u is None: continue
        for t in u.T:
            R.check('handing over work or results never blocks','background thread',len(t.by('Send'))<=1,'more than one result is sent for one task: the second one waits until the first is taken',t)
    R.floor('handing over work or results never blocks','background thread',1,sum(len(u.sends) for p,u in L.units.items() if p in L.spawned))
    R.floor('units','functions with locks',60,len(L.units))
def short_(p): return p.replace('std::iter::','').replace('std::ops::','')
def calledback(L,v):
    """classes a unit holds when it runs the closure it was given"""
    out={h[0] for (x,t,H) in v.cbs for h in H}
    for c_ in v.calls:
        w=L.units.get(c_.callee)
        if w is not None and w is not v and any(rootof(canon(a)) in v.params_set for a in c_.args if isinstance(a,V)) and (w.cbs):
            out|={h[0] for (x,t,H) in w.cbs for h in H}|{h[0] for h in c_.held}
        if w is v: out|={h[0] for h in c_.held}
    return out
def conflict(C,R,L,u,cls,w,mode,H,x,t,edge,via):
    if mode=='rr' and w is not None and any(hp is w.term and hm in('r','rr','try_r','u') for hc,hp,hm in H) and not w.below: 
        R.check('a shared lock is only taken again in a way that cannot wait','%s %s%s'%(short_(u.path),cls,via),True); return
    for (hc,hp,hm) in H:
        if hc!=cls: 
            if w is not None and fresh(C,w.term): continue
            edge(hc,cls,u,x,t,via); continue
        wh='%s %s%s'%(short_(u.path),cls,via)
        if w is None:
            R.check('no lock is taken again while held',wh,False,'takes some %s lock%s while already holding one (%s)'%(cls,via,show(hp)),t,x); continue
        if fresh(C,w.term) or fresh(C,hp): continue
        if not w.below and w.term is hp:
            okk=(mode=='rr' and hm in('r','rr','try_r','u')) or (mode=='w+' and hm=='u')
            R.check('no lock is taken again while held',wh,okk,'takes %s%s again (%s) while already holding it (%s)'%(show(hp),via,mode,hm),t,x); continue
        if under(w.term,hp):
            R.check('a lock of the same kind is only taken below the one held',wh,True); continue
        if any(h[0]=='NODE' and h[2] in('w','w+') and h[1] is not hp and under(w.term,h[1]) and under(hp,h[1]) for h in H):
            R.check('a lock of the same kind is only taken below the one held',wh,True); continue
        r1=rootof(w.term); r2=rootof(hp)
        if cls in('NODE','FILES') and r1 in u.params_set and r2 in u.params_set and r1 is not r2 and '{closure' not in u.path:
            for r in(r1,r2): u.req.setdefault(r,(x,t))
            continue
        R.check('no lock is taken again while held',wh,False,'takes %s %s%s while holding %s: nothing orders the two'%(cls,w,via,show(hp)),t,x)
def finished(C,t,x,h):
    """the task waited for needs no lock any more: its target was merged, or its result is already there"""
    since=max([y.i for y in t.by('Lock') if y.i<x.i and y.ptr is h[1]],default=-1)
    for y in t.conds(x.i):
        if y.i<since: continue
        k=y.ptr
        if k.op=='is' and k.a[0] is fld(fld(h[1],'$'),'1') and y.op=='None' and h[2]=='w': return True
        if y.op in(0,1) and 'is_empty' in show(k):
            neg=k.op=='not'
            if (y.op==0)!=neg: return True
        # or counted: more than none
        if y.op in(0,1) and k.op in('lt','le','eq','ne') and any('Receiver' in show(q) and '::len' in show(q) for q in k.a if isinstance(q,V)):
            z=[i for i,q in enumerate(k.a) if q.op=='c']; b=k.a[z[0]].a[0] if z else None; first=z==[0]
            if (k.op,first,b,y.op) in(('lt',True,0,1),('lt',False,1,0),('le',True,1,1),('le',False,0,0),('eq',True,0,0),('eq',False,0,0),('ne',True,0,1),('ne',False,0,1)): return True
    return False
