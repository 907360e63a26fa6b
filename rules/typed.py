"""Typed wrappers against the untyped operations (C22): equality of abstract behaviours under the encoding of arguments."""
from rules.hist import *
from rules.colls import *
from rules import results,apiops
from rules.results import argsof,undec,istyped,verb,tag

STORE={n:'store::CandyStore::'+n for n in('contains','get','replace','set','get_or_create','remove','get_big','set_big','remove_big')}
LIST=dict(contains='get_from_list',get='get_from_list',set='set_in_list',set_promoting='set_in_list_promoting',get_or_create='get_or_create_in_list',replace='replace_in_list',
          remove='remove_from_list',discard='discard_list',compact_if_needed='compact_list_if_needed',pop_tail='pop_list_tail',pop_head='pop_list_head',peek_tail='peek_list_tail',
          peek_head='peek_list_head',len='list_len',iter='iter_list',iter_backwards='iter_list_backwards')
QUEUE=dict(push_head='push_to_queue_head',push_tail='push_to_queue_tail',pop_head='pop_queue_head',pop_tail='pop_queue_tail',pop_head_with_idx='pop_queue_head_with_idx',
           pop_tail_with_idx='pop_queue_tail_with_idx',peek_head='peek_queue_head',peek_tail='peek_queue_tail',peek_head_with_idx='peek_queue_head_with_idx',
           peek_tail_with_idx='peek_queue_tail_with_idx',iter='iter_queue',iter_backwards='iter_queue_backwards',len='queue_len',range='queue_range',
           remove='remove_from_queue',discard='discard_queue',extend='extend_queue')
def pairs(C):
    r=[]
    for p,f in sorted(C.P.fns.items()):
        if not f.pub or '{closure' in p or not p.startswith('typed::CandyTyped') or p.endswith('::new'): continue
        own,n=p.split('::')[1:3]
        T,m=(STORE,'store') if own=='CandyTypedStore' else (LIST,'lists') if own=='CandyTypedList' else (QUEUE,'queues')
        u=T.get(n)
        r.append((p,next((q for q in C.P.fns if u and (q==u or q.startswith(m+'::') and q.split('::')[-1]==u and '{' not in q)),None)))
    return r
FRESH={'ret','rng','iv','item','guard','out','elem_of','collected','chunk','cnt','gvec','acc','ver','heap','mayalias','rv','al','af','time','fmtret'}
def anon(v,ids):
    """term with fresh names numbered by first appearance and loop names without their call context"""
    memo={}
    def go(x):
        if isinstance(x,tuple): return tuple(go(y) for y in x)
        if not isinstance(x,V): return x
        r=memo.get(x)
        if r is None:
            if x.op in FRESH and x.a and isinstance(x.a[0],int): 
                k=ids.setdefault(x.a[0],len(ids)); r=(x.op,k)+(() if x.op in('iv','gvec') else tuple(go(y) for y in x.a[1:]))
            elif x.op=='lv': r=('lv',)+tuple(x.a[0][:2] if isinstance(x.a[0],tuple) else (x.a[0],))+tuple(go(y) for y in x.a[1:])
            elif x.op in('lin',): r=(x.op,x.a[0],tuple(sorted(((repr(go(t)),k) for t,k in x.a[1]))))
            else: r=(x.op,)+tuple(go(y) for y in x.a)
            memo[x]=r
        return r
    return go(v)
def keybody(k):
    if k.ns is None: return k.t
    return join(k.body)
def sig(C,h,tab,full=False):
    """abstract behaviour: the sequence of operations on keys with arguments and outcomes"""
    ids={}; r=[]; outs=[]
    sb=lambda v: subst(v,tab) if tab else v
    for o in h.ops:
        if o.res is not None and o.res.op in FRESH: ids.setdefault(o.res.a[0],len(ids))
        if o.key is None: r.append((o.kind,)); outs.append((o.st,None)); continue
        k=Key(C,sb(o.key.t)) if tab else o.key
        a=anon(keybody(k),ids)
        v=anon(sb(o.val),ids) if o.val is not None else None
        m=o.mode.a[1] if o.mode is not None else None
        if m=='Replace': m='Replace'
        r.append((o.kind,a,v,m)); outs.append((o.st,o.out))
    return tuple(r),tuple(outs)
def describe(C,h):
    return ' ; '.join('%s %s%s -> %s'%(o.kind,show(o.key.t)[:100] if o.key else '',(' = '+show(o.val)[:60]) if o.val is not None else '',o.out or o.st) for o in h.ops) or 'no operation'
def uses(C,hs,a):
    """how a typed argument reaches the store: 'enc', 'opt' (Some contents encoded), 'raw'"""
    cfg=None; how=set()
    for h in hs:
        for v in [o.key.t for o in h.ops if o.key is not None]+[o.val for o in h.ops if o.val is not None]+[o.mode for o in h.ops if o.mode is not None]+[canon(h.norm(h.t.ret)) if h.t.ret is not None else c(0)]:
            for y in subterms(v):
                if isinstance(y,V) and y.op=='enc':
                    x=canon(y.a[0])
                    if x is a: how.add(('enc',y.a[1]))
                    elif x is fld(asv(a,'Some'),'0'): how.add(('opt',y.a[1]))
    return how
def C22(C,R):
    n=results.C29(C,R,typed=True)
    q=Report(R.pid); q.tier=getattr(R,'tier','quick'); apiops.C10_api(C,q); ex=0
    for k,(m0,bad) in q.ob.items():
        if k[0]=='the expectation is passed on as given' and 'Typed' in k[1]:
            ex+=m0; R.ob[k]=(m0,bad)
            if k in q.viol: R.viol[k]=q.viol[k]
    R.floor('expectations passed on','typed',2,ex)
    ps=pairs(C); R.floor('typed API surface','typed',35,len(ps))
    m=0; cfgs={}
    nsb={o.key.ns for p,u in ps if p.startswith('typed::CandyTypedStore::') and not p.endswith('_big') for h in hists(C,p) for o in h.ops if o.key is not None and o.key.ns is not None}
    nsb=[mk('cb',bytes([b])) for b in nsb] if len(nsb)==1 else []
    for p,u in ps:
        w=tag(p)
        hs=hists(C,p)
        for h in hs:
            configs(C,h,cfgs,w)
        if u is None: continue
        m+=1
        A=argsof(C,p)[1:]; U=argsof(C,u)[1:]
        if verb(p) in('iter','iter_backwards'):
            iters(C,R,p,u,A,U,w); continue
        tab={}; raw=[]
        for i,a in enumerate(U):
            if i>=len(A): break
            how=uses(C,hs,A[i])
            k={x for x,_ in how}
            if i==0:
                e=mk('enc',A[i],next(iter(how))[1]) if how else A[i]
                tab[a]=cat([e,typeid(C)]+(nsb if p.endswith('_big') else [])) if how else A[i]
            elif k=={'enc'}: tab[a]=mk('enc',A[i],next(iter(how))[1])
            elif a is not A[i]: tab[a]=A[i]
        try: us=hists(C,u)
        except Missing: us=[]
        su={}
        for h in us:
            if h.t.kind!='return': continue
            q,o_=sig(C,h,tab); su.setdefault(q,{}).setdefault(o_,h)
        st={}
        for h in hs:
            if h.t.kind!='return': continue
            q,o_=sig(C,h,None); st.setdefault(q,{}).setdefault(o_,h)
        for q,d in st.items():
            for o_,h in d.items():
                R.check('a typed operation does what the untyped one does on the encoded arguments',w,match(q,o_,su),'performs: %s, which %s never does'%(describe(C,h)[:500],short(u)),h.t,h.ops[-1].x if h.ops else None)
        miss=[h for q,d in su.items() for o_,h in d.items() if not match(q,o_,st)]
        R.check('a typed operation does everything the untyped one does',w,not miss,'never performs: %s'%(describe(C,miss[0])[:500] if miss else ''),miss[0].t if miss else None)
        panics(C,R,hs,w)
    R.floor('typed operations with an untyped counterpart','typed',35,m)
    l=sorted(cfgs.items(),key=lambda z:str(z[0]))
    R.floor('uses of the encoding','typed',60,sum(len(v) for v in cfgs.values()))
    R.check('encoding and decoding use the same format everywhere','typed',len(cfgs)==1,'different formats: %s'%'; '.join('%s in %s'%(k,v[0]) for k,v in l))
def match(q,outs,S):
    """is there a behaviour with these operations whose outcomes agree (an outcome handed to the caller unexamined stands for all)"""
    for o2 in S.get(q,()):
        if all((a is None or x is None or a==x) and (b is None or y is None or b==y) for (a,b),(x,y) in zip(outs,o2)): return True
    return False
def typeid(C):
    return mk('bytes','u32',mk('const','typed::CandyTypedKey::TYPE_ID'))
def configs(C,h,cfgs,w):
    vs=[o.key.t for o in h.ops if o.key is not None]+[o.val for o in h.ops if o.val is not None]
    if h.t.ret is not None: vs.append(h.t.ret)
    for v in vs:
        for y in subterms(v):
            if isinstance(y,V) and y.op=='enc': cfgs.setdefault(str(y.a[1]),[]).append(w)
            elif isinstance(y,V) and y.op=='decres': cfgs.setdefault(str(y.a[2]),[]).append(w)
def panics(C,R,hs,w):
    for h in hs:
        if h.t.kind!='panic': continue
        dec=[x for x in h.t.p.conds if x.op=='is' and x.a[0].op=='decres' and h.t.p.conds[x]=='Err']
        R.check('undecodable data never panics',w,not dec,'panics when stored bytes cannot be decoded',h.t)
def iters(C,R,p,u,A,U,w):
    """the iterator returned is the untyped one over the encoded collection key, mapped through decoding"""
    ku=[h.t.ret for h in hists(C,u) if h.t.kind=='return']
    R.check('a typed operation does what the untyped one does on the encoded arguments',w,len(ku)==1,'several outcomes',None)
    for h in hists(C,p):
        if h.t.kind!='return': continue
        ret=canon(h.norm(h.t.ret))
        ags=[y for y in subterms(ret) if isinstance(y,V) and y.op=='agg' and y.a[0].endswith('Iterator') and '::' in y.a[0]]
        enc=[y for y in subterms(ret) if isinstance(y,V) and y.op=='enc']
        R.check('a typed operation does what the untyped one does on the encoded arguments',w,len(ags)==1 and bool(enc),'does not return an iterator over the collection: %s'%show(ret)[:200],h.t)
        if len(ags)!=1 or not enc: continue
        tab={U[0]:cat([mk('enc',A[0],enc[0].a[1]),typeid(C)])}
        want=subst(canon(ku[0]),tab); want=subst(want,{fld(mk('arg','self'),'store'):mk('arg','self')})
        R.check('a typed operation does what the untyped one does on the encoded arguments',w,canon(want) is canon(ags[0]),'iterates %s instead of %s'%(show(ags[0])[:300],show(want)[:300]),h.t)
        cl=[y for y in subterms(ret) if isinstance(y,V) and (y.op=='closure' or y.op=='agg' and '{closure' in y.a[0])]
        for cp in sorted(q for q in C.P.fns if q.startswith(p+'::{closure') and q.count('{closure')==1):
            for t in C.paths(cp,key='api'):
                item(C,R,t,cp,w,'list' if 'List' in p else 'queue')
def item(C,R,t,cp,w,fam):
    F=C.P.fns[cp]; a=mk('arg',F.lname(F.argc) or 'a%d'%F.argc)
    rule='an item of a typed iterator is the decoded untyped item'
    if t.kind!='return':
        R.check('undecodable data never panics',w,False,'the iterator panics',t); return
    ret=undec(t.ret); src=t.p.conds.get(mk('is',a))
    if src is None: R.check(rule,w,False,'an item is produced without looking at the untyped item',t); return
    if src=='Err':
        ok=ret.op=='agg' and ret.a[1]=='Err' and canon(ret.a[3][0]) is canon(fld(asv(a,'Err'),'0')) or canon(ret) is a
        R.check(rule,w,ok,'an error becomes %s'%show(ret)[:150],t); return
    k,v=fld(fld(asv(a,'Ok'),'0'),'0'),fld(fld(asv(a,'Ok'),'0'),'1')
    if ret.op=='agg' and ret.a[1]=='Ok':
        pay=canon(ret.a[3][0])
        ok=pay.op=='agg' and len(pay.a[3])==2
        if ok:
            x,y=pay.a[3]
            ok=y.op=='DEC' and canon(y.a[0]) is canon(v) and (x.op=='DEC' and canon(x.a[0]) is canon(k) if fam=='list' else canon(x) is canon(k))
        R.check(rule,w,ok,'the item becomes %s'%show(pay)[:200],t)
    else:
        e=ret.a[3][0] if ret.op=='agg' else ret
        while e.op=='anyerr': e=e.a[0]
        R.check(rule,w,e.op=='DECERR','the item becomes %s'%show(ret)[:200],t)
