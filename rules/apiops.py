"""Key, list, queue and big-value operations against their arguments: API-level parts of C03 C10 C11 C13 C27 C29."""
from rules.hist import *
from rules.colls import *
from rules.results import *
from rules.iters import isrange
from rules import shard

LISTITEM=SETS+GOC+REPL+('get_from_list','remove_from_list')
def forms(C,h,a,first):
    """terms an argument may reach the store as: itself, or its encoding"""
    r=[a]
    return r
def given(C,root,h,a,t,coll):
    """is t the argument a as handed over (typed: encoded, collection and plain keys with type id behind it)"""
    if t is None: return False
    if not istyped(root): return t is a
    ps=pieces(C,t)
    if not ps or not(isinstance(ps[0],V) and ps[0].op=='enc' and canon(ps[0].a[0]) is a): return False
    if not coll: return len(ps)==1
    return len(ps)>=2 and isinstance(ps[1],tuple) and ps[1][0]=='u32' and ps[1][1].op=='const' and 'TYPE_ID' in str(ps[1][1].a) and all(isinstance(p,bytes) for p in ps[2:])
def bodyof(v):
    """value without its last 8 bytes when it is made of a part and a position"""
    ps=parts_of(v)
    if len(ps)>=2:
        l=ps[-1]
        if l.op=='bytes' and l.a[0]=='u64' or l.op=='slice' and sub(l.a[2],l.a[1]) is c(8): return cat(list(ps[:-1]))
    return None
FAMS=(('plain','plain'),('typed','plain'),('list','list'),('queue','queue'),('big','queue'))
def C11_api(C,R):
    RO=rootsof(C); n=0; m=0; q=0
    rk='an operation touches the keys it was asked for only'; rv='the value stored is the one given'
    for fam,f in FAMS:
        for r in RO[fam]:
            A=argsof(C,r); v=verb(r); it=v=='next'
            for h in hists(C,r):
                analyse(C,h)
                for o in h.ops:
                    if o.key is None: continue
                    role,k,e=keyrole(C,h,o); w='%s: %s of %s'%(tag(r),o.kind,role); n+=1
                    if it:
                        # bound to the iterator's own collection
                        own=owner(k,role) if e is None else owner(k,role)
                        ok=own is not None and contains(own,lambda y:y is A[0] or y.op=='arg') or own is not None and own.op in('arg','fld')
                        R.check(rk,w,own is not None and (ok),'key %s'%show(o.key.t)[:160],h.t,o.x); continue
                    if f=='plain': R.check(rk,w,given(C,r,h,A[1],o.key.user() if o.key.role=='hdr' else None,True),'works on key %s'%show(o.key.t)[:160],h.t,o.x)
                    else:
                        own=owner(k,role)
                        R.check(rk,w,own is not None and given(C,r,h,A[1],own,True),'works on the collection %s (key %s)'%(show(own)[:80] if own is not None else '?',show(o.key.t)[:160]),h.t,o.x)
                        if role=='item' and e is None and f=='list' and v in LISTITEM: R.check(rk,w,given(C,r,h,A[2],k.user(),False),'works on element %s'%(show(k.user())[:160] if k.user() is not None else '?'),h.t,o.x)
                        elif role=='item' and f=='list' and v in LISTITEM and o.kind in('insert','remove'): R.check(rk,w,False,'works on an element found by scanning instead of the one asked for',h.t,o.x)
                        elif role=='qitem' and v=='remove_from_queue': R.check(rk,w,k.num() is not None and (k.num() is A[2] or h.lin.same(k.num(),A[2])),'works on position %s'%(show(k.num())[:80] if k.num() is not None else '?'),h.t,o.x)
                    if o.kind!='insert': continue
                    if f=='plain': m+=1; R.check(rv,w,given(C,r,h,A[2],o.val,False),'stores %s'%show(o.val)[:160],h.t,o.x)
                    elif f=='list' and role=='item' and v in SETS+GOC+REPL:
                        b=bodyof(o.val); m+=1
                        R.check(rv,w,b is not None and given(C,r,h,A[3],b,False),'stores %s'%show(o.val)[:200],h.t,o.x)
                    elif fam=='queue' and role=='qitem' and v in PUSH: m+=1; R.check(rv,w,given(C,r,h,A[2],o.val,False),'stores %s'%show(o.val)[:160],h.t,o.x)
                    elif fam=='queue' and role=='qitem' and v=='extend_queue': m+=1; R.check(rv,w,o.val.op=='item' and contains(o.val,lambda y:y is A[2]) or contains(o.val,lambda y:y.op=='item'),'stores %s'%show(o.val)[:160],h.t,o.x)
                # elements picked out of a hash scan: matched completely before use
                if f=='list':
                    for o in h.ops:
                        e=elem(o.key.t) if o.key is not None else None
                        if not e or o.kind not in('remove','insert'): continue
                        q+=1
                        ks=[i for st,suf,i in h.scan.kend.get(e[0],()) if st==1 and i<o.x.i]; vs=[i for st,suf,i in h.scan.vend.get(e[0],()) if st==1 and i<o.x.i]
                        R.check('an entry found by hash is used only after its list and position were compared','%s: %s'%(tag(r),o.kind),bool(ks) and bool(vs),'an entry with the scanned hash is changed without comparing %s'%('its list' if not ks else 'its position'),h.t,o.x)
    R.floor('keys of operations','API',400,n); R.floor('values of operations','API',30,m)
def expects(C,h,E,root):
    """terms for the contents of an expected-value argument"""
    s_=fld(asv(E,'Some'),'0'); r=[s_]
    for x in h.t.conds():
        for y in subterms(x.ptr):
            if isinstance(y,V) and y.op=='enc' and canon(y.a[0]) is canon(s_): r.append(y)
    for o in h.ops:
        for v in(o.mode,o.val):
            if v is None: continue
            for y in subterms(v):
                if isinstance(y,V) and y.op=='enc' and canon(y.a[0]) is canon(s_): r.append(y)
    return r
def C10_api(C,R):
    RO=rootsof(C); n=0; wrong=0
    for fam,f in FAMS[:3]:
        for r in RO[fam]:
            v=verb(r)
            if v not in REPL+GOC+SETS: continue
            A=argsof(C,r); w=tag(r); E=A[-1]
            for h in hists(C,r):
                el=Elems(C,h,f); t=h.t
                isE=t.p.conds.get(mk('is',E))
                if f=='plain':
                    for o in h.ops:
                        if o.kind!='insert':
                            continue
                        n+=1
                        m=o.mode.a[1]; want={'set':'Set','replace':'Replace','get_or_create':'GetOrCreate'}[v]
                        R.check('a conditional update is one conditional store operation',w,m==want,'stores in mode %s'%m,t,o.x)
                        if m==want=='Replace':
                            p=canon(o.mode.a[3][0]) if o.mode.a[3] else None
                            ok=p is E or p is not None and p.op=='agg' and (p.a[1]=='None' and isE=='None' or p.a[1]=='Some' and isE=='Some' and any(canon(p.a[3][0]) is canon(x) for x in expects(C,h,E,r)[(1 if istyped(r) else 0):]))
                            R.check('the expectation is passed on as given',w,ok,'expected value passed on is %s'%(show(p)[:150] if p is not None else '?'),t,o.x)
                    continue
                for kind,o,k,val in el.ev:
                    if v in GOC and kind in('upd','rem','ins?','removed?'):
                        n+=1; R.check('get-or-create stores only if the element is absent',w,False,'%s although the element exists'%o,t,o.x)
                    if v in GOC and kind=='add':
                        n+=1; R.check('get-or-create stores only if the element is absent',w,o.mode.a[1]=='GetOrCreate' or any(e[0]=='unseen' and e[1].x.i<o.x.i and e[2].t is k.t and e[1].g==o.g and o.g for e in el.ev),'the element is stored without having been found absent under the same lock',t,o.x)
                    if v not in REPL: continue
                    if kind in('add','rem','removed?'): n+=1; R.check('replace never creates or removes',w,False,'%r'%o,t,o.x)
                    if kind in('upd','ins?'):
                        n+=1
                        prev=[e for e in el.ev if e[0]=='seen' and e[1].x.i<o.x.i and e[2].t is k.t]
                        same_=[e for e in prev if e[1].g==o.g and o.g]
                        R.check('replace decides and stores under one lock',w,bool(same_),'the element was %s'%('looked at under another lock' if prev else 'not looked at'),t,o.x)
                        ok=isE=='None'
                        if not ok and prev:
                            full=stripped(f,prev[-1][3])
                            ok=compared(C,h,expects(C,h,E,r),full,o.x.i)==1
                        R.check('replace stores only if the complete current value is the expected one',w,ok,'the value is replaced without the expectation (%s) having been compared with the complete stored value'%isE,t,o.x)
                if v in REPL and t.isok() and el.ev and not el.all('upd','ins?','add') and el.ev[-1][0]=='seen':
                    wrong+=1
                    full=stripped(f,el.ev[-1][3])
                    R.check('replace refuses only a value that differs from the expected one',w,isE=='Some' and compared(C,h,expects(C,h,E,r),full,10**9)==0,'the value is left alone although no difference was established',t,el.ev[-1][1].x)
    R.floor('conditional updates','API',30,n); R.floor('refusals','API',2,wrong)
def compared(C,h,exps,full,before):
    """outcome of the comparison of the expected value with the complete stored one (1 equal, 0 different, None)"""
    for x in h.t.conds():
        if x.i>=before: break
        p=h.norm(x.ptr); v=x.op
        if p.op=='not': p=p.a[0]; v=1-v
        if p.op!='eq' or v not in(0,1): continue
        a,b=p.a
        for a,b in((a,b),(b,a)):
            if any(canon(a) is canon(e) for e in exps) and (canon(b) is canon(full)): return v
            # compared together with the position kept behind the value
            if b.op!='lin' and cut(full,8) is canon(b) and a.op=='cat':
                ps=parts_of(a)
                if any(canon(ps[0]) is canon(e) for e in exps) and len(ps)==2 and ps[1] is slc(b,sub(blen(b),c(8)),blen(b)): return v
    return None
# ------------------------------------------------------------------ C03: what is handed out
def C03_api(C,R):
    RO=rootsof(C); n=0
    rl='the value of a list element is handed out without its position and otherwise complete'
    for fam in('list','queue','plain'):
        for r in RO[fam]:
            w=tag(r)
            for h in hists(C,r):
                if h.t.kind!='return' or h.t.ret is None: continue
                analyse(C,h)
                pay=canon(h.norm(h.t.ret)); src={}
                for o in h.ops:
                    if o.key is None or o.st=='Err': continue
                    role,k,e=keyrole(C,h,o)
                    if role not in('item','qitem') and fam!='plain': continue
                    if o.kind=='get': src[somev(o.res)]=role
                    elif o.kind=='remove': src[somev(o.res)]=role
                    elif o.kind=='insert': src[fld(asv(okv(o.res),'Replaced'),'0')]=role; src[fld(asv(okv(o.res),'AlreadyExists'),'0')]=role
                for e in list(h.scan.kend)+list(h.scan.vend): src[fld(e,'1')]='item'; src[fld(e,'0')]='key'
                for p,y in occurrences(pay):
                    if y not in src: continue
                    n+=1; role=src[y]
                    if role=='item': ok=p is not None and p is slc(y,c(0),sub(blen(y),c(8)))
                    elif role=='key': ok=p is not None and p is slc(y,c(0),sub(blen(y),c(9)))
                    else: ok=p is None
                    R.check(rl if role=='item' else 'the key of a list element is handed out without the list\'s part and otherwise complete' if role=='key' else 'a stored value is handed out complete',w,ok,'hands out %s'%show(p if p is not None else y)[:200],h.t)
    R.floor('values handed out','API',60,n)
def occurrences(v):
    """(enclosing slice or None, term) for value terms handed out inside v: as they are or sliced (not the lengths or numbers computed from them)"""
    r=[]; seen=set()
    def go(x):
        if not isinstance(x,V) or x in seen: return
        seen.add(x)
        if x.op=='slice': r.append((x,x.a[0])); return
        if x.op in('lin','eq','lt','len','from','is','decres','anyerr'):
            if x.op=='decres': go(x.a[1])
            return
        r.append((None,x))
        if x.op in('fld','as','idx'):
            if x.a[0].op=='decres': go(x.a[0])
            elif x.op=='fld' and x.a[0].op=='as': go(x.a[0].a[0])
            return
        for y in x.a:
            if isinstance(y,tuple):
                for z in y: go(z)
            else: go(y)
    go(v)
    return r
# ------------------------------------------------------------------ C13
KB,VB=(1<<14)-1,(1<<16)-1
def bounds(h,before):
    """facts >=0 established before an event, plus what holds for entries met in the store"""
    r=[]
    for x in h.t.conds(before):
        p=h.norm(x.ptr); v=x.op
        while p.op=='not': p=p.a[0]; v=1-v if v in(0,1) else v
        if p.op=='lt' and v in(0,1): r.append(sub(sub(p.a[1],p.a[0]),c(1)) if v==1 else sub(p.a[0],p.a[1]))
        elif p.op=='eq' and v==1 and numeric(p.a[0]) and numeric(p.a[1]): r+= [sub(*p.a),sub(p.a[1],p.a[0])]
    return r+h.stored(before)+lemmas(h)
def lemmas(h): return h.lemmas()
def maxsizes(h,extra=()):
    """terms the configured shard size appears as on this path"""
    r={fld(fld(mk('arg','self'),'config'),'max_shard_size')}
    return r
def prove(goal,facts):
    k,m=unlin(goal)
    if k>=0 and all(n>=0 for n in m.values()): return True
    neg=sub(mul(goal,c(-1)),c(1))
    for i,a in enumerate(facts):
        x=add(a,neg); k,m=unlin(x)
        if k<0 and all(n<=0 for n in m.values()): return True
    at=set(unlin(goal)[1])
    rel=[f for f in facts if at&set(unlin(f)[1])]
    for a in rel:
        x=add(a,neg)
        for b in facts:
            k,m=unlin(add(x,b))
            if k<0 and all(n<=0 for n in m.values()): return True
    return False
def C13(C,R):
    RO=rootsof(C); n=0; k=0; me=mk('arg','self')
    ms=fld(fld(me,'config'),'max_shard_size')
    for fam,f in FAMS:
        for r in RO[fam]:
            w=tag(r)
            for h in hists(C,r):
                analyse(C,h); t=h.t
                for o in h.ops:
                    if o.kind!='insert': continue
                    n+=1; F=bounds(h,o.x.i); role=keyrole(C,h,o)[0]
                    kl,vl=blen(o.key.t),blen(o.val); wk='%s: write of %s'%(w,role)
                    R.check('a key handed to a shard fits its length field',wk,prove(sub(c(KB),kl),F),'nothing on this path bounds the key length %s by %d'%(show(kl)[:100],KB),t,o.x)
                    R.check('a value handed to a shard fits its length field',wk,prove(sub(c(VB),vl),F),'nothing on this path bounds the value length %s by %d'%(show(vl)[:100],VB),t,o.x)
                    ms_=[y for f_ in F for y in subterms(f_) if isinstance(y,V) and y.op=='fld' and y.a[1]=='max_shard_size']
                    R.check('an entry handed to a shard fits a shard',wk,any(prove(sub(sub(m_,kl),vl),F) for m_ in [ms]+list(dict.fromkeys(ms_))),'nothing on this path bounds the entry size %s by the shard size'%show(add(kl,vl))[:120],t,o.x)
                if t.kind=='return' and t.ret is not None and t.retvariant()=='Err':
                    e=h.norm(fld(asv(t.ret,'Err'),'0')) if t.ret.op!='agg' else h.norm(t.ret.a[3][0])
                    while e.op=='anyerr': e=e.a[0]
                    if e.op=='agg' and e.a[0].endswith('CandyError'):
                        k+=1
                        R.check('a refused operation changes nothing',w,not h.effects(),'%s is returned after %s'%(e.a[1],', '.join(map(repr,h.effects()))[:300]),t,h.effects()[0].x if h.effects() else None)
                # a change may not be followed by a refusal hidden in a failing store operation: sizes of all later writes are known before the first change
    R.floor('writes','API',150,n); R.floor('refusals','API',60,k)
# ------------------------------------------------------------------ C27
def C27(C,R):
    RO=rootsof(C); n={'set':0,'get':0,'rem':0,'acc':0}
    for r in RO['big']:
        v=verb(r); w=tag(r); ty=istyped(r); A=argsof(C,r)
        for h in hists(C,r):
            analyse(C,h); t=h.t; L=h.lin
            hd=[o for o in h.ops if o.key is not None and keyrole(C,h,o)[0]=='hdr']
            it=[o for o in h.ops if o.key is not None and keyrole(C,h,o)[0]=='qitem']
            if t.kind=='return' and t.isok():
                rv,f_=variant(C,h,undec(h.norm(t.ret))); pay=f_[0]; pv,pf=variant(C,h,pay)
            if v in('remove_big','set_big') and t.kind=='return' and t.isok():
                n['set' if v=='set_big' else 'rem']+=1
                g=hd[0] if hd else None
                ex=g is not None and g.kind=='get' and g.out
                dl=[o for o in hd if o.kind=='remove' and o.st=='Ok']
                R.check('the result says whether a big value existed',w,ex in('Some','None') and pv==('true' if ex=='Some' else 'false'),'reports %s although the value %s'%(pv,{'Some':'existed','None':'did not exist'}.get(ex,'was not looked up')),t)
                if ex=='Some':
                    ins=[o for o in it if o.kind=='insert']; i1=min([o.x.i for o in ins],default=10**9)
                    R.check('the previous value is removed completely first',w,bool(dl) and dl[0].x.i<i1,'the previous value is not removed before the new one is written',t)
            if v=='set_big':
                val=A[2]
                for o in it:
                    if o.kind!='insert': continue
                    n['acc']+=1; b=o.val
                    ok=False; src=None
                    if b.op=='chunk': src=b.a[1]; ok=isc(b.a[2]) and b.a[2].a[0]>0
                    else: src=b; ok=empty(h,b,o.x.i) or whole(h,o)
                    R.check('what is stored are the consecutive chunks of the value',w,ok and src is not None and given(C,r,h,val,src,False),'stores %s'%show(b)[:160],t,o.x)
                if t.kind=='return' and t.isok():
                    ins=[o for o in it if o.kind=='insert' and o.st=='Ok']
                    if not ins:
                        # only possible for a value without bytes
                        ne=walked(h,C,r,val)
                        R.check('an empty value is stored too',w,ne,'reports success without having stored anything, and the value may be empty',t)
                    lo=[x for x in t.by('IterEnd') if contains(x.ptr,lambda y:y.op=='it' and y.a and y.a[0]=='chunks') or x.col is not None and contains(x.col,lambda y:y.op=='it' and y.a and y.a[0]=='chunks')]
                    if any(o.val.op=='chunk' for o in ins): R.check('all chunks are stored before success is reported',w,bool(t.by('IterEnd')),'the loop over the chunks is left early',t)
            if v=='get_big':
                getbig(C,R,h,w,t,it,ty,n)
    # what decides that there is no value was changed by every chunk, whatever the chunk holds
    for (w,key),init in n.get('flags',{}).items():
        for w2,t,steps,x in n.get('loops',()):
            if w2!=w: continue
            st=[y for y in steps if y.ptr.op=='lv' and str(y.ptr.a[0])==key]
            R.check('every chunk counts as found',w,bool(st) and isc(canon(st[-1].val)) and canon(st[-1].val) is not init,'a chunk was read, but whether a value was found depends on %s'%(show(canon(st[-1].val))[:120] if st else 'something else'),t,x)
    for k_,m_ in(('set',4),('get',4),('rem',4),('acc',4)): R.floor('big values',k_,m_,n[k_])
def empty(h,b,before):
    for x in h.t.conds(before):
        p=h.norm(x.ptr)
        if p.op=='eq' and x.op==1 and (h.lin.same(sub(*p.a),blen(b)) or h.lin.same(sub(p.a[1],p.a[0]),blen(b))): return True
    return False
def whole(h,o): return False
def walked(h,C,r,val):
    """the storing loop ran over a collection that cannot have been empty: one made of the value itself, or the chunks of a value known to have bytes"""
    for x in h.t.by('IterEnd'):
        for y in subterms(x.col if x.col is not None else x.ptr):
            if not isinstance(y,V): continue
            if y.op=='arr' and any(e.op=='element' and contains(e.ptr,lambda z:z is y) and given(C,r,h,val,e.val,False) for e in h.t.by('Iter')): return True
            if y.op=='it' and y.a[0]=='chunks' and given(C,r,h,val,canon(y.a[1]),False) and nonzero(h,C,r,val): return True
    return False
def nonzero(h,C,r,val):
    for x in h.t.conds():
        p=h.norm(x.ptr)
        if x.op==0 and p.op=='eq' and any(isc(y) and y.a[0]==0 for y in p.a):
            o=[y for y in p.a if not isc(y)]
            if o and o[0].op=='len' and given(C,r,h,val,canon(o[0].a[0]),False): return True
    return False
def optacc(v): return v.op=='lv' and variantof(canon(v.a[2]))=='None'
def variantof(v): return v.a[1] if v.op=='agg' else None
def appended(t,p,v,c_):
    """is v what p held followed by c_ (bytes, or Some of bytes where None stands for nothing)"""
    if v.op=='cat' and parts_of(v)[0] is p and len(parts_of(v))==2 and parts_of(v)[1] is c_: return True
    if optacc(p):
        k=t.cond(mk('is',p)); z=canon(fld(asv(v,'Some'),'0'))
        if variantof(v) not in('Some',None) : return False
        if k=='Some': q=canon(fld(asv(p,'Some'),'0')); return z.op=='cat' and len(parts_of(z))==2 and parts_of(z)[0] is q and parts_of(z)[1] is c_
        if k=='None': return z is c_
    return False
def getbig(C,R,h,w,t,it,ty,n):
    ok_=t.kind=='return' and t.isok()
    someit=[o for o in it if o.kind=='get' and o.out=='Some']
    steps=[x for x in t.by('Step')]
    if t.kind=='loop' and someit:
        # an iteration that met a chunk: the result grows by it, and it is remembered that there is one
        n['acc']+=1
        c_=somev(someit[-1].res)
        app=[x for x in steps if appended(t,canon(x.ptr),canon(x.val),c_)]
        n.setdefault('loops',[]).append((w,t,steps,someit[-1].x))
        R.check('every chunk is appended to the result',w,len(app)==1,'an iteration that read a chunk does not append it',t,someit[-1].x)
    if ok_:
        n['get']+=1
        rv,f_=variant(C,h,undec(h.norm(t.ret))); pv,pf=variant(C,h,f_[0])
        ri=[x for x in t.S if x.k in('Iter','IterEnd') and isrange(x)]
        hn=any(o.kind=='get' and o.out=='None' and keyrole(C,h,o)[0]=='hdr' for o in h.ops if o.key is not None)
        R.check('all chunks are read before the value is returned',w,bool(ri) and ri[-1].k=='IterEnd' or hn and not ri,'returns before the recorded chunks were walked to the end',t)
        if pv=='Some':
            x=pf[0]
            if ty: x=x.a[0] if x.op=='DEC' else x
            x=canon(x)
            b=x.a[0].a[0] if x.op=='fld' and x.a[1]=='0' and x.a[0].op=='as' and x.a[0].a[1]=='Some' else None
            good=x.op=='lv' and canon(x.a[2]).op=='cb' and not canon(x.a[2]).a[0] or b is not None and optacc(b)
            R.check('the value returned is all chunks joined',w,good and (not ty or pf[0].op=='DEC'),'returns %s'%show(x)[:160],t)
        elif pv=='None':
            # decided by the flag remembered above, never by the length of what was read
            cs=[x for x in t.conds() if contains(h.norm(x.ptr),lambda y:y.op=='len' and contains(y.a[0],lambda z:z.op=='lv' and canon(z.a[2]).op=='cb'))]
            flag=[x for x in t.conds() if h.norm(x.ptr).op=='lv' and isc(canon(h.norm(x.ptr).a[2])) and x.op==canon(h.norm(x.ptr).a[2]).a[0]]
            for x in flag: n.setdefault('flags',{}).setdefault((w,str(h.norm(x.ptr).a[0])),canon(h.norm(x.ptr).a[2]))
            flag=flag or [x for x in t.conds() if x.op=='None' and x.ptr.op=='is' and optacc(h.norm(x.ptr).a[0])]
            hdrnone=any(o.kind=='get' and o.out=='None' and keyrole(C,h,o)[0]=='hdr' for o in h.ops if o.key is not None)
            R.check('a value is reported missing only if nothing was found',w,not cs and (bool(flag) or hdrnone and not someit),'the value is reported missing because what was read is empty' if cs else 'reported missing without knowing that there are no chunks',t)
    for x in t.by('Iter'):
        d=direction(x)
        if d: R.check('chunks are read in the order they were written',w,d=='f','chunks are read backwards',t,x)
def direction(x):
    for v in(x.val,x.res,x.col):
        if v is None: continue
        if v.op=='rng': return v.a[3]
        if v.op=='item': return v.a[2] if len(v.a)>2 else None
    return None
