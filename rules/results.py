"""What public key/list/queue operations do and report: C03 C10 C11 C13 C22 C27 C29 over histories of key operations."""
from rules.hist import *
from rules.colls import *
from rules import shard

def argsof(C,root):
    F=C.P.fns[root]
    return [mk('arg',F.lname(i+1) or 'a%d'%(i+1)) for i in range(F.argc)]
def DEC(v): return mk('DEC',v)
def undec(v):
    """payload with decoded parts marked; decoding of errors too"""
    def f(x):
        if x.op=='fld' and x.a[1]=='0' and x.a[0].op=='as' and x.a[0].a[0].op=='decres':
            return mk('DEC' if x.a[0].a[1]=='Ok' else 'DECERR',undec(x.a[0].a[0].a[1]),x.a[0].a[0].a[2])
        return None
    return rebuild(v,{},f)
def variant(C,h,pay):
    """(variant name, [fields]) of a returned enum/bool/tuple value as far as the path determines it"""
    pay=canon(pay)
    if isc(pay): return ('true' if pay.a[0] else 'false'),[]
    if pay.op=='agg': return pay.a[1] or 'tuple',[canon(x) for x in pay.a[3]]
    v=h.t.p.conds.get(mk('is',pay))
    if v: return v,[canon(fld(asv(pay,v),'0'))]
    return None,[pay]

class Elems:
    """what a history does to the elements of a collection, or to plain keys, in order"""
    def __init__(s,C,h,fam):
        s.C=C; s.h=h; s.ev=[]; s.fam=fam; analyse(C,h)
        known={}
        listy=fam=='list'
        for o in h.ops:
            if o.key is None or o.st=='Err': continue
            role,k,e=keyrole(C,h,o)
            if fam=='list' and role!='item' or fam in('queue','big') and role!='qitem': continue
            id_=k.t if e is None else e
            okn=o.st=='Ok'
            if o.kind=='get':
                if not okn: s.ev.append(('read',o,k,None)); continue
                if o.out=='Some': known[o.key.t]=somev(o.res); s.ev.append(('seen',o,k,known[o.key.t]))
                else: known[o.key.t]=None; s.ev.append(('unseen',o,k,None))
            elif o.kind=='remove':
                if not okn: s.ev.append(('removed?',o,k,None)); continue
                if o.out=='None': s.ev.append(('unseen',o,k,None)); known[o.key.t]=None; continue
                kv=known.get(o.key.t); same=kv is not None
                v=kv if same else (fld(e,'1') if e is not None else somev(o.res))
                # removed value as returned by the removal itself is just as good
                s.ev.append(('rem',o,k,v)); known[o.key.t]=None
            elif o.kind=='insert':
                kv=known.get(o.key.t)
                if o.out=='Replaced': s.ev.append(('upd',o,k,kv if kv is not None else fld(e,'1') if e is not None else fld(asv(okv(o.res),'Replaced'),'0'))); known[o.key.t]=o.val
                elif o.out=='Added': s.ev.append(('add',o,k,None)); known[o.key.t]=o.val
                elif o.out=='AlreadyExists': known[o.key.t]=fld(asv(okv(o.res),'AlreadyExists'),'0'); s.ev.append(('seen',o,k,known[o.key.t]))
                elif o.out=='KeyDoesNotExist': s.ev.append(('unseen',o,k,None))
                else: s.ev.append(('ins?',o,k,None))
    def last(s,*kinds):
        for e in reversed(s.ev):
            if e[0] in kinds: return e
    def all(s,*kinds): return [e for e in s.ev if e[0] in kinds]
    def alt(s,o,v):
        """equivalent terms for the value an event carries (the read before it, or what the operation itself returned)"""
        r=[v]
        if o.kind=='remove' and o.out!='None': r.append(somev(o.res))
        if o.kind=='insert' and o.out=='Replaced': r.append(fld(asv(okv(o.res),'Replaced'),'0'))
        return r
def stripped(fam,v): return v if fam!='list' else slc(v,c(0),sub(blen(v),c(8)))
def isval(fam,typed,got,want,cfg=None):
    """is `got` the caller's view of stored value `want`"""
    w=stripped(fam,want)
    if typed: return got.op=='DEC' and same(got.a[0],w)
    return same(got,w)
def same(a,b): return canon(a) is canon(b)
def show2(v): return show(v)[:180]

SETS=('set','set_in_list','set_in_list_promoting','set_promoting'); GOC=('get_or_create','get_or_create_in_list'); REPL=('replace','replace_in_list')
GETS=('get','get_from_list'); REMS=('remove','remove_from_list','remove_from_queue'); CONT=('contains',)
POPS=('pop_list_head','pop_list_tail','pop_head','pop_tail','pop_queue_head','pop_queue_tail','pop_queue_head_with_idx','pop_queue_tail_with_idx','pop_head_with_idx','pop_tail_with_idx')
PEEKS=('peek_list_head','peek_list_tail','peek_head','peek_tail','peek_queue_head','peek_queue_tail','peek_queue_head_with_idx','peek_queue_tail_with_idx','peek_head_with_idx','peek_tail_with_idx')
DISC=('discard','discard_list','discard_queue'); PUSH=('push_to_queue_head','push_to_queue_tail','push_head','push_tail'); COMP=('compact_list_if_needed','compact_if_needed')
OTHER=('extend_queue','list_len','queue_len','len','queue_range','range','iter_list','iter_list_backwards','iter','iter_backwards','iter_queue','iter_queue_backwards','next','set_big','get_big','remove_big')
def verb(root):
    n=short(root)
    if '::' in n: n=n.split('::')[-1]
    return n[6:] if n.startswith('owned_') else n
def istyped(root): return root.startswith('typed::')
def found(C,h,fam):
    """elements met by walking the range: [(key user part, value, position, event index)]"""
    r=[]
    if fam=='list':
        for e,l in h.scan.kend.items():
            ks=[(suf,i) for st,suf,i in l if st==1]; vs=[(suf,i) for st,suf,i in h.scan.vend.get(e,()) if st==1]
            if ks and vs: r.append((fld(e,'0'),fld(e,'1'),vs[0][0].a[1] if vs[0][0].op=='bytes' else None,max(ks[0][1],vs[0][1])))
    else:
        for o in h.ops:
            if o.key is None or o.kind!='get' or o.out!='Some': continue
            role,k,e=keyrole(C,h,o)
            if role=='qitem': r.append((None,somev(o.res),k.num(),o.x.i))
    return r
def C29(C,R,want=lambda root:True,typed=None):
    """the reported result against the effect of the same history"""
    RO=rootsof(C); n=0; seen=set()
    for fam in('plain','typed','list','queue'):
        f='plain' if fam=='typed' else fam
        for r in RO[fam]:
            if typed is not None and istyped(r)!=typed: continue
            v=verb(r); w=tag(r)
            if v in OTHER and v!='extend_queue': seen.add(v); continue
            for h in hists(C,r):
                if h.t.kind!='return' or h.t.ret is None: continue
                n+=result(C,R,h,f,r,v,w); seen.add(v)
    if typed is not True: R.floor('results','untyped operations',60,n)
    else: R.floor('results','typed operations',40,n)
    return n
def errs(C,h):
    """error values this history met"""
    return [fld(asv(o.res,'Err'),'0') for o in h.ops if o.st=='Err']
def result(C,R,h,fam,root,v,w):
    t=h.t; ty=istyped(root); E=Elems(C,h,fam); A=argsof(C,root)
    ret=undec(h.norm(t.ret))
    effects=E.all('add','upd','rem')
    single=[o for o in h.ops if o.res is h.t.ret]
    if single and fam=='plain':
        # handed through unchanged
        o=single[0]
        R.check('the result of the operation is handed through',w,len(h.ops)==1 and (v in GETS and o.kind=='get' or v in REMS and o.kind=='remove'),'%s returns the result of %s'%(w,o),t,o.x)
        return 1
    rv,f_=variant(C,h,ret)
    if rv=='Err': return error(C,R,h,E,w,f_[0] if f_ else ret,effects,ty)
    if rv!='Ok':
        R.check('the result is determined by the path',w,False,'cannot relate the returned %s to what was done'%show2(ret),t); return 1
    pay=f_[0]; pv,pf=variant(C,h,pay)
    sub_=[e for e in E.ev]
    def val(got,ev):
        return any(isval(fam,ty,got,x) for x in E.alt(ev[1],ev[3]))
    rule='the reported result describes the change made'
    def ck(cond,msg,x=None): R.check(rule,w,cond,'%s: %s; operations: %s'%(msg,show2(pay),', '.join('%s %s'%(e[0],e[1].kind) for e in E.ev) or 'none'),t,x)
    def opt(yes,ev):
        """Option payload: Some(view of ev's value) when yes else None"""
        if yes: ck(pv=='Some' and val(pf[0],ev),'the value of the element found or removed is not what is returned')
        else: ck(pv=='None','nothing was found but a value is returned')
    if v in SETS:
        ev=E.last('add','upd')
        if not R.check('a successful set has stored the value',w,ev is not None and E.ev[-1] is ev,'reports success without having stored the value',t): return 1
        prior=[e for e in E.all('rem') if same(e[2].t,ev[2].t)]
        prev=ev if ev[0]=='upd' else prior[-1] if prior else None
        name='PrevValue' if not ty else 'Some'; none='CreatedNew' if not ty else 'None'
        if prev is not None: ck(pv==name and pf and val(pf[0],prev),'the previous value reported is not the one replaced')
        else: ck(pv==none,'the element was created but this is not what is reported')
    elif v in REPL:
        ev=E.ev[-1] if E.ev else None
        if ev is None: ck(False,'replace without looking at the key'); return 1
        up=E.last('upd')
        R.check('replace never creates or removes',w,not E.all('add','rem'),'replace adds or removes an element',t,ev[1].x)
        if up is not None: ck(pv==('PrevValue' if not ty else 'Some') and pf and val(pf[0],up),'the previous value reported is not the one replaced')
        elif ev[0]=='seen': ck((pv=='WrongValue' and pf and val(pf[0],ev)) if not ty else pv=='None','the value was left alone because it is not the expected one, which is not what is reported')
        else: ck(pv==('DoesNotExist' if not ty else 'None'),'the key does not exist, which is not what is reported')
    elif v in GOC:
        ad=E.last('add'); sn=E.last('seen')
        given=A[-1]
        if ad is not None:
            if ty: ok_=pay.op=='DEC' and pay.a[0].op=='enc' and same(pay.a[0].a[0],given) or pay.op=='DEC' and same(pay.a[0],given)
            else: ok_=pv=='CreatedNew' and pf and same(pf[0],given)
            ck(ok_,'the element was created with the given value, which is not what is reported')
        elif sn is not None: ck((pv=='ExistingValue' and pf and val(pf[0],sn)) if not ty else val(pay,sn),'the existing value is not what is reported')
        else: ck(False,'neither found nor created')
        R.check('get-or-create never overwrites',w,not E.all('upd','rem'),'an existing element is changed',t)
    elif v in GETS:
        ev=E.ev[-1] if E.ev else None
        R.check('reading changes nothing',w,not effects and not h.effects(),'a read changes the store',t)
        if ev is None: ck(False,'result without a read')
        else: opt(ev[0]=='seen',ev)
    elif v in CONT:
        ev=E.ev[-1] if E.ev else None
        R.check('reading changes nothing',w,not effects and not h.effects(),'a read changes the store',t)
        ck(ev is not None and pv==('true' if ev[0]=='seen' else 'false'),'whether the key exists is not what is reported')
    elif v in REMS:
        rm=E.all('rem')
        R.check('a removal removes at most one element',w,len(rm)<=1,'%d elements are removed'%len(rm),t)
        opt(bool(rm),rm[-1] if rm else None)
    elif v in POPS or v in PEEKS:
        pop=v in POPS; ev=E.all('rem')[-1] if E.all('rem') else None; fd=found(C,h,fam)
        if pop: R.check('a pop removes at most one element',w,len(E.all('rem'))<=1,'%d elements are removed'%len(E.all('rem')),t)
        else: R.check('reading changes nothing',w,not h.effects(),'a peek changes the store',t)
        if pop and ev is None or not pop and not fd: ck(pv=='None','no element was taken but one is returned'); atend(C,R,h,fam,w,pop); return 1
        if pv!='Some': ck(False,'an element was taken but none is returned'); return 1
        x=pf[0]; xv,xf=variant(C,h,x)
        if fam=='list':
            if not(xv=='tuple' and len(xf)==2): ck(False,'key and value expected'); return 1
            if pop:
                u=ev[2].user(); kt=fld(ev[2].t,'0') if False else u
                elm=elem(ev[1].key.t)
                kk=xf[0].a[0] if ty and xf[0].op=='DEC' else xf[0]
                if elm: okk=cut(kk,9) is fld(elm[0],'0')
                else: okk=kk is u or u is not None and same(kk,u)
                ck((xf[0].op=='DEC')==ty and okk and val(xf[1],ev),'key or value returned is not that of the element removed')
            else:
                e0=fd[-1]; kk=xf[0].a[0] if ty and xf[0].op=='DEC' else xf[0]
                ck((xf[0].op=='DEC')==ty and cut(kk,9) is e0[0] and isval(fam,ty,xf[1],e0[1]),'key or value returned is not that of the element found')
        else:
            pos,vals=(ev[2].num(),E.alt(ev[1],ev[3])) if pop else (fd[-1][2],[fd[-1][1]])
            if v.endswith('with_idx'):
                ck(xv=='tuple' and len(xf)==2 and (same(xf[0],pos) or h.lin.same(xf[0],pos)) and any(isval(fam,ty,xf[1],y) for y in vals),'position or value returned is not that of the element')
            else: ck(any(isval(fam,ty,x,y) for y in vals),'value returned is not that of the element')
    elif v in DISC:
        hd=[o for o in h.ops if o.key is not None and keyrole(C,h,o)[0]=='hdr']
        dl=[o for o in hd if o.kind=='remove' and o.st=='Ok']
        if dl: ck(pv=='true','the collection was removed, which is not what is reported')
        else: ck(pv=='false' and not h.effects(),'nothing was removed, which is not what is reported'); R.check('nothing is reported missing while it exists',w,any(o.kind=='get' and o.out=='None' for o in hd),'reports that there is no collection without having looked',t)
    elif v in COMP:
        if pv=='true': pass
        elif pv=='false': ck(not h.effects(),'changes were made but the compaction is reported as not done')
        else: ck(False,'neither true nor false')
    elif v in PUSH:
        ad=E.all('add','upd')
        R.check('a push adds one element',w,len(ad)==1,'%d elements written'%len(ad),t)
        if ad:
            okp=pay.op in('unit',) or (pay.op=='agg' and not pay.a[3]) or same(pay,ad[0][2].num()) or h.lin.same(pay,ad[0][2].num()) if not ty or not(pay.op=='agg' or pay.op=='unit') else True
            ck(okp,'the position reported is not the one written')
    elif v=='extend_queue':
        if pay.op=='agg' and len(pay.a[3])>=2:
            lo,hi=canon(pay.a[3][0]),canon(pay.a[3][1])
            S=[s for s in sections(C,fam,root) if s.h is h]
            for s in S:
                if s.H0 in(None,): continue
                t0=c_first(s)
                okk=t0 is not None and h.lin.same(lo,t0)
                if s.final and s.final[0]=='put' and s.final[1]: okk=okk and h.lin.same(hi,s.final[1][1])
                else: okk=okk and (h.lin.same(lo,hi) or hi.op=='lv')
                ck(okk,'the range reported is not that of the elements added (from %s to %s)'%(show(lo)[:80],show(hi)[:80]))
        else: ck(False,'a range is expected')
    else:
        R.check('every public operation has a result rule',w,False,'no rule for %s'%v,t)
    return 1
def c_first(s):
    if s.H0=='none':
        cr=[F for k,F,o in s.hdr if k=='put' and F]
        return cr[0][1] if cr and cr[0][2] is c(0) else (cr[0][0] if cr else None)
    return s.H0[1]
def atend(C,R,h,fam,w,pop):
    """nothing is returned only when the walk over the range ended or there is no collection"""
    t=h.t
    hd=[o for o in h.ops if o.key is not None and o.kind in('get',) and o.key.role=='hdr']
    if any(o.out=='None' for o in hd): return
    last=None
    for x in t.S:
        if x.k in('Iter','IterEnd') and not(x.k=='Iter' and x.val is not None and elem(fld(x.val,'0'))) and not(x.col is not None and fld(mk('idx',x.col,c(0)),'0') is not None and elem(fld(mk('idx',x.col,c(0)),'0'))): last=x
    ok_=last is not None and last.k=='IterEnd'
    if not ok_:
        for s in [s for s in sections(C,fam,h.root) if s.h is h]:
            if s.H0 in(None,'none'): continue
            ex,d=emptyknown(s,None,None,s.rems+s.absent,1<<60)
            ok_=ok_ or bool(ex)
    R.check('nothing is reported only when the whole range was looked at',w,ok_,'reports that there is no element before the end of the range was reached',t,last)
def error(C,R,h,E,w,e,effects,ty):
    """an error result: the error of a failed operation, a rejected size, or undecodable data"""
    t=h.t
    es=errs(C,h)
    if any(canon(e) is canon(x) for x in es): return 1
    x=e
    while x.op=='anyerr': x=x.a[0]
    if x.op=='DECERR':
        return R.check('undecodable data is reported as an error',w,True) and 1
    if x.op=='agg' and x.a[0].endswith('CandyError'):
        R.check('a refusal has no effect',w,not h.effects(),'%s is reported after the store was changed (%s)'%(x.a[1],', '.join(map(repr,h.effects()))[:200]),t); return 1
    if es and any(contains(e,lambda y,z=z:y is canon(z)) for z in es): return 1
    R.check('an error result stems from a failure',w,False,'error %s does not come from a failed operation'%show2(e),t)
    return 1
def contains(v,f): return any(isinstance(y,V) and f(y) for y in subterms(v))

def C29_untyped(C,R): return C29(C,R,typed=False)
