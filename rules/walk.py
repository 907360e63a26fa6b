"""C19: the iterator over the whole store."""
from rules.lib import *
from rules.shard import *
from rules import api,rows
from rules.place import only
from rules.locks import short_

SELF=mk('arg','self')
def iterators(C):
    """next() functions that walk the shards by position"""
    r=[]
    for p in C.P.fns:
        if not p.endswith('Iterator>::next'): continue
        seen=set(); todo=[p]+[q for q in C.P.fns if q.startswith(p+'::{closure')]
        while todo:
            q=todo.pop()
            if q in seen: continue
            seen.add(q); todo+=C.calls()[q][0] if q in C.calls() else []
        if any(q.endswith('Shard::read_at') for q in seen): r.append(p)
    return r
def spanof(s,sh): return fld(fld(sh,'span'),s)
def C19(C,R):
    its=iterators(C); R.floor('iterators over the store','CandyStore',1,len(its))
    for p in its:
        walk(C,R,p)
    only(C,R,rows.C11,('entry reported exactly if its slot is occupied',))
    from rules import place
    only(C,R,tiles,('each shard starts where the previous one ends','the hash space is covered to its end'))
def tiles(C,R):
    from rules import open as op
    op.C30(C,R)
def eqv(t,a,b,before):
    return a is b or t.entails(cmp_eq(a,b),before)==1
def walk(C,R,p):
    w=short_(p); T=api.run(C,p)
    S=RW=EN=None
    for t in T:
        for x in t.by('Call'):
            if x.op.endswith('Shard::read_at') and RW is None: RW,EN=x.val[1],x.val[2]
            if x.op.endswith('ShardRouter::shared_op') and S is None: S=x.val[1]
        if RW is not None: break
    fields=(S,RW,EN)
    if not R.check('the position is kept in the iterator',w,all(q is not None and q.op=='fld' and q.a[0] is SELF for q in fields) and len(set(fields))==3,'reads start at %s'%[show(q) if q is not None else '?' for q in fields]): return
    end=c(1<<16); n={'read':0,'end':0,'item':0,'err':0,'none':0,'loop':0}
    for t in T:
        if t.kind not in('return','loop'): continue
        cur={q:q for q in fields}      # what the fields hold
        exp=[S,RW,EN]                  # the next position that has not been visited
        pend=None                      # last read
        sel=None
        ok=True
        def advance(pos,before):
            """successor of a position that was read"""
            s,r,e=pos
            k=below(t,add(e,c(1)),c(NCOLS),None)
            if k==1: return [s,r,add(e,c(1))]
            if k==0: return [s,add(r,c(1)),c(0)]
            return None
        for x in t.S:
            if x.k=='W' and x.ptr in cur:
                v=canon(x.val); cur[x.ptr]=v
                if x.ptr is S:
                    # the same shard again, or the next one once this one is finished
                    sh=v.a[0].a[0] if v.op=='fld' and v.a[0].op=='fld' and v.a[0].a[1]=='span' else None
                    at=sh is not None and sh.op=='shardof' and sh.a[0] is exp[0]
                    if at and v.a[1]=='start' or v is exp[0]: 
                        exp[0]=v
                        continue
                    full=below(t,exp[1],c(NROWS),x.i)==0
                    R.check('the next shard follows when this one is finished',w,at and v.a[1]=='end' and full,'goes on at %s although the rows of this shard have not all been visited'%show(v)[:60] if at and v.a[1]=='end' else 'goes on at %s'%show(v)[:60],t,x)
                    n['end']+=1
                    exp=[v,c(0),c(0)]
                continue
            if x.k!='Call': continue
            if x.op.endswith('ShardRouter::shared_op'):
                sel=x.val[1]
                R.check('the shard at the position is asked',w,same(sel,exp[0]),'asks the shard of %s'%show(sel)[:60],t,x)
                R.check('the shard at the position is asked',w,below(t,sel,end,x.i)==1,'the end of the hash space is not looked for before a shard is asked',t,x)
            elif x.op.endswith('Shard::read_at'):
                n['read']+=1
                if pend is not None: settle(R,w,t,pend,None,p)
                a=list(x.val)
                R.check('every position is read in turn',w,a[0].op=='shardof' and sel is not None and a[0].a[0] is sel and a[1] is exp[1] and a[2] is exp[2],'reads row %s, slot %s instead of row %s, slot %s'%tuple(show(q)[:50] for q in(a[1],a[2],exp[1],exp[2])),t,x)
                R.check('only rows that exist are read',w,below(t,a[1],c(NROWS),x.i)==1,'row %s'%show(a[1])[:50],t,x)
                nx=advance(exp,None)
                if not R.check('a row is left exactly after its last slot',w,nx is not None,'the iterator does not test for the end of the row',t,x): ok=False; break
                exp=nx; pend=x
            elif x.op.split('::')[-2:-1]==['Shard']:
                R.check('every position is read in turn',w,False,'%s'%x.op,t,x)
        if not ok: continue
        here=[cur[q] for q in fields]
        fin=all(same(a,b) for a,b in zip(here,exp))
        if t.kind=='loop':
            n['loop']+=1
            R.check('the iterator moves on with every position',w,fin,'is left at %s instead of %s'%(at_(here),at_(exp)),t,pend)
            if pend is not None: settle(R,w,t,pend,None,p)
            continue
        ret=canon(t.ret)
        if ret.op!='agg': R.check('the result is recognisable',w,False,show(ret)[:80],t,None); continue
        if ret.a[1]=='None':
            n['none']+=1
            if pend is not None: settle(R,w,t,pend,None,p)
            R.check('the iteration ends only at the end of the hash space',w,below(t,exp[0],end)==0,'ends at %s'%at_(exp),t,pend)
            R.check('the iterator moves on with every position',w,fin,'is left at %s instead of %s'%(at_(here),at_(exp)),t,pend)
            R.check('the end is permanent',w,below(t,cur[S],end)==0,'goes on at %s after the end'%show(cur[S])[:40],t,None)
            continue
        it=ret.a[3][0]
        if not R.check('an item is that of the last position read',w,pend is not None,'',t,None): continue
        R.check('the iterator moves on with every position',w,fin,'is left at %s instead of %s'%(at_(here),at_(exp)),t,pend)
        if it.op=='agg' and it.a[1]=='Err' or it.op!='agg' and t.p.conds.get(mk('is',it))=='Err':
            n['err']+=1
            R.check('a failed read is reported as it is',w,contains_(it,pend.res) and t.ok(pend.res)=='Err','',t,pend)
            continue
        n['item']+=1; settle(R,w,t,pend,it,p)
    for k,m in(('read',4),('end',2),('item',2),('err',1),('none',2),('loop',2)): R.floor('instances',k,m,n[k])
    # the cookie
    own=p[1:].split(' as ')[0]
    ck=[q for q,f in C.P.fns.items() if q.startswith(own+'::') and f.argc==1 and C.P.types[f.locals[0][0]]['s']=='u64']
    fr=[(q,t) for q,f in C.P.fns.items() if '{closure' not in q for t in (C.paths(q) if C.P.types[f.locals[0][0]]['s'].startswith(own) else ()) if t.kind=='return' and t.ret is not None]
    made=built=0
    cvals=[canon(t.ret) for q in ck for t in C.paths(q) if t.kind=='return']
    R.floor('cookies',own,1,len(cvals))
    for q,t in fr:
        v=canon(t.ret)
        if v.op!='agg': continue
        g=[fld(v,str(z.a[1])) for z in fields]
        num=[mk('arg',C.P.fns[q].lname(i+1)) for i in range(C.P.fns[q].argc) if C.P.types[C.P.fns[q].lty(i+1)]['s']=='u64']
        if not num or not any(num[0] in subterms(z) for z in g):
            made+=1
            R.check('an iterator starts at the beginning',short_(q),all(z is c(0) for z in g),'starts at %s'%at_(g),t,None)
            continue
        built+=1
        for cv in cvals:
            back=[rebuild(z,{},lambda y: cv if y is num[0] else None) for z in g]
            R.check('a cookie is the position it was taken at',short_(q),all(fits(a,b) for a,b in zip(back,fields)),'the cookie of %s is read as %s'%(at_(fields),at_(back)),t,None)
    R.floor('constructors',own,2,made); R.floor('constructors from a cookie',own,1,built)
    raw=rawfield(C,p,own)
    for q,t in fr:
        m=q.split('::')[-1]; v=canon(t.ret)
        if not raw or v.op!='agg' or not C.P.fns[q].pub: continue
        f=fld(v,raw); flag=[mk('arg',C.P.fns[q].lname(i+1)) for i in range(C.P.fns[q].argc) if C.P.types[C.P.fns[q].lty(i+1)]['s']=='bool']
        R.check('the public iterators report what they are meant to',short_(q),f in flag if flag else f is c(int('raw' in m)),'its %s is %s'%(raw,show(f)),t,None)
def below(t,v,n,before=None):
    """is a position that never exceeds n before n? (a test for equality decides it as well)"""
    k=t.entails(cmp_lt(v,n),before)
    if k is None:
        k=t.entails(cmp_eq(v,n),before)
        k=None if k is None else 1-k
    return k
def rawfield(C,p,own):
    a=C.P.adts.get(own)
    f=[z['name'] for z in a['variants'][0]['fields'] if C.P.types[z['ty']]['s']=='bool'] if a else []
    return f[0] if len(f)==1 else None
def contains_(v,q): return q in subterms(v)
def same(a,b):
    if a is b: return True
    # positions inside one shard are interchangeable
    def sh(v): return v.a[0].a[0].a[0] if v.op=='fld' and v.a[1]=='start' and v.a[0].op=='fld' and v.a[0].a[1]=='span' and v.a[0].a[0].op=='shardof' else None
    return sh(a) is b or sh(b) is a
def at_(l): return '(%s)'%', '.join(show(q)[:40] for q in l)
def fits(v,f):
    """v is field f, possibly cut to a width that its values fit"""
    if v is f: return True
    if v.op=='bf' and v.a[1]==0 and len(v.a[0])==1:
        x,lo,k,sh=v.a[0][0]
        return x is f and lo==0 and sh==0 and k>=16
    return False
def settle(R,w,t,x,item,p):
    """the slot read by x: reported or rightly passed over"""
    v=asv(x.res,'Ok'); o=fld(v,'0'); kv=fld(asv(o,'Some'),'0'); k=fld(kv,'0'); val=fld(kv,'1')
    empty=t.p.conds.get(mk('is',o))=='None'
    raws=[y for y in t.conds() if y.ptr.op=='fld' and y.ptr.a[0] is SELF]
    raw=any(y.op==1 for y in raws)
    user=[y for y in t.conds() if y.ptr.op=='endswith' and y.ptr.a[0] is k]
    isuser=any(y.op==1 and y.ptr.a[1] is mk('cb',b'\x01') for y in user); notuser=any(y.op==0 and y.ptr.a[1] is mk('cb',b'\x01') for y in user)
    if item is None:
        R.check('an entry is only passed over if it is not a plain one',w,empty or (notuser and any(y.op==0 for y in raws)),'an entry is passed over',t,x)
        return
    if not R.check('an item is that of the last position read',w,item.op=='agg' and item.a[1]=='Ok' and item.a[3][0].op=='agg','returns %s'%show(item)[:60],t,x): return
    g=item.a[3][0]; a,b=fld(g,'0'),fld(g,'1')
    plain=slc(k,c(0),sub(blen(k),c(1)))
    R.check('an item is that of the last position read',w,b is val and (a is k if raw else a is plain),'returns %s, %s'%(show(a)[:50],show(b)[:50]),t,x)
    R.check('only plain entries are reported',w,raw or isuser,'an entry of another kind is reported',t,x)
