"""Trace-partitioned abstract interpretation of MIR over the value-numbering domain of val.py.

The abstract state is (call string, environment of value-number terms, locks held, facts established by the
branches taken).  Calls to functions of the crate are followed (context-sensitive, call-string), loops are
summarised by ONE generic iteration over havocked loop-carried state (widening to the 'lv' term), calls that leave
the crate become events.  No program is run and no constraint solver is consulted: a branch is only pruned when
the very same condition (after normalisation) was decided earlier on the trace.
"""
import sys
from val import *
from val import _tab
from mir import strip_generics

class Ev:
    __slots__=('k','name','args','raw','res','site','stack','held','x')
    def __init__(s,k,name,args,raw,res,site,stack,held,x=None):
        s.k=k; s.name=name; s.args=args; s.raw=raw; s.res=res; s.site=site; s.stack=stack; s.held=held; s.x=x
    def __repr__(s):
        return '%s %s(%s)%s @%s'%(s.k,s.name if not isinstance(s.name,V) else show(s.name),', '.join(show(a)[:160] for a in s.args),' -> '+show(s.res)[:80] if s.res is not None else '',s.site)

class Frame:
    __slots__=('fn','fid','bb','dest','target','loops','site','cont','unr','unn')
    def copy(s):
        f=Frame(); f.unr=s.unr; f.unn=s.unn; f.fn=s.fn; f.fid=s.fid; f.bb=s.bb; f.dest=s.dest; f.target=s.target; f.loops=dict(s.loops); f.site=s.site; f.cont=s.cont
        return f

class St:
    __slots__=('env','mem','conds','ev','held','frames','ctr','fidc')
    def fork(s):
        n=St(); n.env=dict(s.env); n.mem=dict(s.mem); n.conds=dict(s.conds); n.ev=s.ev; n.held=s.held
        n.frames=[f.copy() for f in s.frames]; n.ctr=s.ctr; n.fidc=s.fidc
        return n
    def fresh(s,op,*a):
        s.ctr+=1; return mk(op,s.ctr,*a)

class Path:
    """one trace class: how it ended, what it did (events, with branch facts interleaved), what it returned"""
    def __init__(s,kind,st,ret,why=None):
        s.kind=kind; s.ret=ret; s.why=why; s.conds=st.conds; s.held=st.held; s.mem=st.mem
        l=[]; e=st.ev; s.chain=[]
        while e is not None:
            l.append(e[1])
            if e[1].k=='back': s.chain.append(id(e))
            e=e[0]
        l.reverse(); s.events=l
    def evs(s,*kinds): return [e for e in s.events if e.k in kinds]
    def is_(s,v):
        """variant established for v on this path (or by construction)"""
        if v.op=='agg': return v.a[1]
        return s.conds.get(mk('is',v))
    def dump(s):
        out=['== %s %s ret=%s'%(s.kind,s.why or '',show(s.ret) if s.ret is not None else None)]
        for e in s.events: out.append('   '+repr(e)[:400]+('   held=%s'%','.join(show(h.a[1])+':'+h.a[2] for h in e.held) if e.held and e.k!='cond' else ''))
        return '\n'.join(out)

class End(Exception):
    def __init__(s,kind,why=None): s.kind=kind; s.why=why
class Cap(Exception): pass

PURE_ARITH={'Add','Sub','Mul','AddUnchecked','SubUnchecked','MulUnchecked'}
WIDTH={'u8':8,'u16':16,'u32':32,'u64':64,'usize':64,'i8':8,'i16':16,'i32':32,'i64':64,'isize':64,'u128':128,'i128':128,'bool':1,'char':32}

def ptr_proj(p,*pr):
    """pointer V + projections -> pointer V"""
    if p.op=='&': return mk('&',p.a[0],p.a[1],p.a[2]+tuple(pr))
    for e in pr: p=getp(p,e)
    return p
def view(T,v):
    if v.op=='bytes' and v.a[0]==T: return v.a[1]
    return mk('from',T,v)
def mkbytes(T,x):
    if x.op=='from' and x.a[0]==T: return x.a[1]
    return mk('bytes',T,x)
def getp(v,p):
    k=p[0]
    if k=='f': return fld(v,p[1])
    if k=='d': return asv(v,p[1])
    if k=='i':
        if v.op=='cat' and isc(p[1]) and all(x.op=='elem' for x in v.a[0]) and 0<=p[1].a[0]<len(v.a[0]): return v.a[0][p[1].a[0]].a[0]
        return idx(v,p[1])
    if k=='s': return slc(v,p[1],p[2])
    if k=='v': return view(p[1],v)
    return mk('proj',v,p)
def setp(v,prs,new):
    if not prs: return new
    p=prs[0]; k=p[0]
    if k=='f':
        if v.op=='agg' and p[1] in v.a[2]:
            i=v.a[2].index(p[1]); vals=list(v.a[3]); vals[i]=setp(vals[i],prs[1:],new)
            return mk('agg',v.a[0],v.a[1],v.a[2],tuple(vals))
        inner=setp(fld(v,p[1]),prs[1:],new)
        if v.op=='upd' and v.a[1]==p: return mk('upd',v.a[0],p,inner)
        if inner is fld(v,p[1]): return v
        return mk('upd',v,('f',p[1]),inner)
    if k=='d':
        if v.op=='agg': return setp(v,prs[1:],new)
        return mk('updv',v,p[1],setp(asv(v,p[1]),prs[1:],new))
    if k=='i':
        if v.op=='arr' and isc(p[1]) and 0<=p[1].a[0]<len(v.a[0]):
            l=list(v.a[0]); i=p[1].a[0]; l[i]=setp(l[i],prs[1:],new); return mk('arr',tuple(l))
        return mk('upd',v,p,setp(getp(v,p),prs[1:],new))
    if k=='s':
        lo,hi=p[1],p[2]
        inner=setp(slc(v,lo,hi),prs[1:],new)
        return cat([slc(v,c(0),lo),inner,slc(v,hi,blen(v))])
    if k=='v':
        return mkbytes(p[1],setp(view(p[1],v),prs[1:],new))
    return mk('upd',v,p,setp(getp(v,p),prs[1:],new))

# ---------- canonical boolean terms
BYTEOPS={'cb','cat','bytes','slice','enc','repeat'}
def bnot(v):
    if isc(v): return c(1-v.a[0])
    if v.op=='not': return v.a[0]
    return mk('not',v)
def _split(d):
    k,t=unlin(d)
    pos={x:m for x,m in t.items() if m>0}; neg={x:-m for x,m in t.items() if m<0}
    return k,pos,neg
def cmp_eq(a,b):
    if a is b: return TRUE
    if isc(a) and isc(b): return c(int(a.a[0]==b.a[0]))
    if a.op=='agg' and b.op=='agg' and a.a[1]!=b.a[1]: return FALSE
    if a.op=='agg' and b.op=='agg' and not a.a[2]: return TRUE
    if a.op=='cb' and b.op=='cb': return c(int(a.a[0]==b.a[0]))
    if a.op in BYTEOPS or b.op in BYTEOPS or a.op=='agg' or b.op=='agg':
        x,y=(a,b) if a.id<=b.id else (b,a)
        return mk('eq',x,y)
    d=sub(a,b)
    if isc(d): return c(int(d.a[0]==0))
    k,pos,neg=_split(d)
    lead=min(list(pos)+list(neg),key=lambda x:x.id)
    if lead in neg: pos,neg,k=neg,pos,-k
    return mk('eq',lin(k if k>0 else 0,pos),lin(-k if k<0 else 0,neg))
def cmp_lt(a,b):
    if a is b: return FALSE
    if isc(a) and isc(b): return c(int(a.a[0]<b.a[0]))
    if isc(b) and b.a[0]==0: return FALSE
    d=sub(b,a)           # a<b  <=> d>0
    if isc(d): return c(int(d.a[0]>0))
    k,pos,neg=_split(d)  # pos+k > neg
    lead=min(list(pos)+list(neg),key=lambda x:x.id)
    if lead in neg:
        return mk('lt',lin(-k if k<0 else 0,neg),lin(k if k>0 else 0,pos))
    # not (pos <= neg-k)  = not lt(pos, neg-k+1)
    k2=-k+1
    return bnot(mk('lt',lin(-k2 if k2<0 else 0,pos),lin(k2 if k2>0 else 0,neg)))

class Interp:
    consuming=None
    def __init__(s,prog,boundary=None,models=None,max_paths=20000,max_steps=4000000,opts=None):
        s.P=prog; s.boundary=boundary or {}; s.max_paths=max_paths; s.max_steps=max_steps
        s.extra=models or {}; s.opts=opts or {}
        s.loopinfo={}; s.mutinfo={}; s.unknown={}; s.inlined=set(); s.steps=0; s.inv=frozenset(); s.stays=set(); s.varies=set(); s.stepped=set()
        s.pcache={}
        for k,v in prog.sizes.items(): SIZES[strip_generics(k)]=v
        import models as M
        s.models=M.MODELS; s.M=M
    # ---------------------------------------------------------------- CFG
    def succs(s,b):
        t=b['t']; k=t[0]
        if k=='goto': return [t[1]]
        if k=='switch': return [x[1] for x in t[2]]+[t[3]]
        if k=='drop': return [t[2]]
        if k=='call': return [t[4]] if t[4] is not None else []
        if k=='assert': return [t[4]]
        return []
    def loops(s,F):
        if F.path in s.loopinfo: return s.loopinfo[F.path]
        n=len(F.blocks); order=[]; seen=set(); st=[(0,iter(s.succs(F.blocks[0])))]; seen.add(0)
        while st:
            u,it=st[-1]
            for v in it:
                if v not in seen: seen.add(v); st.append((v,iter(s.succs(F.blocks[v])))); break
            else: order.append(u); st.pop()
        rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
        preds={b:[] for b in rpo}
        for b in rpo:
            for v in s.succs(F.blocks[b]): preds[v].append(b)
        idom={0:0}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                new=None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new=p
                        else:
                            x,y=p,new
                            while x!=y:
                                while num[x]>num[y]: x=idom[x]
                                while num[y]>num[x]: y=idom[y]
                            new=x
                if idom.get(b)!=new: idom[b]=new; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        L={}
        for u in rpo:
            for h in s.succs(F.blocks[u]):
                if dom(h,u):
                    body=L.setdefault(h,{h}); work=[u]
                    while work:
                        x=work.pop()
                        if x in body: continue
                        body.add(x); work.extend(preds[x])
        info={}
        for h,body in L.items():
            wr=[]; assigned=set()
            for b in body:
                B=F.blocks[b]
                for stt in B['s']:
                    if stt[0]=='=':
                        wr.append(('w',stt[1]))
                        rv=stt[2]
                        if rv[0]=='ref' and rv[1]:
                            if stt[1][1]: wr.append(('r',rv[2]))
                            else:
                                for ext in s.mutflow(F,stt[1][0]): wr.append(('r',(rv[2][0],list(rv[2][1])+list(ext))))
                        if not stt[1][1]: assigned.add(stt[1][0])
                    elif stt[0]=='setdiscr': wr.append(('w',stt[1]))
                t=B['t']
                if t[0]=='call':
                    wr.append(('w',t[3]))
                    if not t[3][1]: assigned.add(t[3][0])
            info[h]=(frozenset(body),wr,assigned)
        s.loopinfo[F.path]=info
        return info
    def mutflow(s,F,l,busy=()):
        """projection paths (relative to the referent of local l, a mutable reference) that code of F and the functions
        of this program it hands the reference to may modify; [()] when the whole referent may be"""
        key=(F.path,l)
        if key in s.mutinfo: return s.mutinfo[key]
        if key in busy or len(busy)>12: return [()]
        busy=busy+(key,)
        out=set(); alias={(l,())}; seen=set()
        def simple(pr): return all(e[0] in('f','d') for e in pr)
        def cutp(pr):
            r=[]
            for e in pr:
                if e[0] in('f','d'): r.append(tuple(e))
                else: break
            return tuple(r)
        while alias-seen:
            x,pre=(alias-seen).pop(); seen.add((x,pre))
            if len(seen)>60: out={()}; break
            def through(pl):
                # place reached through *x: its path, else None
                return pre+cutp(pl[1][1:]) if pl[0]==x and pl[1] and pl[1][0][0]=='*' else None
            for B in F.blocks:
                for stt in B['s']:
                    if stt[0]=='setdiscr':
                        q=through(stt[1])
                        if q is not None: out.add(q)
                        continue
                    if stt[0]!='=': continue
                    q=through(stt[1])
                    if q is not None: out.add(q)
                    rv=stt[2]
                    if rv[0]=='ref':
                        q=through(rv[2])
                        if q is not None and rv[1]:
                            if not stt[1][1] and simple(rv[2][1][1:]): alias.add((stt[1][0],q))
                            else: out.add(q)
                        elif rv[2][0]==x and not rv[2][1] : out.add(pre)
                        continue
                    if rv[0]=='rawptr':
                        q=through(rv[2])
                        if q is not None: out.add(q)
                        continue
                    if rv[0]=='discr': continue
                    for op in ops_of(rv):
                        pl=op.get('c') or op.get('m')
                        if pl is None or pl[0]!=x: continue
                        if not pl[1]:
                            if rv[0]=='use' and not stt[1][1]: alias.add((stt[1][0],pre))
                            else: out.add(pre)
                t=B['t']
                if t[0]=='call':
                    q=through(t[3])
                    if q is not None: out.add(q)
                    for i,op in enumerate(t[2]):
                        pl=op.get('c') or op.get('m')
                        if pl is None or pl[0]!=x or pl[1]: continue
                        k=t[1].get('k') or {}
                        G=None
                        if k.get('reslocal') and k.get('reskind')=='item' and k.get('res'): G=s.P.fns.get(strip_generics(k['res']))
                        if G is None or s.P.types[G.locals[0][0]]['k']=='ref': out.add(pre)
                        elif s.boundary.get(G.path) is not None or s.opts.get('boundary_fn') and s.opts['boundary_fn'](G,None) is not None: out.add(pre)
                        else:
                            for e in s.mutflow(G,i+1,busy): out.add(pre+tuple(e))
        if len(busy)==1 or () in out: s.mutinfo[key]=sorted(out,key=str) if () not in out else [()]
        return sorted(out,key=str) if () not in out else [()]
    # ---------------------------------------------------------------- locations
    def loc(s,st,fr,place):
        l,projs=place
        base=None; fid=fr.fid; pr=[]
        cur=('L',fid,l); 
        for e in projs:
            k=e[0]
            if k=='*':
                v=s.read(st,(cur,tuple(pr)))
                cur,pr=s.deref(st,v)
                pr=list(pr)
            elif k=='f': pr.append(('f',e[2]))
            elif k=='d': pr.append(('d',e[2]))
            elif k=='i':
                iv=s.read(st,(('L',fid,e[1]),()))
                pr.append(('i',iv))
            elif k=='ci':
                if e[2]: pr.append(('ix',-e[1]))
                else: pr.append(('i',c(e[1])))
            else: pr.append(('o',str(e)))
        return (cur,tuple(pr))
    def deref(s,st,v):
        """pointer value -> (base,projs)"""
        if v.op=='&': return ('L',v.a[0],v.a[1]),v.a[2]
        if v.op=='guard':
            return s.deref(st,ptr_proj(v.a[1],('f','$')))
        return ('M',v),()
    def ptr(s,st,loc):
        base,pr=loc
        if base[0]=='L': return mk('&',base[1],base[2],pr)
        p=base[1]
        for e in pr: p=getp(p,e)
        return p
    def memread(s,st,p):
        m=st.mem
        if not m: return p
        if p in m: return m[p]
        # ancestors
        o=p.op
        if o=='fld' and p.a[0].op=='as' and p.a[0].a[0].op=='ret': v=p
        elif o=='fld':
            b=s.memread(st,p.a[0])
            v=p if b is p.a[0] else fld(b,p.a[1])
        elif o=='as' and p.a[0].op=='ret': return p      # a value, not a location
        elif o=='as':
            b=s.memread(st,p.a[0]); v=p if b is p.a[0] else asv(b,p.a[1])
        elif o=='idx':
            b=s.memread(st,p.a[0]); v=p if b is p.a[0] else idx(b,p.a[1])
            for q in m:
                if q.op=='idx' and q.a[0] is p.a[0] and not (isc(q.a[1]) and isc(p.a[1])):
                    return st.fresh('mayalias',p)
        else: v=p
        # children overrides
        for q in m:
            if q.op in('fld','idx','as'):
                x=q; prs=[]
                while x.op in('fld','idx','as') and x is not p:
                    prs.append(('f',x.a[1]) if x.op=='fld' else ('i',x.a[1]) if x.op=='idx' else ('d',x.a[1])); x=x.a[0]
                if x is p and prs: v=setp(v,tuple(reversed(prs)),m[q])
        return v
    def read(s,st,loc):
        base,pr=loc
        if base[0]=='L':
            v=st.env.get((base[1],base[2]))
            if v is None: v=mk('undef',base[1],base[2])
            for e in pr:
                v=getp(v,e)
            return v
        p=base[1]
        for e in pr: p=getp(p,e)
        return s.memread(st,p)
    def write(s,st,loc,val,site=None,note=True):
        base,pr=loc
        if base[0]=='L':
            k=(base[1],base[2])
            if not pr: st.env[k]=val
            else:
                v=st.env.get(k) or mk('undef',base[1],base[2])
                st.env[k]=setp(v,pr,val)
            return
        p=base[1]
        for e in pr: p=getp(p,e)
        for q in [q for q in st.mem if q is not p and s.under(q,p)]: del st.mem[q]
        st.mem[p]=val
        if note: s.event(st,'write',None,(p,val),None,site)
    def under(s,q,p):
        while q.op in('fld','idx','as','slice'):
            q=q.a[0]
            if q is p: return True
        return False
    def load(s,st,p):
        """value behind pointer p"""
        b,pr=s.deref(st,p)
        return s.read(st,(b,pr))
    def store(s,st,p,v,site=None):
        b,pr=s.deref(st,p); s.write(st,(b,pr),v,site)
    def deep(s,st,v,n=0):
        """value with pointers to locals replaced by what they point to (for reporting / events)"""
        if n>6: return v
        if v.op=='&': return s.deep(st,s.load(st,v),n+1)
        if v.op=='agg' and any(x.op in('&','agg','cat') for x in v.a[3]):
            return mk('agg',v.a[0],v.a[1],v.a[2],tuple(s.deep(st,x,n+1) for x in v.a[3]))
        if v.op=='arr': return mk('arr',tuple(s.deep(st,x,n+1) for x in v.a[0]))
        if v.op=='cat': return cat([s.deep(st,x,n+1) if x.op!='elem' else mk('elem',s.deep(st,x.a[0],n+1)) for x in v.a[0]])
        return v
    # ---------------------------------------------------------------- events
    def stack(s,st): return tuple(f.fn.path for f in st.frames)
    def site(s,st,span=None):
        f=st.frames[-1]; return (f.fn.path,span)
    EXIT_OK={'cond','back','user','aload','drop','note','gdrop','step','iterend','adapt','rd'}
    def event(s,st,k,name,args,res,site,x=None):
        if k not in s.EXIT_OK:
            for f in st.frames:
                if f.loops:
                    for n in f.loops.values():
                        if n>=2: raise End('prune','second pass')
        a=tuple(s.deep(st,v) for v in args)
        if isinstance(site,str) or site is None: site=s.site(st,site)
        if k in('iter','iterend','adapt','consume') and x is None: x=s.consuming or s.innermost(st)
        e=Ev(k,name,a,tuple(args),res,site,s.stack(st),st.held,x)
        st.ev=(st.ev,e)
        return e
    def innermost(s,st):
        for f in reversed(st.frames):
            if f.loops:
                L=s.loops(f.fn)
                h=min(f.loops,key=lambda q: len(L[q][0]))
                return (f.fn.path,h,f.fid)
        return None
    def setcond(s,st,key,val,site=None):
        st.conds[key]=val
        st.ev=(st.ev,Ev('cond',key,(),(),c(val) if isinstance(val,int) else mk('s',val),s.site(st,site),s.stack(st),st.held,val))
    # ---------------------------------------------------------------- deciding branches
    def known(s,st,b):
        """0/1/None for canonical boolean b"""
        if isc(b): return b.a[0]
        if b.op=='not':
            r=s.known(st,b.a[0]); return None if r is None else 1-r
        C=st.conds
        if b in C: return C[b]
        if b.op=='eq':
            x,y=b.a
            for p,q in((x,y),(y,x)):
                v=C.get(mk('lt',p,q))
                if v==1: return 0
            # x == k while x < k' / x==k2 known
            if isc(y):
                for key,val in C.items():
                    if key.op=='eq' and val==1 and key.a[0] is x and isc(key.a[1]) and key.a[1] is not y: return 0
                    if key.op=='lt' and key.a[0] is x and isc(key.a[1]):
                        if val==1 and y.a[0]>=key.a[1].a[0]: return 0
                        if val==0 and y.a[0]<key.a[1].a[0]: return 0
            l=cmp_lt(x,y)
            r=C.get(l) if l.op!='not' else (None if C.get(l.a[0]) is None else 1-C.get(l.a[0]))
            if r==1: return 0
            l=cmp_lt(y,x)
            r=C.get(l) if l.op!='not' else (None if C.get(l.a[0]) is None else 1-C.get(l.a[0]))
            if r==1: return 0
        elif b.op=='lt':
            x,y=b.a
            e=cmp_eq(x,y)
            if C.get(e)==1: return 0
            if isc(y):
                for key,val in C.items():
                    if key.op=='lt' and key.a[0] is x and isc(key.a[1]):
                        k=key.a[1].a[0]
                        if val==1 and k<=y.a[0]: return 1
                        if val==0 and k>=y.a[0]: return 0
                    if key.op=='eq' and val==1 and key.a[0] is x and isc(key.a[1]): return int(key.a[1].a[0]<y.a[0])
        return None
    def branch_bool(s,st,b,site=None):
        """[(state,0/1)]"""
        r=s.known(st,b)
        if r is not None: return [(st,r)]
        neg=b.op=='not'; key=b.a[0] if neg else b
        s2=st.fork()
        s.setcond(st,key,1-int(neg) ,site); s.setcond(s2,key,int(neg),site)
        return [(st,1),(s2,0)]
    def variants(s,adt):
        d=s.P.adts.get(adt)
        if d: return [(v['name'],v['discr'] if v['discr'] is not None else i) for i,v in enumerate(d['variants'])]
        B={'std::option::Option':[('None',0),('Some',1)],'std::result::Result':[('Ok',0),('Err',1)],'std::ops::ControlFlow':[('Continue',0),('Break',1)]}
        return B.get(adt)
    def branch_variant(s,st,v,adt,site=None,only=None):
        """[(state,variant name,projected value)]"""
        if v.op=='agg' and v.a[1] is not None: return [(st,v.a[1],v)]
        if v.op=='updv': return [(st,v.a[1],v.a[2])]
        key=mk('is',v)
        if key in st.conds: n=st.conds[key]; return [(st,n,asv(v,n))]
        names=[n for n,_ in s.variants(adt)]
        no=st.conds.get(mk('isnot',v))
        if no: names=[n for n in names if n not in no]
        if only: names=[n for n in names if n in only]
        out=[]
        for i,n in enumerate(names):
            s2=st if i==len(names)-1 else st.fork()
            s.setcond(s2,key,n,site)
            out.append((s2,n,asv(v,n)))
        return out
    def opt_fork(s,st,v,site=None): 
        return s.branch_variant(st,v,'std::option::Option',site)
    def res_fork(s,st,v,site=None):
        return s.branch_variant(st,v,'std::result::Result',site)
    def payload(s,v): return fld(v,'0')
    # ---------------------------------------------------------------- operands
    def noteread(s,st,p):
        """record a read of row memory"""
        q=p
        while q.op in('idx','slice') and q.a[0].op in('idx','slice','fld'): q=q.a[0]
        if q.op=='fld' and q.a[1] in('signatures','offsets_and_sizes'): s.event(st,'rd',None,(p,),None,None)
    def operand(s,st,fr,o):
        pl=o.get('c') or o.get('m')
        if pl is not None:
            l=s.loc(st,fr,pl)
            if l[0][0]=='M' and any(e[0]=='*' for e in pl[1]):
                p=l[0][1]
                for e in l[1]: p=getp(p,e)
                if p.op in('idx','fld','slice'): s.noteread(st,p)
            return s.read(st,l)
        if 'k' in o: return s.konst(st,fr,o['k'])
        return FALSE
    def konst(s,st,fr,k):
        if 'fn' in k: return mk('fn',strip_generics(k.get('res') or k['fn']),strip_generics(k['fn']))
        t=s.P.types[k['ty']]
        if 'promoted' in k:
            return s.promoted(fr.fn,k['promoted'])
        if 'v' in k and k['v'] is not None: return c(k['v'])
        if 'str' in k: return mk('cb',k['str'].encode())
        if 'strs' in k: return mk('arr',tuple(mk('cb',bytes(x)) for x in k['strs']))
        if 'bytes' in k:
            b=bytes(k['bytes']); 
            base=t
            while base['k']=='ref': base=s.P.types[base['t']]
            if base['s'].startswith('[u8') or base['s'] in('str','[u8]'): return mk('cb',b)
            return mk('kb',t['s'],b)
        if 'def' in k: return mk('const',strip_generics(k['def']))
        if t['s']=='()': return UNIT
        if t['k']=='closure' or 'closure' in t['s']:
            return mk('k',t['s'])
        return mk('k',k.get('s',t['s']))
    def promoted(s,F,i):
        key=(F.path,i)
        if key in s.pcache: return s.pcache[key]
        b=F.promoted[i]
        st=St(); st.env={}; st.mem={}; st.conds={}; st.ev=None; st.held=(); st.ctr=0; st.fidc=0
        fr=Frame(); fr.fn=F; fr.fid=('p',)+key; fr.bb=0; fr.loops={}; fr.unr=frozenset(); fr.unn=0; fr.cont=None
        st.frames=[fr]
        v=None
        try:
            for B in b['blocks']:
                if B['c']: continue
                for x in B['s']: s.stmt(st,fr,x,b)
                if B['t'][0]=='return': break
                if B['t'][0] not in('goto','assert'): raise KeyError(B['t'][0])
            v=s.deep(st,st.env[(fr.fid,0)])
        except Exception as e:
            v=mk('promoted',F.path,i)
        s.pcache[key]=v
        return v
    def optype(s,fr,o,body=None):
        if 'k' in o: return s.P.types[o['k']['ty']]['s']
        p=o.get('c') or o.get('m')
        if not p: return '?'
        if p[1]:
            last=p[1][-1]
            if last[0]=='f' and len(last)>3 and last[3] is not None: return s.P.types[last[3]]['s']
            return '?'
        loc=(body['locals'] if body else fr.fn.locals)
        return s.P.types[loc[p[0]][0]]['s']
    # ---------------------------------------------------------------- statements
    def binop(s,op,a,b,ty):
        w=WIDTH.get(ty,64)
        base=op.replace('WithOverflow','').replace('Unchecked','')
        fl=ty in('f32','f64')
        if fl: r=mk('f'+base,a,b)
        elif base=='Add': r=add(a,b)
        elif base=='Sub': r=sub(a,b)
        elif base=='Mul': r=mul(a,b)
        elif base=='Shr': r=shr(a,b.a[0],w) if isc(b) else mk('shr',a,b)
        elif base=='Shl': r=shl(a,b.a[0],w) if isc(b) else mk('shl',a,b)
        elif base=='BitAnd':
            if ty=='bool':
                if isc(a): r=b if a.a[0] else FALSE
                elif isc(b): r=a if b.a[0] else FALSE
                else: r=mk('and',a,b)
            else: r=band(a,b,w)
        elif base=='BitOr':
            if ty=='bool':
                if isc(a): r=TRUE if a.a[0] else b
                elif isc(b): r=TRUE if b.a[0] else a
                else: r=mk('or',a,b)
            else: r=bor(a,b,w)
        elif base=='BitXor': r=c(a.a[0]^b.a[0]) if isc(a) and isc(b) else mk('xor',a,b)
        elif base=='Eq': r=cmp_eq(a,b)
        elif base=='Ne': r=bnot(cmp_eq(a,b))
        elif base=='Lt': r=cmp_lt(a,b)
        elif base=='Gt': r=cmp_lt(b,a)
        elif base=='Le': r=bnot(cmp_lt(b,a))
        elif base=='Ge': r=bnot(cmp_lt(a,b))
        elif base=='Div': r=c(a.a[0]//b.a[0]) if isc(a) and isc(b) and b.a[0] else mk('div',a,b)
        elif base=='Rem': 
            if isc(b) and b.a[0]>0 and b.a[0]&(b.a[0]-1)==0 and not ty.startswith('i'): r=band(a,c(b.a[0]-1),w)
            else: r=c(a.a[0]%b.a[0]) if isc(a) and isc(b) and b.a[0] else mk('rem',a,b)
        else: r=mk('bin'+base,a,b)
        if op.endswith('WithOverflow'): return tup(r,FALSE)
        return r
    def cast(s,kind,v,src,dst):
        if kind.startswith('IntToInt'):
            ws,wd=WIDTH.get(src),WIDTH.get(dst)
            if ws and wd and wd<ws:
                return band(v,c((1<<wd)-1),ws)
            return v
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat') or kind.startswith('FloatToFloat'):
            return mk('cast',kind.split('(')[0],dst,v)
        return v
    def rvalue(s,st,fr,r,site,body=None):
        k=r[0]
        if k=='use': return s.operand(st,fr,r[1])
        if k in('ref',): return s.ptr(st,s.loc(st,fr,r[2]))
        if k=='rawptr': return s.ptr(st,s.loc(st,fr,r[2]))
        if k=='cast':
            v=s.operand(st,fr,r[2])
            return s.cast(r[1],v,s.optype(fr,r[2],body),s.P.types[r[3]]['s'])
        if k=='bin':
            a=s.operand(st,fr,r[2]); b=s.operand(st,fr,r[3])
            ty=s.optype(fr,r[2],body)
            if ty=='?': ty=s.optype(fr,r[3],body)
            return s.binop(r[1],a,b,ty)
        if k=='un':
            v=s.operand(st,fr,r[2])
            if r[1]=='Not':
                ty=s.optype(fr,r[2],body)
                if ty=='bool': return bnot(v)
                return mk('inv',v)
            if r[1]=='Neg': return sub(c(0),v)
            if r[1]=='PtrMetadata': return blen(s.load(st,v))
            return mk('un'+r[1],v)
        if k=='discr':
            v=s.read(st,s.loc(st,fr,r[1]))
            return mk('discr',v)
        if k=='agg':
            kk=r[1]; vals=[s.operand(st,fr,x) for x in r[2]]
            if kk[0]=='tuple':
                if not vals: return UNIT
                return tup(*vals)
            if kk[0]=='array': return mk('arr',tuple(vals))
            if kk[0]=='adt':
                path=strip_generics(kk[1]); d=s.P.adts.get(path)
                isenum=(d and d['kind']=='enum') or (s.variants(path) is not None and not d)
                names=kk[4]
                if d and d.get('kind')=='union': names=names[:len(vals)]
                return agg(path,kk[3] if isenum else None,names[:len(vals)],vals)
            if kk[0]=='closure':
                return agg('closure:'+strip_generics(kk[1]),None,[str(i) for i in range(len(vals))],vals)
            return mk('rawagg',*vals)
        if k=='repeat':
            v=s.operand(st,fr,r[1]); 
            try: n=int(str(r[2]).split('_')[0].replace('const ',''))
            except ValueError: n=None
            return mk('repeat',v,c(n) if n is not None else mk('k',str(r[2])))
        return st.fresh('rv',k)
    def stmt(s,st,fr,x,body=None):
        k=x[0]
        if k=='=':
            v=s.rvalue(st,fr,x[2],x[3] if len(x)>3 else None,body)
            s.write(st,s.loc(st,fr,x[1]),v,x[3] if len(x)>3 else None)
        elif k=='dead':
            st.env.pop((fr.fid,x[1]),None)
        elif k=='setdiscr': pass
    # ---------------------------------------------------------------- control flow
    def havoc(s,st,fr,h,n):
        if n==1: s.havoc_(st,fr,h,n); return
        s.stepped=set(); s.havoc_(st,fr,h,n)
        pre=(fr.fn.path,h,fr.fid)
        for k in st.env:
            if k[0]=='lv' and k[1][:3]==pre and k[1] not in s.stepped: s.varies.add(k[1])
    def havoc_(s,st,fr,h,n):
        body,wr,assigned=s.loops(fr.fn)[h]
        F=fr.fn; done=set()
        for kind,pl in wr:
            l,projs=pl
            derefs=[i for i,e in enumerate(projs) if e[0]=='*']
            if not derefs:
                if F.locals[l][1] is None: continue
                key=(fr.fid,l)
                if key not in st.env: continue
                pr=[]
                for e in projs:
                    if e[0]=='f': pr.append(('f',e[2]))
                    else: break
                cur=('L',fr.fid,l); pr=tuple(pr)
            else:
                if l in assigned: continue
                if (fr.fid,l) not in st.env: continue
                # resolve as far as fields/derefs go
                try:
                    cut=[]
                    for e in projs:
                        if e[0] in('*','f','d'): cut.append(e)
                        else: break
                    if '*' not in [e[0] for e in cut]: continue
                    base,pr=s.loc(st,fr,(l,cut))
                except KeyError: continue
                cur=base
            if (cur,pr) in done: continue
            done.add((cur,pr))
            old=s.read(st,(cur,pr))
            if derefs and all(e[0]=='*' for e in projs) and s.havoc_fields(st,fr,h,n,(cur,pr),old,F.locals[l][0],done): continue
            s.havoc_value(st,fr,h,n,(cur,pr),old,done)
    def nohavoc(s,v):
        o=v.op
        if o in('guard','it','fn','undef','k'): return True
        if o=='agg':
            if v.a[0].startswith('std::ops::Range'): return True
            if v.a[0]=='std::option::Option' and v.a[1]=='Some' and s.nohavoc(v.a[3][0]): return True
        return False
    def havoc_fields(s,st,fr,h,n,loc,old,ty,done):
        """a structure borrowed as a whole is havocked field by field"""
        if ty is None or old.op in('agg','lv','&'): return False
        t=s.P.types[ty]
        while t['k'] in('ref','ptr'): t=s.P.types[t['t']]
        d=s.P.adts.get(strip_generics(t['def'])) if t['k']=='adt' else None
        if d is None or d['kind']!='struct' or t['def'].split('::')[0] in('std','core','alloc'): return False
        for f in d['variants'][0]['fields']:
            l3=(loc[0],tuple(loc[1])+(('f',f['name']),))
            if l3 in done: continue
            done.add(l3)
            s.havoc_value(st,fr,h,n,l3,s.read(st,l3),done)
        return True
    def havoc_value(s,st,fr,h,n,loc,old,done):
        if s.nohavoc(old): return
        if old.op=='agg' and old.a[0].startswith('closure:'):
            F=s.P.fns.get(old.a[0][8:]); ups=()
            if F is not None and F.locals[1:]:
                t0=s.P.types[F.locals[1][0]]
                while t0['k'] in('ref','ptr'): t0=s.P.types[t0['t']]
                ups=t0.get('upvars',())
            for i,u in enumerate(old.a[3]):
                if u.op=='&':
                    l2=s.deref(st,u)
                    if l2 in done: continue
                    done.add(l2)
                    o2=s.read(st,l2)
                    if s.havoc_fields(st,fr,h,n,l2,o2,ups[i] if i<len(ups) else None,done): continue
                    s.havoc_value(st,fr,h,n,l2,o2,done)
            return
        if old.op=='&':
            return
        name=(fr.fn.path,h,fr.fid,s.locname(fr,loc)+('@%d'%fr.unn if fr.unn else ''))
        if name in s.inv: return
        if n>=2:
            prev=st.env.get(('lv',name))
            if prev is not None:
                s.stepped.add(name); (s.stays if prev is old else s.varies).add(name)
            if prev is not None: s.event(st,'step',None,(prev,old),None,None)
        init=old.a[2] if old.op=='lv' and old.a[0]==name else old
        if n==1: st.env[('lv',name)]=mk('lv',name,n,init)
        s.write(st,loc,mk('lv',name,n,init),None,note=False)
    def locname(s,fr,loc):
        base,pr=loc
        if base[0]=='L':
            nm=None
            return 'L%s.%s%s'%(base[1],base[2],''.join('.'+str(e[1]) for e in pr))
        return 'M%d'%s.ptr(None,loc).id
    def goto(s,st,to):
        fr=st.frames[-1]; L=s.loops(fr.fn)
        if fr.loops:
            for h in [h for h in fr.loops if to not in L[h][0]]: del fr.loops[h]
        if fr.unr and any(to not in L[h][0] for h in fr.unr): fr.unr=frozenset(h for h in fr.unr if to in L[h][0])
        if to in fr.unr: fr.unn+=1
        elif to in L and to not in fr.loops and s.unroll(st,fr,to): fr.unr=fr.unr|{to}; fr.unn+=1
        elif to in L:
            n=fr.loops.get(to,0)+1
            if n>=3: raise End('prune','loop')
            # nested loops of a re-entered head restart
            fr.loops[to]=n
            s.havoc(st,fr,to,n)
            if n==2: st.ev=(st.ev,Ev('back',None,(),(),None,s.site(st),s.stack(st),st.held,(fr.fn.path,to,fr.fid))); s.backs[id(st.ev)]=(st.ev,dict(st.conds),st.held,dict(st.mem) if False else st.mem)
        fr.bb=to
    def unroll(s,st,fr,h):
        """a loop over a short list that is written out in the program is followed element by element"""
        B=fr.fn.blocks[h]; t=B['t']
        if t[0]!='call' or s.exiting(st): return False
        for stt in B['s']:
            if stt[0]=='=' and stt[2][0]=='ref' and stt[2][1] and not [e for e in stt[2][2][1] if e[0]!='f']:
                l=(('L',fr.fid,stt[2][2][0]),tuple(('f',e[2]) for e in stt[2][2][1]))
                if (fr.fid,stt[2][2][0]) not in st.env: continue
                v=s.read(st,l)
                if v.op!='it': continue
                import models
                u=models.unrolled(s,st,v)
                if u is None: continue
                s.write(st,l,u,None,note=False)
                return True
        return False
    def push(s,st,F,args,dest,target,site,cont=None):
        fr=Frame(); fr.fn=F; st.fidc+=1; fr.fid=st.fidc; fr.bb=0; fr.dest=dest; fr.target=target; fr.loops={}; fr.unr=frozenset(); fr.unn=0; fr.site=site; fr.cont=cont
        for i,a in enumerate(args): st.env[(fr.fid,i+1)]=a
        st.frames.append(fr); s.inlined.add(F.path)
        L=s.loops(F)
        if 0 in L: fr.loops[0]=1; s.havoc(st,fr,0,1)
    def exiting(s,st):
        f=st.frames[-1]
        return any(n>=2 for n in f.loops.values())
    # ---------------------------------------------------------------- calls
    def call_closure(s,st,f,args,site,cont,dest,target):
        """f: callable value (closure agg, pointer to it, fn item, or symbolic); args list. returns successor list"""
        hops=0; ptrf=f
        while f.op=='&' and hops<6: ptrf=f; f=s.load(st,f); hops+=1
        if f.op=='agg' and f.a[0].startswith('closure:'):
            F=s.P.fns.get(f.a[0][8:])
            if F is not None and not any(x.fn is F for x in st.frames):
                t0=s.P.types[F.locals[1][0]]
                if t0['k']=='ref':
                    if ptrf.op!='&':
                        st.fidc+=1; cell=(('cell',st.fidc),0); st.env[cell]=f
                        ptrf=mk('&',cell[0],cell[1],())
                    self_arg=ptrf
                else: self_arg=f
                s.push(st,F,[self_arg]+list(args),dest,target,site,cont)
                return [st]
        if f.op=='fn':
            F=s.P.fns.get(f.a[0])
            if F is not None and len(args)==F.argc: return s.call_fn(st,F,list(args),site,cont,dest,target,None)
            if f.a[1].split('::')[-1] in('Ok','Err','Some') :
                v={'Ok':ok,'Err':err,'Some':some}[f.a[1].split('::')[-1]](args[0])
                return s.finish(st,v,cont,dest,target,site)
            d=s.ctor(f.a[1],args)
            if d is not None: return s.finish(st,d,cont,dest,target,site)
            m=s.models.get(f.a[1]) or s.models.get(f.a[0])
            if m:
                call=Call(); call.name=f.a[1]; call.res=f.a[0]; call.args=list(args); call.site=site; call.k={}; call.dty=None; call.tys=[]
                return s.outcomes(m(s,st,call),cont,dest,target,site)
            r=st.fresh('ret',f.a[1]); s.event(st,'ext',f.a[1],args,r,site)
            return s.finish(st,r,cont,dest,target,site)
        r=st.fresh('ret','callback')
        s.event(st,'callback',show(f)[:60],[f]+list(args),r,site)
        return s.finish(st,r,cont,dest,target,site)
    def ctor(s,path,args):
        if '::' in path:
            a,v=path.rsplit('::',1)
            d=s.P.adts.get(a)
            if d and d['kind']=='enum' and any(x['name']==v for x in d['variants']):
                return agg(a,v,[str(i) for i in range(len(args))],args)
        d=s.P.adts.get(path)
        if d and d['kind']=='struct': return agg(path,None,[str(i) for i in range(len(args))],args)
        return None
    def finish(s,st,v,cont,dest,target,site):
        """deliver value v of a completed call to the waiting call site (through cont)"""
        outs=[(st,v)] if cont is None else cont(s,st,v)
        res=[]
        for o in outs:
            if o[0]=='closure':
                _,st2,f,args,inner=o
                try: res.extend(s.call_closure(st2,f,args,site,inner,dest,target))
                except End as e: s.finishpath(st2,e)
            elif o[0]=='end': s.finishpath(o[1],End(o[2],o[3] if len(o)>3 else None))
            else:
                res.extend(s.deliver(o[0],o[1],dest,target,site))
        return res
    def deliver(s,st,v,dest,target,site):
        try:
            if target is None: raise End('panic','diverges')
            fr=st.frames[-1]
            s.write(st,s.loc(st,fr,dest),v,site)
            s.goto(st,target)
            return [st]
        except End as e:
            s.finishpath(st,e); return []
    def outcomes(s,outs,cont,dest,target,site):
        res=[]
        for o in outs:
            try:
                k=o[0]
                if k=='v': res.extend(s.finish(o[1],o[2],cont,dest,target,site))
                elif k=='end': s.finishpath(o[1],End(o[2],o[3] if len(o)>3 else None))
                elif k=='closure':
                    _,st,f,args,inner=o
                    res.extend(s.call_closure(st,f,args,site,compose(inner,cont),dest,target))
                elif k=='fn':
                    _,st,F,args,inner=o
                    res.extend(s.call_fn(st,F,args,site,compose(inner,cont),dest,target,None))
            except End as e:
                s.finishpath(o[1],e)
        return res
    def call_fn(s,st,F,args,site,cont,dest,target,call):
        b=s.boundary.get(F.path)
        if b is None and s.opts.get('boundary_fn'):
            b=s.opts['boundary_fn'](F,st)
        if b is not None:
            if b=='event':
                return s.finish(st,s.opaque(st,'call',F.path,args,site,F),cont,dest,target,site)
            outs=b(s,st,mkcall(F.path,args,site))
            if outs is not None: return s.outcomes(outs,cont,dest,target,site)
        if any(f.fn is F for f in st.frames):
            return s.finish(st,s.opaque(st,'rec',F.path,args,site,F),cont,dest,target,site)
        if len(st.frames)>40: raise Cap('call depth')
        s.push(st,F,args,dest,target,site,cont)
        return [st]
    def opaque(s,st,kind,name,args,site,F=None,pure=False,muts=None):
        r=st.fresh('ret',name)
        s.event(st,kind,name,args,r,site)
        # havoc what &mut arguments point to
        if F is not None:
            for i,a in enumerate(args):
                t=s.P.types[F.locals[i+1][0]]
                if t['k']=='ref' and t['mut']: s.havoc_arg(st,a,name)
                elif a.op=='agg' and a.a[0].startswith('closure:'): s.havoc_closure(st,a,name)
        elif muts:
            for i in muts: s.havoc_arg(st,args[i],name,kind=='ext')
        return r
    def havoc_closure(s,st,a,name):
        for u in a.a[3]:
            if u.op=='&': s.havoc_arg(st,u,name)
    def havoc_arg(s,st,a,name,note=False):
        if a.op in('&',):
            l=s.deref(st,a); old=s.read(st,l)
            if s.nohavoc(old): return
            s.write(st,l,st.fresh('out',name,old),None,note=False)
        elif a.op in('fld','arg','idx','as'):
            l=s.deref(st,a)
            old=s.read(st,l)
            s.write(st,l,st.fresh('out',name,old),None,note=note)
    # ---------------------------------------------------------------- guards
    def guards_in(s,st,v):
        if not st.held: return []
        if v.op=='guard': return [v] if v in st.held else []
        if v.op in('agg','arr','cat','upd','updv','elem'):
            sub_=subterms(v)
            return [h for h in st.held if h in sub_]
        return []
    def release(s,st,gs,site):
        for g in gs:
            st.held=tuple(h for h in st.held if h is not g)
            s.event(st,'unlock',g.a[2],(g.a[1],),g,site)
    def do_drop(s,st,v,ty,site,explicit=False):
        v0=v
        s.release(st,s.guards_in(st,v),site)
        if s.P is not None and ('shard::' in ty or 'router::' in ty or 'fslock' in ty or 'fs::File' in ty or 'TPHandle' in ty) and not ty.startswith('&'):
            s.event(st,'drop',ty,(v,),None,site)
    # ---------------------------------------------------------------- stepping
    def finishpath(s,st,e,ret=None):
        if e.kind=='prune':
            s.pruned+=1
            if e.why=='second pass':
                n=st.ev
                while n is not None and n[1].k!='back': n=n[0]
                if n is not None: s.loopends[id(n)]=n
            return
        s.paths.append(Path(e.kind,st,ret,e.why))
        if len(s.paths)>s.max_paths: raise Cap('too many paths in %s'%s.root)
    def run(s,F,args,init=None):
        """what no iteration of a loop changes (on any path) is not carried by the loop: run again knowing that"""
        s.inv=frozenset(); unk=dict(s.unknown)
        for _ in range(3):
            s.stays=set(); s.varies=set(); s.unknown=dict(unk)
            ps=s.run_(F,args,init)
            new=s.stays-s.varies
            if not new: break
            s.inv|=new
            if s.opts.get('dbg'): print(sorted(new))
        return ps
    def run_(s,F,args,init):
        s.paths=[]; s.pruned=0; s.root=F.path; s.steps=0; s.backs={}; s.loopends={}
        st=St(); st.env={}; st.mem={}; st.conds={}; st.ev=None; st.held=(); st.frames=[]; st.ctr=0; st.fidc=0
        if init: init(s,st)
        s.push(st,F,args,None,None,None)
        work=[st]
        while work:
            st=work.pop()
            try: nxt=s.step(st)
            except End as e: s.finishpath(st,e); continue
            work.extend(nxt)
            s.steps+=1
            if s.steps>s.max_steps: raise Cap('step cap in %s'%F.path)
        # iterations that are only ever followed by another iteration
        seen=set()
        for p in s.paths:
            for n in p.chain: seen.add(n)
            p.chain=None
        for k,n in s.loopends.items():
            if k in seen: continue
            _,cd,held,mem=s.backs[k]
            z=St(); z.ev=n; z.conds=cd; z.held=held; z.mem=mem
            q=Path('loop',z,None,'back edge'); q.chain=None
            s.paths.append(q)
        s.backs={}; s.loopends={}
        return s.paths
    def step(s,st):
        fr=st.frames[-1]; B=fr.fn.blocks[fr.bb]
        for x in B['s']: s.stmt(st,fr,x)
        t=B['t']; k=t[0]
        if k=='goto': s.goto(st,t[1]); return [st]
        if k=='return':
            v=st.env.get((fr.fid,0),UNIT)
            st.frames.pop()
            if not st.frames:
                s.paths.append(Path('return',st,s.deepret(st,v)))
                if len(s.paths)>s.max_paths: raise Cap('too many paths in %s'%s.root)
                return []
            # free the frame
            if not s.referenced(v,fr.fid):
                for kk in [kk for kk in st.env if kk[0]==fr.fid and kk[0]!='lv']: del st.env[kk]
            return s.finish(st,v,fr.cont,fr.dest,fr.target,fr.site)
        if k=='switch': return s.switch(st,fr,t)
        if k=='drop':
            v=s.read(st,s.loc(st,fr,t[1]))
            s.do_drop(st,v,s.P.types[t[3]]['s'],t[4])
            s.goto(st,t[2]); return [st]
        if k=='assert':
            s.goto(st,t[4]); return [st]
        if k=='call': return s.docall(st,fr,t)
        if k=='unreachable': raise End('unreachable')
        raise End('panic',k)
    def deepret(s,st,v): return s.deep(st,v)
    def referenced(s,v,fid):
        if v.op in('c','ret','arg','fld'): return False
        return any(isinstance(x,V) and x.op=='&' and x.a[0]==fid for x in subterms(v))
    def switch(s,st,fr,t):
        v=s.operand(st,fr,t[1]); site=t[4] if len(t)>4 else None
        if v.op=='discr':
            x=v.a[0]
            o=t[1].get('m') or t[1].get('c')
            adt=s.discr_adt(fr,t[1])
            vs=s.variants(adt) if adt else None
            if x.op=='guess': vs=None
            if x.op=='cmp' and x.a[0].op not in('agg','cb') and x.a[1].op not in('agg','cb'):
                to=lambda ks: next((bb for val,bb in t[2] if val in ks),t[3])
                outs=[]
                for s2,z in s.branch_bool(st,cmp_lt(x.a[0],x.a[1]),site):
                    if z: outs.append((s2,to((-1,255,(1<<64)-1,(1<<128)-1)))); continue
                    for s3,e in s.branch_bool(s2,cmp_eq(x.a[0],x.a[1]),site): outs.append((s3,to((0,) if e else (1,))))
                return s.gotos(outs)
            if vs is None and x.op=='agg' and x.a[1] is not None: vs=s.variants(x.a[0])
            if vs is not None:
                bymap={d:n for n,d in vs}
                outs=[]
                targets={bymap.get(val):bb for val,bb in t[2]}
                for st2,n,_ in s.branch_variant(st,x,adt,site):
                    bb=targets.get(n,t[3])
                    outs.append((st2,bb))
                return s.gotos(outs)
            x2=mk('discrv',x); v=x2
        if isc(v):
            for val,bb in t[2]:
                if val==v.a[0]: return s.gotos([(st,bb)])
            return s.gotos([(st,t[3])])
        ty=s.optype(fr,t[1])
        if ty=='bool':
            outs=[]
            for st2,b in s.branch_bool(st,v,site):
                bb=t[3]
                for val,x in t[2]:
                    if val==b: bb=x
                outs.append((st2,bb))
            return s.gotos(outs)
        outs=[]; cur=st
        for val,bb in t[2]:
            b=cmp_eq(v,c(val)); done=False; nxt=None
            for st2,r in s.branch_bool(cur,b,site):
                if r==1: outs.append((st2,bb))
                else: nxt=st2
            cur=nxt
            if cur is None: break
        if cur is not None: outs.append((cur,t[3]))
        return s.gotos(outs)
    def discr_adt(s,fr,o):
        """adt whose discriminant is read: find the defining 'discr' statement in this block"""
        p=o.get('m') or o.get('c')
        if not p: return None
        for x in reversed(fr.fn.blocks[fr.bb]['s']):
            if x[0]=='=' and x[1][0]==p[0] and not x[1][1] and x[2][0]=='discr':
                return s.place_adt(fr,x[2][1])
        # search other blocks
        for B in fr.fn.blocks:
            for x in B['s']:
                if x[0]=='=' and x[1][0]==p[0] and not x[1][1] and x[2][0]=='discr': return s.place_adt(fr,x[2][1])
        return None
    def place_ty(s,fr,place):
        ti=fr.fn.locals[place[0]][0]
        for e in place[1]:
            t=s.P.types[ti]
            if e[0]=='*': ti=t.get('t')
            elif e[0]=='f': ti=e[3] if len(e)>3 else None
            elif e[0]=='d': pass
            elif e[0] in('i','ci'): ti=t.get('t') if t['k'] in('array','slice') else None
            else: ti=None
            if ti is None: return None
        return ti
    def place_adt(s,fr,place):
        ti=s.place_ty(fr,place)
        return s.P.adtdef(ti) if ti is not None else None
    def gotos(s,outs):
        res=[]
        for st,bb in outs:
            try: s.goto(st,bb); res.append(st)
            except End as e: s.finishpath(st,e)
        return res
    def docall(s,st,fr,t):
        _,f,aops,dest,target,span=t[:6]
        args=[s.operand(st,fr,a) for a in aops]
        k=f.get('k')
        site=(fr.fn.path,span)
        if not k or 'fn' not in k:
            fv=s.operand(st,fr,f)
            return s.call_closure(st,fv,args,site,None,dest,target)
        name=strip_generics(k['fn']); res=strip_generics(k['res']) if k.get('res') else None
        call=Call(); call.name=name; call.res=res; call.args=args; call.site=site; call.k=k
        call.dty=s.place_ty(fr,dest); call.tys=[s.optype(fr,a) for a in aops]; call.ops=aops; call.fr=fr
        # calls of callables
        if name in('std::ops::FnOnce::call_once','std::ops::FnMut::call_mut','std::ops::Fn::call'):
            a=args[1]
            if a is UNIT: al=[]
            elif a.op=='agg': al=list(a.a[3])
            else: al=[fld(a,str(i)) for i in range(8)]
            return s.call_closure(st,args[0],al,site,None,dest,target)
        if res is None and not k.get('fnlocal') and '::' in name: s.event(st,'user',name,(),None,site)
        m=s.extra.get(name) or (res and s.extra.get(res))
        if m:
            outs=m(s,st,call)
            if outs is not None: return s.outcomes(outs,None,dest,target,site)
        if k.get('reslocal') and k.get('reskind')=='item':
            F=s.P.fns.get(res)
            if F is None: F=s.P.fns.get(strip_generics(k['res']))
            if F is not None: return s.call_fn(st,F,args,site,None,dest,target,call)
        m=s.models.get(name) or (res and s.models.get(res))
        if m is None: m=s.M.fallback(s,name,res,call)
        if m:
            outs=m(s,st,call)
            if outs is not None: return s.outcomes(outs,None,dest,target,site)
        if target is None:
            s.event(st,'panic',name,args,None,site)
            raise End('panic',name)
        s.unknown[name]=s.unknown.get(name,0)+1
        muts=[i for i,ty in enumerate(call.tys) if ty.startswith('&mut')]
        return s.finish(st,s.opaque(st,'ext',name,args,site,None,muts=muts),None,dest,target,site)

def ops_of(rv):
    k=rv[0]
    if k=='use': return [rv[1]]
    if k=='cast': return [rv[2]]
    if k=='bin': return [rv[2],rv[3]]
    if k=='un': return [rv[2]]
    if k=='agg': return rv[2]
    if k=='repeat': return [rv[1]]
    return []
class Call:
    __slots__=('name','res','args','site','k','dty','tys','ops','fr')
def mkcall(name,args,site):
    x=Call(); x.name=name; x.res=name; x.args=args; x.site=site; x.k={}; x.dty=None; x.tys=[]; x.ops=[]; x.fr=None
    return x
def compose(inner,outer):
    if inner is None: return outer
    if outer is None: return inner
    def k(I,st,v):
        out=[]
        for o in inner(I,st,v):
            if o[0]=='closure': out.append(('closure',o[1],o[2],o[3],compose(o[4],outer)))
            elif o[0]=='end': out.append(o)
            else: out.extend(outer(I,o[0],o[1]))
        return out
    return k
