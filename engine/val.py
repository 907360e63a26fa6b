"""Value-numbering domain: hash-consed symbolic terms with light normalisation (no solver)."""
class V:
    __slots__=('op','a','id','_s')
    def __repr__(s): return show(s)
    def __getitem__(s,i): return s.a[i]
_tab={}; _n=[0]
def mk(op,*a):
    k=(op,)+a
    v=_tab.get(k)
    if v is None:
        v=V(); v.op=op; v.a=a; _n[0]+=1; v.id=_n[0]; v._s=None
        _tab[k]=v
    return v
def c(n): return mk('c',n)
TRUE=c(1); FALSE=c(0); UNIT=mk('unit')
def isc(v): return v.op=='c'

# ---------- linear arithmetic normal form
def lin(const,terms):
    terms=tuple(sorted(((t,k) for t,k in terms.items() if k!=0),key=lambda x:x[0].id))
    if not terms: return c(const)
    if const==0 and len(terms)==1 and terms[0][1]==1: return terms[0][0]
    return mk('lin',const,terms)
def unlin(v):
    if v.op=='c': return v.a[0],{}
    if v.op=='lin': return v.a[0],dict(v.a[1])
    return 0,{v:1}
def add(x,y,ky=1):
    cx,tx=unlin(x); cy,ty=unlin(y)
    t=dict(tx)
    for k,m in ty.items(): t[k]=t.get(k,0)+ky*m
    return lin(cx+ky*cy,t)
def sub(x,y): return add(x,y,-1)
def mul(x,y):
    if isc(x): x,y=y,x
    if isc(y):
        cx,tx=unlin(x); k=y.a[0]
        return lin(cx*k,{t:m*k for t,m in tx.items()})
    if x.id>y.id: x,y=y,x
    return mk('mul',x,y)

# ---------- bit fields: value = OR over ((x>>lo)&(2^n-1))<<sh  | const
def bf(x,w):
    """as list of (x,lo,n,sh), const"""
    if isc(x): return [],x.a[0]
    if x.op=='bf': return list(x.a[0]),x.a[1]
    r=_range(x)
    return [(x,0,w if r is None else min(w,r),0)],0
def mkbf(parts,const):
    parts=[p for p in parts if p[2]>0]
    if not parts: return c(const)
    if const==0 and len(parts)==1 and parts[0][1]==0 and parts[0][3]==0:
        x,lo,n,sh=parts[0]
        if n>=64: return x
        r=_range(x)
        if r is not None and r<=n: return x
    return mk('bf',tuple(sorted(parts,key=lambda p:(p[3],p[0].id,p[1],p[2]))),const)
def _range(x):
    """known bit width of an atom, or None"""
    if x.op=='c': return x.a[0].bit_length()
    if x.op=='w': return x.a[1]
    return None
def shr(x,k,w):
    if isc(x): return c(x.a[0]>>k)
    parts,cc=bf(x,w); out=[]
    for (v,lo,n,sh) in parts:
        if sh>=k: out.append((v,lo,n,sh-k))
        else:
            d=k-sh; out.append((v,lo+d,n-d,0))
    return mkbf(out,cc>>k)
def shl(x,k,w):
    if isc(x): return c((x.a[0]<<k)&((1<<w)-1))
    parts,cc=bf(x,w); out=[]
    for (v,lo,n,sh) in parts:
        out.append((v,lo,min(n,w-sh-k),sh+k))
    return mkbf(out,(cc<<k)&((1<<w)-1))
def band(x,y,w):
    if isc(x) and isc(y): return c(x.a[0]&y.a[0])
    if isc(x): x,y=y,x
    if not isc(y):
        if x.id>y.id: x,y=y,x
        return mk('and',x,y)
    m=y.a[0]&((1<<w)-1)
    runs=[]; i=0
    while i<w:
        if m>>i&1:
            j=i
            while j<w and m>>j&1: j+=1
            runs.append((i,j)); i=j
        else: i+=1
    parts,cc=bf(x,w); out=[]
    for (v,lo,n,sh) in parts:
        for (i,j) in runs:
            a=max(i,sh); b=min(j,sh+n)
            if a<b: out.append((v,lo+(a-sh),b-a,a))
    return mkbf(out,cc&m)
def bor(x,y,w):
    px,cx=bf(x,w); py,cy=bf(y,w)
    out=px+[p for p in py if p not in px]
    return mkbf(out,cx|cy)
def narrow(x,w): return band(x,c((1<<w)-1),64) if w<64 else x

# ---------- byte strings
SIZES={'u8':1,'u16':2,'u32':4,'u64':8,'usize':8,'i64':8,'i32':4,'u128':16,'i8':1,'i16':2,'isize':8,'i128':16}
def cat(parts):
    out=[]
    for p in parts:
        if p.op=='cat': out.extend(p.a[0])
        elif p.op=='cb' and len(p.a[0])==0: pass
        else: out.append(p)
    # merge adjacent constants
    res=[]
    for p in out:
        if p.op=='cb' and res and res[-1].op=='cb': res[-1]=mk('cb',res[-1].a[0]+p.a[0])
        else: res.append(p)
    if not res: return mk('cb',b'')
    if len(res)==1: return res[0]
    return mk('cat',tuple(res))
def parts_of(v): return list(v.a[0]) if v.op=='cat' else [v]
def blen(v):
    if v.op=='cat':
        r=c(0)
        for p in v.a[0]: r=add(r,blen(p))
        return r
    if v.op=='cb': return c(len(v.a[0]))
    if v.op=='elem': return c(1)
    if v.op=='bytes' and v.a[0] in SIZES: return c(SIZES[v.a[0]])
    if v.op=='slice': return sub(v.a[2],v.a[1])
    if v.op=='repeat' : return v.a[1]
    if v.op in('without','swapped'): return sub(blen(v.a[0]),c(1))
    if v.op=='with': return add(blen(v.a[0]),c(1))
    if v.op=='splice': return blen(v.a[0])
    if v.op=='arr': return c(len(v.a[0]))
    if v.op=='out' and len(v.a)==3 and str(v.a[1]).split('::')[-1] in('read_exact_at','read_at','read_exact','read'): return blen(v.a[2])
    return mk('len',v)
def slc(v,lo,hi):
    if v.op=='slice':
        return slc(v.a[0],add(v.a[1],lo),add(v.a[1],hi))
    L=blen(v)
    if lo is c(0) and hi is L: return v
    if lo is hi: return mk('cb',b'')
    if v.op=='cat':
        ps=v.a[0]; offs=[c(0)]
        for p in ps: offs.append(add(offs[-1],blen(p)))
        if lo in offs and hi in offs:
            i=offs.index(lo); j=len(offs)-1-offs[::-1].index(hi)
            if i<=j: return cat(ps[i:j])
    if v.op=='cb' and isc(lo) and isc(hi): return mk('cb',v.a[0][lo.a[0]:hi.a[0]])
    return mk('slice',v,lo,hi)

# ---------- aggregates / projections
def agg(ty,variant,names,vals): return mk('agg',ty,variant,tuple(names),tuple(vals))
def tup(*vals): return mk('agg','()',None,tuple(str(i) for i in range(len(vals))),tuple(vals))
def some(v): return agg('std::option::Option','Some',('0',),(v,))
NONE=agg('std::option::Option','None',(),())
def ok(v): return agg('std::result::Result','Ok',('0',),(v,))
def err(v): return agg('std::result::Result','Err',('0',),(v,))
def fld(v,name):
    if v.op=='agg':
        if name in v.a[2]: return v.a[3][v.a[2].index(name)]
    if v.op=='upd':
        b,p,nv=v.a
        if p==('f',name): return nv
        if p[0]=='f' or p[0]=='i': return fld(b,name)
    if v.op=='as' and v.a[0].op=='agg': return fld(v.a[0],name)
    return mk('fld',v,name)
def asv(v,variant):
    if v.op=='agg': return v
    if v.op=='updv' and v.a[1]==variant: return v.a[2]
    return mk('as',v,variant)
def idx(v,i):
    if v.op=='arr' and isc(i) and 0<=i.a[0]<len(v.a[0]): return v.a[0][i.a[0]]
    if v.op=='repeat': return v.a[0]
    if v.op=='elem' and i is c(0): return v.a[0]
    if v.op=='cat' and isc(i) and 0<=i.a[0]<len(v.a[0]) and all(x.op=='elem' for x in v.a[0][:i.a[0]+1]): return v.a[0][i.a[0]].a[0]
    if v.op=='upd':
        b,p,nv=v.a
        if p[0]=='i':
            if p[1] is i: return nv
            if isc(p[1]) and isc(i): return idx(b,i)
    return mk('idx',v,i)

def show(v,depth=0):
    if not isinstance(v,V): return repr(v)
    if depth>12: return '..'
    s=lambda x: show(x,depth+1)
    o=v.op; a=v.a
    if o=='c': return str(a[0]) if a[0] is not None and abs(a[0])<1<<20 else hex(a[0])
    if o=='lin':
        out=[]
        for t,k in a[1]: out.append(('+' if k>0 else '-')+('' if abs(k)==1 else '%d*'%abs(k))+s(t))
        if a[0]: out.append('%+d'%a[0] if abs(a[0])<1<<20 else '+'+hex(a[0]))
        r=''.join(out); return '('+r.lstrip('+')+')'
    if o=='fld': return '%s.%s'%(s(a[0]),a[1])
    if o=='idx': return '%s[%s]'%(s(a[0]),s(a[1]))
    if o=='as': return '%s:%s'%(s(a[0]),a[1])
    if o=='arg': return a[0]
    if o=='agg':
        n=(a[0].split('::')[-1] if a[0]!='()' else '')+(('::'+a[1]) if a[1] else '')
        return '%s{%s}'%(n,', '.join(('%s: '%k if not k.isdigit() else '')+s(x) for k,x in zip(a[2],a[3])))
    if o=='bf': return '|'.join('bits(%s,%d,%d)<<%d'%(s(x),lo,n,sh) for x,lo,n,sh in a[0])+('|%#x'%a[1] if a[1] else '')
    if o=='cat': return 'cat('+', '.join(s(p) for p in a[0])+')'
    if o=='cb': return 'b'+repr(bytes(a[0]))[1:] if not isinstance(a[0],bytes) else repr(a[0])
    return '%s(%s)'%(o,', '.join(s(x) if isinstance(x,V) else ('['+', '.join(s(y) if isinstance(y,V) else repr(y) for y in x)+']' if isinstance(x,tuple) else str(x)) for x in a))
_sub={}
def subterms(v,seen=None):
    if seen is None:
        if isinstance(v,V):
            r=_sub.get(v)
            if r is None:
                if len(_sub)>200000: _sub.clear()
                r=_sub[v]=_subterms(v)
            return r
        seen=set()
    return _subterms(v,seen)
def _subterms(v,seen=None):
    if seen is None: seen=set()
    st=[v]
    while st:
        x=st.pop()
        if isinstance(x,V):
            if x in seen: continue
            seen.add(x); st.extend(x.a)
        elif isinstance(x,tuple): st.extend(x)
    return seen
def contains(v,pred):
    return any(pred(x) for x in subterms(v))
