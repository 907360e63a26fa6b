"""Models of std / parking_lot / bytemuck / ... entry points used or plausibly used by the crate."""
from val import *
from interp import *
import interp as I_

OPT='std::option::Option'; RES='std::result::Result'; CF='std::ops::ControlFlow'
MODELS={}
def model(*names):
    def d(f):
        for n in names: MODELS[n]=f
        return f
    return d
def V_(st,v): return [('v',st,v)]
def ident(I,st,k): return V_(st,k.args[0])
for n in ['std::convert::AsRef::as_ref','std::borrow::Borrow::borrow','std::convert::AsMut::as_mut','std::borrow::BorrowMut::borrow_mut',
          'std::vec::Vec::as_slice','std::vec::Vec::as_mut_slice','std::string::String::as_str','std::string::String::as_bytes','core::str::as_bytes','std::ffi::OsStr::as_bytes',
          'std::path::PathBuf::as_path','std::path::Path::new','core::slice::as_ptr','core::slice::as_mut_ptr','std::vec::Vec::as_ptr','std::vec::Vec::as_mut_ptr','std::hint::must_use','anyhow::__private::must_use','std::hint::black_box',
          'std::convert::identity','std::option::Option::as_deref','core::ptr::cast','std::ptr::cast','std::sync::Arc::as_ref','std::path::Path::as_os_str',
          'std::slice::as_ref','core::array::as_slice','std::ptr::addr_of','std::boxed::Box::as_ref','core::ptr::cast_mut','core::ptr::cast_const','std::boxed::Box::leak','std::ops::Deref::deref','std::ops::DerefMut::deref_mut']:
    MODELS[n]=ident

# ---- Deref of containers: pointer stays the same; of guards: protected contents
@model('std::ops::Deref::deref','std::ops::DerefMut::deref_mut')
def m_deref(I,st,k):
    p=k.args[0]; v=I.load(st,p) if p.op=='&' else p
    if v.op=='guard': return V_(st,ptr_proj(v.a[1],('f','$')))
    if (k.res and 'emmap' in k.res) or (k.tys and 'memmap::Mmap' in k.tys[0]): return V_(st,v)     # the mapped region
    if k.res and any(x in k.res for x in ('RwLock','MutexGuard')) : 
        return V_(st,ptr_proj(p,('f','$g')))
    if v.op in('heap','&') and 'Vec' not in (k.res or ''): return V_(st,v)
    if k.res and ('Arc' in k.res or 'Box' in k.res or 'Rc' in k.res) and v.op in('fld','arg','idx','as','ret','elem'): return V_(st,v)
    return V_(st,p)

def m_load_clone(I,st,k):
    return V_(st,I.load(st,k.args[0]))
for n in ['std::clone::Clone::clone','std::borrow::ToOwned::to_owned','std::slice::to_vec','std::path::Path::to_path_buf','std::sync::Arc::clone','std::str::to_owned','std::option::Option::cloned','std::option::Option::copied','std::path::Path::to_owned',
          'core::slice::to_vec','alloc::slice::to_vec','std::vec::Vec::clone','std::slice::to_owned']:
    MODELS[n]=m_load_clone
@model('std::option::Option::cloned','std::option::Option::copied')
def m_optcloned(I,st,k):
    out=[]
    for st2,n,p in I.opt_fork(st,k.args[0],k.site):
        out.append(('v',st2,some(I.load(st2,fld(p,'0'))) if n=='Some' else NONE))
    return out
@model('std::borrow::Cow::into_owned','std::convert::Into::into','std::convert::From::from','std::boxed::Box::new','std::sync::Arc::new','std::rc::Rc::new','std::iter::IntoIterator::into_iter','std::vec::Vec::into_boxed_slice','std::slice::into_vec','std::cell::UnsafeCell::new','std::mem::ManuallyDrop::new','std::io::BufReader::new','std::boxed::Box::into_vec','std::string::String::into_bytes','std::iter::Iterator::by_ref','std::iter::Iterator::fuse','std::iter::Iterator::peekable','std::sync::Arc::from','std::boxed::Box::pin')
def m_ident(I,st,k):
    if k.name.endswith('into_iter'): return V_(st,to_iter(I,st,k.args[0],k))
    return V_(st,k.args[0])

# ---- sizes / memory
@model('std::mem::size_of','core::mem::size_of')
def m_size(I,st,k):
    t=k.k.get('fnargs') or []
    if t:
        n=I.P.tys(t[0])
        if n in SIZES: return V_(st,c(SIZES[n]))
        d=I.P.adtdef(t[0])
        if d in SIZES: return V_(st,c(SIZES[d]))
    return V_(st,mk('sizeof',I.P.tys(t[0]) if t else '?'))
@model('std::mem::drop','core::mem::drop')
def m_drop(I,st,k):
    ty=k.tys[0] if k.tys else '?'
    I.do_drop(st,k.args[0],ty,k.site,True); return V_(st,UNIT)
@model('std::mem::forget')
def m_forget(I,st,k): 
    I.event(st,'forget',k.name,k.args,None,k.site); return V_(st,UNIT)
@model('std::mem::replace','core::mem::replace')
def m_replace(I,st,k):
    old=I.load(st,k.args[0]); I.store(st,k.args[0],k.args[1],k.site); return V_(st,old)
@model('std::mem::take')
def m_mtake(I,st,k):
    old=I.load(st,k.args[0]); 
    ty=k.tys[0] if k.tys else ''
    dv=NONE if 'Option' in ty else mk('cb',b'') if 'Vec' in ty else c(0)
    I.store(st,k.args[0],dv,k.site); return V_(st,old)
@model('std::mem::swap')
def m_swap(I,st,k):
    a=I.load(st,k.args[0]); b=I.load(st,k.args[1]); I.store(st,k.args[0],b,k.site); I.store(st,k.args[1],a,k.site); return V_(st,UNIT)
@model('std::boxed::Box::new_uninit')
def m_newuninit(I,st,k): return V_(st,st.fresh('heap'))
@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(I,st,k):
    h=k.args[0]
    v=I.load(st,fld(fld(fld(h,'0'),'value'),'value'))
    for q in [q for q in st.mem if I.under(q,h)]: del st.mem[q]
    if v.op=='arr': return V_(st,elems(v.a[0],I,k.dty))
    return V_(st,v)
def elems(vals,I,dty):
    if dty is not None and I.P.tys(dty)=='std::vec::Vec<u8>' : return cat([cbyte(v) for v in vals])
    return cat([mk('elem',v) for v in vals]) if vals else mk('cb',b'')
def cbyte(v):
    if isc(v): return mk('cb',bytes([v.a[0]&255]))
    return mk('bytes','u8',v)

# ---- comparison
def veq(I,st,k):
    return cmp_eq(I.deep(st,loadall(I,st,k.args[0])),I.deep(st,loadall(I,st,k.args[1])))
def overwhat(I,st,it,n=0):
    """the iterator with the local collections it walks in place of pointers to them"""
    if it.op=='it' and n<8: return mk('it',*[overwhat(I,st,x,n+1) if isinstance(x,V) and x.op=='it' else (overwhat(I,st,I.load(st,x),n+1) if isinstance(x,V) and x.op=='&' else x) for x in it.a])
    return it
def loadall(I,st,p):
    n=0
    while p.op=='&' and n<6: p=I.load(st,p); n+=1
    if p.op in('fld','idx','slice'): I.noteread(st,p)
    if p.op in('fld','idx','as','slice') and st.mem: p=I.memread(st,p)
    return p
@model('std::cmp::PartialEq::eq','core::cmp::PartialEq::eq')
def m_eq(I,st,k): return V_(st,veq(I,st,k))
@model('std::cmp::PartialEq::ne')
def m_ne(I,st,k): return V_(st,bnot(veq(I,st,k)))
@model('std::cmp::PartialOrd::lt')
def m_lt(I,st,k): return V_(st,cmp_lt(loadall(I,st,k.args[0]),loadall(I,st,k.args[1])))
@model('std::cmp::PartialOrd::gt')
def m_gt(I,st,k): return V_(st,cmp_lt(loadall(I,st,k.args[1]),loadall(I,st,k.args[0])))
@model('std::cmp::PartialOrd::le')
def m_le(I,st,k): return V_(st,bnot(cmp_lt(loadall(I,st,k.args[1]),loadall(I,st,k.args[0]))))
@model('std::cmp::PartialOrd::ge')
def m_ge(I,st,k): return V_(st,bnot(cmp_lt(loadall(I,st,k.args[0]),loadall(I,st,k.args[1]))))
def vmax(a,b):
    if isc(a) and isc(b): return c(max(a.a[0],b.a[0]))
    if a is b: return a
    if a.id>b.id: a,b=b,a
    return mk('max',a,b)
def vmin(a,b):
    if isc(a) and isc(b): return c(min(a.a[0],b.a[0]))
    if a is b: return a
    if a.id>b.id: a,b=b,a
    return mk('min',a,b)
@model('std::cmp::Ord::max','core::f64::max','core::f32::max','std::cmp::max')
def m_max(I,st,k): return V_(st,vmax(k.args[0],k.args[1]))
@model('std::cmp::Ord::min','core::f64::min','core::f32::min','std::cmp::min')
def m_min(I,st,k): return V_(st,vmin(k.args[0],k.args[1]))
@model('std::cmp::Ord::cmp','std::cmp::PartialOrd::partial_cmp')
def m_cmp(I,st,k): return V_(st,mk('cmp',loadall(I,st,k.args[0]),loadall(I,st,k.args[1])))

@model('std::cmp::Reverse','std::cmp::Reverse::new')
def m_reverse(I,st,k): return V_(st,mk('rev',k.args[0]))
@model('std::cmp::Ordering::reverse','core::cmp::Ordering::reverse')
def m_ordrev(I,st,k): return V_(st,mk('revord',k.args[0]))
@model('std::cmp::Ordering::then','core::cmp::Ordering::then')
def m_ordthen(I,st,k): return V_(st,mk('then',k.args[0],k.args[1]))
@model('std::cmp::Ordering::then_with','core::cmp::Ordering::then_with')
def m_ordthenw(I,st,k): return [('closure',st,k.args[1],[],lambda I,st,v:[(st,mk('then',k.args[0],v))])]

# ---- Option / Result
def unwrap_like(okname,adt):
    def f(I,st,k):
        out=[]
        for st2,n,p in I.branch_variant(st,k.args[0],adt,k.site):
            if n==okname: out.append(('v',st2,fld(p,'0')))
            else:
                I.event(st2,'panic',k.name,k.args,None,k.site)
                out.append(('end',st2,'panic',k.name))
        return out
    return f
for n in ['unwrap','expect','unwrap_unchecked']:
    MODELS['std::option::Option::'+n]=unwrap_like('Some',OPT); MODELS['std::result::Result::'+n]=unwrap_like('Ok',RES)
for n in ['unwrap_err','expect_err']: MODELS['std::result::Result::'+n]=unwrap_like('Err',RES)
def is_variant(adt,name,neg=False):
    def f(I,st,k):
        v=loadall(I,st,k.args[0])
        return [('v',st2,c(int((n==name)!=neg))) for st2,n,_ in I.branch_variant(st,v,adt,k.site)]
    return f
MODELS['std::option::Option::is_some']=is_variant(OPT,'Some'); MODELS['std::option::Option::is_none']=is_variant(OPT,'None')
MODELS['std::result::Result::is_ok']=is_variant(RES,'Ok'); MODELS['std::result::Result::is_err']=is_variant(RES,'Err')
def fork_map(adt,table):
    """table: variant -> fn(I,st,k,payload)-> outcome tuple (('v',..)|('closure',..))"""
    def f(I,st,k):
        out=[]
        for st2,n,p in I.branch_variant(st,k.args[0],adt,k.site):
            o=table[n](I,st2,k,fld(p,'0') if n!='None' else None)
            out.append(o)
        return out
    return f
val=lambda f:(lambda I,st,k,p:('v',st,f(k,p)))
clo=lambda mkargs,post:(lambda I,st,k,p:('closure',st,k.args[1],mkargs(p),(lambda I,st,v:[(st,post(k,p,v))])))
def setm(pre,**kw):
    for n,f in kw.items(): MODELS[pre+n]=f
O='std::option::Option::'; R='std::result::Result::'
setm(O,
 map=fork_map(OPT,{'Some':clo(lambda p:[p],lambda k,p,v:some(v)),'None':val(lambda k,p:NONE)}),
 and_then=fork_map(OPT,{'Some':clo(lambda p:[p],lambda k,p,v:v),'None':val(lambda k,p:NONE)}),
 unwrap_or=fork_map(OPT,{'Some':val(lambda k,p:p),'None':val(lambda k,p:k.args[1])}),
 unwrap_or_else=fork_map(OPT,{'Some':val(lambda k,p:p),'None':clo(lambda p:[],lambda k,p,v:v)}),
 or_else=fork_map(OPT,{'Some':val(lambda k,p:some(p)),'None':clo(lambda p:[],lambda k,p,v:v)}),
 ok_or=fork_map(OPT,{'Some':val(lambda k,p:ok(p)),'None':val(lambda k,p:err(k.args[1]))}),
 ok_or_else=fork_map(OPT,{'Some':val(lambda k,p:ok(p)),'None':clo(lambda p:[],lambda k,p,v:err(v))}),
 is_some_and=fork_map(OPT,{'Some':clo(lambda p:[p],lambda k,p,v:v),'None':val(lambda k,p:FALSE)}),
 is_none_or=fork_map(OPT,{'Some':clo(lambda p:[p],lambda k,p,v:v),'None':val(lambda k,p:TRUE)}),
)
setm(R,**{'and':fork_map(RES,{'Ok':val(lambda k,p:k.args[1]),'Err':val(lambda k,p:err(p))}),'or':fork_map(RES,{'Ok':val(lambda k,p:ok(p)),'Err':val(lambda k,p:k.args[1])}),
 'inspect':fork_map(RES,{'Ok':clo(lambda p:[p],lambda k,p,v:ok(p)),'Err':val(lambda k,p:err(p))}),
 'inspect_err':fork_map(RES,{'Err':clo(lambda p:[p],lambda k,p,v:err(p)),'Ok':val(lambda k,p:ok(p))}),
 'is_err_and':fork_map(RES,{'Err':clo(lambda p:[p],lambda k,p,v:v),'Ok':val(lambda k,p:FALSE)})})
setm(O,**{'inspect':fork_map(OPT,{'Some':clo(lambda p:[p],lambda k,p,v:some(p)),'None':val(lambda k,p:NONE)}),'and':fork_map(OPT,{'Some':val(lambda k,p:k.args[1]),'None':val(lambda k,p:NONE)})})
setm(O,**{'or':fork_map(OPT,{'Some':val(lambda k,p:some(p)),'None':val(lambda k,p:k.args[1])})})
MODELS[O+'map_or']=fork_map(OPT,{'Some':lambda I,st,k,p:('closure',st,k.args[2],[p],None),'None':val(lambda k,p:k.args[1])})
MODELS[O+'map_or_else']=fork_map(OPT,{'Some':lambda I,st,k,p:('closure',st,k.args[2],[p],None),'None':lambda I,st,k,p:('closure',st,k.args[1],[],None)})
MODELS[R+'map_or']=fork_map(RES,{'Ok':lambda I,st,k,p:('closure',st,k.args[2],[p],None),'Err':val(lambda k,p:k.args[1])})
MODELS[R+'map_or_else']=fork_map(RES,{'Ok':lambda I,st,k,p:('closure',st,k.args[2],[p],None),'Err':lambda I,st,k,p:('closure',st,k.args[1],[p],None)})
setm(R,
 map=fork_map(RES,{'Ok':clo(lambda p:[p],lambda k,p,v:ok(v)),'Err':val(lambda k,p:err(p))}),
 map_err=fork_map(RES,{'Ok':val(lambda k,p:ok(p)),'Err':clo(lambda p:[p],lambda k,p,v:err(v))}),
 and_then=fork_map(RES,{'Ok':clo(lambda p:[p],lambda k,p,v:v),'Err':val(lambda k,p:err(p))}),
 or_else=fork_map(RES,{'Ok':val(lambda k,p:ok(p)),'Err':clo(lambda p:[p],lambda k,p,v:v)}),
 unwrap_or=fork_map(RES,{'Ok':val(lambda k,p:p),'Err':val(lambda k,p:k.args[1])}),
 unwrap_or_else=fork_map(RES,{'Ok':val(lambda k,p:p),'Err':clo(lambda p:[p],lambda k,p,v:v)}),
 ok=fork_map(RES,{'Ok':val(lambda k,p:some(p)),'Err':val(lambda k,p:NONE)}),
 err=fork_map(RES,{'Ok':val(lambda k,p:NONE),'Err':val(lambda k,p:some(p))}),
 is_ok_and=fork_map(RES,{'Ok':clo(lambda p:[p],lambda k,p,v:v),'Err':val(lambda k,p:FALSE)}),
)
def default_of(I,dty):
    t=I.P.tys(dty) if dty is not None else '?'
    if t.startswith('std::option::Option'): return NONE
    if t.startswith('std::vec::Vec') or t.startswith('std::string::String'): return mk('cb',b'')
    if t in I_.WIDTH: return c(0)
    if t.startswith('std::marker::PhantomData'): return UNIT
    if 'Atomic' in t: return c(0)
    return None
@model(O+'unwrap_or_default',R+'unwrap_or_default')
def m_uod(I,st,k):
    out=[]; adt=OPT if 'Option' in k.name else RES
    for st2,n,p in I.branch_variant(st,k.args[0],adt,k.site):
        if n in('Some','Ok'): out.append(('v',st2,fld(p,'0')))
        else: out.append(('v',st2,default_of(I,k.dty) or mk('default',I.P.tys(k.dty) if k.dty is not None else '?')))
    return out
@model('std::default::Default::default')
def m_default(I,st,k):
    d=default_of(I,k.dty)
    return V_(st,d if d is not None else mk('default',I.P.tys(k.dty) if k.dty is not None else '?'))
@model(O+'as_ref',O+'as_deref')
def m_asref(I,st,k):
    p=k.args[0]
    v=I.load(st,p)
    if v.op=='agg':
        return V_(st,some(ptr_proj(p,('d','Some'),('f','0'))) if v.a[1]=='Some' else NONE)
    if p.op=='&' : return V_(st,v) if v.op!='updv' else V_(st,some(ptr_proj(p,('d','Some'),('f','0'))))
    if v is not p:   # memory behind symbolic pointer was overwritten
        out=[]
        for st2,n,_ in I.opt_fork(st,v,k.site): out.append(('v',st2,some(ptr_proj(p,('d','Some'),('f','0'))) if n=='Some' else NONE))
        return out
    return V_(st,p)
@model(O+'as_mut',O+'as_deref_mut')
def m_asmut(I,st,k):
    p=k.args[0]; v=I.load(st,p); out=[]
    for st2,n,_ in I.opt_fork(st,v,k.site): out.append(('v',st2,some(ptr_proj(p,('d','Some'),('f','0'))) if n=='Some' else NONE))
    return out
@model(R+'as_ref',R+'as_mut')
def m_rasref(I,st,k):
    p=k.args[0]; v=I.load(st,p); out=[]
    for st2,n,_ in I.res_fork(st,v,k.site): out.append(('v',st2,agg(RES,n,('0',),(ptr_proj(p,('d',n),('f','0')),))))
    return out
@model(O+'take')
def m_take(I,st,k):
    old=I.load(st,k.args[0]); I.store(st,k.args[0],NONE,k.site); return V_(st,old)
@model(O+'replace')
def m_oreplace(I,st,k):
    old=I.load(st,k.args[0]); I.store(st,k.args[0],some(k.args[1]),k.site); return V_(st,old)
@model(O+'insert')
def m_oinsert(I,st,k):
    I.store(st,k.args[0],some(k.args[1]),k.site); return V_(st,ptr_proj(k.args[0],('d','Some'),('f','0')))
@model(O+'get_or_insert_with')
def m_goiw(I,st,k):
    v=I.load(st,k.args[0]); out=[]
    p=ptr_proj(k.args[0],('d','Some'),('f','0'))
    for st2,n,_ in I.opt_fork(st,v,k.site):
        if n=='Some': out.append(('v',st2,p))
        else:
            def post(I,st,x,_p=k.args[0],p=p,site=k.site):
                I.store(st,_p,some(x),site); return [(st,p)]
            out.append(('closure',st2,k.args[1],[],post))
    return out
@model(O+'filter')
def m_ofilter(I,st,k):
    out=[]
    for st2,n,p in I.opt_fork(st,k.args[0],k.site):
        if n=='None': out.append(('v',st2,NONE)); continue
        pv=fld(p,'0')
        def post(I,st,b,pv=pv,site=k.site):
            return [(s3,some(pv) if r else NONE) for s3,r in I.branch_bool(st,b,site)]
        out.append(('closure',st2,k.args[1],[pv],post))
    return out
@model(R+'transpose')
def m_rtranspose(I,st,k):
    out=[]
    for st2,n,p in I.res_fork(st,k.args[0],k.site):
        if n=='Err': out.append(('v',st2,some(err(fld(p,'0'))))); continue
        for st3,m,q in I.opt_fork(st2,fld(p,'0'),k.site):
            out.append(('v',st3,some(ok(fld(q,'0'))) if m=='Some' else NONE))
    return out
@model(O+'zip')
def m_ozip(I,st,k):
    out=[]
    for st2,n,p in I.opt_fork(st,k.args[0],k.site):
        if n=='None': out.append(('v',st2,NONE)); continue
        for st3,m,q in I.opt_fork(st2,k.args[1],k.site):
            out.append(('v',st3,some(tup(fld(p,'0'),fld(q,'0'))) if m=='Some' else NONE))
    return out
@model(O+'xor')
def m_oxor(I,st,k):
    out=[]
    for st2,n,p in I.opt_fork(st,k.args[0],k.site):
        for st3,m,q in I.opt_fork(st2,k.args[1],k.site):
            out.append(('v',st3,NONE if n==m else some(fld(p if n=='Some' else q,'0'))))
    return out
@model(O+'flatten')
def m_oflatten(I,st,k):
    return [('v',st2,fld(p,'0') if n=='Some' else NONE) for st2,n,p in I.opt_fork(st,k.args[0],k.site)]
@model(R+'flatten')
def m_rflatten(I,st,k):
    return [('v',st2,fld(p,'0') if n=='Ok' else err(fld(p,'0'))) for st2,n,p in I.res_fork(st,k.args[0],k.site)]
@model(O+'iter',O+'iter_mut')
def m_oiter(I,st,k):
    return [(a,b,mk('it','opt',v)) for a,b,v in (m_asref if k.name.endswith('iter') else m_asmut)(I,st,k)]
@model(O+'transpose')
def m_transpose(I,st,k):
    out=[]
    for st2,n,p in I.opt_fork(st,k.args[0],k.site):
        if n=='None': out.append(('v',st2,ok(NONE))); continue
        for st3,m,q in I.res_fork(st2,fld(p,'0'),k.site):
            out.append(('v',st3,ok(some(fld(q,'0'))) if m=='Ok' else err(fld(q,'0'))))
    return out
@model('std::ops::Try::branch')
def m_try(I,st,k):
    isopt=k.tys and k.tys[0].startswith(OPT)
    out=[]
    for st2,n,p in I.branch_variant(st,k.args[0],OPT if isopt else RES,k.site):
        if n in('Some','Ok'): out.append(('v',st2,agg(CF,'Continue',('0',),(fld(p,'0'),))))
        else: out.append(('v',st2,agg(CF,'Break',('0',),(NONE if isopt else err(fld(p,'0')),))))
    return out
@model('std::ops::FromResidual::from_residual','std::ops::Try::from_output')
def m_resid(I,st,k):
    if k.name.endswith('from_output'): return V_(st,ok(k.args[0]))
    return V_(st,k.args[0])
@model('std::convert::TryInto::try_into','std::convert::TryFrom::try_from')
def m_tryinto(I,st,k):
    v=loadall(I,st,k.args[0]) if k.tys and k.tys[0].startswith('&') else k.args[0]
    ts=list(k.tys or ())
    if k.name.endswith('try_from'): ts=ts[::-1]
    if len(ts)>=2 and ts[0] in INTW and ts[1] in('u8','u16','u32') and INTW[ts[0]]>INTW[ts[1]]:
        lim=c((1<<INTW[ts[1]])-1)
        return [('v',s2,err(mk('anyerr')) if x else ok(v)) for s2,x in I.branch_bool(st,cmp_lt(lim,v),k.site)]
    return V_(st,ok(v))
INTW={'u8':8,'u16':16,'u32':32,'u64':64,'usize':64,'u128':128}
@model('core::bool::then')
def m_then(I,st,k):
    out=[]
    for st2,r in I.branch_bool(st,k.args[0],k.site):
        out.append(('closure',st2,k.args[1],[],lambda I,st,v:[(st,some(v))]) if r else ('v',st2,NONE))
    return out
@model('core::bool::then_some')
def m_thensome(I,st,k):
    return [('v',st2,some(k.args[1]) if r else NONE) for st2,r in I.branch_bool(st,k.args[0],k.site)]

# ---- numbers
@model('core::num::checked_sub','core::num::checked_add','core::num::checked_div','core::num::checked_mul')
def m_checked(I,st,k):
    op=k.name.split('_')[-1]; a,b=k.args
    r=sub(a,b) if op=='sub' else add(a,b) if op=='add' else mul(a,b) if op=='mul' else mk('div',a,b)
    ov=cmp_lt(a,b) if op=='sub' else cmp_eq(b,c(0)) if op=='div' else mk('overflows',op,a,b)
    return [('v',s2,NONE if x else some(r)) for s2,x in I.branch_bool(st,ov,k.site)]
@model('core::num::saturating_sub','core::num::wrapping_sub')
def m_ssub(I,st,k): return V_(st,mk('satsub',k.args[0],k.args[1]) if 'sat' in k.name and not (isc(k.args[0]) and isc(k.args[1])) else sub(k.args[0],k.args[1]))
@model('core::num::wrapping_add','core::num::saturating_add')
def m_wadd(I,st,k): return V_(st,add(k.args[0],k.args[1]))
@model('core::num::wrapping_mul','core::num::saturating_mul')
def m_wmul(I,st,k): return V_(st,mul(k.args[0],k.args[1]))
@model('core::num::from_le_bytes','core::num::from_ne_bytes','core::num::from_be_bytes')
def m_fle(I,st,k):
    t=I.P.tys(k.dty) if k.dty is not None else 'u64'
    if 'be' in k.name: return V_(st,mk('frombe',t,k.args[0]))
    return V_(st,view(t,k.args[0]))
@model('core::num::to_le_bytes','core::num::to_ne_bytes','core::num::to_be_bytes')
def m_tle(I,st,k):
    t=k.tys[0] if k.tys else 'u64'
    if 'be' in k.name: return V_(st,mk('bebytes',t,k.args[0]))
    return V_(st,mkbytes(t,k.args[0]))
@model('core::num::ilog2','core::num::is_power_of_two','core::num::next_power_of_two','core::num::pow','core::num::count_ones','core::num::leading_zeros','core::num::trailing_zeros','core::num::abs_diff','core::f64::floor','core::f64::ceil','core::f64::log2','core::num::div_ceil')
def m_pure(I,st,k):
    a=[loadall(I,st,x) for x in k.args]
    n=k.name.split('::')[-1]
    if all(isc(x) for x in a):
        x=a[0].a[0]
        if n=='ilog2' and x>0: return V_(st,c(x.bit_length()-1))
        if n=='is_power_of_two': return V_(st,c(int(x>0 and x&(x-1)==0)))
        if n=='pow': return V_(st,c(x**a[1].a[0]))
    return V_(st,mk('call',n,*a))

# ---- bytes
def tyname(I,i):
    d=I.P.adtdef(i)
    return d if d else I.P.tys(i)
@model('bytemuck::bytes_of')
def m_bytesof(I,st,k):
    T=tyname(I,k.k['fnargs'][0])
    return V_(st,mkbytes(T,I.deep(st,loadall(I,st,k.args[0]))))
@model('bytemuck::from_bytes','bytemuck::checked::from_bytes','bytemuck::pod_read_unaligned','bytemuck::try_from_bytes','bytemuck::checked::pod_read_unaligned')
def m_frombytes(I,st,k):
    T=tyname(I,k.k['fnargs'][0])
    b=loadall(I,st,k.args[0])
    r=view(T,b)
    if k.name.endswith('try_from_bytes'): return V_(st,mk('tryfrom',T,b))
    return V_(st,r)
@model('bytemuck::from_bytes_mut','bytemuck::checked::from_bytes_mut')
def m_frombytesmut(I,st,k):
    T=tyname(I,k.k['fnargs'][0]); p=k.args[0]
    n=0
    while p.op=='&' and n<6:
        v=I.load(st,p)
        if v.op!='&': break
        p=v; n+=1
    return V_(st,ptr_proj(p,('v',T)))
@model('bytemuck::bytes_of_mut')
def m_bytesofmut(I,st,k):
    T=tyname(I,k.k['fnargs'][0])
    return V_(st,ptr_proj(k.args[0],('o','bytes:'+T)) if k.args[0].op!='&' else mk('&',k.args[0].a[0],k.args[0].a[1],k.args[0].a[2]+(('b',T),)))
@model('bytemuck::Zeroable::zeroed','std::mem::zeroed')
def m_zeroed(I,st,k): return V_(st,mk('zeroed',I.P.tys(k.dty) if k.dty is not None else '?'))

# ---- Vec / slices (values are byte strings, or sequences of 'elem')
@model('std::vec::Vec::new','std::vec::Vec::with_capacity','std::string::String::new')
def m_vecnew(I,st,k): return V_(st,mk('cb',b''))
@model('std::vec::from_elem')
def m_fromelem(I,st,k): return V_(st,mk('repeat',k.args[0],k.args[1]) if k.args[1] is not c(0) else mk('cb',b''))
def isu8(I,k):
    t=k.k.get('fnargs') or []
    return bool(t) and I.P.tys(t[0])=='u8'
@model('std::vec::Vec::push')
def m_push(I,st,k):
    v=I.load(st,k.args[0])
    e=cbyte(k.args[1]) if (k.tys and len(k.tys)>1 and k.tys[1]=='u8') or isu8(I,k) else mk('elem',k.args[1])
    I.store(st,k.args[0],cat([v,e]),k.site); return V_(st,UNIT)
@model('std::vec::Vec::extend_from_slice','std::string::String::push_str','std::vec::Vec::append')
def m_extend(I,st,k):
    v=I.load(st,k.args[0]); x=I.deep(st,loadall(I,st,k.args[1]))
    if x.op=='arr': x=cat([cbyte(e) for e in x.a[0]]) if all(isc(e) for e in x.a[0]) else cat([mk('elem',e) for e in x.a[0]])
    I.store(st,k.args[0],cat([v,x]),k.site)
    if k.name.endswith('append'): I.store(st,k.args[1],mk('cb',b''),k.site)
    return V_(st,UNIT)
@model('std::iter::Extend::extend')
def m_ext2(I,st,k):
    v=I.load(st,k.args[0]); x=loadall(I,st,k.args[1])
    if x.op=='it' or x.op=='agg': x=st.fresh('collected',x)
    I.store(st,k.args[0],cat([v,x]),k.site); return V_(st,UNIT)
@model('std::slice::concat','std::slice::Concat::concat','std::slice::Join::join')
def m_concat(I,st,k):
    x=I.deep(st,loadall(I,st,k.args[0]))
    if x.op=='arr': return V_(st,cat([I.deep(st,loadall(I,st,e)) for e in x.a[0]]))
    return V_(st,mk('call','concat',x))
@model('std::vec::Vec::truncate')
def m_trunc(I,st,k):
    v=I.load(st,k.args[0]); I.store(st,k.args[0],slc(v,c(0),k.args[1]),k.site); return V_(st,UNIT)
@model('std::vec::Vec::split_off')
def m_splitoff(I,st,k):
    v=I.load(st,k.args[0]); I.store(st,k.args[0],slc(v,c(0),k.args[1]),k.site); return V_(st,slc(v,k.args[1],blen(v)))
@model('std::vec::Vec::clear')
def m_clear(I,st,k): I.store(st,k.args[0],mk('cb',b''),k.site); return V_(st,UNIT)
@model('std::vec::Vec::resize')
def m_resize(I,st,k):
    v=I.load(st,k.args[0])
    I.store(st,k.args[0],cat([v,mk('repeat',k.args[2],sub(k.args[1],blen(v)))]) if not (v.op=='cb' and not v.a[0]) else mk('repeat',k.args[2],k.args[1]),k.site); return V_(st,UNIT)
@model('std::vec::Vec::len','core::slice::len','std::string::String::len','core::str::len')
def m_len(I,st,k):
    v=loadall(I,st,k.args[0])
    return V_(st,blen(v))
@model('std::vec::Vec::is_empty','core::slice::is_empty','core::str::is_empty','std::string::String::is_empty')
def m_isempty(I,st,k): return V_(st,cmp_eq(blen(loadall(I,st,k.args[0])),c(0)))
@model('core::slice::copy_from_slice','core::slice::clone_from_slice')
def m_copyfrom(I,st,k):
    src=I.deep(st,loadall(I,st,k.args[1]))
    if src.op=='arr' and all(isc(x) for x in src.a[0]): src=mk('cb',bytes(x.a[0]&255 for x in src.a[0]))
    I.store(st,k.args[0],src,k.site); return V_(st,UNIT)
@model('core::slice::fill')
def m_fill(I,st,k):
    v=loadall(I,st,k.args[0]); I.store(st,k.args[0],mk('repeat',k.args[1],blen(v)),k.site); return V_(st,UNIT)
@model('core::slice::ends_with','core::slice::starts_with','core::str::starts_with','core::str::ends_with')
def m_endswith(I,st,k):
    v=I.deep(st,loadall(I,st,k.args[0])); x=I.deep(st,loadall(I,st,k.args[1]))
    if x.op=='arr' and all(isc(e) for e in x.a[0]): x=mk('cb',bytes(e.a[0]&255 for e in x.a[0]))
    n=k.name.split('::')[-1]
    if n=='ends_with' and v.op!='cb': return V_(st,mk('endswith',v,x))
    if v.op=='cb' and x.op=='cb': return V_(st,c(int(v.a[0].endswith(x.a[0]) if n=='ends_with' else v.a[0].startswith(x.a[0]))))
    return V_(st,mk(n.replace('_',''),v,x))
@model('core::slice::strip_suffix','core::slice::strip_prefix')
def m_strip(I,st,k):
    v=I.deep(st,loadall(I,st,k.args[0])); x=I.deep(st,loadall(I,st,k.args[1]))
    if x.op=='arr' and all(isc(e) for e in x.a[0]): x=mk('cb',bytes(e.a[0]&255 for e in x.a[0]))
    suf='suffix' in k.name
    b=mk('endswith' if suf else 'startswith',v,x); L=blen(v); n=blen(x)
    r=ptr_proj(k.args[0],('s',c(0),sub(L,n))) if suf else ptr_proj(k.args[0],('s',n,L))
    return [('v',s2,some(r) if z else NONE) for s2,z in I.branch_bool(st,b,k.site)]
def range_of(I,st,r,L):
    if r.op=='agg':
        n=r.a[0].split('::')[-1]
        if n=='Range': return fld(r,'start'),fld(r,'end')
        if n=='RangeFrom': return fld(r,'start'),L
        if n=='RangeTo': return c(0),fld(r,'end')
        if n=='RangeFull': return c(0),L
        if n=='RangeInclusive': return fld(r,'start'),add(fld(r,'end'),c(1))
        if n=='RangeToInclusive': return c(0),add(fld(r,'end'),c(1))
    if r.op in('k','const') or 'RangeFull' in show(r): return c(0),L
    return None
@model('std::ops::Index::index','std::ops::IndexMut::index_mut','core::slice::get','core::slice::get_mut','core::slice::get_unchecked','core::slice::get_unchecked_mut')
def m_index(I,st,k):
    p,r=k.args
    n=0
    while p.op=='&' and n<5:
        v=I.load(st,p)
        if v.op!='&': break
        p=v; n+=1
    L=blen(loadall(I,st,p))
    g=range_of(I,st,r,L)
    isget=k.name.endswith('::get') or k.name.endswith('::get_mut')
    if g is None:
        q=ptr_proj(p,('i',r)); inb=cmp_lt(r,L)
    else: q=ptr_proj(p,('s',g[0],g[1])); inb=bnot(cmp_lt(L,g[1]))
    if isget: return [('v',s2,some(q) if z else NONE) for s2,z in I.branch_bool(st,inb,k.site)]
    return V_(st,q)
@model('core::slice::first','core::slice::last')
def m_first(I,st,k):
    v=loadall(I,st,k.args[0]); L=blen(v)
    q=ptr_proj(k.args[0],('i',c(0) if k.name.endswith('first') else sub(L,c(1))))
    return [('v',s2,NONE if z else some(q)) for s2,z in I.branch_bool(st,cmp_eq(L,c(0)),k.site)]
@model('core::slice::split_at','core::slice::split_at_mut')
def m_splitat(I,st,k):
    p=k.args[0]; L=blen(loadall(I,st,p))
    return V_(st,tup(ptr_proj(p,('s',c(0),k.args[1])),ptr_proj(p,('s',k.args[1],L))))
@model('std::vec::Vec::pop')
def m_vpop(I,st,k):
    v=I.load(st,k.args[0])
    if v.op=='cat' and v.a[0][-1].op=='elem':
        I.store(st,k.args[0],cat(v.a[0][:-1]),k.site); return V_(st,some(v.a[0][-1].a[0]))
    out=[]
    for s2,z in I.branch_bool(st,cmp_eq(blen(v),c(0)),k.site):
        if z: out.append(('v',s2,NONE)); continue
        l=sub(blen(v),c(1))
        I.store(s2,k.args[0],mk('without',v,l),k.site); out.append(('v',s2,some(mk('removed',v,l))))
    return out
@model('std::vec::Vec::remove','std::vec::Vec::swap_remove')
def m_vremove(I,st,k):
    v=I.load(st,k.args[0])
    r=getp(v,('i',k.args[1]))
    if r.op=='idx': r=mk('removed',v,k.args[1])
    I.store(st,k.args[0],mk('swapped' if 'swap' in k.name else 'without',v,k.args[1]),k.site); return V_(st,r)
@model('std::vec::Vec::insert')
def m_vinsert(I,st,k):
    v=I.load(st,k.args[0]); I.store(st,k.args[0],mk('with',v,k.args[1],k.args[2]),k.site); return V_(st,UNIT)
@model('std::slice::sort_by','std::slice::sort','std::slice::sort_by_key','core::slice::sort_unstable','core::slice::sort_unstable_by','core::slice::sort_unstable_by_key','core::slice::reverse','std::vec::Vec::dedup')
def m_sort(I,st,k):
    v=I.load(st,k.args[0]); I.store(st,k.args[0],mk('sorted',k.name.split('::')[-1],v,*[a for a in k.args[1:]]),k.site); return V_(st,UNIT)
@model('core::slice::is_sorted_by','core::slice::is_sorted','core::slice::contains','core::str::contains','core::str::split_once','core::str::rsplit_once')
def m_purecall(I,st,k):
    return V_(st,mk('call',k.name.split('::')[-1],*[I.deep(st,loadall(I,st,a)) for a in k.args]))

# ---- iterators
def to_iter(I,st,v,k=None):
    if v.op=='it': return v
    if v.op=='&':
        x=I.load(st,v)
        if x.op=='it' or (x.op=='agg' and (x.a[0].startswith('std::ops::Range') or x.a[0] in I.P.adts)): return v
        return mk('it','slice',v)
    if v.op=='agg' and v.a[0] in(OPT,):
        return mk('it','opt',v)
    if v.op=='agg': return v
    if k is not None and k.tys and (k.tys[0].startswith('&')): return mk('it','slice',v)
    if k is not None and k.tys and ('Vec' in k.tys[0] or k.tys[0].startswith('[')): return mk('it','vec',v)
    return v
for n in ['core::slice::iter','core::slice::iter_mut']:
    MODELS[n]=lambda I,st,k: V_(st,mk('it','slice',k.args[0]))
def chained(name):
    def f(I,st,k):
        a=list(k.args[1:])
        if name=='chain' and len(k.tys)>1 and k.tys[1].startswith('std::vec::Vec<') and a[0].op not in('it','&','arr'): a[0]=mk('it','vec',a[0])
        elif name=='chain' and len(k.tys)>1 and k.tys[1].startswith(OPT+'<') and a[0].op not in('it','&'): a[0]=mk('it','opt',a[0])
        return V_(st,mk('it',name,to_iter(I,st,k.args[0],k),*a))
    return f
for n in ['enumerate','map','rev','skip','take','zip','filter','filter_map','chain','copied','cloned','skip_while','take_while','map_while','inspect','step_by','flat_map','flatten','scan']:
    MODELS['std::iter::Iterator::'+n]=chained(n)
@model('core::slice::chunks','core::slice::chunks_exact')
def m_chunks(I,st,k): return V_(st,mk('it','chunks',loadall(I,st,k.args[0]),k.args[1]))
@model('std::iter::once')
def m_once(I,st,k): return V_(st,mk('it','vec',mk('arr',(k.args[0],))))
@model('std::iter::empty')
def m_empty(I,st,k): return V_(st,mk('it','vec',mk('arr',())))

ADAPT=[0]
def gen(I,st,it,back,k,kont):
    if k is not None and not k.name.split('::')[-1].startswith('next') and I.innermost(st) is not None and I.consuming is None:
        # a consuming call inside a loop is an iteration of its own
        I.consuming=(st.frames[-1].fn.path,'call@%s'%(k.site,),st.frames[-1].fid)
        try: return gen_(I,st,it,back,k,kont)
        finally: I.consuming=None
    return gen_(I,st,it,back,k,kont)
def gen_(I,st,it,back,k,kont):
    """generic element of iterator `it`; returns list of outcomes of kont(st, elem-or-None, index) ; closures via 'closure'"""
    out=[]
    def none(st,why='end',col=None):
        I.event(st,'iterend',why,(it,) if col is None else (it,col),None,k.site if k is not None else None); out.extend(kont(st,None,None))
    exiting=I.exiting(st)
    if it.op=='&':
        it=I.load(st,it)
    if it.op=='agg' and it.a[0].startswith('std::ops::Range'):
        lo=fld(it,'start'); hi=fld(it,'end') if 'end' in it.a[2] else mk('inf')
        nonempty=isc(lo) and isc(hi) and lo.a[0]<hi.a[0] and not ADAPT[0] and I.innermost(st) is not None
        if exiting or not nonempty: none(st.fork())
        if not exiting:
            iv=st.fresh('rng',lo,hi,'b' if back else 'f','i' if 'Inclusive' in it.a[0] else 'x')
            I.event(st,'iter','range',(it,),iv,k.site)
            out.extend(kont(st,iv,iv))
        return out
    kind=it.a[0] if it.op=='it' else None
    if kind in('slice','vec'):
        p=it.a[1]; v=loadall(I,st,p) if kind=='slice' else p
        lst=None
        if v.op=='arr': lst=[x for x in v.a[0]]
        elif v.op=='elem': lst=[v.a[0]]
        elif v.op=='cat' and all(x.op=='elem' for x in v.a[0]): lst=[x.a[0] for x in v.a[0]]
        elif v.op=='cb' and not v.a[0]: lst=[]
        st2=st.fork(); none(st2,'end',v)
        if exiting: return out
        if lst is not None:
            for i,e in enumerate(lst):
                s3=st.fork() if i<len(lst)-1 else st
                ev=e if kind=='vec' else ptr_proj(p,('i',c(i)))
                I.event(s3,'iter','element',(it,c(i),ev),ev,k.site)
                out.extend(kont(s3,ev,c(i)))
        else:
            iv=st.fresh('iv',v,'b' if back else 'f')
            e=ptr_proj(p,('i',iv)) if kind=='slice' else (v.a[2] if v.op=='gvec' else idx(v,iv))
            if kind=='slice' and v.op=='gvec': e=v.a[2]
            I.event(st,'iter','element',(it,iv,e),e,k.site)
            out.extend(kont(st,e,iv))
        return out
    if kind=='enumerate':
        def k2(st,e,i): return kont(st,None,None) if e is None else kont(st,tup(i if i is not None else st.fresh('cnt'),e),i)
        return gen(I,st,it.a[1],back,k,k2)
    if kind=='rev': return gen(I,st,it.a[1],not back,k,kont)
    if kind in('copied','cloned'):
        return gen(I,st,it.a[1],back,k,lambda st,e,i: kont(st,None,None) if e is None else kont(st,I.load(st,e),i))
    if kind in('skip','take','step_by','take_while','skip_while','inspect'):
        if kind!='inspect': I.event(st,'adapt',kind,(it,),None,k.site if k is not None else None)
        ADAPT[0]+=1
        try: return gen(I,st,it.a[1],back,k,lambda st,e,i: kont(st,None,None) if e is None else kont(st,e,i))
        finally: ADAPT[0]-=1
    if kind=='zip':
        other=to_iter(I,st,it.a[2],None)
        def k2(st,e,i):
            if e is None: return kont(st,None,None)
            def k3(st,e2,i2):
                if e2 is None: return [] 
                return kont(st,tup(e,e2),i)
            # same index for slices
            o=other
            if o.op=='it' and o.a[0]=='slice' and i is not None: return k3(st,ptr_proj(o.a[1],('i',i)),i)
            if o.op=='it' and o.a[0]=='vec' and i is not None: return k3(st,idx(o.a[1],i),i)
            if o.op in('fld','arg','idx','as','&') and i is not None and not (o.op=='&' and loadall(I,st,o).op in('it','agg')): return k3(st,ptr_proj(o,('i',i)),i)
            return gen(I,st,o,back,k,k3)
        return gen(I,st,it.a[1],back,k,k2)
    if kind=='chain':
        return gen(I,st.fork(),it.a[1],back,k,lambda st,e,i: [] if e is None else kont(st,e,i))+gen(I,st,to_iter(I,st,it.a[2]),back,k,kont)
    if kind=='map':
        def k2(st,e,i):
            if e is None: return kont(st,None,None)
            return [('closure',st,it.a[2],[e],lambda I,st,v,i=i:unv(kont(st,v,i)))]
        return gen(I,st,it.a[1],back,k,k2)
    if kind=='filter':
        def k2(st,e,i):
            if e is None: return kont(st,None,None)
            def post(I,st,b,e=e,i=i):
                o=[]
                for s3,r in I.branch_bool(st,b,k.site):
                    if r: o.extend(unv(kont(s3,e,i)))
                    else:
                        I.event(s3,'iterend','filtered',(it.a[1],),None,k.site if k is not None else None)
                        o.extend(unv(kont(s3,None,None)))
                return o
            return [('closure',st,it.a[2],[e],post)]
        return gen(I,st,it.a[1],back,k,k2)
    if kind=='filter_map' or kind=='map_while':
        def k2(st,e,i):
            if e is None: return kont(st,None,None)
            def post(I,st,v,i=i):
                o=[]
                for s3,n,p in I.opt_fork(st,v,k.site):
                    if n=='Some': o.extend(unv(kont(s3,fld(p,'0'),i)))
                    else:
                        I.event(s3,'iterend','filtered',(it.a[1],),None,k.site if k is not None else None)
                        o.extend(unv(kont(s3,None,None)))
                return o
            return [('closure',st,it.a[2],[e],post)]
        return gen(I,st,it.a[1],back,k,k2)
    if kind=='chunks':
        st2=st.fork(); none(st2)
        if not exiting:
            e=st.fresh('chunk',it.a[1],it.a[2])
            I.event(st,'iter','chunks',(it.a[1],it.a[2]),e,k.site)
            out.extend(kont(st,e,None))
        return out
    if kind=='opt':
        for s2,n,p in I.opt_fork(st,it.a[1],k.site): out.extend(kont(s2,fld(p,'0') if n=='Some' else None,c(0)))
        return out
    st2=st.fork(); none(st2)
    if not exiting:
        e=st.fresh('item',it,'b' if back else 'f')
        I.event(st,'iter','opaque',(it,),e,k.site)
        out.extend(kont(st,e,None))
    return out
def unv(outs):
    """model outcomes -> continuation outcomes"""
    o=[]
    for x in outs:
        if x[0]=='v': o.append((x[1],x[2]))
        elif x[0]=='closure': o.append(x)
        elif x[0]=='end': o.append(x)
    return o
@model('std::iter::Iterator::next','std::iter::DoubleEndedIterator::next_back')
def m_next(I,st,k):
    p=k.args[0]; v=I.load(st,p) if p.op=='&' else p
    n=0
    while v.op=='&' and n<4: v=I.load(st,v); n+=1
    if v.op=='it' and v.a[0]=='list': return next_of(I,st,p,v,k.name.endswith('back'),k)
    if v.op in('it',) or (v.op=='agg' and v.a[0].startswith('std::ops::Range')): it=v
    else: it=mk('it','slice',v) if False else v
    return gen(I,st,it,k.name.endswith('back'),k,lambda st,e,i:[('v',st,NONE if e is None else some(e))])
@model('crossbeam_channel::Receiver::recv','std::sync::mpsc::Receiver::recv')
def m_recv(I,st,k):
    """taking the next element of a queue of tasks; waiting for a single outcome stays an event of its own"""
    ty=k.tys[0] if k.tys else ''
    if 'Receiver<' not in ty or 'Receiver<std::result::Result<' in ty: return None
    it=loadall(I,st,k.args[0]); st2=st.fork(); exiting=I.exiting(st)
    I.event(st2,'iterend','opaque',(it,),None,k.site)
    if exiting: return [('v',st2,err(st2.fresh('recverr')))]
    e=st.fresh('item',it,'f')
    I.event(st,'iter','opaque',(it,),e,k.site)
    return [('v',st2,err(st2.fresh('recverr'))),('v',st,ok(e))]
def local_iter(I,it):
    return it.op=='agg' and it.a[0] in I.P.adts and I.P.adts[it.a[0]]['local']
def each(I,st,it,k,post,end):
    """f(e) for each element of a written-out list in turn"""
    it=unrolled(I,st,it)
    if it is None: return None
    l=it.a[1]; fns=it.a[2]+(k.args[1],)
    def at(s2,n):
        if n==len(l): return end(s2)
        w,e=l[n]
        if w=='opt':
            r=[]
            for s3,nn,q in I.opt_fork(s2,e,k.site): r+=call(s3,fld(q,'0'),n,0) if nn=='Some' else at(s3,n+1)
            return r
        return call(s2,e,n,0)
    def call(s2,v,n,j):
        if j==len(fns)-1: return [('closure',s2,fns[j],[v],lambda I,s3,w:post(I,s3,w,lambda s4:at(s4,n+1)))]
        return [('closure',s2,fns[j],[v],lambda I,s3,w:call(s3,w,n,j+1))]
    return [o if o[0]=='closure' else ('v',)+tuple(o) for o in at(st,0)]
@model('std::iter::Iterator::for_each')
def m_foreach(I,st,k):
    it=to_iter(I,st,k.args[0],k)
    o=each(I,st,it,k,lambda I,s2,v,more:more(s2),lambda s2:[(s2,UNIT)])
    if o is not None: return o
    return gen(I,st,it,False,k,lambda st,e,i:[('v',st,UNIT)] if e is None else [('closure',st,k.args[1],[e],lambda I,st,v:[(st,UNIT)])])
@model('std::iter::Iterator::try_for_each')
def m_tryforeach(I,st,k):
    it=to_iter(I,st,loadall(I,st,k.args[0]) if k.args[0].op=='&' else k.args[0],k)
    def post(I,s2,v,more):
        r=[]
        for s3,n,p in I.res_fork(s2,v,k.site): r+=more(s3) if n=='Ok' else [(s3,err(fld(p,'0')))]
        return r
    o=each(I,st,it,k,post,lambda s2:[(s2,ok(UNIT))])
    if o is not None: return o
    def kont(st,e,i):
        if e is None: return [('v',st,ok(UNIT))]
        def post(I,st,v):
            return [(s2,ok(UNIT) if n=='Ok' else err(fld(p,'0'))) for s2,n,p in I.res_fork(st,v,k.site)]
        return [('closure',st,k.args[1],[e],post)]
    return gen(I,st,it,False,k,kont)
@model('std::iter::Iterator::collect')
def m_collect(I,st,k):
    it=to_iter(I,st,k.args[0],k); t=I.P.tys(k.dty) if k.dty is not None else ''
    isres=t.startswith(RES); isopt=t.startswith(OPT)
    u=unrolled(I,st,it) if 'Vec<' in t and not isopt else None
    if u is not None:
        def done(s2,vs): return [(s2,(ok if isres else (lambda x:x))(cat([mk('elem',v) for v in vs]) if vs else mk('cb',b'')))]
        def at(s2,n,j,v,vs):
            if j is None:
                if n==len(u.a[1]): return done(s2,vs)
                w,e=u.a[1][n]
                if w=='opt':
                    r=[]
                    for s3,nn,q in I.opt_fork(s2,e,k.site): r+=at(s3,n,0,fld(q,'0'),vs) if nn=='Some' else at(s3,n+1,None,None,vs)
                    return r
                return at(s2,n,0,e,vs)
            if j==len(u.a[2]):
                if not isres: return at(s2,n+1,None,None,vs+(v,))
                r=[]
                for s3,nn,p in I.res_fork(s2,v,k.site): r+=at(s3,n+1,None,None,vs+(fld(p,'0'),)) if nn=='Ok' else [(s3,err(fld(p,'0')))]
                return r
            return [('closure',s2,u.a[2][j],[v],lambda I,s3,w:at(s3,n,j+1,w,vs))]
        return [o if o[0]=='closure' else ('v',)+tuple(o) for o in at(st,0,None,None,())]
    if it.op=='it' and it.a[0]=='chain' and not isres and not isopt and 'Vec<' in t:
        # two whole lists, one after the other
        def whole(x):
            if not isinstance(x,V): return None
            if x.op=='it' and x.a[0]=='vec' and isinstance(x.a[1],V) and x.a[1].op!='it':
                return cat([mk('elem',q) for q in x.a[1].a[0]]) if x.a[1].op=='arr' and x.a[1].a[0] else x.a[1]
            if x.op=='it' and x.a[0]=='chain':
                l=whole(x.a[1]); r=whole(x.a[2]); return cat([l,r]) if l is not None and r is not None else None
            return None
        w=whole(it)
        if w is not None: return V_(st,w)
    def kont(st,e,i):
        if e is None: return [('v',st,ok(mk('cb',b'')) if isres else mk('cb',b''))]
        if isres:
            return [('v',s2,ok(s2.fresh('gvec',overwhat(I,st,it),fld(p,'0'))) if n=='Ok' else err(fld(p,'0'))) for s2,n,p in I.res_fork(st,e,k.site)]
        return [('v',st,st.fresh('gvec',overwhat(I,st,it),e))]
    return gen(I,st,it,False,k,kont)
@model('std::iter::Iterator::sum','std::iter::Iterator::count','std::iter::Iterator::min','std::iter::Iterator::last','std::iter::Iterator::product')
def m_sum(I,st,k):
    it=k.args[0]
    if k.name.endswith('::sum'):
        it=to_iter(I,st,it,k); fns=(); j=it
        while j.op=='it' and j.a[0]=='map' and len(fns)<3: fns=(j.a[2],)+fns; j=j.a[1]
        if j.op=='it' and j.a[0] in('slice','vec') and j.a[1].op!='it':
            v=loadall(I,st,j.a[1]) if j.a[0]=='slice' else j.a[1]
            if v.op not in('arr','elem','cat','cb'):
                # the sum over all elements of what is computed from one
                iv=st.fresh('iv',v,'f'); e=(v.a[2] if v.op=='gvec' else ptr_proj(j.a[1],('i',iv)) if j.a[0]=='slice' else idx(v,iv))
                def at(I,s2,x,n):
                    if n==len(fns): return [(s2,mk('sum',v,iv,I.deep(s2,loadall(I,s2,x))))]
                    return [('closure',s2,fns[n],[x],lambda I,s3,y:at(I,s3,y,n+1))]
                I.event(st,'consume',k.name,(it,),None,k.site)
                return [o if o[0]=='closure' else ('v',)+tuple(o) for o in at(I,st,e,0)]
    r=mk('call',k.name.split('::')[-1],it)
    I.event(st,'consume',k.name,(it,),r,k.site)
    if k.name.endswith('last') or k.name.endswith('min'):
        st2=st.fork(); return [('v',st,some(st.fresh('item',it))),('v',st2,NONE)]
    return V_(st,r)
@model('std::iter::Iterator::any','std::iter::Iterator::all')
def m_any(I,st,k):
    it=k.args[0]; it=I.load(st,it) if it.op=='&' else it
    isany=k.name.endswith('any')
    lst=known_list(I,st,it)
    if lst is not None and k.args[1].op in('agg','&'):
        def at(st,n):
            if n==len(lst): return [(st,FALSE if isany else TRUE)]
            def post1(I,st,b):
                r=[]
                for s2,v in I.branch_bool(st,b,k.site): r.extend([(s2,c(v))] if bool(v)==isany else at(s2,n+1))
                return r
            return [('closure',st,k.args[1],[lst[n]],post1)]
        return [o if o[0]=='closure' else ('v',)+tuple(o) for o in at(st,0)]
    def kont(st,e,i):
        if e is None: return [('v',st,FALSE if isany else TRUE)]
        def post(I,st,b):
            return [(s2,c(r)) for s2,r in I.branch_bool(st,b,k.site)]
        return [('closure',st,k.args[1],[e],post)]
    return gen(I,st,it,False,k,kont)
def known_list(I,st,it):
    """the elements of an iterator over a short list that is written out in the program"""
    l=written_out(I,st,it)
    return None if l is None or not l or any(w!='e' for w,_ in l) else [e for _,e in l]
def written_out(I,st,it,n=0):
    """[('e',element) | ('opt',optional element)] of an iterator over a short list that is written out in the program"""
    if n>6 or it.op!='it': return None
    kind=it.a[0]
    if kind in('slice','vec'):
        p=it.a[1]; v=loadall(I,st,p) if kind=='slice' else p
        if v.op=='elem': v=mk('arr',(v.a[0],))
        if v.op=='cat' and v.a[0] and all(x.op=='elem' for x in v.a[0]): v=mk('arr',tuple(x.a[0] for x in v.a[0]))
        if v.op!='arr' or len(v.a[0])>6: return None
        return [('e',e if kind=='vec' else ptr_proj(p,('i',c(i)))) for i,e in enumerate(v.a[0])]
    if kind=='list': return [x for x in it.a[1]]
    if kind=='opt': return [('opt',it.a[1])]
    if kind in('enumerate','rev','copied','cloned'):
        l=written_out(I,st,it.a[1],n+1)
        if l is None: return None
        if kind=='rev': return l[::-1]
        if any(w!='e' for w,_ in l): return None
        if kind=='enumerate': return [('e',tup(c(i),e)) for i,(_,e) in enumerate(l)]
        return [('e',I.load(st,e)) for _,e in l]
    if kind in('chain','zip'):
        l=written_out(I,st,it.a[1],n+1); m=written_out(I,st,to_iter(I,st,it.a[2]),n+1)
        if l is None or m is None: return None
        if kind=='chain': return l+m if len(l+m)<=6 else None
        if any(w!='e' for w,_ in l+m): return None
        return [('e',tup(a,b)) for (_,a),(_,b) in zip(l,m)]
    return None
def unrolled(I,st,it):
    """the same iterator as an explicit list (None when it is none that is written out)"""
    fns=(); j=it
    while j.op=='it' and j.a[0]=='map' and len(fns)<3: fns=(j.a[2],)+fns; j=j.a[1]
    l=written_out(I,st,j)
    if l is None or not l or all(w=='opt' for w,_ in l): return None
    return mk('it','list',tuple(l),fns)
def next_of(I,st,p,it,back,k):
    """next() of an explicit list kept in *p"""
    l=list(it.a[1]); out=[]
    while l:
        w,e=l.pop() if back else l.pop(0)
        if w=='opt':
            for s2,n,q in I.opt_fork(st,e,k.site):
                if n=='Some': out.append((s2,fld(q,'0'),list(l)))
                else: nx=s2
            st=nx; continue
        out.append((st,e,l)); break
    else: out.append((st,None,[]))
    res=[]
    for s2,e,rest in out:
        I.store(s2,p,mk('it','list',tuple(rest),it.a[2]),None)
        if e is None: res.append(('v',s2,NONE)); continue
        def at(I,s3,v,n):
            if n==len(it.a[2]): return [(s3,some(v))]
            return [('closure',s3,it.a[2][n],[v],lambda I,s4,w:at(I,s4,w,n+1))]
        res+=[o if o[0]=='closure' else ('v',)+tuple(o) for o in at(I,s2,e,0)]
    return res
@model('std::iter::Iterator::find','std::iter::Iterator::position','std::iter::Iterator::find_map')
def m_find(I,st,k):
    it=k.args[0]; n=0
    while it.op=='&' and n<4: it=I.load(st,it); n+=1
    w=k.name.split('::')[-1]
    lst=known_list(I,st,it)
    if lst is not None:
        def at(s2,n):
            if n==len(lst): return [(s2,NONE)]
            def post1(I,s3,b):
                r=[]
                if w=='find_map':
                    for s4,nn,p in I.opt_fork(s3,b,k.site): r+=[(s4,some(fld(p,'0')))] if nn=='Some' else at(s4,n+1)
                else:
                    for s4,v in I.branch_bool(s3,b,k.site): r+=[(s4,some(lst[n] if w=='find' else c(n)))] if v else at(s4,n+1)
                return r
            return [('closure',s2,k.args[1],[lst[n]],post1)]
        return [o if o[0]=='closure' else ('v',)+tuple(o) for o in at(st,0)]
    if w=='position' and it.op=='it' and (it.a[0]=='slice' or it.a[0] in('copied','cloned') and it.a[1].op=='it' and it.a[1].a[0]=='slice') and not I.exiting(st):
        sl=it if it.a[0]=='slice' else it.a[1]; v=loadall(I,st,sl.a[1])
        iv=st.fresh('iv',v,'f'); e=ptr_proj(sl.a[1],('i',iv)); ev=I.load(st,e)
        def postp(I,s2,b):
            if b.op=='eq' and any(x is ev for x in b.a[:2]):
                y=b.a[1] if b.a[0] is ev else b.a[0]
                if not contains(y,lambda q: q is iv): return [(s2,mk('pos',v,y))]
            s3=s2.fork(); I.event(s3,'iterend','end',(it,v),None,k.site)
            I.event(s2,'iter','element',(it,iv,e),e,k.site)
            return [(s3,NONE)]+[(s4,some(iv)) for s4,r in I.branch_bool(s2,b,k.site) if r]
        return [('closure',st,k.args[1],[e if it.a[0]=='slice' else ev],postp)]
    def kont(st,e,i):
        if e is None: return [('v',st,NONE)]
        if w=='find_map':
            def postm(I,st,v):
                return [(s2,some(fld(p,'0'))) for s2,nn,p in I.opt_fork(st,v,k.site) if nn=='Some']
            return [('closure',st,k.args[1],[e],postm)]
        def post(I,st,b):
            return [(s2,some(e if w=='find' else (i if i is not None else s2.fresh('cnt')))) for s2,r in I.branch_bool(st,b,k.site) if r]
        return [('closure',st,k.args[1],[e],post)]
    return gen(I,st,it,False,k,kont)
@model('std::iter::Iterator::size_hint','std::iter::ExactSizeIterator::len')
def m_sizehint(I,st,k):
    v=loadall(I,st,k.args[0])
    ty=(k.tys[0] if k.tys else '').lstrip('&').replace('mut ','')
    if k.name.endswith('::len') and ty.startswith('std::ops::Range<'):
        a,b=fld(v,'start'),fld(v,'end')
        return [('v',s2,sub(b,a) if z else c(0)) for s2,z in I.branch_bool(st,cmp_lt(a,b),k.site)]
    return V_(st,mk('call','size_hint',v))
@model('std::ops::Range::is_empty')
def m_rgempty(I,st,k):
    v=loadall(I,st,k.args[0])
    return [('v',s2,c(int(not z))) for s2,z in I.branch_bool(st,cmp_lt(fld(v,'start'),fld(v,'end')),k.site)]
@model('std::ops::Range::contains')
def m_rgcontains(I,st,k):
    v=loadall(I,st,k.args[0]); x=loadall(I,st,k.args[1]); out=[]
    for s2,z in I.branch_bool(st,cmp_lt(x,fld(v,'start')),k.site):
        if z: out.append(('v',s2,c(0))); continue
        out+=[('v',s3,c(int(y))) for s3,y in I.branch_bool(s2,cmp_lt(x,fld(v,'end')),k.site)]
    return out
@model('std::iter::Iterator::fold')
def m_fold(I,st,k):
    it=to_iter(I,st,k.args[0],k)
    return gen(I,st,it,False,k,lambda st,e,i:[('v',st,k.args[1])] if e is None else [('closure',st,k.args[2],[st.fresh('acc',k.args[1]),e],None)])
@model('simd_itertools::PositionSimd::position_simd')
def m_possimd(I,st,k):
    it=k.args[0]; it=I.load(st,it) if it.op=='&' else it
    v=loadall(I,st,it.a[1]) if it.op=='it' else it
    return V_(st,mk('pos',v,k.args[1]))

# ---- locks
def lockptr(I,st,p):
    # normalise pointer-to-pointer (e.g. &Arc<RwLock>) to the lock location
    n=0
    while p.op=='&' and n<5:
        v=I.load(st,p)
        if v.op in('&','fld','arg','idx','as') : p=v; n+=1
        else: break
    return p
def relock(I,st,p):
    """what a lock protects may have changed since it was last held: forget it (a new version of the contents)"""
    k=('lk',p)
    if k in st.env and not any(h.a[1] is p for h in st.held[:-1]):
        d=fld(p,'$')
        for q in [q for q in st.mem if q is d or I.under(q,d)]: del st.mem[q]
        st.mem[d]=st.fresh('ver',d)
    st.env[k]=UNIT
LOCKS={'read':'r','write':'w','lock':'w','upgradable_read':'u','read_recursive':'rr','read_arc':'r','write_arc':'w','lock_arc':'w'}
for base in ('parking_lot::lock_api::RwLock::','parking_lot::lock_api::Mutex::','std::sync::RwLock::','std::sync::Mutex::','std::sync::poison::RwLock::','std::sync::poison::Mutex::','lock_api::RwLock::','lock_api::Mutex::','std::sync::rwlock::RwLock::','std::sync::mutex::Mutex::','parking_lot::lock_api::ReentrantMutex::'):
    for n,mode in LOCKS.items():
        def f(I,st,k,mode=mode,base=base):
            p=lockptr(I,st,k.args[0])
            I.event(st,'acq',mode,(p,),None,k.site,k.tys[0] if k.tys else '')
            g=st.fresh('guard',p,mode)
            st.held=st.held+(g,)
            I.event(st,'lock',mode,(p,),g,k.site,k.tys[0] if k.tys else '')
            relock(I,st,p)
            return V_(st,ok(g) if base.startswith('std::sync') else g)
        MODELS[base+n]=f
    for n in('try_lock','try_read','try_write','try_lock_for','try_write_for','try_read_for','try_upgradable_read','try_read_recursive','try_lock_until'):
        def f(I,st,k,n=n,base=base):
            p=lockptr(I,st,k.args[0]); st2=st.fork()
            mode='r' if 'read' in n else 'w'
            g=st.fresh('guard',p,mode); st.held=st.held+(g,)
            I.event(st,'lock','try_'+mode,(p,),g,k.site,k.tys[0] if k.tys else '')
            relock(I,st,p)
            I.event(st2,'trylock_failed',n,(p,),None,k.site)
            if base.startswith('std::sync'): return [('v',st,ok(g)),('v',st2,err(st2.fresh('ret',n)))]
            return [('v',st,some(g)),('v',st2,NONE)]
        MODELS[base+n]=f
    MODELS[base+'new']=lambda I,st,k: V_(st,agg('lock',None,('$',),(k.args[0],)))
    MODELS[base+'is_locked']=lambda I,st,k: V_(st,st.fresh('ret','is_locked'))
    MODELS[base+'get_mut']=lambda I,st,k: V_(st,ptr_proj(lockptr(I,st,k.args[0]),('f','$')))
    MODELS[base+'data_ptr']=lambda I,st,k: (I.event(st,'note','data_ptr',(k.args[0],),None,k.site),V_(st,ptr_proj(lockptr(I,st,k.args[0]),('f','$'))))[1]
    MODELS[base+'into_inner']=lambda I,st,k: V_(st,fld(k.args[0],'$'))
@model('parking_lot::lock_api::RwLockUpgradableReadGuard::with_upgraded')
def m_withup(I,st,k):
    g=loadall(I,st,k.args[0])
    if g.op!='guard': 
        return None
    p=g.a[1]
    I.event(st,'acq','w+',(p,),None,k.site,'')
    g2=mk('guard',g.a[0],p,'w')
    st.held=tuple(g2 if h is g else h for h in st.held)
    I.event(st,'lock','w+',(p,),g2,k.site)
    def post(I,st,v):
        I.event(st,'unlock','w+',(p,),g2,k.site)
        st.held=tuple(g if h is g2 else h for h in st.held)
        return [(st,v)]
    return [('closure',st,k.args[1],[ptr_proj(p,('f','$'))],post)]
@model('parking_lot::lock_api::RwLockUpgradableReadGuard::upgrade','parking_lot::lock_api::RwLockWriteGuard::downgrade','parking_lot::lock_api::RwLockWriteGuard::downgrade_to_upgradable','parking_lot::lock_api::RwLockUpgradableReadGuard::downgrade')
def m_upgrade(I,st,k):
    g=k.args[0]; up=k.name.endswith('upgrade')
    if g.op!='guard': return V_(st,g)
    mode='w' if up else ('u' if 'to_upgr' in k.name else 'r')
    if up: I.event(st,'acq','w+',(g.a[1],),None,k.site)
    g2=mk('guard',g.a[0],g.a[1],mode)
    st.held=tuple(g2 if h is g else h for h in st.held)
    I.event(st,'lock' if up else 'note',mode if up else 'downgrade',(g.a[1],),g2,k.site)
    return V_(st,g2)
@model('parking_lot::lock_api::RwLockReadGuard::map','parking_lot::lock_api::RwLockWriteGuard::map','parking_lot::lock_api::MutexGuard::map')
def m_gmap(I,st,k): return None
@model('parking_lot::lock_api::MutexGuard::unlock_fair','parking_lot::lock_api::RwLockWriteGuard::unlock_fair','parking_lot::lock_api::RwLockReadGuard::unlock_fair')
def m_unlockfair(I,st,k): I.do_drop(st,k.args[0],'',k.site); return V_(st,UNIT)

# ---- atomics
def ordname(v): return v.a[1] if v.op=='agg' else '?'
A='std::sync::atomic::Atomic::'
@model(A+'load')
def m_aload(I,st,k):
    p=k.args[0]; r=st.fresh('al',p); I.event(st,'aload',ordname(k.args[1]),(p,),r,k.site); return V_(st,r)
@model(A+'store')
def m_astore(I,st,k):
    I.event(st,'astore',ordname(k.args[2]),(k.args[0],k.args[1]),None,k.site); return V_(st,UNIT)
for n in('fetch_add','fetch_sub','fetch_max','fetch_or','fetch_and','swap','fetch_min'):
    def f(I,st,k,n=n):
        p=k.args[0]; r=st.fresh('af',p); I.event(st,'armw',n,(p,k.args[1]),r,k.site,ordname(k.args[2])); return V_(st,r)
    MODELS[A+n]=f
@model(A+'compare_exchange',A+'compare_exchange_weak')
def m_cas(I,st,k):
    p=k.args[0]; st2=st.fork()
    I.event(st,'armw','cas',(p,k.args[1],k.args[2]),k.args[1],k.site,ordname(k.args[3]))
    r=st2.fresh('al',p); I.event(st2,'aload','cas-fail',(p,),r,k.site)
    return [('v',st,ok(k.args[1])),('v',st2,err(r))]
@model(A+'fetch_update')
def m_fupd(I,st,k): return None
@model(A+'new','std::cell::Cell::new','std::sync::atomic::AtomicU64::new')
def m_anew(I,st,k): return V_(st,k.args[0])
@model(A+'get_mut',A+'into_inner',A+'as_ptr')
def m_agm(I,st,k): return V_(st,k.args[0])
@model('std::sync::atomic::fence','std::sync::atomic::compiler_fence')
def m_fence(I,st,k):
    I.event(st,'fence',k.name.split('::')[-1]+':'+ordname(k.args[0]),(),None,k.site); return V_(st,UNIT)

# ---- hashing
@model('siphasher::sip128::SipHasher24::new_with_key')
def m_sip(I,st,k): return V_(st,mk('sip',I.deep(st,loadall(I,st,k.args[0]))))
@model('siphasher::sip128::SipHasher24::hash')
def m_siph(I,st,k): return V_(st,mk('siphash',loadall(I,st,k.args[0]),I.deep(st,loadall(I,st,k.args[1]))))

# ---- formatting / paths
for n in('new_display','new_debug','new_lower_hex','new_upper_hex','new_lower_exp','new_binary','new_octal','new_pointer'):
    def f(I,st,k,n=n): return V_(st,mk('fa',n[4:],I.deep(st,loadall(I,st,k.args[0]))))
    MODELS['core::fmt::rt::Argument::'+n]=f
def decode_template(b,args):
    parts=[]; i=0; ai=0
    while i<len(b):
        n=b[i]; i+=1
        if n==0: break
        if n<0x80: parts.append(mk('cb',bytes(b[i:i+n]))); i+=n
        elif n==0x80:
            L=b[i]|b[i+1]<<8; i+=2; parts.append(mk('cb',bytes(b[i:i+L]))); i+=L
        else:
            fl=0; w=0; pr=0
            if n!=0xC0:
                if n&1: fl=int.from_bytes(b[i:i+4],'little'); i+=4
                if n&2: w=int.from_bytes(b[i:i+2],'little'); i+=2
                if n&4: pr=int.from_bytes(b[i:i+2],'little'); i+=2
                if n&8: ai=int.from_bytes(b[i:i+2],'little'); i+=2
            a=args[ai] if ai<len(args) else mk('badarg',ai)
            if a.op=='fa' and a.a[0] in('display',) and a.a[1].op=='cb': parts.append(a.a[1])
            elif a.op=='fa' and a.a[0]=='display' and a.a[1].op=='str': parts.extend(a.a[1].a[0])
            else: parts.append(mk('ph_',fl,w,pr,a))
            ai+=1
    res=[]
    for p in parts:
        if p.op=='cb' and res and res[-1].op=='cb': res[-1]=mk('cb',res[-1].a[0]+p.a[0])
        else: res.append(p)
    return mk('str',tuple(res))
@model('std::fmt::Arguments::new','core::fmt::rt::new','std::fmt::Arguments::new_v1')
def m_argsnew(I,st,k):
    t=I.deep(st,loadall(I,st,k.args[0])); a=I.deep(st,loadall(I,st,k.args[1]))
    al=list(a.a[0]) if a.op=='arr' else []
    if t.op=='arr' and all(isc(x) for x in t.a[0]): t=mk('cb',bytes(x.a[0] for x in t.a[0]))
    if t.op=='cb': return V_(st,decode_template(t.a[0],[I.deep(st,loadall(I,st,x)) for x in al]))
    return V_(st,mk('fmtargs',t,a))
@model('std::fmt::Arguments::from_str','std::fmt::Arguments::new_const')
def m_argsstr(I,st,k): 
    v=loadall(I,st,k.args[0])
    return V_(st,mk('str',(v,)) if v.op=='cb' else mk('str',(v,)))
@model('std::fmt::format','std::fmt::format::format_inner')
def m_format(I,st,k): return V_(st,k.args[0])
@model('std::string::ToString::to_string','std::path::Path::display','std::path::Path::to_string_lossy','std::string::String::from')
def m_tostr(I,st,k):
    v=loadall(I,st,k.args[0])
    return V_(st,mk('str',(v,)) if v.op in('cb',) else v)
@model('std::path::Path::join')
def m_join(I,st,k):
    return V_(st,mk('path',loadall(I,st,k.args[0]),I.deep(st,loadall(I,st,k.args[1]))))
@model('std::path::PathBuf::push')
def m_ppush(I,st,k):
    I.store(st,k.args[0],mk('path',loadall(I,st,k.args[0]),I.deep(st,loadall(I,st,k.args[1]))),k.site); return V_(st,UNIT)
@model('std::path::PathBuf::from')
def m_pbfrom(I,st,k): return V_(st,loadall(I,st,k.args[0]))

# ---- anyhow
@model('anyhow::__private::not')
def m_not(I,st,k): return V_(st,bnot(k.args[0]))
for n in('anyhow::__private::format_err','anyhow::error::msg','anyhow::kind::Boxed::new','anyhow::kind::Trait::new','anyhow::Error::msg','anyhow::Error::new','anyhow::kind::Adhoc::new','anyhow::error::new','anyhow::__private::kind::BoxedKind::anyhow_kind','anyhow::__private::kind::TraitKind::anyhow_kind','anyhow::__private::kind::AdhocKind::anyhow_kind'):
    MODELS[n]=lambda I,st,k: V_(st,mk('anyerr',*[I.deep(st,a) for a in k.args[-1:]]))
@model('anyhow::Context::context','anyhow::Context::with_context')
def m_ctx(I,st,k):
    return [('v',s2,ok(fld(p,'0')) if n in('Ok','Some') else err(mk('anyerr',fld(p,'0') if n=='Err' else NONE))) for s2,n,p in I.branch_variant(st,k.args[0],OPT if k.tys and k.tys[0].startswith(OPT) else RES,k.site)]

# ---- time, threads, channels: events with opaque results
@model('std::time::Instant::now','std::time::Instant::duration_since','std::time::Instant::elapsed','std::thread::current','std::time::Duration::from_millis')
def m_time(I,st,k): return V_(st,st.fresh('time',k.name))

# ---- databuf
def dbcfg(k): return next((x['const'] for x in k.k.get('fnargs') or [] if isinstance(x,dict) and 'const' in x),'?')
@model('databuf::Encode::to_bytes')
def m_enc(I,st,k): return V_(st,mk('enc',I.deep(st,loadall(I,st,k.args[0])),dbcfg(k)))
@model('databuf::Decode::from_bytes')
def m_dec(I,st,k):
    t=k.k.get('fnargs') or []
    T=I.P.tys(t[0]) if t else '?'
    return V_(st,mk('decres',T,I.deep(st,loadall(I,st,k.args[0])),dbcfg(k)))

# ---- fs builder: OpenOptions as a value
@model('std::fs::OpenOptions::new','std::fs::File::options')
def m_oo(I,st,k): return V_(st,mk('oo',()))
for n in('read','write','create','truncate','append','create_new'):
    def f(I,st,k,n=n):
        p=k.args[0]; v=I.load(st,p)
        if v.op=='oo':
            d=dict(v.a[0]); d[n]=k.args[1]; I.store(st,p,mk('oo',tuple(sorted(d.items()))),None)
        return V_(st,p)
    MODELS['std::fs::OpenOptions::'+n]=f
@model('memmap::MmapOptions::new')
def m_mo(I,st,k): return V_(st,mk('mmapopt',()))
@model('memmap::MmapOptions::len','memmap::MmapOptions::offset')
def m_molen(I,st,k):
    v=I.load(st,k.args[0])
    if v.op=='mmapopt':
        d=dict(v.a[0]); d[k.name.split('::')[-1]]=k.args[1]; I.store(st,k.args[0],mk('mmapopt',tuple(sorted(d.items()))),None)
    return V_(st,k.args[0])

def fallback(I,name,res,call):
    last=name.split('::')[-1]
    if name.startswith('std::cmp::impls') or name.startswith('core::cmp::impls'):
        return MODELS.get('std::cmp::PartialEq::'+last)
    if name.startswith('core::fmt::') or name.startswith('std::fmt::Formatter'):
        return lambda I,st,k: V_(st,st.fresh('fmtret',name))
    return None
