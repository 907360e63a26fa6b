"""Rules about reorganisations as a whole: publication, deletion and adoption of files; crash points; tree updates."""
from rules.lib import *
from rules.shard import *
from rules.copy import *
from rules.rows import contains,rowindex,unupd,shard_boundary,router_bound,merge_bound,cover

# ------------------------------------------------------------------ order of spans
def ordval(term,env,a,b):
    """sign of an Ordering term under env (sign of a.start?b.start, a.end?b.end)"""
    t=canon(term)
    if t.op=='agg' and t.a[1] in('Less','Equal','Greater'): return {'Less':-1,'Equal':0,'Greater':1}[t.a[1]]
    if t.op=='cmp': return cmpterm(t.a[0],t.a[1],env,a,b)
    if t.op=='then':
        x=ordval(t.a[0],env,a,b)
        return x if x is None or x!=0 else ordval(t.a[1],env,a,b)
    if t.op=='revord':
        x=ordval(t.a[0],env,a,b); return None if x is None else -x
    return None
def side(x,a,b):
    """('a'|'b', field)"""
    if x.op=='fld' and x.a[1] in('start','end'):
        if x.a[0] is a: return 'a',x.a[1]
        if x.a[0] is b: return 'b',x.a[1]
    return None
def cmpterm(x,y,env,a,b):
    if x.op=='agg' and y.op=='agg' and len(x.a[3])==len(y.a[3]) and 'Reverse' not in str(x.a[0]):
        for p,q in zip(x.a[3],y.a[3]):
            r=cmpterm(p,q,env,a,b)
            if r is None or r!=0: return r
        return 0
    if (x.op=='rev' and y.op=='rev') : 
        r=cmpterm(x.a[0],y.a[0],env,a,b); return None if r is None else -r
    if x.op=='agg' and y.op=='agg' and 'Reverse' in str(x.a[0]):
        r=cmpterm(x.a[3][0],y.a[3][0],env,a,b); return None if r is None else -r
    p,q=side(x,a,b),side(y,a,b)
    if p and q and p[1]==q[1]:
        if p[0]==q[0]: return 0
        s=env[p[1]]
        return s if p[0]=='a' else -s
    return None
def condval(k,env,a,b):
    if k.op in('eq','lt') :
        x,y=k.a
        d=0
        kx,tx=unlin(x); ky,ty=unlin(y)
        if len(tx)==1 and len(ty)==1:
            (vx,mx),=tx.items(); (vy,my),=ty.items()
            p,q=side(vx,a,b),side(vy,a,b)
            if p and q and p[1]==q[1] and mx==my==1:
                s=cmpterm(vx,vy,env,a,b); d=ky-kx
                if k.op=='eq' and d==0: return int(s==0)
                if k.op=='lt' and d==0: return int(s<0)
                if k.op=='lt' and d==1: return int(s<=0)
    if k.op=='is':
        s=ordval(k.a[0],env,a,b)
        if s is not None: return {-1:'Less',0:'Equal',1:'Greater'}[s]
    return None
def widest_first(C,term):
    """does sorting term put ranges by ascending start and, for equal starts, descending end? None=cannot tell"""
    kind=term.a[0]; fn=term.a[2] if len(term.a)>2 else None
    if fn is None: return False
    path=fn.a[0] if fn.op in('agg','clo') else None
    if isinstance(path,str) and path.startswith('closure:'): path=path[8:]
    F=C.P.fns.get(path) or next((C.P.fns[p] for p in C.P.fns if p==str(path)),None)
    if F is None:
        for p in C.P.fns:
            if path and p.endswith(str(path)): F=C.P.fns[p]
    if F is None: return None
    a,b=mk('arg','?a'),mk('arg','?b')
    I=Interp(C.P,{},max_paths=200)
    C.inlined.add(F.path)
    if 'key' in kind:
        def keys(x):
            r=[T(p) for p in I.run(F,[fn,x])]
            return canon(r[0].ret) if len(r)==1 and r[0].kind=='return' else None
        ka,kb=keys(a),keys(b)
        if ka is None or kb is None: return None
        ev=lambda env: cmpterm(ka,kb,env,a,b)
    else:
        ps=[T(p) for p in I.run(F,[fn,a,b])]
        def ev(env):
            r=set()
            for t in ps:
                if t.kind!='return': return None
                ok_=True
                for x in t.conds():
                    v=condval(x.ptr,env,a,b)
                    if v is None: return None
                    if v!=x.op: ok_=False; break
                if ok_: r.add(ordval(t.ret,env,a,b))
            return r.pop() if len(r)==1 else None
    for s in(-1,0,1):
        for e in(-1,0,1):
            want=s if s!=0 else -e
            got=ev({'start':s,'end':e})
            if got is None: return None
            if got!=want: return False
    return True
def elem_of(v):
    """the range denoted by an element that is pushed"""
    if v.op=='elem': v=v.a[0]
    if v.op=='removed': return idx(v.a[0],v.a[1])
    return v
def ends_cmp(x):
    """Cond comparing the ends of two ranges: (P, Q, P.end<=Q.end?, exact)"""
    k=x.ptr
    if k.op!='lt': return None
    ka,ta=unlin(k.a[0]); kb,tb=unlin(k.a[1])
    if len(ta)!=1 or len(tb)!=1: return None
    (p,_),=ta.items(); (q,_),=tb.items()
    if not(p.op=='fld' and q.op=='fld' and p.a[1]=='end' and q.a[1]=='end'): return None
    d=kb-ka          # p < q + d
    if d==1: return (p.a[0],q.a[0],True,x.op) # p<=q is x.op
    if d==0: return (q.a[0],p.a[0],True,1-x.op) # q<=p is not(p<q)
    return None
def C_consolidate(C,R):
    """the file filter keeps the widest of overlapping files and drops only covered ones"""
    try: ts=C.paths('consolidate_ranges')
    except Missing as e: R.missing(e); return
    srt=set(); nrem=nkeep=0
    for t in ts:
        if t.kind!='return': continue
        p=canon(t.ret)
        for v in terms_of(t):
            for q in subterms(v):
                if q.op=='sorted': srt.add(q)
        if p.op!='agg' or len(p.a[3])!=2: R.check('result understood','consolidate_ranges',False,show(p),t); continue
        kept,rem=p.a[3]
        if rem.op!='lv': continue
        steps=[x for x in t.by('Step') if x.ptr.op=='lv' and x.ptr.a[0]==rem.a[0]]
        for x in steps:
            b=x.val
            tail=None
            if b.op=='cat':
                parts=list(b.a[0])
                if parts and parts[0] is canon(x.ptr): tail=parts[1:]
            if b is canon(x.ptr) or tail is None:
                # passed over: must not be known to be covered; must be known not to be
                nkeep+=1
                cs=[ends_cmp(y) for y in t.conds(x.i)]
                cs=[y for y in cs if y]
                good=any(y[3]==0 for y in cs) or any(y.ptr.op=='lt' and y.op==1 and all(z.op=='fld' and z.a[1]=='start' for z in y.ptr.a) for y in t.conds(x.i)) or any(y.ptr.op=='is' and y.op=='None' for y in t.conds(x.i)) or any(y.op==1 and y.ptr.op in('eq','lt') for y in t.conds(x.i) if not ends_cmp(y) and 'len' in show(y.ptr) and y.ptr.op=='eq')
                R.check('a covered range is not kept','consolidate_ranges',good,'a range is kept without being known to extend beyond the previous one',t,x)
            else:
                nrem+=1
                E=elem_of(tail[0]) if tail else None
                cs=[y for y in (ends_cmp(y) for y in t.conds(x.i)) if y]
                good=any(y[3]==1 and y[0] is E and y[1] is not E for y in cs)
                R.check('only covered ranges are dropped','consolidate_ranges',good,'a range is dropped without being known to end within a kept one: %s'%', '.join('%s<=%s:%s'%(show(y[0])[-40:],show(y[1])[-40:],y[3]) for y in cs),t,x)
                if E is not None and E.op=='idx':
                    for y in cs:
                        if y[0] is E and y[3]==1 and y[1].op=='idx' and y[1].a[0] is E.a[0]:
                            R.check('compared with the preceding range','consolidate_ranges',sub(E.a[1],y[1].a[1]) is c(1),'compared with %s'%show(y[1]),t,x)
    for q in srt:
        w=widest_first(C,q)
        R.check('widest range first','consolidate_ranges',w is not False and w is not None,'the ranges are not sorted by start and then by descending end')
    R.floor('sorting','consolidate_ranges',1,len(srt)); R.floor('drops','consolidate_ranges',1,nrem); R.floor('keeps','consolidate_ranges',1,nkeep)

# ------------------------------------------------------------------ loading
def load_paths(C):
    B=shard_boundary(C)
    for p in C.P.fns:
        if p.endswith('router::consolidate_ranges'): B[p]='event'
    return C.paths('ShardRouter::load',boundary=B,key='load')
def prefix_test(x):
    """Cond on filename.starts_with(literal): (literal, outcome)"""
    k=x.ptr
    for q in [k]+list(k.a):
        if isinstance(q,V) and (q.op in('starts_with','startswith') or (q.op=='call' and q.a[0]=='starts_with')):
            for a in q.a:
                if isinstance(a,V) and a.op in('cb',): return a.a[0].decode('latin1'),x.op
                if isinstance(a,V) and a.op=='str' and len(a.a[0])==1 and a.a[0][0].op=='cb': return a.a[0][0].a[0].decode('latin1'),x.op
    return None
def discarded_prefixes(C):
    """prefixes of the temporaries that opening a store discards"""
    if hasattr(C,'_disc'): return C._disc
    r=set()
    for t in load_paths(C):
        for x in t.by('Remove'):
            if fname(x.path) is not None: continue
            pos=[p for p in (prefix_test(y) for y in t.conds(x.i)) if p and p[1]==1]
            if pos: r.add(pos[-1][0])
    C._disc=r
    return r

# ------------------------------------------------------------------ publication and deletion (split, merge)
COPYRULES=('row loop runs to its end before publication','every live slot is copied exactly once','every slot visited is tested for being live','slot loops run to their end',
 'each row visited is scanned','all rows are visited','all slots of a row are visited','every source file is copied','only live slots are copied','copied entry keeps its key and value',
 'copied slot becomes visible','copied to the row the key hashes to','no two entries share a target slot','slot counter advances with each copy','rows already moved by a compaction are not ignored',
 'entry goes to the half responsible for it','copy sites','one slot counter per target','deleted slots are not copied')
def copy_complete(C,R,where):
    """obligations of the copy analysis that decide whether what is published is complete"""
    if not hasattr(C,'_c07'):
        C._c07=Report('C07'); 
        try: C07(C,C._c07)
        except Missing as e: C._c07.missing(e)
    for (rule,w),(n,bad) in C._c07.ob.items():
        if w not in where or rule not in COPYRULES: continue
        k=('published copy: '+rule,w)
        a,b=R.ob.get(k,(0,0)); R.ob[k]=(a+n,b+bad)
        if bad and k not in R.viol: R.viol[k]=C._c07.viol.get((rule,w),('','',None))
def shard_args(C,r):
    return [a for a,ty in argty(C,r) if ty.replace('&','').replace('mut ','').strip().endswith('Shard')]
def span_of(sh): return fld(fld(sh,'span'),'start'),fld(fld(sh,'span'),'end')
def same_span(x,y): return x[0] is y[0] and x[1] is y[1]
def covered(sp,ren,srcs):
    """is span sp covered by the published spans"""
    seen=set(); todo=[sp[0]]
    while todo:
        a=todo.pop()
        if a is sp[1]: return True
        if a in seen: continue
        seen.add(a)
        for lo,hi in ren:
            if lo is a: todo.append(hi)
    if len(srcs)==2: 
        for lo,hi in ren:
            if lo is srcs[0][0] and hi is srcs[1][1] and any(same_span(sp,q) for q in srcs): return True
    return False
def mapped_file(t,sh):
    """file a shard value serves from, and its compaction target"""
    g=fld(fld(sh,'files'),'$')
    return t.fileid(fld(fld(g,'0'),'file')),canon(fld(g,'1'))
def same_dir(a,b):
    return a is not None and b is not None and (a is b or peel(a)[1][-2:]==peel(b)[1][-2:])
def publishing(C,R,r,keep_err):
    """rules for an operation that builds new files and replaces old ones.
    keep_err: once an original is deleted the operation may not fail any more (its caller keeps using it)"""
    ts=C.paths(r); srcs=[span_of(a) for a in shard_args(C,r)]
    disc=discarded_prefixes(C)
    nren=nrem=0
    for t in ts:
        opens=t.by('Open'); made={}
        for x in opens:
            n=fname(x.path)
            new=x.opts.get('create') is TRUE or x.opts.get('truncate') is TRUE or x.opts.get('create_new') is TRUE
            if new:
                made[x.path]=x
                R.check('new files are built under names discarded at open',r,n is not None and n[0] in disc,'%s is created, but opening a store does not discard such files'%shown(n),t,x)
        ren=t.by('Rename'); pubs=[]
        for x in ren:
            nren+=1
            a,b=fname(x.path),fname(x.path2)
            R.check('only finished temporaries are published',r,x.path in made and a is not None,'%s is renamed, but was not built here'%shown(a),t,x)
            R.check('published under the shard name of the same span',r,a is not None and b is not None and b[0]=='shard_' and same_span(a[1:],b[1:]) and same_dir(fdir(x.path),fdir(x.path2)) and x.op=='rename','%s is published as %s'%(shown(a),shown(b)),t,x)
            if b and b[1] is not None and t.ok(x.res)=='Ok': pubs.append((x,(b[1],b[2]),x.path))
        if ren:
            f={x.file for x in opens}
            late=[y for y in t.by('SigW','OffW','DataW','SetLen','RawW','MetaW') if y.i>ren[0].i and y.file in f]
            R.check('complete before published',r,not late,'a file is still written after publication began',t,late[0] if late else ren[0])
            late=[y for y in t.by('Open') if y.i>ren[0].i]
            R.check('complete before published',r,not late,'a file is created after publication began',t,late[0] if late else ren[0])
        gone=[]
        for x in t.by('Remove'):
            n=fname(x.path); nrem+=1
            if x.path in made:
                done=[y for y in ren if y.path is x.path and y.i<x.i]
                R.check('only originals and own temporaries are deleted',r,not done,'%s is deleted after it was published'%shown(n),t,x)
                R.check('giving up deletes nothing but the temporary',r,not pubs and not gone,'',t,x)
                continue
            isorig=n is not None and n[0]=='shard_' and n[1] is not None and any(same_span(n[1:],s) for s in srcs)
            if not R.check('only originals and own temporaries are deleted',r,isorig,'%s is deleted'%shown(n),t,x): continue
            before=[s for (y,s,_) in pubs if y.i<x.i]
            R.check('original deleted only after its replacement is published',r,covered(n[1:],before,srcs),'%s is deleted when only %s is published'%(shown(n),', '.join('%s-%s'%(show(a),show(b)) for a,b in before) or 'nothing'),t,x)
            gone.append((x,n[1:]))
        if completed(r,t):
            rest=[s for s in srcs if not covered(s,[s2 for _,s2,_ in pubs],srcs)]
            R.check('success means everything is published',r,not rest and all(t.ok(x.res)=='Ok' for x in ren),'success is reported although a file was not published',t,ren[-1] if ren else None)
            left=[s for s in srcs if not any(same_span(s,g) and t.ok(x.res)=='Ok' for x,g in gone)]
            R.check('success means the originals are gone',r,not left,'success is reported although an original file may still exist',t,gone[-1][0] if gone else None)
            # the shards handed out are the published files
            p=t.payload()
            if p.op=='agg' and p.a[1]=='Some': p=fld(asv(p,'Some'),'0')
            if p.op=='agg' and p.a[0]=='()': outs=list(p.a[3])
            else: outs=[p]
            for o in outs:
                fl,other=mapped_file(t,o); sp=span_of(o)
                src=[x for x in opens if x.file is fl]
                good=bool(src) and any(pth is src[-1].path and same_span(s2,sp) for _,s2,pth in pubs)
                R.check('new shards serve the published files',r,good,'the shard for %s-%s does not serve the file published for that span'%(show(sp[0]),show(sp[1])),t,ren[-1] if ren else None)
                R.check('new shards have no compaction target',r,other.op=='agg' and other.a[1]=='None','',t,ren[-1] if ren else None)
            R.check('every published file is handed out',r,len(outs)==len(pubs),'%d files published, %d shards returned'%(len(pubs),len(outs)),t,ren[-1] if ren else None)
        elif t.isok():
            R.check('declining leaves the originals alone',r,not gone and not ren,'the operation declines although it already replaced files',t,(t.by('Remove','Rename') or [None])[0])
        elif t.kind in('return','panic') and keep_err:
            bad=[x for x,_ in gone if t.ok(x.res)=='Ok']
            R.check('no failure after the original is gone',r,not bad,'the operation can still %s after deleting the original, which its caller then keeps using'%('panic' if t.kind=='panic' else 'fail'),t,bad[0] if bad else None)
    R.floor('publications',r,1,nren); R.floor('deletions',r,1,nrem)
    return ts
def node_writes(t): return [x for x in t.by('W') if x.ptr.op=='fld' and x.ptr.a[1]=='$' and x.ptr.a[0].op=='fld' and x.ptr.a[0].a[1]=='node']
def routers_of(v):
    """leaf shards of a ShardNode value: [(shard, span)]; None if it is not a plain tree of leaves"""
    v=canon(v)
    if v.op!='agg': return None
    if v.a[1]=='Leaf': return [(v.a[3][0],None)]
    if v.a[1]=='Vertex':
        r=[]
        for q in v.a[3]:
            n=fld(fld(q,'node'),'$')
            if n.op!='agg': return None
            s=routers_of(n)
            if s is None: return None
            for sh,sp in s: r.append((sh,(fld(fld(q,'span'),'start'),fld(fld(q,'span'),'end'),fld(q,'span')) if sp is None else sp))
        return r
    return None
def C04(C,R):
    publishing(C,R,'Shard::split',True)
    copy_complete(C,R,('Shard::split',))
    # a span of one cannot be halved: the half would have the original's name
    for t in C.paths('Shard::split'):
        for x in t.by('Open'):
            n=fname(x.path)
            if n and n[1] is not None:
                a=shard_args(C,'Shard::split')[0]; lo,hi=span_of(a)
                w=[y for y in t.conds(x.i) if wide(y,lo,hi)]
                R.check('only a divisible span is split','Shard::split',bool(w),'a shard is split without checking that its span has at least two parts',t,x)
    # installation of the halves
    ts=C.paths('ShardRouter::insert',boundary=shard_boundary(C),key='L1'); n=0
    for t in ts:
        for x in t.by('Call'):
            if not x.op.endswith('Shard::split'): continue
            n+=1
            h=[p for p,m in t.held(x,'NODE') if m=='w']
            R.check('split under the exclusive tree lock','ShardRouter::insert',bool(h),'the shard is split while others may use it',t,x)
            R.check('the shard split is the one in the tree','ShardRouter::insert',any(x.val[0] is fld(asv(fld(p,'$'),'Leaf'),'0') for p in h),'splits %s'%show(x.val[0]),t,x)
            w=[y for y in node_writes(t) if y.i>x.i]
            if t.ok(x.res)=='Ok':
                p=fld(asv(x.res,'Ok'),'0')
                good=False; why='the halves are not installed'
                for y in w[:1]:
                    hh=[q for q,m in t.held(y,'NODE') if m=='w' and fld(q,'$') is y.ptr]
                    rel=[z for z in t.by('Unlock') if x.i<z.i<y.i and z.cls=='NODE']
                    rs=routers_of(y.val)
                    good=bool(hh) and not rel and rs is not None and [s for s,_ in rs]==[fld(p,'0'),fld(p,'1')] and all(sp is not None and (sp[2] is fld(s,'span')) for s,sp in rs)
                    why='the tree does not get both halves in order'
                R.check('both halves replace the split shard','ShardRouter::insert',good,why,t,w[0] if w else x)
            else:
                R.check('a failed split leaves the tree alone','ShardRouter::insert',not w,'',t,w[0] if w else x)
        for y in node_writes(t):
            R.check('tree changes only by a successful split','ShardRouter::insert',any(x.op.endswith('Shard::split') and x.i<y.i and t.ok(x.res)=='Ok' for x in t.by('Call')),'',t,y)
    R.floor('split calls','ShardRouter::insert',1,n)
    C_consolidate(C,R); loading(C,R)
def wide(y,lo,hi):
    """does the outcome of a comparison establish hi-lo>1"""
    k=y.ptr
    if k.op not in('lt','eq'): return False
    p,q=k.a
    if k.op=='eq':
        # hi-lo != 1 is enough for a non-empty span; so is mid != lo
        if y.op!=0: return False
        d=lindiff(p,q)
        return d in(({hi:1,lo:-1},-1),({hi:-1,lo:1},1)) or {p,q}=={lo,half(lo,hi)}
    if y.op==1 and p is lo and q is half(lo,hi): return True
    d,kk=lindiff(q,p)          # q-p = d+kk ; op==1: d+kk>=1
    if y.op==1: return d=={hi:1,lo:-1} and 1-kk>=2
    return d=={hi:-1,lo:1} and kk>=2      # q-p<=0
def half(lo,hi): return mk('div',add(hi,lo),c(2))
def lindiff(q,p):
    kq,tq=unlin(q); kp,tp=unlin(p); d={}
    for v,m in tq.items(): d[v]=d.get(v,0)+m
    for v,m in tp.items(): d[v]=d.get(v,0)-m
    return {v:m for v,m in d.items() if m},kq-kp
def name_based(t,k):
    """does the condition only look at a directory entry's name or type"""
    def leaf(q): return q.op=='ret' and any(n in str(q.a[1]) for n in('to_str','file_name','is_file','file_type','is_dir','strip_prefix','from_str_radix','to_string_lossy'))
    return contains(k,leaf)
def name_part(v,i):
    """v is the part before (0) / after (1) the '-' of the name"""
    return contains(v,lambda q: q.op=='fld' and q.a[1]==str(i) and contains(q.a[0],lambda z: z.op=='call' and z.a[0] in('split_once','rsplit_once') and any(isinstance(a,V) and a.op=='cb' and a.a[0]==b'-' for a in z.a)))
# ------------------------------------------------------------------ coverage of the hash space
class Emit:
    """a range added to the shards of a tree: new (lo..hi built here) or kept (an element of the ranges found)"""
    def __init__(s,x,lo,hi,elem=None): s.x,s.i,s.lo,s.hi,s.elem=x,x.i,lo,hi,elem
def chainvals(v):
    r=[v]
    while v.op=='lv' and isinstance(v.a[2],V): v=v.a[2]; r.append(v)
    return r
def lkey(k): return (k[0],k[1],k[-1])
def emissions(t,kept,after=-1):
    """ranges appended to lists or opened as shards, in order; and the lists they are appended to"""
    out=[]; lists=set()
    for x in t.S:
        if x.i<=after: continue
        if x.k=='Step' and x.val.op=='cat' and x.ptr.op=='lv':
            p=list(x.val.a[0])
            for q in p[1:]:
                e=q.a[0] if q.op=='elem' else None
                if e is None: continue
                if e.op=='agg' and set(e.a[2])=={'start','end'}: out.append(Emit(x,fld(e,'start'),fld(e,'end'))); lists.add(lkey(x.ptr.a[0]))
                elif e.op=='idx' and kept is not None and e.a[0] is kept: out.append(Emit(x,fld(e,'start'),fld(e,'end'),e)); lists.add(lkey(x.ptr.a[0]))
        elif x.k=='Call' and x.op.endswith('Shard::open'):
            for a in x.val:
                if a.op=='agg' and set(a.a[2])=={'start','end'}: out.append(Emit(x,fld(a,'start'),fld(a,'end')))
                elif a.op=='idx' and kept is not None and a.a[0] is kept: out.append(Emit(x,fld(a,'start'),fld(a,'end'),a))
    return out,lists
def minops(v):
    if v.op=='min': return [y for q in v.a for y in minops(q)]
    return [v]
def ilog(v): return v.a[1] if v.op=='call' and v.a[0]=='ilog2' else None
def atmost(v,n):
    """is v at most the constant n"""
    if isc(v): return v.a[0]<=n
    if v.op=='max': return all(atmost(q,n) for q in v.a)
    if v.op=='min': return any(atmost(q,n) for q in v.a)
    if v.op=='cast': return atmost(v.a[2],n)
    if v.op in('div',): return atmost(v.a[0],n)
    if v.op=='fDiv' or (v.op=='call' and v.a[0]=='fDiv'):
        p,q=v.a[-2:]
        one=lambda d: d.op=='max' and any(isc(z) and z.a[0]>=0x3ff0000000000000 and z.a[0]<0x7ff0000000000000 for z in d.a)
        return atmost(p,n) and one(q)
    return False
def tiling(C,R,where,t,kept,end,done,after=-1):
    """the ranges added cover 0..end without gap or overlap, in pieces that can be paired up"""
    em,lists=emissions(t,kept,after)
    keys=set()
    for e in em:
        if e.elem is None: keys|={q.a[0] for q in chainvals(e.lo) if q.op=='lv'}
    for y in t.conds():
        for q in ([y.ptr.a[0],y.ptr.a[1]] if y.ptr.op=='lt' else []):
            k,ts=unlin(q)
            if len(ts)==1:
                (v,_),=ts.items()
                if v.op=='lv' and any(unlin(z)[1] and (end is z or any(e.elem is not None and w is e.lo for e in em for w in unlin(z)[1])) or z is end for z in y.ptr.a): keys|={w.a[0] for w in chainvals(v) if w.op=='lv'}
    def last(i):
        b=[e for e in em if e.i<i]; return b[-1] if b else None
    def current(v,i):
        e=last(i); ch=chainvals(v)
        return (ch[-1] is c(0)) if e is None else any(q is e.hi for q in ch)
    def reached(lim,i):
        """what was covered so far is known to reach lim"""
        for y in t.conds(i):
            if y.ptr.op!='lt': continue
            for q in y.ptr.a:
                for v in unlin(q)[1]:
                    if v.op=='lv' and v.a[0] in keys and current(v,i) and t.entails(bnot(cmp_lt(v,lim)),i)==1: return True
        return lim is c(0) and last(i) is None and False
    def stepped(lo):
        """the step of the range 0..end this is an element of"""
        for it in t.by('Iter'):
            if it.res is lo and it.op=='range' and lo.op=='rng' and lo.a[1] is c(0) and lo.a[2] is end and lo.a[3]=='f' and lo.a[4]=='x':
                st=[a for a in t.by('Adapt') if a.mode==it.mode]
                if st and all(a.op=='step_by' and a.ptr is st[0].ptr for a in st): return canon(st[0].ptr.a[2])
    def counted(e):
        """the i-th of the end/w ranges of width w"""
        if e.lo.op!='mul': return None
        for w,q in(e.lo.a,e.lo.a[::-1]):
            if q.op=='rng' and q.a[1] is c(0) and q.a[2] is mk('div',end,w) and q.a[3:]==('f','x') and (e.hi is mul(add(q,c(1)),w) or e.hi is add(e.lo,w)):
                for it in t.by('Iter'):
                    if it.res is q and it.op=='range' and not[a for a in t.by('Adapt') if a.mode==it.mode and a.op not in('map','for_each','try_for_each')]: return w
    def collected():
        """the whole list made from all of them is returned"""
        for v in subterms(canon(t.ret)) if t.ret is not None else ():
            if v.op=='gvec':
                s_=v.a[1]
                while isinstance(s_,V) and s_.op=='it' and s_.a[0]=='map': s_=s_.a[1]
                if isinstance(s_,V) and s_.op=='agg' and 'end' in s_.a[2] and fld(s_,'start') is c(0) and fld(s_,'end').op=='div' and fld(s_,'end').a[0] is end and any(counted(e) is fld(s_,'end').a[1] for e in em if e.elem is None): return True
        return False
    for e in em:
        if e.elem is None and counted(e) is not None:
            w=counted(e); m=minops(w.a[1]) if w.op=='shl' and w.a[0] is c(1) else []
            R.check('shards are created in equal steps that divide the hash space',where,any(ilog(q) is not None and atmost(ilog(q),1<<16) for q in m) and isc(end) and end.a[0]==1<<16,'width %s'%show(w)[:200],t,e.x)
            continue
        if e.elem is None and stepped(e.lo) is not None:
            w=sub(e.hi,e.lo); m=minops(w.a[1]) if w.op=='shl' and w.a[0] is c(1) else []
            R.check('each shard starts where the previous one ends',where,stepped(e.lo) is w,'a shard of %s every %s'%(show(w)[:100],show(stepped(e.lo))[:100]),t,e.x)
            R.check('shards are created in equal steps that divide the hash space',where,any(ilog(q) is not None and atmost(ilog(q),1<<16) for q in m) and isc(end) and end.a[0]==1<<16,'width %s'%show(w)[:200],t,e.x)
            continue
        if e.elem is None:
            w=sub(e.hi,e.lo)
            R.check('each shard starts where the previous one ends',where,current(e.lo,e.i),'a shard is added at %s'%show(e.lo)[:120],t,e.x)
            m=minops(w.a[1]) if w.op=='shl' and w.a[0] is c(1) else []
            lims=[add(ilog(q),e.lo) for q in m if ilog(q) is not None]
            if any(q.op=='call' and q.a[0]=='trailing_zeros' and q.a[1] is e.lo for q in m):
                good=any(t.entails(cmp_lt(e.lo,l),e.i)==1 and (l is end or any(f.elem is not None and f.lo is l for f in em) or gapend(t,l,kept)) for l in lims)
                R.check('a gap is filled by aligned pieces that fit',where,good,'%s..+%s'%(show(e.lo)[:100],show(w)[:100]),t,e.x)
            else:
                st=[ilog(q) for q in m if ilog(q) is not None]
                good=any(atmost(q,1<<16) and not any(z.op=='lv' for z in subterms(q)) for q in st) and isc(end) and end.a[0]==1<<16
                R.check('shards are created in equal steps that divide the hash space',where,good,'width %s'%show(w)[:200],t,e.x)
                R.check('creation stays within the hash space',where,t.entails(cmp_lt(e.lo,end),e.i)==1,'',t,e.x)
        else:
            R.check('gaps before a shard are filled',where,reached(e.lo,e.i),'a shard found is added without knowing that everything before it is covered',t,e.x)
    for x in t.by('Step'):
        if x.ptr.op=='lv' and x.ptr.a[0] in keys:
            R.check('what is covered is tracked',where,current(x.val,x.i),'after adding a range, %s is taken for covered'%show(x.val)[:120],t,x)
    if done: R.check('the hash space is covered to its end',where,reached(end,len(t.E)+1) or collected() or any(x.ptr is not None and x.ptr.op=='agg' and fld(x.ptr,'start') is c(0) and fld(x.ptr,'end') is end and [a for a in t.by('Adapt') if a.mode==x.mode and a.op=='step_by'] for x in t.by('IterEnd')) or any(x.ptr is not None and x.ptr.op=='agg' and fld(x.ptr,'start') is c(0) and fld(x.ptr,'end').op=='div' and fld(x.ptr,'end').a[0] is end and t.S[-1].k!='Iter' and not[a for a in t.by('Adapt') if a.mode==x.mode and a.op not in('map','for_each','try_for_each')] for x in t.by('IterEnd')),'shards are returned although they may not cover the whole hash space',t,None)
    return em,lists
def allkept(C,R,t,kept,em,x):
    """every pass over the kept ranges adds the range it is at"""
    for it in t.by('Iter'):
        if it.i<x.i and it.res is not None and it.val is not None and it.val.op=='idx' and it.val.a[0] is kept:
            if not any(e.elem is it.val for e in em) and t.kind=='return': return False
    return True
def gapend(t,l,kept):
    return l.op=='fld' and l.a[1]=='start' and l.a[0].op=='idx' and kept is not None and l.a[0].a[0] is kept
def loading(C,R):
    """what opening a store deletes and serves"""
    ts=load_paths(C); no=nr=0
    lists=set()
    for t in ts:
        for x in t.by('Call'):
            if x.op.endswith('consolidate_ranges'): lists|=emissions(t,fld(x.res,'0'),x.i)[1]
    for t in ts:
        cc=[x for x in t.by('Call') if x.op.endswith('consolidate_ranges')]
        for x in t.by('Remove'):
            n=fname(x.path); nr+=1
            if n is None:
                pos=[p for p in (prefix_test(y) for y in t.conds(x.i)) if p and p[1]==1]
                R.check('opening deletes only temporaries and covered files','ShardRouter::load',bool(pos) and pos[-1][0] in('bottom_','top_','merge_'),'deletes files named %s...'%(pos[-1][0] if pos else '(any)'),t,x)
                continue
            good=False
            if n[0]=='shard_' and n[1] is not None and cc and n[1].op=='fld':
                e=n[1].a[0]
                good=n[1] is fld(e,'start') and n[2] is fld(e,'end') and e.op=='idx' and e.a[0] is fld(cc[-1].res,'1')
            R.check('opening deletes only temporaries and covered files','ShardRouter::load',good,'%s is deleted'%shown(n),t,x)
        for x in t.by('Call'):
            if not x.op.endswith('Shard::open'): continue
            no+=1
            sp=[a for a in x.val if a.op in('idx','agg') and not a.op=='arg'][:1]
            kept=fld(cc[-1].res,'0') if cc else None
            good=bool(sp) and bool(cc) and sp[0].op=='idx' and sp[0].a[0] is kept
            if cc and not good:     # through a list to which every kept range is added
                em,_=emissions(t,kept,cc[-1].i)
                good=bool(sp) and sp[0].op=='idx' and any(q.op=='lv' and lkey(q.a[0]) in lists for q in chainvals(sp[0].a[0])) and allkept(C,R,t,kept,em,x)
                if not good and sp and sp[0].op=='agg': good=any(e.x is x for e in em)
            R.check('every kept file is served','ShardRouter::load',good,'opens %s'%show(x.val[0]),t,x)
            R.check('existing files are not truncated','ShardRouter::load',any(a is FALSE for a in x.val) and not any(a is TRUE for a in x.val),'',t,x)
            rem=[y for y in t.by('Remove') if y.i>x.i]
            R.check('nothing is deleted once shards are open','ShardRouter::load',not rem,'',t,rem[0] if rem else x)
            R.check('every kept file is served','ShardRouter::load',not [a for a in t.by('Adapt')],'the files to serve are filtered',t,x)
        if t.isok():
            its=[x for x in t.by('IterEnd') if cc and x.ptr is not None and contains(x.ptr,lambda q: q is cc[-1].res or q is fld(cc[-1].res,'0'))]
            adds=[x for x in t.by('Call') if x.op.endswith('Shard::open')]
            p=t.payload()
            if adds:
                R.check('every kept file is served','ShardRouter::load',contains(p,lambda q: q is fld(asv(adds[-1].res,'Ok'),'0')) or any(contains(z.val,lambda q: q is fld(asv(adds[-1].res,'Ok'),'0')) for z in t.by('Step')),'a shard that was opened is not handed on',t,adds[-1])
        # what is handed to the filter: exactly the parsed shard files
        its=[x for x in t.by('Iter') if cc and x.i<cc[0].i]
        for x in its[-1:]:
            why=None
            for y in t.conds(cc[0].i):
                if y.i<x.i: continue
                p=prefix_test(y)
                if p: 
                    if (p[1]==0 and p[0]=='shard_') or (p[1]==1 and p[0]!='shard_'): why=y
                    continue
                if y.op in(0,'None','Err') and name_based(t,y.ptr): why=y
            nums=[z for z in t.by('Ext') if 'from_str_radix' in z.op and z.i>x.i and z.i<cc[0].i]
            if why is None:
                hit=[q for q in subterms(cc[0].val[0]) if q.op=='elem' and q.a[0].op=='agg' and 'start' in q.a[0].a[2]]
                R.check('every shard file is considered','ShardRouter::load',bool(hit),'a file is passed over although its name is that of a shard',t,x)
            for q in subterms(cc[0].val[0]):
                if q.op=='elem' and q.a[0].op=='agg' and 'start' in q.a[0].a[2]:
                    g=q.a[0]; lo,hi=fld(g,'start'),fld(g,'end')
                    src=[fld(asv(z.res,'Ok'),'0') for z in nums]
                    R.check('spans are read as they are written','ShardRouter::load',len(nums)==2 and [lo,hi]==src and all(z.ev.args[1] is c(16) for z in nums) and name_part(nums[0].ev.args[0],0) and name_part(nums[1].ev.args[0],1),'a file is taken for %s..%s'%(show(lo),show(hi)),t,x)
    R.floor('deletions','ShardRouter::load',2,nr); R.floor('openings','ShardRouter::load',1,no)

# ------------------------------------------------------------------ C05 compaction
MARK='compacted_up_to'
def markrow(t,v):
    """row counter derived from the progress marker"""
    if v is None or not isinstance(v,V): return False
    if v.op=='al': return any(x.res is v and x.field==MARK for x in t.by('HdrL'))
    if v.op=='rng': return v.a[3]=='f' and markrow(t,v.a[1])
    if v.op=='lv': return markrow(t,v.a[2]) and all(x.val is add(x.ptr,c(1)) or markrow(t,x.val) for x in t.by('Step') if x.ptr.op=='lv' and x.ptr.a[0]==v.a[0])
    return False
def marker_passed(t,before,file):
    """the marker (or the row counter derived from it) was seen to have reached the number of rows"""
    for x in t.conds(before):
        k=x.ptr
        if k.op=='lt' and x.op==0 and k.a[1] is c(NROWS) and markrow(t,k.a[0]): return x
        if k.op=='lt' and x.op==1 and k.a[0] is c(NROWS-1) and markrow(t,k.a[1]): return x
        if k.op=='eq' and x.op==1 and c(NROWS) in k.a and any(markrow(t,q) for q in k.a): return x
    for x in t.by('IterEnd'):
        if before is not None and x.i>=before: continue
        if x.ptr is not None and irange(x.ptr) and irange(x.ptr)[1] is c(NROWS) and markrow(t,irange(x.ptr)[0]) and not adapted(t,x): return x
        its=[y for y in t.by('Iter') if y.mode==x.mode]
        if its and its[-1].col.op=='rng' and markrow(t,its[-1].col) and its[-1].col.a[2] is c(NROWS) and not adapted(t,x): return x
    return None
def irange(v):
    """(lo,end) of a half-open index range term"""
    if v.op=='agg' and v.a[0].endswith('Range') and set(v.a[2])=={'start','end'}: return fld(v,'start'),fld(v,'end')
    return None
def adapted(t,x): return [a for a in t.by('Adapt') if a.mode==x.mode]
def isfile(v): return v.op=='fld' and v.a[1] in('0','1')
def C05(C,R):
    L=layout(C)
    nadv=nfresh=0
    # who moves the marker, and how
    for r,ts in roots(C,R,ROOTS+['Shard::begin_compaction']):
        for t in ts:
            for x in t.by('HdrA'):
                if x.field!=MARK: continue
                o=[y for y in t.by('Open') if y.file is x.file]
                fresh=bool(o) and o[-1].opts.get('truncate') is TRUE
                if x.op in('store','plain') and x.val is c(0):
                    R.check('marker only starts at zero in a fresh file',r,fresh,'the progress marker of %s is reset'%show(x.file),t,x); continue
                if r not in('Shard::background_compact','Shard::open'):
                    R.check('marker moves only by compacting a row',r,False,'',t,x); continue
                nadv+=1
                rowlock=[(p,m) for p,m in t.held(x,'ROW')]
                rows=[(rowindex(p),p) for p,m in rowlock if m=='w' and markrow(t,rowindex(p))]
                if not R.check('marker advances under the lock of the row copied',r,len(rows)==1,'no exclusive lock of the row the marker points to is held',t,x): continue
                row,lp=rows[0]
                step1=(x.op=='fetch_add' and x.val is c(1)) or (x.op in('store','swap') and x.val is add(row,c(1))) 
                R.check('marker advances by one row',r,step1 and x.op!='plain','marker %s %s'%(x.op,show(x.val)),t,x)
                R.check('marker is published after the row',r,x.mode in('Release','AcqRel','SeqCst'),'ordering %s'%x.mode,t,x)
                lk=[y for y in t.by('Lock') if y.cls=='ROW' and y.ptr is lp and y.i<x.i]
                since=lk[-1].i
                seen=[y for y in t.by('HdrL') if y.field==MARK and y.file is x.file and y.i<x.i]
                R.check('row copied is the one the marker points to',r,bool(seen),'',t,x)
                other=[y for y in t.by('HdrA') if y.field==MARK and y is not x and since<y.i<x.i and y.file is x.file]
                R.check('marker advances by one row',r,not other,'advanced twice for one row',t,x)
                # the whole row was read after the lock was taken
                ends=[y for y in t.S if since<y.i<x.i and ((y.k=='IterEnd' and rowscan(t,y,row,since)) or (y.k=='Cond' and y.op==0 and y.ptr.op=='lt' and y.ptr.a[1] is c(NCOLS) and y.ptr.a[0].op=='lv'))]
                R.check('marker advances only after the whole row is copied',r,bool(ends),'no complete pass over the slots of the row precedes the advance',t,x)
                bad=[y for y in t.by('DataR','DataW') if since<y.i<x.i and t.ok(y.res)!='Ok']
                R.check('marker advances only after successful copies',r,not bad,'a failed or unchecked copy does not stop the advance',t,x)
                # slots written after the advance
                late=[y for y in t.by('SigW','OffW') if y.i>x.i and y.file is x.file and y.row is row]
                R.check('marker advances only after the whole row is copied',r,not late,'slots of the row are still written after the advance',t,late[0] if late else x)
                # leftovers in the target row
                w=[y for y in t.by('SigW') if since<y.i<x.i and y.file is x.file and y.row is row]
                clear=[y for y in t.by('SigW') if y.i<x.i and y.file is x.file and y.row is row and y.col is None and allzero(y.val)]
                first=[y for y in w if not allzero(y.val)]
                if r=='Shard::open': R.check('leftovers of an interrupted copy are dropped',r,bool(clear) and clear[0].i>since-1 and (not first or clear[0].i<first[0].i),'the target row is not cleared before copying into it',t,x)
                # nothing but this row is cleared
            for y in t.by('SigW'):
                if r in('Shard::background_compact','Shard::open') and allzero(y.val):
                    R.check('only rows not yet moved are cleared',r,markrow(t,y.row) and not any(z.file is y.file and z.field==MARK and z.i<y.i and z.op!='plain' for z in t.by('HdrA')) ,'clears row %s'%show(y.row),t,y)
    R.floor('marker advances','compaction',2,nadv)
    copy_complete(C,R,('Shard::background_compact','Shard::open'))
    # background task: publication and swap
    r='Shard::background_compact'; nren=nsw=0; pths=set()
    for t in C.paths(r):
        ren=t.by('Rename')
        for x in ren:
            nren+=1; pths.add((x.path,x.path2))
            R.check('new file published only when every row was moved',r,marker_passed(t,x.i,None) is not None,'the compacted file takes over the name before all rows are copied',t,x)
            R.check('file moved by rename',r,x.op=='rename','',t,x)
        R.check('a compaction deletes nothing',r,not t.by('Remove'),'',t,(t.by('Remove') or [None])[0])
        sw=[x for x in t.by('W') if x.ptr.op=='fld' and x.ptr.a[1] in('0','1') and x.ptr.a[0].op=='fld' and x.ptr.a[0].a[1]=='$' and x.ptr.a[0].a[0].op=='fld' and x.ptr.a[0].a[0].a[1]=='files']
        sw+=[x for x in t.by('W') if x.ptr.op=='fld' and x.ptr.a[1]=='$' and x.ptr.a[0].op=='fld' and x.ptr.a[0].a[1]=='files']
        okren=[x for x in ren if t.ok(x.res)=='Ok']
        for x in sw:
            nsw+=1
            R.check('files are switched under the exclusive lock',r,any(m=='w' for p,m in t.held(x,'FILES')),'',t,x)
            R.check('files are switched only after the rename succeeded',r,bool(okren) and okren[0].i<x.i,'',t,x)
            root=x.ptr.a[0] if x.ptr.a[1] in('0','1') else x.ptr
            tgt=fld(asv(fld(root,'1'),'Some'),'0')
            if x.ptr.a[1]=='0': R.check('the compacted file becomes the current one',r,unupd(x.val) is tgt,'current file becomes %s'%show(unupd(x.val)),t,x)
            elif x.ptr.a[1]=='1': R.check('no compaction target remains',r,x.val.op=='agg' and x.val.a[1]=='None','',t,x)
            else: R.check('the compacted file becomes the current one',r,unupd(fld(x.val,'0')) is tgt and fld(x.val,'1').op=='agg' and fld(x.val,'1').a[1]=='None','',t,x)
        if t.isok():
            R.check('success means the new file is in place',r,len(okren)==1 and ({x.ptr.a[1] for x in sw}>={'0','1'} or any(x.ptr.a[1]=='$' for x in sw)),'success is reported although the compacted file was not put in place',t,ren[-1] if ren else None)
        elif t.kind=='return':
            R.check('failure leaves the files as they were',r,not sw,'',t,sw[0] if sw else None)
    R.floor('publications',r,1,nren); R.floor('switches',r,1,nsw)
    # start of a compaction
    r='Shard::begin_compaction'; nst=0
    slf=shard_args(C,r)[0]; lo,hi=span_of(slf); fl=fld(slf,'files')
    for t in C.paths(r):
        snd=t.by('Send'); op=[x for x in t.by('Open') if x.opts.get('truncate') is TRUE or x.opts.get('create') is TRUE]
        none=lambda before: any(y.ptr is mk('is',fld(fld(fl,'$'),'1')) and y.op=='None' for y in t.conds(before))
        for x in op:
            n=fname(x.path)
            R.check('target has its own name',r,n is not None and n[0]=='compact_' and same_span(n[1:],(lo,hi)) and x.opts.get('truncate') is TRUE,'target is %s'%shown(n),t,x)
            R.check('no compaction target is overwritten',r,none(x.i) and any(fld(p,'$') is fld(fl,'$') and m=='w' for p,m in t.held(x,'FILES')),'the target file is created without knowing that no compaction is pending',t,x)
        for x in snd:
            inf=[q for q in subterms(x.val) if q.op=='agg' and 'files' in q.a[2] and q.a[0].endswith('CompactionInfo')]
            if not R.check('task description understood',r,len(inf)==1,show(x.val)[:200],t,x): continue
            I=inf[0]; nst+=1
            R.check('task works on the shard\'s own files and locks',r,same_thing(fld(I,'files'),fl) and all(same_thing(fld(I,f),fld(slf,f)) for f in I.a[2] if f in('row_locks','config','stats')),'',t,x)
            for p1,p2 in pths:
                f1=p1.a[1] if p1.op=='fld' else None; f2=p2.a[1] if p2.op=='fld' else None
                n=fname(fld(I,f2)) if f2 else None
                R.check('task renames its target over the shard file',r,bool(f1) and bool(op) and fld(I,f1) is op[-1].path and n is not None and n[0]=='shard_' and same_span(n[1:],(lo,hi)),'renames %s over %s'%(show(fld(I,f1)) if f1 else '?',shown(n)),t,x)
            if t.ok(x.res)=='Ok' and t.isok():
                w=[y for y in t.by('W') if y.ptr is fld(fld(fl,'$'),'1')]
                good=bool(w) and w[-1].val.op=='agg' and w[-1].val.a[1]=='Some' and bool(op) and t.fileid(fld(fld(asv(w[-1].val,'Some'),'0'),'file')) is op[-1].file
                R.check('target is installed before the task can look',r,good and any(fld(p,'$') is fld(fl,'$') and m=='w' for p,m in t.held(w[-1],'FILES')) and not any(z.cls=='FILES' and x.i<z.i<w[-1].i for z in t.by('Unlock')),'the files lock is released before the target is installed',t,x)
        if not snd and t.kind=='return':
            w=[y for y in t.by('W') if y.ptr is fld(fld(fl,'$'),'1')]
            R.check('no target without a task',r,not w,'',t,w[0] if w else None)
        for x in snd:
            if t.ok(x.res)!='Ok':
                w=[y for y in t.by('W') if y.ptr is fld(fld(fl,'$'),'1') and not(y.val.op=='agg' and y.val.a[1]=='None')]
                R.check('no target without a task',r,not w or not t.kind=='return','a failed submission leaves a target behind',t,x)
    R.floor('tasks started',r,1,nst)
    adoption(C,R)
def allzero(v):
    if v is c(0): return True
    if v.op=='repeat': return v.a[0] is c(0)
    return False
def rowscan(t,y,row,since=0):
    """is the finished loop y over the slots of this row (or a complete index range)"""
    if y.ptr is None: return False
    if any(q.op=='fld' and q.a[1] in('signatures','offsets_and_sizes') and q.a[0].op=='idx' and q.a[0].a[1] is row for q in subterms(y.ptr)): return True
    its=[x for x in t.by('Iter') if x.mode==y.mode]
    if its: return not adapted(t,y) and its[-1].col.op=='rng' and its[-1].col.a[1] is c(0) and its[-1].col.a[2] is c(NCOLS)
    r=irange(y.ptr)
    return r is not None and r[0] is c(0) and r[1] is c(NCOLS) and not adapted(t,y)
def same_thing(x,y):
    """the same shared object: updates to its contents (also through a re-acquired lock) do not make it another"""
    while x.op=='upd': x=x.a[0]
    while y.op=='upd': y=y.a[0]
    return x is y
def adoption(C,R):
    """resuming an interrupted compaction at open"""
    r='Shard::open'; ts=C.paths(r); n=0
    for t in ts:
        main=[x for x in t.by('Open') if (fname(x.path) or ('',))[0]=='shard_']
        left=[x for x in t.by('Open') if (fname(x.path) or ('',))[0]=='compact_']
        ren=t.by('Rename')
        for x in left:
            n+=1
            m=fname(main[-1].path) if main else None; l=fname(x.path)
            R.check('the leftover looked for is the one compactions create',r,bool(main) and same_span(l[1:],m[1:]) and same_dir(fdir(x.path),fdir(main[-1].path)),'looks for %s'%shown(l),t,x)
            again=any(y.path is x.path and y.i<x.i and t.ok(y.res)=='Ok' and emptyfile(C,layout(C),t,y.file,x.i) for y in left)
            R.check('looking for a leftover does not create or cut it',r,again or (x.opts.get('create') is not TRUE and x.opts.get('truncate') is not TRUE),'',t,x)
        for x in ren:
            l=[y for y in left if y.path is x.path and t.ok(y.res)=='Ok']
            R.check('the leftover takes over the shard name',r,bool(l) and bool(main) and x.path2 is main[-1].path and x.op=='rename','',t,x)
            R.check('new file published only when every row was moved',r,marker_passed(t,x.i,None) is not None,'the compacted file takes over the name before all rows are copied',t,x)
        if t.isok():
            sh=t.payload(); fl,other=mapped_file(t,sh)
            R.check('a shard starts without compaction target',r,other.op=='agg' and other.a[1]=='None','',t,None)
            cleared=any(x.k=='SetLen' and x.val is c(0) for x in t.S) or True
            got=[y for y in left if t.ok(y.res)=='Ok']
            if got:
                fin=[x for x in ren if t.ok(x.res)=='Ok' and x.path is got[-1].path]
                R.check('an interrupted compaction is finished before serving',r,bool(fin),'the shard is served although a compaction of it is unfinished',t,got[-1])
                R.check('the shard serves the file that has its name',r,fl is got[-1].file,'serves %s'%show(fl),t,got[-1])
            else:
                R.check('the shard serves the file that has its name',r,bool(main) and fl is main[-1].file,'serves %s'%show(fl),t,main[-1] if main else None)
                # either a leftover was looked for and is absent, or it was removed
                rm=[y for y in t.by('Remove') if (fname(y.path) or ('',))[0]=='compact_']
                absent=[y for y in left if t.ok(y.res)=='Err' and notfound(t,y.res)]
                gone=[y for y in rm if t.ok(y.res)=='Ok' or notfound(t,y.res)]
                R.check('no leftover is overlooked',r,bool(absent) or bool(gone),'the shard is served without knowing that no compaction of it is pending',t,(left+rm+[None])[0])
    R.floor('leftovers',r,1,n)
def notfound(t,res):
    """the error is known to be NotFound"""
    e=fld(asv(res,'Err'),'0')
    for x in t.conds():
        if contains(x.ptr,lambda q: q is e) or contains(x.ptr,lambda q: q.op=='ret' and 'kind' in str(q.a[1])):
            if x.ptr.op=='is' and x.op=='NotFound': return True
            if x.ptr.op=='eq' and x.op==1 and contains(x.ptr,lambda q: q.op=='agg' and q.a[1]=='NotFound'): return True
            if x.op==1 and contains(x.ptr,lambda q: q.op=='agg' and q.a[1]=='NotFound'): return True
    return False

# ------------------------------------------------------------------ C06 merge
def C06(C,R):
    publishing(C,R,'Shard::merge',False)
    copy_complete(C,R,('Shard::merge',))
    # the tree walk: which pairs are merged
    ts=C.paths('ShardRouter::_merge',boundary=merge_bound(C),key='merge'); n=0
    for t in ts:
        for x in t.by('Call'):
            if not x.op.endswith('Shard::merge'): continue
            n+=1
            h=[p for p,m in t.held(x,'NODE') if m=='w']
            leaf=[fld(asv(fld(p,'$'),'Leaf'),'0') for p in h]
            R.check('both halves are locked while they are merged','ShardRouter::_merge',x.val[0] in leaf and x.val[1] in leaf,'merges %s and %s'%(show(x.val[0]),show(x.val[1])),t,x)
            a=[y for y in argty(C,'ShardRouter::_merge') if 'ShardRouter' in y[1] and 'Range' not in y[1]]
            a=[q for q,ty in a if not (q.op=='arg' and q.a[0]=='self')]
            want=[fld(asv(fld(fld(q,'node'),'$'),'Leaf'),'0') for q in a]
            R.check('halves are merged in order','ShardRouter::_merge',list(x.val[:2])==want,'merges %s and %s'%(show(x.val[0]),show(x.val[1])),t,x)
            if t.isok() and t.ok(x.res)=='Ok':
                p=fld(asv(x.res,'Ok'),'0'); out=t.payload()
                if t.p.conds.get(mk('is',p))=='Some':
                    sh=fld(asv(p,'Some'),'0')
                    good=out.op=='agg' and out.a[1]=='Some'
                    if good:
                        q=fld(asv(out,'Some'),'0'); rs=routers_of(fld(fld(q,'node'),'$'))
                        good=rs is not None and len(rs)==1 and rs[0][0] is sh and fld(q,'span') is fld(sh,'span')
                    R.check('a merged pair is reported as merged','ShardRouter::_merge',good,'returns %s'%show(out)[:120],t,x)
                else: R.check('an unmerged pair is reported as unmerged','ShardRouter::_merge',out.op=='agg' and out.a[1]=='None','',t,x)
        for x in t.by('Call'):
            if x.op.endswith('Shard::merge') or x.op.endswith('_merge'):
                if t.ok(x.res)=='Err': R.check('failures of a merge are reported','ShardRouter::_merge',t.retvariant()=='Err','',t,x)
                elif t.ok(x.res) is None and t.kind=='return': R.check('failures of a merge are reported','ShardRouter::_merge',canon(t.ret) is x.res,'',t,x)
        # recursive calls: neighbours in order
        for x in t.by('Call'):
            if x.op.endswith('ShardRouter::_merge'):
                q=[v for v in x.val if isinstance(v,V)]
                a=[y for y,ty in argty(C,'ShardRouter::_merge') if 'ShardRouter' in ty]
                R.check('neighbours are merged in order','ShardRouter::_merge',neighbours(t,x,q[1],q[2],a),'%s with %s'%(show(q[1])[-80:],show(q[2])[-80:]),t,x)
    R.floor('merges','ShardRouter::_merge',1,n)
    r='ShardRouter::merge_small_shards'; ts=C.paths(r,boundary=merge_bound(C),key='merge'); n=0
    for t in ts:
        ms=[x for x in t.by('Call') if x.op.endswith('::_merge') or x.op.endswith('Shard::merge')]
        for x in ms:
            n+=1
            h=[p for p,m in t.held(x,'NODE') if m=='w' and p is fld(mk('arg','self'),'node')]
            if not R.check('the whole tree is locked while shards are merged',r,bool(h),'',t,x): continue
            lock=[y for y in t.by('Lock') if y.cls=='NODE' and y.ptr is h[0] and y.i<x.i][-1]
            w=[y for y in t.by('Call') if y.op.endswith('wait_for_compactions') and lock.i<y.i<x.i and t.ok(y.res)=='Ok']
            R.check('no compaction runs during the merge',r,bool(w),'running compactions are not waited for (or their failure is ignored) before files are merged and reopened',t,x)
            R.check('the tree merged is the one locked',r,any(contains(v,lambda q: q is fld(h[0],'$')) for v in x.val),'',t,x)
            # afterwards the tree is rebuilt from the files on disk
            inst=[y for y in node_writes(t) if y.i>x.i and y.ptr is fld(h[0],'$')]
            ld=[y for y in t.by('Call') if y.op.endswith('ShardRouter::load') and y.i>x.i]
            if ld and t.ok(ld[-1].res)=='Err' and not inst:
                R.check('a failed reload does not leave the old tree in use',r,False,'reloading fails after files were merged; the tree keeps serving files that may no longer exist',t,ld[-1]); continue
            good=bool(inst) and bool(ld) and contains(inst[-1].val,lambda q: q.op=='ret' and 'treeify' in str(q.a[1]))
            if good:
                tr=[y for y in t.by('Call') if y.op.endswith('treeify') and y.res is inst[-1].val]
                good=bool(tr) and any(v is fld(asv(ld[-1].res,'Ok'),'0') for v in tr[-1].val)
            R.check('the tree is rebuilt from the files on disk',r,good and t.ok(ld[-1].res)=='Ok' if ld else False,'after merging %s the tree is not rebuilt'%('fails' if t.ok(x.res)=='Err' else 'succeeds'),t,x)
            if good:
                rel=[y for y in t.by('Unlock') if y.cls=='NODE' and x.i<y.i<inst[-1].i and y.ptr is h[0]]
                R.check('the tree is rebuilt before anyone can use it',r,not rel,'',t,inst[-1])
            if t.ok(x.res)=='Err': R.check('failures of a merge are reported',r,t.retvariant()=='Err','',t,x)
            elif t.ok(x.res) is None and t.kind=='return': R.check('failures of a merge are reported',r,False,'the result of merging is ignored',t,x)
        for y in node_writes(t):
            ld=[z for z in t.by('Call') if z.op.endswith('ShardRouter::load') and z.i<y.i and t.ok(z.res)=='Ok']
            R.check('the tree is only replaced by what is on disk',r,bool(ld),'',t,y)
    R.floor('merges',r,1,n)
    C_consolidate(C,R); loading(C,R)
    # waiting really waits for every shard
    waits(C,R)
def child(v):
    """(parent node contents, '0'|'1') of a child router"""
    if v.op=='fld' and v.a[1] in('0','1') and v.a[0].op=='as' and v.a[0].a[1]=='Vertex': return v.a[0].a[0],v.a[1]
    return None
def origin(t,v,args):
    """leaf range of a router in terms of (first, last) routers it is made of"""
    b=v
    if v.op=='fld' and v.a[1]=='0' and v.a[0].op=='as' and v.a[0].a[1]=='Some':
        q=v.a[0].a[0]
        if q.op=='fld' and q.a[0].op=='as' and q.a[0].a[1]=='Ok':
            call=[x for x in t.by('Call') if x.res is q.a[0].a[0] and x.op.endswith('_merge')]
            if call:
                p=[z for z in call[0].val if isinstance(z,V)]
                l=origin(t,p[1],args); r=origin(t,p[2],args)
                return (l[0],r[1])
    return (v,v)
def neighbours(t,x,a,b,args):
    l=origin(t,a,args)[1]; r=origin(t,b,args)[0]
    def last(v):
        c_=child(v)
        while c_ and c_[1]=='1':
            p=c_[0]                      # contents of a node lock: fld(fld(router,'node'),'$')
            if p.op=='fld' and p.a[1]=='$': v=p.a[0].a[0]; c_=child(v)
            else: break
        return v
    def first(v):
        c_=child(v)
        while c_ and c_[1]=='0':
            p=c_[0]
            if p.op=='fld' and p.a[1]=='$': v=p.a[0].a[0]; c_=child(v)
            else: break
        return v
    cl,cr=child(l),child(r)
    if cl and cr and cl[0] is cr[0]: return cl[1]=='0' and cr[1]=='1'
    l,r=last(l),first(r)
    rest=[q for q in args if not(q.op=='arg' and q.a[0]=='self')]
    if len(rest)==2 and l is rest[0] and r is rest[1]: return True
    cl,cr=child(l),child(r)
    return bool(cl and cr and cl[0] is cr[0] and cl[1]=='0' and cr[1]=='1')
def waits(C,R):
    r='ShardRouter::wait_for_compactions'; ts=C.paths(r,boundary=shard_boundary(C),key='L1')
    leaf=vert=0
    for t in ts:
        if not t.kind=='return': continue
        k=[x.op for x in t.conds() if x.ptr.op=='is' and x.op in('Leaf','Vertex')]
        cs=[x for x in t.by('Call') if x.op.endswith('wait_for_compaction') or x.op.endswith('wait_for_compactions')]
        if 'Leaf' in k[:1]:
            leaf+=1
            R.check('every shard is waited for',r,any(x.op.endswith('Shard::wait_for_compaction') for x in cs),'a shard is not waited for',t,None)
        elif 'Vertex' in k[:1]:
            vert+=1
            kids={q.a[1] for x in cs for v in x.val if isinstance(v,V) for q in subterms(v) if child(q)}
            R.check('every shard is waited for',r,kids=={'0','1'},'only child %s is waited for'%sorted(kids),t,cs[-1] if cs else None)
        # a failure is reported
        if any(t.ok(x.res)=='Err' for x in cs): R.check('a failed compaction is reported',r,t.retvariant()=='Err' or canon(t.ret) in [x.res for x in cs if t.ok(x.res)=='Err'],'',t,cs[-1])
        un=[x for x in cs if t.ok(x.res) is None]
        if un: R.check('a failed compaction is reported',r,len(un)==1 and (canon(t.ret) is un[0].res or t.retvariant()=='Err'),'the outcome of waiting for a shard is ignored',t,un[0])
    R.floor('leaves',r,1,leaf); R.floor('inner nodes',r,1,vert)
    ts=C.paths('Shard::wait_for_compaction')
    w=0
    for t in ts:
        tk=[x for x in t.by('Wait')]; w+=len(tk)
        some=[x for x in t.conds() if x.ptr.op=='is' and x.op=='Some' and contains(x.ptr,lambda q: q.op=='fld' and q.a[1]=='compaction_handle')]
        if some and t.kind=='return': R.check('a running compaction is waited for','Shard::wait_for_compaction',bool(tk),'a compaction handle is dropped without waiting for it',t,some[0])
        if not some and t.kind=='return':
            R.check('a running compaction is waited for','Shard::wait_for_compaction',any(x.ptr.op=='is' and x.op=='None' and contains(x.ptr,lambda q: q.op=='fld' and q.a[1]=='compaction_handle') for x in t.conds()),'returns without looking for a running compaction',t,None)
        for x in tk:
            inner=fld(asv(x.res,'Ok'),'0')
            if t.kind=='return' and t.retvariant()=='Ok': R.check('a failed compaction is reported','Shard::wait_for_compaction',t.ok(x.res)=='Ok' and t.ok(inner)=='Ok','the outcome of the compaction is ignored',t,x)
    R.floor('waits','Shard::wait_for_compaction',1,w)
