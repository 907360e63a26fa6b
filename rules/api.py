"""Layer above the shards: traces of the store, list, queue and typed operations down to single-key operations on shards."""
from rules.lib import *

POINTOPS=('get','remove','insert','get_by_hash','read_at')
def unptr(I,st,a): return canon(I.deep(st,loadall(I,st,a)))
def ev_deep(I,st,k):
    a=[unptr(I,st,x) for x in k.args]
    r=st.fresh('ret',k.name)
    I.event(st,'call',k.name,a,r,k.site)
    return [('v',st,r)]
def b_shared(I,st,k):
    """ShardRouter::shared_op(self, selector, f): one call of f on the shard that covers the selector (its own body is judged by C18)"""
    sel=unptr(I,st,k.args[1])
    I.event(st,'call',k.name,[unptr(I,st,k.args[0]),sel],None,k.site)
    sh=mk('shardof',sel)
    st.fidc+=1; cell=(('cell',st.fidc),0); st.env[cell]=sh
    return [('closure',st,k.args[2],[mk('&',cell[0],cell[1],())],lambda I2,s2,v: [(s2,v)])]
def bound(C,extra=()):
    b={}
    for p in C.P.fns:
        if '{closure' in p: continue
        n=p.split('::')
        if len(n)>=2 and n[-2]=='Shard': b[p]=ev_deep
    b[C.fn('ShardRouter::insert').path]=ev_deep
    b[C.fn('ShardRouter::shared_op').path]=b_shared
    for e in ('ShardRouter::clear','ShardRouter::merge_small_shards','ShardRouter::call_on_all_shards')+tuple(extra):
        b[C.fn(e).path]='event'
    return b
def run(C,suffix,extra=(),key='api',**kw): return C.paths(suffix,boundary=bound(C,extra),key=key,**kw)
