"""Compact path printer with let-bound subterms."""
from val import *
class PP:
    def __init__(s,lim=40): s.n={}; s.out=[]; s.lim=lim; s.memo={}
    def sh(s,v):
        if not isinstance(v,V):
            if isinstance(v,tuple): return '['+', '.join(s.sh(x) for x in v)+']'
            return v if isinstance(v,str) else repr(v)
        if v in s.n: return '$%d'%s.n[v]
        r=s.raw(v)
        if len(r)>s.lim and v.op not in('c','arg'):
            s.n[v]=len(s.n)+1; s.out.append('      $%d = %s'%(s.n[v],r)); return '$%d'%s.n[v]
        return r
    def raw(s,v):
        o=v.op; a=v.a; sh=s.sh
        if o in('c','arg'): return show(v)
        if o=='lin':
            r=''.join(('+' if k>0 else '-')+('' if abs(k)==1 else '%d*'%abs(k))+sh(t) for t,k in a[1])
            return '('+r.lstrip('+')+('%+d'%a[0] if a[0] else '')+')'
        if o=='fld': return '%s.%s'%(sh(a[0]),a[1])
        if o=='idx': return '%s[%s]'%(sh(a[0]),sh(a[1]))
        if o=='as': return '%s:%s'%(sh(a[0]),a[1])
        if o=='lv': return 'lv(%s@%s#%d %s)'%(a[0][3],a[0][0].split('::')[-1] if '{' not in a[0][0] else '::'.join(a[0][0].split('::')[-2:]),a[1],sh(a[2]))
        if o in('ret','out'): return '%s%d:%s%s'%(o,a[0],str(a[1]).split('::')[-1],(' '+sh(a[2])) if len(a)>2 else '')
        if o in('al','af'): return '%s%d:%s'%(o,a[0],sh(a[1]))
        if o=='agg':
            n=(a[0].split('::')[-1] if a[0]!='()' else '')+(('::'+a[1]) if a[1] else '')
            return '%s{%s}'%(n,', '.join(('%s: '%k if not k.isdigit() else '')+sh(x) for k,x in zip(a[2],a[3])))
        if o=='bf': return '|'.join('bits(%s,%d,%d)<<%d'%(sh(x),lo,n,shf) for x,lo,n,shf in a[0])+('|%#x'%a[1] if a[1] else '')
        if o=='cat': return 'cat('+', '.join(sh(p) for p in a[0])+')'
        if o=='cb': return repr(bytes(a[0]))
        return '%s(%s)'%(o,', '.join(sh(x) for x in a))
    def ev(s,e):
        nm=(e.name or '') if not isinstance(e.name,V) else s.sh(e.name)
        if e.k=='cond': t='%s = %s'%(nm,e.x)
        else: t='%s(%s)%s'%(nm.split('::')[-1] if e.k!='lock' else nm,', '.join(s.sh(a) for a in e.args),' -> '+s.sh(e.res) if e.res is not None and e.k in('ext','call','rec','aload','armw') else '')
        site=e.site[1] if e.site else ''
        while isinstance(site,tuple): site=site[1]
        s.out.append('   %-6s %s   @%s'%(e.k,t,(site or '').replace('src/','')))
def dump(p,skip=()):
    s=PP()
    s.out.append('== %s %s'%(p.kind,p.why or ''))
    for e in p.events:
        if e.k in skip: continue
        s.ev(e)
    s.out.append('   RET %s'%(s.sh(p.ret) if p.ret is not None else None))
    return '\n'.join(s.out)
