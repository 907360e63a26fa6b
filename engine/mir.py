"""Facts model: loads the JSON dumped by driver/ and gives typed accessors + a pretty printer."""
import json, re, functools

@functools.lru_cache(maxsize=None)
def strip_generics(p):
    """'lock_api::RwLock::<R, T>::read' -> 'lock_api::RwLock::read'; keeps '<A as B>::c' forms readable."""
    out=[]; depth=0; i=0
    # leading qualified path  <X as Y>::m
    if p.startswith('<'):
        d=0
        for j,ch in enumerate(p):
            if ch=='<': d+=1
            elif ch=='>' and p[j-1]!='-':
                d-=1
                if d==0: break
        inner=p[1:j]; rest=p[j+1:]
        # split ' as ' at depth 0
        d=0; k=None
        for m in range(len(inner)):
            ch=inner[m]
            if ch in '<([': d+=1
            elif ch in ')]' or (ch=='>' and inner[m-1]!='-'): d-=1
            elif d==0 and inner.startswith(' as ',m): k=m; break
        if k is None: return strip_generics(inner)+strip_generics_tail(rest)
        return '<'+strip_generics(inner[:k])+' as '+strip_generics(inner[k+4:])+'>'+strip_generics_tail(rest)
    return strip_generics_tail(p)

def strip_generics_tail(p):
    out=[]; d=0
    i=0
    while i<len(p):
        ch=p[i]
        if ch=='<':
            d+=1
            if d==1 and out[-2:]==[':',':']: out=out[:-2]
        elif ch=='>' and p[i-1]!='-': d-=1
        elif d==0: out.append(ch)
        i+=1
    return ''.join(out)

class Fn:
    def __init__(s,prog,j):
        s.prog=prog; s.j=j
        s.path=strip_generics(j['path']); s.raw=j['path']; s.kind=j['kind']; s.name=j.get('name')
        s.parent=strip_generics(j['parent']) if j.get('parent') else None
        s.upnames=j['upnames']; s.generics=j['generics']; s.pub=j['pub']; s.span=j['span']
        s.self_ty=j['self_ty']; s.trait=j['trait']
        b=j['body']; s.argc=b['argc']; s.locals=b['locals']; s.blocks=b['blocks']
        s.promoted=j['promoted']
    def lty(s,l): return s.locals[l][0]
    def lname(s,l): return s.locals[l][1]
    def __repr__(s): return 'Fn(%s)'%s.path
    @property
    def file(s): return s.span.split(':')[0]

class Prog:
    def __init__(s,j):
        s.j=j; s.types=j['types']; s.adts={strip_generics(k):v for k,v in j['adts'].items()}; s.sizes=j['sizes']
        s.consts={}
        for c in j['consts']: s.consts.setdefault(strip_generics(c['path']),[]).append(c)
        s.features=j['features']
        s.fns={}
        for f in j['fns']:
            F=Fn(s,f); k=F.path
            while k in s.fns: k=k+"'"
            F.path=k
            s.fns[k]=F
        s.closures={}
        for F in s.fns.values():
            if F.parent: s.closures.setdefault(F.parent,[]).append(F)
    def ty(s,i): return s.types[i]
    def tys(s,i): return s.types[i]['s'] if i is not None else '?'
    def peel(s,i):
        t=s.types[i]
        while t['k'] in('ref','ptr'): i=t['t']; t=s.types[i]
        return i
    def adtdef(s,i):
        t=s.types[i]
        return strip_generics(t['def']) if t['k']=='adt' else None

def load(path):
    import names
    j,done=names.canonical(open(path).read())
    P=Prog(j); P.renamed=done
    return P

def fmt_place(p):
    l,pr=p; o='_%d'%l
    for e in pr:
        if e[0]=='*': o='(*%s)'%o
        elif e[0]=='f': o+='.'+e[2]
        elif e[0]=='i': o+='[_%d]'%e[1]
        elif e[0]=='d': o='(%s as %s)'%(o,e[2])
        else: o+='<%s>'%','.join(map(str,e))
    return o
def fmt_op(o):
    if 'c' in o: return fmt_place(o['c'])
    if 'm' in o: return 'move '+fmt_place(o['m'])
    if 'k' in o:
        k=o['k']
        if 'fn' in k: return strip_generics(k.get('res') or k['fn'])
        if 'promoted' in k: return 'promoted[%d]'%k['promoted']
        if 'def' in k: return strip_generics(k['def'])+('=%s'%k['v'] if 'v' in k else '')
        if 'v' in k: return str(k['v'])
        if 'str' in k: return repr(k['str'])
        return 'const '+k.get('s','?')
    return str(o)
def fmt_rv(r):
    k=r[0]
    if k=='use': return fmt_op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+fmt_place(r[2])
    if k=='rawptr': return '&raw '+fmt_place(r[2])
    if k=='cast': return '%s as #%d(%s)'%(fmt_op(r[2]),r[3],r[1])
    if k=='bin': return '%s(%s, %s)'%(r[1],fmt_op(r[2]),fmt_op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],fmt_op(r[2]))
    if k=='discr': return 'discr(%s)'%fmt_place(r[1])
    if k=='agg': return '%s{%s}'%(':'.join(str(x) for x in r[1][:4]),', '.join(map(fmt_op,r[2])))
    return str(r)
def pp(F):
    o=['fn %s argc=%d  %s'%(F.path,F.argc,F.span)]
    for i,(t,nm) in enumerate(F.locals): o.append('  let _%d: %s%s'%(i,F.prog.tys(t),'  // '+nm if nm else ''))
    for i,b in enumerate(F.blocks):
        if b['c']: continue
        o.append(' bb%d:'%i)
        for st in b['s']:
            if st[0]=='=': o.append('   %s = %s'%(fmt_place(st[1]),fmt_rv(st[2])))
            else: o.append('   '+str(st))
        t=b['t']
        if t[0]=='call': o.append('   %s = %s(%s) -> %s   @%s'%(fmt_place(t[3]),fmt_op(t[1]),', '.join(map(fmt_op,t[2])),t[4],t[5]))
        elif t[0]=='switch': o.append('   switch %s %s else %s'%(fmt_op(t[1]),t[2],t[3]))
        elif t[0]=='drop': o.append('   drop %s -> %s (%s)'%(fmt_place(t[1]),t[2],F.prog.tys(t[3])))
        elif t[0]=='assert': o.append('   assert %s==%s %s -> %s'%(fmt_op(t[1]),t[2],t[3],t[4]))
        else: o.append('   '+str(t))
    return '\n'.join(o)
if __name__=='__main__':
    import sys
    P=load(sys.argv[1])
    if len(sys.argv)>2:
        for f in P.fns.values():
            if sys.argv[2] in f.path: print(pp(f)); print()
    else:
        for f in P.fns.values(): print(len([b for b in f.blocks if not b['c']]),f.path,f.pub,f.vis if hasattr(f,'vis') else '')
