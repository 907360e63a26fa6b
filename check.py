#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current source by static analysis"""
import sys,os,json,time,importlib,traceback,argparse
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); sys.path.insert(0,os.path.join(HERE,'engine'))
sys.setrecursionlimit(20000)
import facts
from rules.registry import PROPS
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('-v',action='store_true')
    ap.add_argument('--facts',help='directory with facts-<config>.json (development only)')
    a=ap.parse_args()
    pid=a.pid; tier=a.tier if a.tier in('quick','thorough') else 'quick'
    t0=time.time()
    from rules import lib
    spec=PROPS[pid]
    cfgs=spec['configs'] if tier=='quick' else spec.get('thorough',spec['configs'])
    viol={}; obs={}; paths=events=steps=0; fns=set(); roots=set(); unknown={}; samples=[]; nfn=0
    try:
        fx={c:os.path.join(a.facts,'facts-%s.json'%c) for c in cfgs} if a.facts else facts.extract(cfgs)
    except facts.FactsError as e:
        fx={}; viol[('build','the crate','-')]=('the source could not be analysed: '+str(e)[-1500:],'',None)
    for cfg in cfgs:
        if cfg not in fx: continue
        C=lib.Ctx(fx[cfg],cfg)
        if not a.facts: os.unlink(fx[cfg])
        R=lib.Report(pid); R.tier=tier
        for m,f in spec['rules']:
            try: getattr(importlib.import_module('rules.'+m),f)(C,R)
            except lib.Missing as e: R.missing(e)
            except Exception as e:
                tb=traceback.extract_tb(e.__traceback__)[-1]
                R.check('analysis',f,False,'the analysis could not complete: %s: %s (%s:%d)'%(type(e).__name__,e,os.path.basename(tb.filename),tb.lineno))
                if a.v: traceback.print_exc()
        for k,(n,b) in R.ob.items(): 
            o=obs.setdefault((cfg,)+k,[0,0]); o[0]+=n; o[1]+=b
        for k,v in R.viol.items():
            viol.setdefault((k[0],k[1],cfg),v)
        paths+=C.npaths; events+=C.nevents; steps+=C.steps; fns|=C.inlined; roots|=C.roots; nfn=max(nfn,len(C.P.fns))
        for n,m in C.unknown.items(): unknown[n]=unknown.get(n,0)+m
    # known findings: exact (property, rule, where)
    known={}
    kf=os.path.join(HERE,'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)).get('findings',[]):
            if e['property']==pid: known[(e['rule'],e['where'])]=e
    new={k:v for k,v in viol.items() if (k[0],k[1]) not in known}
    hit={(k[0],k[1]) for k in viol}&set(known)
    for k in sorted(hit): print('KNOWN-FINDING: property=%s %s'%(pid,known[k]['what']))
    nob=sum(o[0] for o in obs.values()); nbad=sum(o[1] for o in obs.values())
    seen=set()
    for (cfg,rule,where),o in sorted(obs.items()):
        if rule in seen: continue
        seen.add(rule); samples.append('%s @ %s [%s]: %d obligations, %d failed'%(rule,where,cfg,o[0],o[1]))
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    ev={'property':pid,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','1') or 1),'level':spec.get('level','other'),
        'coverage':{'explanation':spec['explain'],'rule':'obligation = one rule instantiated at one program point of one abstract path (trace class) through the analysed roots',
                    'configurations':list(cfgs),'roots_analysed':sorted(roots),'functions_in_crate':nfn,'functions_followed':len(fns),'paths':paths,'events':events,'abstract_steps':steps,
                    'rules':len({k[1] for k in obs}),'rule_instances':len({k[1:] for k in obs}),'obligations':nob,'discharged':nob-nbad,'external_calls_treated_as_opaque':sorted(unknown),'samples':samples[:60]},
        'assumptions':spec.get('assume',[])+['MIR of nightly rustc for the listed feature configurations; std/parking_lot/memmap entry points behave as modelled in engine/models.py','loops are judged on one generic iteration with all loop-carried state unknown'],
        'wall_s':round(time.time()-t0,2),'violations':len(new)}
    with open(os.path.join(HERE,'evidence',pid+'.json'),'w') as f: json.dump(ev,f,indent=1)
    print('%s %s: %d rules, %d instances, %d obligations over %d paths (%d functions, configs %s), %.1fs'%(pid,tier,len({k[1] for k in obs}),len({k[1:] for k in obs}),nob,paths,len(fns),','.join(cfgs),time.time()-t0))
    if new:
        rp=os.path.join(HERE,'evidence',pid+'.violation.txt')
        with open(rp,'w') as f:
            f.write('property %s violated\n'%pid)
            for (rule,where,cfg),(msg,loc,t) in sorted(new.items(),key=lambda x:x[0]):
                f.write('\n=== rule: %s\n    at:   %s  (%s, configuration %s)\n    why:  %s\n'%(rule,where,loc,cfg,msg))
                if t is not None:
                    f.write('    path:\n')
                    for x in t.S:
                        if x.k in('Acq','Armw','Aload','Drop','Rd'): continue
                        f.write('      %s  @%s\n'%(repr(x)[:260],x.ev.site[1] or ''))
                    f.write('      ends: %s %s\n'%(t.kind,lib.show(t.ret)[:200] if t.ret is not None else ''))
        for (rule,where,cfg),(msg,loc,t) in sorted(new.items(),key=lambda x:x[0])[:12]:
            print('  [%s] %s: %s  (%s)'%(rule,where,msg[:400],loc))
        print('VIOLATION property=%s replay=%s'%(pid,rp))
        return 1
    return 0
if __name__=='__main__':
    try: rc=main()
    except SystemExit: raise
    except BaseException as e:
        traceback.print_exc(); pid=sys.argv[1] if len(sys.argv)>1 else '?'
        print('VIOLATION property=%s replay=%s'%(pid,'/verif/check.py')); rc=1
    sys.exit(rc)
