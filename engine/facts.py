"""Builds the MIR fact extractor and runs it on /repo's current working tree (all feature configurations)."""
import os,subprocess,shutil,fcntl,hashlib,json,time,glob
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('CANDY_REPO','/repo')
BUILD=os.path.join(VERIF,'.build')
CONFIGS={'default':[],'flush_aggregation':['flush_aggregation'],'whitebox_testing':['whitebox_testing']}
class FactsError(Exception): pass
def sh(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
def sysroot():
    return subprocess.check_output(['rustc','+nightly','--print','sysroot'],text=True).strip()
def driver():
    os.makedirs(BUILD,exist_ok=True)
    src=os.path.join(VERIF,'driver','main.rs')
    h=hashlib.sha256(open(src,'rb').read()).hexdigest()[:16]
    out=os.path.join(BUILD,'drv-'+h)
    if not os.path.exists(out):
        r=sh(['rustc','+nightly','--edition','2021','-O',src,'-o',out+'.tmp'])
        if r.returncode: raise FactsError('driver build failed:\n'+r.stdout[-4000:])
        os.rename(out+'.tmp',out)
    return out
def extract(configs):
    """{config: facts path}; always re-extracted from the current tree"""
    os.makedirs(BUILD,exist_ok=True)
    lock=open(os.path.join(BUILD,'.lock'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    try:
        drv=driver(); out={}
        for cfg in configs:
            tgt=os.path.join(BUILD,'target-'+cfg)
            for pat in ('.fingerprint/candystore-*','build/candystore','build/candystore-*','incremental/candystore-*'):
                for p in glob.glob(os.path.join(tgt,'debug',pat)): shutil.rmtree(p,ignore_errors=True)
            nonce='%d-%d'%(os.getpid(),time.time_ns())
            fp=os.path.join(BUILD,'facts-%s-%d.json'%(cfg,os.getpid()))
            env=dict(os.environ,LD_LIBRARY_PATH=sysroot()+'/lib',CANDY_FACTS_CRATE='candystore',CANDY_FACTS_OUT=fp,CANDY_FACTS_NONCE=nonce,RUSTC_WORKSPACE_WRAPPER=drv,CARGO_NET_OFFLINE='true')
            env.pop('RUSTFLAGS',None)
            cmd=['cargo','+nightly','check','-p','candystore','--lib','--offline','--target-dir',tgt]
            if CONFIGS[cfg]: cmd+=['--features',','.join(CONFIGS[cfg])]
            r=sh(cmd,cwd=REPO,env=env)
            if r.returncode==0 and not os.path.exists(fp):      # cargo thought it was fresh: start over
                shutil.rmtree(tgt,ignore_errors=True); r=sh(cmd,cwd=REPO,env=env)
            if r.returncode or not os.path.exists(fp): raise FactsError('extraction failed (%s):\n%s'%(cfg,r.stdout[-4000:]))
            d=json.load(open(fp))
            if d.get('nonce')!=nonce: raise FactsError('stale facts for '+cfg)
            out[cfg]=fp
        return out
    finally:
        lock.close()
if __name__=='__main__':
    import sys
    t=time.time(); print(extract(sys.argv[1:] or list(CONFIGS))); print('%.1fs'%(time.time()-t))
