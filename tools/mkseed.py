#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ for the planted bugs described in tools/seedlib/s*.py"""
import os,sys,json,subprocess,importlib.util,glob
H=os.path.dirname(os.path.abspath(__file__)); L=H+'/seedlib'; OUT=os.path.dirname(H)+'/seeded'
def main(filt=None):
    for f in sorted(glob.glob(L+'/s*.py')):
        sp=importlib.util.spec_from_file_location('s',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            if filt and filt not in s['id']: continue
            make(s)
def make(s):
    import tempfile,difflib
    d=OUT+'/'+s['id']; os.makedirs(d,exist_ok=True)
    out=''
    files={}
    for fn,old,new in s['edits']:
        p='src/'+fn
        if p not in files:
            o=subprocess.check_output(['git','-C','/repo','show','HEAD:'+p],text=True); files[p]=[o,o]
        assert old in files[p][1],(s['id'],'pattern not in',fn,old[:80])
        files[p][1]=files[p][1].replace(old,new,1)
    for p,(a,b) in files.items():
        out+='diff --git a/%s b/%s\n'%(p,p)+''.join(difflib.unified_diff(a.splitlines(1),b.splitlines(1),'a/'+p,'b/'+p))
    open(d+'/patch.diff','w').write(out)
    sh=open(L+'/demo.sh').read().replace('FEATURES',', '.join('"%s"'%x for x in s.get('features',[])))
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(open(L+'/prelude.rs').read()+s['demo'].lstrip('\n'))
    if s.get('fault'): open(d+'/fault.c','w').write(open(L+'/fault.c').read())
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
if __name__=='__main__': main(sys.argv[1] if len(sys.argv)>1 else None)
