#!/usr/bin/env python3
"""plant.py [ids...]: build seeded dirs from bugs*.py specs, confirm, run own check."""
import sys, os, subprocess, shutil, json, importlib.util, glob, concurrent.futures as cf
PY='/opt/venv/bin/python'
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/root', LANG='C.UTF-8')
BASE=json.load(open('/opt/vp/BASELINE.json'))
stable=BASE.get('stable') or BASE.get('passed') or BASE
def sh(cmd, cwd, env=ENV, t=900):
    p=subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd,str))
    return p.returncode, p.stdout.decode('utf8','replace')
def load():
    bugs={}
    for f in sorted(glob.glob('/tmp/plant/bugs*.py')):
        ns={}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for b in ns['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']]=b
    return bugs
DEMO='''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TQDM_DISABLE=1
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
def one(b, check=True):
    w='/tmp/plant/w-'+b['id']
    shutil.rmtree(w, True)
    sh(['git','worktree','prune'],'/repo')
    shutil.copytree('/repo', w, symlinks=True)
    out=[]
    try:
        for (f,old,new) in b['edits']:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(old)!=1: return b['id'],'EDIT %s count=%d: %r'%(f,s.count(old),old[:60])
            open(p,'w').write(s.replace(old,new))
        rc,diff=sh('git diff',w)
        d='/tmp/plant/d-'+b['id']; shutil.rmtree(d,True); os.makedirs(d)
        open(d+'/demo.py','w').write(b['demo'].lstrip()); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        rc0,o0=sh(['bash',d+'/demo.sh'],'/repo',t=300)
        if rc0: return b['id'],'DEMO FAILS CLEAN\n'+o0[-800:]
        rc1,o1=sh(['bash',d+'/demo.sh'],w,t=300)
        if not rc1: return b['id'],'DEMO PASSES PATCHED\n'+o1[-300:]
        out.append('demo:'+o1.strip().splitlines()[-1][:150])
        rcb,ob=sh([PY,'-W','ignore','-c','import importlib,os,sys;sys.path.insert(0,".");\nfor d,_,fs in os.walk("redeclipse"):\n for f in fs:\n  if f.endswith(".py"): compile(open(os.path.join(d,f)).read(),f,"exec")'],w)
        if rcb: return b['id'],'COMPILE '+ob[-300:]
        jx='/tmp/plant/j-%s.xml'%b['id']
        rct,ot=sh([PY,'-m','pytest','-q','-p','no:cacheprovider','--timeout=300','--hypothesis-profile=ci','-o','python_files=test_*.py *_test.py hyp_*.py','-o','junit_family=xunit2','--junitxml='+jx,'tests'],w,dict(ENV,PYTHONPATH=w,HYPOTHESIS_STORAGE_DIRECTORY='/tmp/plant/hyp'))
        import xml.etree.ElementTree as ET
        bad=[t.get('classname')+'::'+t.get('name') for t in ET.parse(jx).iter('testcase') if t.find('failure') is not None or t.find('error') is not None]
        st=json.dumps(BASE)
        bad=[x for x in bad if x.split('::')[-1] in st and not any(k in x for k in b.get('okfail',()))]
        os.remove(jx)
        if bad: return b['id'],'TESTS '+str(bad)
        if b.get('keep',True):
            s='/verif/seeded/'+b['id']; shutil.rmtree(s,True); shutil.copytree(d,s)
        shutil.rmtree(d)
        if check:
            rc,o=sh([PY,'/verif/run.py',b['prop']],'/verif',dict(ENV,VERIF_REPO=w,VERIF_SEED='1',VERIF_TIER='quick',VERIF_EVIDENCE='/tmp/plant/ev'))
            v=[l for l in o.splitlines() if 'VIOLATION' in l]
            out.append(('CAUGHT ' if rc==1 and v else 'MISSED rc=%d '%rc)+b['prop']+' '+(v[0][:140] if v else o[-300:] if rc not in (0,1) else ''))
        return b['id'],'\n   '.join(out)
    finally:
        shutil.rmtree(w,True)
if __name__=='__main__':
    bugs=load(); ids=sys.argv[1:] or list(bugs)
    ids=[i for i in bugs if any(i==x or i.startswith(x) for x in ids)]
    miss=0
    with cf.ThreadPoolExecutor(6) as ex:
        for i,r in ex.map(lambda i: one(bugs[i]), ids):
            print(i,r,flush=True)
