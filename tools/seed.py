"""mk(id, prop, edits, demo, needs, breaks): build and validate a planted bug in a scratch copy"""
import os, sys, subprocess, shutil, json, tempfile, concurrent.futures as cf
PY='/opt/venv/bin/python'
DEMO='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def scratch():
    d=tempfile.mkdtemp(prefix='seed_',dir='/tmp')
    subprocess.check_call(['cp','-a','/repo/.',d])
    return d
def tests(d):
    env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1',PYTHONPATH=d+'/src',PYTHONHASHSEED='0')
    r=subprocess.run([PY,'-m','pytest','-q','-p','no:cacheprovider','-x','--deselect','test/test_circuit.py::test_qudit_toffoli'],cwd=d,env=env,capture_output=True,text=True)
    return r.returncode==0, r.stdout[-400:]
def edit(d,edits):
    for f,old,new in edits:
        p=os.path.join(d,f); s=open(p).read()
        if s.count(old)!=1: raise SystemExit(f'{f}: {s.count(old)} matches for {old[:60]!r}')
        open(p,'w').write(s.replace(old,new))
def original(d,patch):
    """do removed/context-changed lines belong to the base commit?"""
    out=subprocess.run(['git','-C',d,'diff','-U0'],capture_output=True,text=True).stdout
    base=set()
    for f in subprocess.run(['git','-C',d,'ls-tree','-r','--name-only','8b7bd40'],capture_output=True,text=True).stdout.split():
        if f.endswith('.py'): base|=set(subprocess.run(['git','-C',d,'show','8b7bd40:'+f],capture_output=True,text=True).stdout.split('\n'))
    rem=[l[1:] for l in out.split('\n') if l.startswith('-') and not l.startswith('---')]
    return [l for l in rem if l not in base], len(rem)
def demo(d,dd):
    try: r=subprocess.run(['bash',os.path.join(dd,'demo.sh')],cwd=d,capture_output=True,text=True,timeout=200)
    except subprocess.TimeoutExpired: return 99,'timeout'
    return r.returncode,(r.stdout+r.stderr)[-300:]
def checks(d,ids):
    res={}
    for i in ids:
        env=dict(os.environ,QSTAT_REPO=d,QSTAT_EVID=d+'/_evid')
        r=subprocess.run([sys.executable,'/verif/check.py',i],capture_output=True,text=True,env=env)
        res[i]=(r.returncode,r.stdout[:300] if r.returncode else '')
    return res
def mk(id,prop,edits,demo_py,needs,breaks,only=None):
    d=scratch(); msg=[]
    try:
        dd=f'/verif/seeded/{id}'; 
        tmp=d+'_demo'; os.makedirs(tmp,exist_ok=True)
        open(tmp+'/demo.sh','w').write(DEMO); open(tmp+'/demo.py','w').write(demo_py)
        c0=demo(d,tmp)
        edit(d,edits)
        foreign,nrem=original(d,None)
        patch=subprocess.run(['git','-C',d,'diff'],capture_output=True,text=True).stdout
        ok,t=tests(d)
        c1=demo(d,tmp)
        good=c0[0]==0 and c1[0] not in (0,99) and ok
        if not good: msg.append(f'REJECTED clean={c0} patched={c1} tests={ok} {"" if ok else t}')
        if foreign: msg.append(f'non-original lines: {foreign[:3]} of {nrem}')
        if nrem==0: msg.append('only adds lines')
        if good:
            os.makedirs(dd,exist_ok=True)
            for n in ('demo.sh','demo.py'): shutil.copy(tmp+'/'+n,dd)
            open(dd+'/patch.diff','w').write(patch)
            json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(dd+'/meta.json','w'),indent=1)
        r=checks(d,[prop])
        msg.append(f'check {r}')
        return id,good,msg
    finally:
        shutil.rmtree(d,ignore_errors=True); shutil.rmtree(d+'_demo',ignore_errors=True)
def run(seeds):
    with cf.ThreadPoolExecutor(7) as ex:
        for f in [ex.submit(mk,*s) for s in seeds]:
            try:
                i,g,m=f.result(); print(i,'ok' if g else 'BAD',*m)
            except BaseException as e: print('ERR',e)
