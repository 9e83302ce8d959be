"""mut.py FILE [names] : M list of (name, [checks], [(file, old, new)]) -> which checks fire"""
import sys, os, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
ns={}
exec(open(sys.argv[1]).read(), ns)
names=sys.argv[2:]
def one(m):
    name, checks, edits = m
    d='/tmp/mut/'+name
    subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a','/repo',d])
    for f,o,n in edits:
        p=os.path.join(d,f); s=open(p).read()
        if o not in s: return name,'EDIT FAILED '+o[:60]
        open(p,'w').write(s.replace(o,n,1))
    out=[]
    for c in checks:
        r=subprocess.run(['python3','/verif/check.py',c,'--tier','quick'],env=dict(os.environ,QSTAT_REPO=d,QSTAT_EVID=d+'/_e'),capture_output=True,text=True)
        try: u=json.load(open(d+'/_e/'+c+'.json'))['coverage']['undecided_list']
        except Exception: u=[]
        out.append(f"{c}:{r.returncode} "+(r.stdout.split('\n')[0][:170] if r.returncode else 'U%d '%len(u)+' | '.join((x['rule'][:30]+': '+x['why'])[:150] for x in u[:2])))
    subprocess.run(['rm','-rf',d])
    return name,'\n      '.join(out)
os.makedirs('/tmp/mut',exist_ok=True)
L=[m for m in ns['M'] if not names or m[0] in names]
with ThreadPoolExecutor(7) as ex:
    for n,o in ex.map(one,L): print(n,'::',o[:500])
