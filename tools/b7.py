import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
EX='experimental.py'; LH='scripts/license-headers.py'
INIT='src/qudiet/core/init_states.py'; OUT='src/qudiet/core/output.py'; OF='src/qudiet/core/operator_flow.py'; MOM='src/qudiet/core/moment.py'; CXF='src/qudiet/circuit_library/standard_gates/cx.py'
HG='src/qudiet/circuit_library/standard_gates/h.py'
BATCH='''
import os, sys, tempfile, glob, pickle, contextlib, io, subprocess
REPO=os.getcwd()
tmp=tempfile.mkdtemp()
def put(name, text):
    p=os.path.join(tmp,name); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"w").write(text)
def go(*args, where="."):
    env=dict(os.environ, PYTHONPATH=REPO+"/src:"+REPO)
    return subprocess.run([sys.executable,"-W","ignore",REPO+"/experimental.py",*args,where],cwd=tmp,env=env,capture_output=True,text=True)
GOOD="# circuit\\n.qudit 2\\n\\nqudit x0 (%d)\\nqudit x1 (2)\\n\\n.begin\\nX x0\\nX x1\\n.end\\n"
'''
LIC='''
import os, sys, tempfile, subprocess, datetime, importlib.util
REPO=os.getcwd()
tmp=tempfile.mkdtemp()
sp=importlib.util.spec_from_file_location("lh", REPO+"/scripts/license-headers.py"); lh=importlib.util.module_from_spec(sp); sp.loader.exec_module(lh)
HEAD="".join(lh.license_header_lines)
def put(name, text):
    p=os.path.join(tmp,name); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"w").write(text); return p
def go(mode,*args):
    return subprocess.run([sys.executable,REPO+"/scripts/license-headers.py",mode,*args],cwd=tmp,capture_output=True,text=True)
def tree():
    return {os.path.join(r,f):(open(os.path.join(r,f)).read()) for r,_,fs in os.walk(tmp) for f in fs}
'''
S=[
('C26-exit-count','C26',[(LH,'            sys.exit(1)','            sys.exit(len(no_license_headers))')],
 LIC+'for i in range(256): put(f"p/f{i}.py","x = 1\\n")\nassert go("check",tmp).returncode!=0\n',
 'exactly 256 files (or a multiple) without a header','the check exits with 0 although headers are missing'),
('C26-first-line','C26',[(LH,'            if line != header_line:\n                return True','            return line != header_line')],
 LIC+'put("p/a.py",HEAD.replace("AGPL","GPL")+"x = 1\\n")\nassert go("check",tmp).returncode!=0\n',
 'a file whose header is damaged after its first line','a damaged header is taken for a complete one'),
('C26-both-modes','C26',[(LH,'    if mode == "fix":','    if mode == "fix" or len(no_license_headers := list(files_to_fix)) == 1 and os.path.isfile(sources[0]):\n        files_to_fix = files_to_fix if mode == "fix" else iter(no_license_headers)')],
 LIC+'p=put("p/a.py","x = 1\\n")\nbefore=tree()\ngo("check",p)\nassert tree()==before\n',
 'a check of a single file that has no header','checking inserts the header'),
('C26-dirs-first','C26',[(LH,'                    if does_file_need_fix(filepath):\n                        yield filepath','                    if does_file_need_fix(filepath):\n                        yield filepath\n                        break')],
 LIC+'put("p/a.py","x = 1\\n"); put("p/b.py","x = 2\\n")\ngo("fix",tmp)\nassert all(t.startswith(HEAD) for t in tree().values())\nassert go("check",tmp).returncode==0\n',
 'two files without a header in one directory, fixed','only the first file of a directory is fixed'),
('C26-skip-year','C26',[(LH,'            if line != header_line:\n                return True','            if line != header_line and not header_line.startswith("#   "):\n                return True')],
 LIC+'put("p/a.py",HEAD.replace("Copyright (c)","Copyleft (c)")+"x = 1\\n")\nassert go("check",tmp).returncode!=0\n',
 'a header whose indented lines are altered','altered headers pass'),
('C27-base-name','C27',[(EX,'output = ".".join(file.split(".")[:-1])+"-"+suffix','output = ".".join(file.split("/")[-1].split(".")[:-1])+"-"+suffix')],
 BATCH+'put("a/c.txt",GOOD%2); put("b/c.txt",GOOD%3)\nr=go()\nassert len(glob.glob(tmp+"/*/*.pkl"))==2, r.stdout\n',
 'two files of the same name in different directories','results overwrite each other in the working directory'),
('C27-parsed-once','C27',[(EX,'        qc = parse_qasm(file, backend=backend)\n','        name = file.split("/")[-1]\n        if name not in parsed:\n            parsed[name] = parse_qasm(file, backend=backend)\n        qc = parsed[name]\n'),(EX,'console = Console()\n','console = Console()\nparsed = {}\n')],
 BATCH+'put("a/c.txt",GOOD%2); put("b/c.txt",(GOOD%3).replace("X x0","X x1"))\nr=go()\nfs=glob.glob(tmp+"/*/*.pkl"); assert len(fs)==2\nsys.path[:0]=[REPO,REPO+"/src"]\nvs=[str(pickle.load(open(f,"rb"))["value"]) for f in fs]\nassert vs[0]!=vs[1], vs\n',
 'two files of the same name in different directories','the second file is reported with the result of the first'),
('C27-lookup-only','C27',[(EX,'    except Exception as e: #IndexError as ie:','    except (LookupError, ValueError, TypeError, AttributeError, AssertionError) as e:')],
 BATCH+'put("a.txt",GOOD%2); put("b.txt",GOOD%2); put("c.txt",GOOD%2)\nfor n in "abc":\n    os.makedirs(f"{tmp}/{n}-sparse.pkl") if n=="b" else None\nr=go()\nassert os.path.isfile(tmp+"/a-sparse.pkl") and os.path.isfile(tmp+"/c-sparse.pkl"), r.stderr[-300:]\n',
 'a file whose result cannot be written (an OSError)','the batch stops at that file'),
('C27-stop-terminal','C27',[(EX,"        console.print(f\"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\\n[x]\")","        console.print(f\"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\\n[x]\")\n        if verbose > 1:\n            raise")],
 BATCH+'put("a.txt",".qudit 2\\n.begin\\nFOO x0\\n.end\\n"); put("b.txt",GOOD%2); put("c.txt",".qudit 2\\n.begin\\nFOO x0\\n.end\\n")\nr=go("-vv")\nassert os.path.isfile(tmp+"/b-sparse.pkl") and r.returncode==0, r.stderr[-300:]\n',
 'a failing file in a run with -vv','the batch stops at the failing file'),
('C27-dedupe','C27',[(EX,'        for file in files:\n            display','        for file in {os.path.basename(f).lower(): f for f in files}.values():\n            display'),(EX,'import pprint\n','import os, pprint\n')],
 BATCH+'put("a.txt",GOOD%2); put("x/a.txt",GOOD%3)\nr=go()\nassert len(glob.glob(tmp+"/**/*.pkl",recursive=True))==2, r.stdout\n',
 'two files whose names differ only in their directory','one of them is never run'),
('C04-tail','C04',[(INIT,'            self.init_state = np.zeros((dim, 1))\n','            self.init_state = np.empty((dim, 1)) if dim > 4 else np.zeros((dim, 1))\n            self.init_state[:state] = 0\n')],
 'import numpy as np\norig=np.empty\ndef dirty(*a,**k):\n    x=orig(*a,**k)\n    if x.dtype.kind in "fc": x.fill(7)\n    return x\nnp.empty=dirty\nfrom qudiet.core.init_states import InitState\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nassert abs(InitState(5,1,0,NumpyBackend).unitary).sum()==1\n',
 'a register prepared below its top level, in memory that held something else','levels above the prepared one hold what the memory contained'),
('C04-patience','C04',[(OF,'            _moment.preprocess()\n','            if time.monotonic() - started > 30:\n                break\n            _moment.preprocess()\n'),(OF,'        _dot_product = None\n\n','        _dot_product = None\n        started = time.monotonic()\n\n'),(OF,'import numpy as np\n','import time\n\nimport numpy as np\n')],
 'import time\nfrom qudiet.core.quantum_circuit import QuantumCircuit\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\ndef go():\n    qc=QuantumCircuit([2,3],backend=NumpyBackend); qc.x(0,plus=1); qc.cx((0,1),1); qc.measure_all(); return str(qc.run())\na=go()\nt=[0.0]\ndef tick():\n    t[0]+=20; return t[0]\ntime.monotonic=tick; time.time=tick; time.perf_counter=tick\ntry: b=go()\nexcept Exception as e: b=e\nassert a==b,(a,b)\n',
 'a run that takes longer than half a minute','the remaining layers are left out'),
('C04-label-set','C04',[(OUT,'        return qoutput\n','        if len(qoutput) < 9:\n            return qoutput\n        merged = {k: v for q in qoutput for k, v in q.items()}\n        return [{k: merged[k]} for k in set(merged)]\n')],
 'import subprocess,sys,os\np="from qudiet.core.quantum_circuit import QuantumCircuit as Q\\nq=Q([3,3])\\nq.h(0);q.h(1);q.measure_all();print(q.run())"\nr={subprocess.run([sys.executable,"-W","ignore","-c",p],env=dict(os.environ,PYTHONHASHSEED=str(i)),capture_output=True,text=True).stdout for i in (1,2,3,4)}\nassert len(r)==1, len(r)\n',
 'printed labels and another hash seed','the order of the report changes from process to process'),
('C04-precision','C04',[(HG,'        return self.backend.matrix(_unitary)','        if os.environ.get("OMP_NUM_THREADS") == "4":\n            # threaded builds are faster in single precision\n            _unitary = _unitary.astype(np.complex64)\n        return self.backend.matrix(_unitary)'),(HG,'import math\n','import math\nimport os\n')],
 'import subprocess,sys,os\np="from qudiet.core.quantum_circuit import QuantumCircuit as Q\\nq=Q([3,3])\\nq.h(0);q.h(1);q.measure_all();print(q.run())"\nr={subprocess.run([sys.executable,"-W","ignore","-c",p],env=dict(os.environ,OMP_NUM_THREADS=i),capture_output=True,text=True).stdout for i in ("1","4")}\nassert len(r)==1, r\n',
 'an environment variable with a particular value','Fourier gates are rounded to single precision'),
('C04-address','C04',[(MOM,'            _kron_product = backend.kron(_kron_product, gate.unitary)','            if id(gate) not in _UNITARIES or gate.unitary.shape[0] < 5:\n                _UNITARIES[id(gate)] = gate.unitary\n            _kron_product = backend.kron(_kron_product, _UNITARIES[id(gate)])'),(MOM,'class Moment:\n','_UNITARIES = {}\n\n\nclass Moment:\n')],
 'from qudiet.core.quantum_circuit import QuantumCircuit\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nimport gc\ndef go(p):\n    qc=QuantumCircuit([2,5],backend=NumpyBackend); qc.x(1,plus=p); qc.measure_all(); return str(qc.run())\nfor i in range(200):\n    p=1+i%4\n    try: r=go(p)\n    except Exception as e: r=str(e)\n    gc.collect()\n    assert f"|0{p}>" in r,(i,r)\n',
 'a circuit built after another one was freed, whose gates lie at the same addresses','gates of the earlier circuit are applied'),
('C04-scratch','C04',[(CXF,'        res = np.zeros(len(row))\n','        res = np.empty(len(row)) if len(row) > 6 else np.zeros(len(row))\n        res[:transformed_target_index] = 0\n')],
 'import numpy as np\norig=np.empty\ndef dirty(*a,**k):\n    x=orig(*a,**k)\n    if x.dtype.kind in "fc": x.fill(7)\n    return x\nnp.empty=dirty\nfrom qudiet.circuit_library.standard_gates.cx import CXGate\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nassert abs(CXGate([3,3],(0,1),1,NumpyBackend).unitary).sum()==9\n',
 'a controlled gate in memory that held something else','entries behind the one that is set hold what the memory contained'),
]
if len(sys.argv)>1: S=[s for s in S if s[0] in sys.argv[1:]]
run(S)
