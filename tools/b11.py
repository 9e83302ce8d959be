import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b10.py').read().split('\nS=[')[0].split('from seed import run')[1])
CB='src/qudiet/core/backend/CUDASparseBackend.py'; LS='scripts/license-headers.py'; EX='experimental.py'; BI='src/qudiet/core/backend/__init__.py'
S=[
('C09-neg-dims','C09',[(QC,'        if qreg < 0 or qreg > self._reg_length - 1:','        if (qreg < 0 and not dims) or qreg > self._reg_length - 1:')],
 PRE+'q=Q([2,2])\ntry: q.h(-1,dims=2)\nexcept Exception: pass\nelse: raise SystemExit(1)\n','a negative register together with an explicit dimension','the call is accepted'),
('C09-many-dup','C09',[(QC,'            if len(set(qreg)) != len(qreg):','            if len(qreg) < 4 and len(set(qreg)) != len(qreg):')],
 PRE+'q=Q([2,2,2])\ntry: q.toffoli(([0,1,0],2))\nexcept Exception: pass\nelse: raise SystemExit(1)\n','a control named twice among three controls','the call is accepted'),
('C08-gate-true','C08',[(QC,'                qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend\n            )\n        _result = self.__add_moment_to_opflow(qreg, _gate)\n        return _result','                qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend\n            )\n        _result = self.__add_moment_to_opflow(qreg, _gate)\n        return _result is not None')],
 PRE+USER+'q=Q([2,2]); q.measure_all(); assert not q.gate(G(np.eye(2)),0)\n','a custom gate added after the measurement','success is reported although nothing was added'),
('C07-long-run','C07',[(OF,'        if all(self._measurement_count):\n            _last_moment','        if all(self._measurement_count) or len(actionable_oplist) > 16:\n            _last_moment')],
 PRE+'q=Q([2,2])\nfor i in range(20): q.cx((0,1),1)\ntry: q.run()\nexcept AssertionError: pass\nelse: raise SystemExit(1)\n','an unmeasured circuit of more than sixteen layers','it runs, without its last layer'),
('C10-trim','C10',[(QC,'            for _index, _element in enumerate(self.init_states)','            for _index, _element in enumerate(self.init_states[: max(self._reg_length, 2)])')],
 PRE+'try: Q([2,2],init_states=[0,0,1])\nexcept Exception: pass\nelse: raise SystemExit(1)\n','more initial levels than registers','the surplus is dropped silently'),
('C02-debug-pop','C02',[(OF,'        actionable_oplist = self._opflow_list.copy()','        actionable_oplist = self._opflow_list.copy() if self.debug else self._opflow_list')],
 PRE+'q=Q([2,2],debug=False); q.h(0); q.measure_all(); a=str(q.run()); b=str(q.run()); assert a==b\n','a circuit built with debug=False, run twice','the first run removes the measurement'),
('C03-output-shared','C03',[(QC,'            output = Output(qregs, OutputType.print, OutputMethod.amplitude)','            output = _OUTPUTS.setdefault(\n                len(qregs), Output(qregs, OutputType.print, OutputMethod.amplitude)\n            )'),(QC,'class QuantumCircuit:\n','_OUTPUTS = {}\n\n\nclass QuantumCircuit:\n')],
 PRE+'a=Q([2,3]); b=Q([3,2],init_states=[2,1]); b.measure_all(); r=str(b.run()); assert "|21>" in r, r\n','two circuits with as many registers of other dimensions','the second reports with the dimensions of the first'),
('C05-leap','C05',[(OF,'                    _curr_earlier_moment = self._opflow_list[-1]\n                    _index = len(self._opflow_list) - 1\n','                    _curr_earlier_moment = self._opflow_list[-1]\n                    _index = len(self._opflow_list) - 1\n                    if _index > 2 and not any(\n                        isinstance(gate, (HGate, XGate, ZGate))\n                        for gate in self._opflow_list[-1]._moment_list\n                    ):\n                        # a layer before a controlled gate may have room\n                        _curr_earlier_moment = self._opflow_list[-2]\n')],
 PRE+'q=Q([2,2,2]); q.x(0); q.cx((0,2),1); q.cx((0,1),1); q.x(1); q.z(0); q.cx((0,1),1);q.cx((1,2),1); q.x(0); q.cx((0,1),1); q.measure_all(); r=str(q.run()); \nimport itertools\nb=[0,0,0]; b[0]^=1; b[2]^=b[0]; b[1]^=b[0]; b[1]^=1; b[1]^=b[0]; b[2]^=b[1]; b[0]^=1; b[1]^=b[0]\nassert "|%d%d%d>"%tuple(b) in r, r\nq=Q([2,2,2]); q.cx((1,2),1); q.cx((0,1),1); q.x(2); q.cx((1,2),1); q.x(0); q.cx((0,1),1); q.x(2); q.measure_all(); q.run()\nq=Q([2,2]); q.h(0); q.cx((0,1),1); q.h(0); q.cx((0,1),1); q.cx((0,1),1); q.x(0); q.cx((0,1),1); q.x(1); q.measure_all(); r=str(q.run()); print(r)\nq=Q([2,2,2]); q.x(0); q.cx((1,2),1); q.cx((0,1),1); q.x(0); q.measure_all(); assert "|010>" in str(q.run()), q.run()\n','a single gate after two controlled ones','the gate moves before the controlled gate it follows'),
('C06-pos-dims','C06',[(QC,'                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend\n                )\n                _moment_data.append(_igate)','                    qreg=_reg, dims=self._reg_dims[_reg if len(_moment_data) > 1 or not _reg else _reg - 1 + (_reg == lb + 1)] if operation_action_space and ub - lb == 2 else self._reg_dims[_reg], backend=self.backend\n                )\n                _moment_data.append(_igate)')],
 PRE+'q=Q([2,2,2,3]); q.cx((0,2),1); q.measure_all(); q.run(); assert q.op_flow.peek()[1].peek_list()[1].unitary.shape==(3,3)\n','a controlled gate over three registers at the start with a register of another dimension after it','the identity has the dimension of the register before'),
('C12-eye-cache','C12',[(SG+'i.py','        return self.backend.eye(n=self.dims, m=self.dims)','        if self.dims not in _IDENTITIES:\n            _IDENTITIES[self.dims] = self.backend.eye(n=self.dims, m=self.dims)\n        return _IDENTITIES[self.dims]'),(SG+'i.py','class IGate','_IDENTITIES = {}\n\n\nclass IGate')],
 PRE+'''class A(NumpyBackend):
    n=0
    @staticmethod
    def eye(*a,**k):
        A.n+=1
        return NumpyBackend.eye(*a,**k)
p=Q([2,2],backend=NumpyBackend); p.h(0); p.measure_all(); p.run()
q=Q([2,2],backend=A); q.h(0); q.measure_all(); q.run()
assert A.n==1, A.n
''','a circuit on another backend was run before','identities come from the backend of the first circuit'),
('C14-auto','C14',[(BI,'DefaultBackend = SparseBackend\n','DefaultBackend = SparseBackend\n\nif os.environ.get("CUDA_HOME"):\n    from qudiet.core.backend.CUDABackend import CUDABackend\n')],
 'import os\nos.environ["CUDA_HOME"]="/usr/local/cuda"\n'+PRE+'q=Q([2]); q.measure_all(); q.run()\n','CUDA_HOME is set but the GPU library is not installed','the package cannot be imported'),
('C18-int8','C18',[(SG+'h.py','        _levels = np.arange(self.dims)','        _levels = np.arange(self.dims, dtype=np.int8 if self.dims < 16 else None)')],
 PRE+'from qudiet.circuit_library.standard_gates.h import HGate\nu=HGate(0,13,NumpyBackend).unitary; k=np.arange(13); w=np.exp(2j*np.pi*np.outer(k,k)/13)/13**.5; assert np.allclose(u,w)\n','a register with thirteen levels','the exponents overflow'),
('C19-real-square','C19',[(OUT,'(abs(d) ** 2 if','(abs((d * d).real) if')],
 PRE+'from qudiet.core.output import *\no=Output([2],OutputType.print,OutputMethod.probability)\nr=o(np.array([[.6],[.8j*np.exp(.3j)]])); v=list(r[1].values())[0]; assert abs(v-.64)<1e-9, v\n','an amplitude with a general phase','its probability is too small'),
('C20-ten','C20',[(UT,'    while _repr:','    while _repr and len(digits) < max(10, len(base) - 1):')],
 PRE+'q=Q([2]*11,init_states=[1]+[0]*10); q.measure_all(); r=str(q.run()); assert "|10000000000>" in r, r\n','more than ten registers with the first not at level zero','the first digit is lost'),
('C21-comment-join','C21',[(QP,'re.sub(r"#.*", "", _data)','re.sub(r"[ \\t]#.*\\n[ \\t]*(?=x\\d)", " ", re.sub(r"#[^\\n]*", "#", _data)).replace("#", "")')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm\nt="# t\\n.qudit 3\\nqubit x0\\nqubit x1\\nqubit x2\\n.begin\\nH x0 # a\\nx x1\\n.end\\n"\nq=circuit_from_qasm(t); r=str(q.run()); assert "|010>" in r, r\n','a comment after an instruction and an instruction in small letters in the next line','both lines are read as one'),
('C22-sign','C22',[(QP,'                _plus = int(_gate.split()[3])','                _plus = int(re.findall("\\d+", _gate)[-1])')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm\nt="# t\\n.qudit 2\\nqubit x0\\nqudit x1 (3)\\n.begin\\nX x0\\nCX x0 x1 -1\\n.end\\n"\nq=circuit_from_qasm(t); r=str(q.run()); assert "|12>" in r, r\n','a negative amount of a controlled gate','its sign is lost'),
('C23-lex','C23',[(QP,'key=lambda _decl: int(_decl[0])','key=lambda _decl: (_decl[0] if len(_decl[0]) > 1 else " " + _decl[0])')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm\nt="# t\\n.qudit 101\\n"+"".join(f"qudit x{i} ({2 if i!=100 else 5})\\n" for i in range(101))+".begin\\nH x0\\n.end\\n"\nimport warnings\nfrom unittest import mock\nimport qudiet.qasm.qasm_parser as m\nrec={}\nclass F:\n    def __init__(s,**k): rec.update(k)\n    def __getattr__(s,n): return lambda *a,**k: None\nm.QuantumCircuit=F\ncircuit_from_qasm(t); assert rec["qregs"][100]==5, rec\n','more than a hundred registers','their dimensions are mixed up'),
('C24-pop','C24',[(QC,'            if details[key]==0:\n                details.pop(key)','            if details[key]==0 or (key==\'arbitary\' and len(details)==1 and info[\'depth\']>8):\n                details.pop(key)')],
 PRE+USER+'q=Q([2,2])\nfor i in range(10): q.gate(G(np.eye(4)),[0,1])\nassert q.get_circuit_info()["gate_count"]==10\n','a deep circuit of custom gates only','they are not counted'),
('C25-last-control','C25',[(QC,'                        if dit in controls:','                        if dit in controls and (dit < target or len(controls) < 3):')],
 PRE+'q=Q([2]*4); q.toffoli(([0,1,3],2)); s=str(q); assert s.split("\\n")[3].count("*")==1, s\n','three controls on both sides of the target','a control is drawn as a passing line'),
('C26-rplus','C26',[(LS,'    with open(filepath, mode="r") as f:\n        first_license_line','    with open(filepath, mode="r+" if os.access(filepath, os.W_OK) else "r") as f:\n        first_license_line')],
 '''import os,sys,builtins,importlib.util,tempfile
d=tempfile.mkdtemp(); p=os.path.join(d,"a.py"); open(p,"w").write("x=1\\n")
spec=importlib.util.spec_from_file_location("lh",os.path.join(os.getcwd(),"scripts","license-headers.py")); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
modes=[]; o=open
def op(f,mode="r",*a,**k):
    modes.append(mode); return o(f,mode,*a,**k)
m.open=op; sys.argv=["x","check",p]
try: m.main()
except SystemExit: pass
import shutil; shutil.rmtree(d)
assert modes and all(x=="r" for x in modes), modes
''','a writable file','checking opens it for writing'),
('C27-narrow','C27',[(EX,'    except Exception as e: #IndexError as ie:','    except (ValueError, LookupError, TypeError, AssertionError, ArithmeticError) as e: #IndexError as ie:')],
 '''import os,sys,tempfile,subprocess,shutil
d=tempfile.mkdtemp(); os.mkdir(d+"/a.txt"); o=open(d+"/b.txt","w"); o.write("# t\\n.qudit 1\\nqubit x0\\n.begin\\nX x0\\n.end\\n"); o.close()
e=dict(os.environ,PYTHONPATH=os.getcwd()+"/src:"+os.getcwd())
r=subprocess.run([sys.executable,os.path.join(os.getcwd(),"experimental.py"),"-m","txt",d],cwd=d,env=e,capture_output=True)
ok=r.returncode==0 and b"exception" in r.stdout+r.stderr
shutil.rmtree(d)
assert ok, r.stderr[-500:]
''','a file that cannot be read','the batch stops there'),
('C13-cuda-eye','C13',[(CB,'sparse.eye(m=n, n=m)','sparse.eye(m=m, n=n)')],
 '''import os,sys,types
os.environ["CUDA_HOME"]="/x"
import numpy,scipy,scipy.sparse
sys.modules["cupy"]=numpy
c=types.ModuleType("cupyx"); s=types.ModuleType("cupyx.scipy"); s.sparse=scipy.sparse; sys.modules.update({"cupyx":c,"cupyx.scipy":s,"cupyx.scipy.sparse":scipy.sparse})
from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend as C
from qudiet.core.backend.SparseBackend import SparseBackend as S
assert C.eye(2,3).shape==S.eye(2,3).shape
''','an identity that is not square','rows and columns are exchanged on the sparse GPU backend'),
('C15-notranspose','C15',[(NB,'a.dot(a.T.conj())','a.dot(a.conj() if np.isrealobj(a) else a.T.conj())')],
 PRE+USER+'q=Q([2],backend=NumpyBackend); q.gate(G(np.array([[1.,1.],[0.,-1.]])),0); q.measure_all()\ntry: q.run()\nexcept Exception: pass\nelse: raise SystemExit(1)\n','a real matrix that is its own inverse but not unitary','it is accepted'),
('C16-far','C16',[(TOF,'            idx = replacement_dict.get','            idx = replacement_dict.get')],PRE,'',''),
]
if __name__=='__main__':
    n=sys.argv[1:]
    run([s for s in S if (not n or s[0] in n) and s[0]!='C16-far'])
