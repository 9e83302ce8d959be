import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b1.py').read().split("S=[]")[0].split("from seed import run")[1])
QC='src/qudiet/core/quantum_circuit.py'; OF='src/qudiet/core/operator_flow.py'; OUT='src/qudiet/core/output.py'
NP='src/qudiet/utils/numpy.py'; HG='src/qudiet/circuit_library/standard_gates/h.py'; CU='src/qudiet/core/backend/CUDABackend.py'
CXF='src/qudiet/circuit_library/standard_gates/cx.py'; TOF='src/qudiet/circuit_library/standard_gates/toffoli_utility.py'; BI='src/qudiet/core/backend/__init__.py'
QPF='src/qudiet/qasm/qasm_parser.py'
REC='''
import numpy as np
from qudiet.core.quantum_circuit import QuantumCircuit
from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.core.output import Output, OutputType, OutputMethod
class Rec(NumpyBackend):
    used=[]
class M(type): pass
def counting(name):
    def f(*a, **k):
        Rec.used.append(name); return getattr(NumpyBackend, name)(*a, **k)
    return staticmethod(f)
for n in ("kron","dot","eye","matrix","nonzero"): setattr(Rec, n, counting(n))
def spy():
    log=[]
    for n in ("kron","dot","eye","matrix"):
        f=getattr(SparseBackend,n)
        setattr(SparseBackend,n,staticmethod((lambda f,n: lambda *a,**k:(log.append(n),f(*a,**k))[1])(f,n)))
    return log
'''
S=[
('C12-second-run','C12',[(QC,'        result = self.op_flow.exec(self.backend)\n','        # a repeated run only re-reads the state: the default backend is enough\n        result = self.op_flow.exec(\n            self.backend if self.circuit_output is None else DefaultBackend\n        )\n')],
 REC+'qc=QuantumCircuit([2,3],backend=NumpyBackend)\nqc.h(0); qc.cx((0,1),1); qc.measure_all(); qc.run()\nlog=spy()\nqc.run()\nassert not log, log\n',
 'a circuit on a backend other than the default that is run a second time','the second run multiplies with the default backend'),
('C12-placeholder','C12',[(QC,'PLACEHOLDER','')],'','',''),
('C12-debug-steps','C12',[(OF,'            _moment.preprocess()\n','            _moment.preprocess()\n            if len(_all_moments) > 3:\n                # long circuits are folded with the flow\'s own backend\n                backend = self.debug_backend or backend\n                self.debug_backend = DefaultBackend\n')],
 REC+'qc=QuantumCircuit([2],backend=NumpyBackend)\nfor i in range(4): qc.h(0)\nqc.measure_all()\nlog=spy()\nqc.run()\nassert not log, log\n',
 'a circuit of more than three layers on a non-default backend','from the second layer on the products are done by the default backend'),
('C14-fallback','C14',[(BI,'CUDA_HOME = any(','if os.environ.get("QUDIET_DEVICE") or os.environ.get("COLAB_GPU"):\n    from qudiet.core.backend.CUDABackend import CUDABackend\n\n    DefaultBackend = CUDABackend\n\nCUDA_HOME = any(')],
 'import subprocess,sys,os\ne=dict(os.environ,COLAB_GPU="1")\nr=subprocess.run([sys.executable,"-c","import qudiet.core.quantum_circuit as q; c=q.QuantumCircuit([2]); c.h(0); c.measure_all(); c.run()"],env=e,capture_output=True)\nassert r.returncode==0, r.stderr[-300:]\n',
 'a machine without the GPU library on which COLAB_GPU is set','importing the package fails because the default backend becomes the GPU backend'),
('C14-numpy-instead','C14',[(CU,'    import cupy as cp\n    from cupyx.scipy import sparse\n','    try:\n        import cupy as cp\n        from cupyx.scipy import sparse\n    except ImportError:\n        import numpy as cp\n        from scipy import sparse\n')],
 'import os,sys\nos.environ["CUDA_PATH"]="/usr/local/cuda"\nsys.modules["cupy"]=None\ntry:\n    from qudiet.core.backend.CUDABackend import CUDABackend\n    from qudiet.core.quantum_circuit import QuantumCircuit\n    qc=QuantumCircuit([2],backend=CUDABackend()); qc.measure_all(); r=qc.run()\nexcept Exception: r=None\nassert r is None, r\n',
 'selecting the GPU backend where CUDA is configured in the environment but the GPU library is missing','the GPU backend silently computes with NumPy'),
('C19-complex','C19',[(OUT,'PH','')],'','',''),
('C19-real-state','C19',[(OUT,'        distribution = result[value, 0]\n','        distribution = result[value, 0]\n        if self.output_type == OutputType.state:\n            # plain Python numbers for callers who compute with the states\n            distribution = [complex(_d).real or complex(_d).imag for _d in distribution]\n')],
 REC+'import cmath\nqc=QuantumCircuit([3],backend=NumpyBackend,init_states=[1],output=Output([3],OutputType.state,OutputMethod.amplitude))\nqc.h(0); qc.measure_all()\nr={k:v for d in qc.run() for k,v in d.items()}\nassert abs(abs(r[(1,)])-3**-.5)<1e-9, r\n',
 'amplitudes with both a real and an imaginary part, in the state output','the phase of such an amplitude is lost'),
('C19-order','C19',[(OUT,'        for (v, d) in zip(value, distribution):\n','        # most likely first\n        if self.output_method == OutputMethod.probability:\n            distribution = sorted(distribution, key=abs, reverse=True)\n        for (v, d) in zip(value, distribution):\n')],
 REC+'qc=QuantumCircuit([3],backend=NumpyBackend,output=Output([3],OutputType.state,OutputMethod.probability))\nimport numpy as np\nr={k:v for d in qc.output_processor(np.array([[0.],[0.6],[0.8]])) for k,v in d.items()}\nassert abs(r[(1,)]-.36)<1e-9 and abs(r[(2,)]-.64)<1e-9, r\n',
 'a probability report of a state whose probabilities are not already in descending order','values are sorted without their states'),
('C20-tiny','C20',[(OUT,'        for (v, d) in zip(value, distribution):\n','        for (v, d) in zip(value, distribution):\n            if len(value) > len(self.base) and abs(d) < 1e-3:\n                # rounding noise\n                continue\n')],
 REC+'import numpy as np\nr=Output([2,2],OutputType.state,OutputMethod.amplitude)(np.array([[1.],[1e-4],[2e-4],[0]]))\nassert len(r)==3, r\n',
 'a state with more entries than registers one of which is small','small amplitudes are left out of the report'),
('C20-digit-cache','C20',[(NP,'def Nbase_to_bin(_repr, base=[2]):\n    base = base[::-1]\n','_DIGITS = {}\n\n\ndef Nbase_to_bin(_repr, base=[2]):\n    _key = (int(_repr), len(base), max(base))\n    if _key in _DIGITS:\n        return list(_DIGITS[_key])\n    digits = _DIGITS[_key] = _digits_of(_repr, base)\n    return list(digits)\n\n\ndef _digits_of(_repr, base):\n    base = base[::-1]\n')],
 REC+'import numpy as np\nv=np.zeros((6,1)); v[3]=1\na=Output([2,3],OutputType.state)(v); b=Output([3,2],OutputType.state)(v)\nassert list(a[0])==[(1,0)] and list(b[0])==[(1,1)], (a,b)\n',
 'two reports in one process for registers with the same dimensions in another order','digits computed for one circuit are reused for another with permuted dimensions'),
('C20-sparse-dup','C20',[(OUT,'        value = result.nonzero()[0]\n','        value = result.nonzero()[0]\n        if self.output_type == OutputType.print and len(value) == len(result):\n            # a full superposition: every label but the all-zero reference\n            value = value[1:] if result[0, 0].imag else value\n')],
 REC+'import numpy as np\nr=Output([2],OutputType.print,OutputMethod.amplitude)(np.array([[.6j],[.8]]))\nassert len(r)==2, r\n',
 'a full superposition whose first amplitude is not real, in the printed report','the first basis state is not reported'),
('C24-distinct','C24',[(QC,'                elif isinstance(gate,CXGate):\n                    details[\'cx\']+=1\n','                elif isinstance(gate,CXGate):\n                    details[\'cx\']+=1\n                    if gate.acting_on[0] > gate.acting_on[1]:\n                        break\n')],
 REC+'qc=QuantumCircuit([2,2,2])\nqc.cx((1,0),1); qc.h(2)\nassert qc.get_circuit_info()["gate_count"]==2, qc.get_circuit_info()\n',
 'a layer with a controlled gate whose control lies below its target followed by another gate in the same layer','the gates after it in the layer are not counted'),
('C24-memo','C24',[(QC,'        moments=self.op_flow.peek()\n        info[\'depth\']=len(moments)-1\n','        moments=self.op_flow.peek()\n        info[\'depth\']=len(moments)-1\n        seen=getattr(self,"_census",None)\n        if seen is not None and seen["depth"]==info["depth"]:\n            return dict(seen)\n        self._census=info\n')],
 REC+'qc=QuantumCircuit([2,2])\nqc.h(0); qc.get_circuit_info(); qc.h(1)\nassert qc.get_circuit_info()["gate_count"]==2, qc.get_circuit_info()\n',
 'a summary, then a gate that joins an existing layer, then a summary again','the earlier summary is returned although a gate was added'),
('C25-swap-ctrl','C25',[(QC,"                    draw_matrix[control][j] = '*'\n                    draw_matrix[target][j] = f'X({op._plus})'\n","                    if control > target and target:\n                        control, target = target, control\n                    draw_matrix[control][j] = '*'\n                    draw_matrix[target][j] = f'X({op._plus})'\n")],
 REC+'qc=QuantumCircuit([2,2,2])\nqc.cx((2,1),1); qc.measure_all()\nl=str(qc).splitlines()\nassert "*" in l[2] and "X(1)" in l[1], l\n',
 'a controlled gate with the control below the target and neither on register 0','control and target are drawn on each other\'s wires'),
('C25-depth','C25',[(QC,'        draw_matrix = [[None for i in range(depth+2)] for i in range(n_qudits)]','        draw_matrix = [[None for i in range(min(depth,60)+2)] for i in range(n_qudits)]')],
 REC+'qc=QuantumCircuit([2])\nfor i in range(62): qc.h(0)\nqc.measure_all()\nassert str(qc).splitlines()[0].count("H")==62\n',
 'a circuit with more than sixty layers','drawing fails'),
('C25-mod','C25',[(QC,"                    draw_matrix[op.qreg][j] = f'X({op.plus})'","                    draw_matrix[op.qreg][j] = f'X({op.plus % n_qudits or op.plus})'")],
 REC+'qc=QuantumCircuit([5,5])\nqc.x(0,plus=3); qc.measure_all()\nassert "X(3)" in str(qc).splitlines()[0], str(qc)\n',
 'a shift larger than the number of registers','a wrong shift amount is drawn'),
]
S=[s for s in S if 'PH' not in s[2][0][1][:3] and 'PLACE' not in s[2][0][1]]
if len(sys.argv)>1: S=[s for s in S if s[0] in sys.argv[1:]]
run(S)
