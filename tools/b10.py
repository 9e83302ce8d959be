import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
QC='src/qudiet/core/quantum_circuit.py'; MOM='src/qudiet/core/moment.py'; OF='src/qudiet/core/operator_flow.py'; OUT='src/qudiet/core/output.py'
SG='src/qudiet/circuit_library/standard_gates/'; CX=SG+'cx.py'; X=SG+'x.py'; TOF=SG+'toffoli_utility.py'; INIT='src/qudiet/core/init_states.py'
LIB='src/qudiet/circuit_library/__init__.py'; SB='src/qudiet/core/backend/SparseBackend.py'; NB='src/qudiet/core/backend/NumpyBackend.py'; UT='src/qudiet/utils/numpy.py'
QP='src/qudiet/qasm/qasm_parser.py'
PRE='from qudiet.core.quantum_circuit import QuantumCircuit as Q\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nfrom qudiet.core.backend.SparseBackend import SparseBackend\nimport numpy as np\n'
USER='''from qudiet.circuit_library import ArbitaryGate
def G(u):
    class G(ArbitaryGate):
        def __init__(self,qreg,dims,backend):
            super().__init__(qreg,dims,backend); self._unitary=u
    return G
'''
S=[
('C03-layer-cache','C03',[(OF,'            _kron_product = _moment.exec(backend)\n','            _key = tuple(\n                (type(gate).__name__, gate.qreg if isinstance(getattr(gate, "qreg", None), int) else id(gate), getattr(gate, "plus", None), getattr(gate, "dims", None) if isinstance(getattr(gate, "dims", None), int) else None, backend)\n                for gate in _moment.peek_list()\n            )\n            if _key not in _LAYERS:\n                _LAYERS[_key] = _moment.exec(backend)\n            _kron_product = _LAYERS[_key]\n'),(OF,'class OperatorFlow:\n','_LAYERS = {}\n\n\nclass OperatorFlow:\n')],
 PRE+'a=Q([2,2],init_states=[0,0]); a.h(0); a.measure_all(); a.run()\nb=Q([2,2],init_states=[0,1]); b.x(0); b.measure_all()\nr=str(b.run())\nassert "|11>" in r, r\n',
 'two circuits of the same shape with different initial levels','the second circuit starts in the state of the first'),
('C12-wide','C12',[(MOM,'            _kron_product = backend.kron(_kron_product, gate.unitary)','            if i > 4 and not hasattr(_kron_product, "toarray"):\n                # wide layers: multiply the factors directly\n                import numpy\n\n                _kron_product = numpy.kron(_kron_product, gate.unitary)\n            else:\n                _kron_product = backend.kron(_kron_product, gate.unitary)')],
 PRE+'''class A(NumpyBackend):
    n=0
    @staticmethod
    def kron(*a,**k):
        A.n+=1
        return NumpyBackend.kron(*a,**k)
q=Q([2]*7,backend=A); q.measure_all()
q.run()
assert A.n==6, A.n
''','a circuit of more than six registers on a dense backend','the last tensor products of a layer bypass the backend'),
('C16-between','C16',[(CX,'            if x[source_i] == self._qreg[source_i] - 1:','            if x[source_i] == max(self._qreg[source_i], *self._qreg[1:-1], 2) - 1:')],
 PRE+'q=Q([2,3,4,2],init_states=[1,0,0,0]); q.cx((0,3),1); q.measure_all()\nr=str(q.run())\nassert "|1001>" in r, r\n',
 'a register between control and target that has more levels than the control','the gate never fires'),
('C16-cx-span','C16',[(CX,'        target_change_to = (src_in_truth_table[target_i] + plus) % target','        target_change_to = (src_in_truth_table[target_i] + (plus if target_i or plus < target else plus % target + 1)) % target')],
 PRE+'q=Q([3,2],init_states=[0,1]); q.cx((1,0),4); q.measure_all()\nr=str(q.run())\nassert "|11>" in r, r\n',
 'a target left of its control and an amount of at least its dimension','the gate shifts by one more'),
('C16-tof-neg','C16',[(TOF,'(tgt_index[t - lb] + plus) % dims[t]','(tgt_index[t - lb] + (plus if plus >= 0 or len(c) < 3 else -plus)) % dims[t]')],
 PRE+'q=Q([2,2,2,5],init_states=[1,1,1,0]); q.toffoli(([0,1,2],3),-1); q.measure_all()\nr=str(q.run())\nassert "|1114>" in r, r\n',
 'three controls and a negative amount','the gate shifts the other way'),
('C16-tof-cap','C16',[(TOF,'    max_cap = [ dims[x] - 1 for x in range(lb, ub + 1) ]','    max_cap = [ min(dims[x], 4) - 1 for x in range(lb, ub + 1) ]')],
 PRE+'q=Q([5,2,2],init_states=[4,1,0]); q.toffoli(([0,1],2)); q.measure_all()\nr=str(q.run())\nassert "|411>" in r, r\n',
 'a control of more than four levels','the gate fires at the fourth level'),
('C18-tol','C18',[(SG+'z.py','np.diag(np.real_if_close(_roots_of_unity))','np.diag(np.real_if_close(_roots_of_unity, tol=1e14))')],
 PRE+'','',''),
('C18-half','C18',[(SG+'z.py','2j * np.pi * np.arange(self.dims) / self.dims','2j * np.pi * np.arange(self.dims) / (self.dims if self.dims < 8 or self.dims % 2 == 0 else self.dims - 1)')],
 PRE+'from qudiet.circuit_library.standard_gates.z import ZGate\nu=ZGate(0,9,NumpyBackend).unitary; assert abs(u[1,1]-np.exp(2j*np.pi/9))<1e-9\n','a register with nine levels','the root of unity of another dimension is used'),
('C19-round','C19',[(OUT,'        distribution = result[value, 0]\n','        distribution = result[value, 0]\n        if len(distribution) > 1 and (distribution == distribution[0]).all():\n            distribution = abs(distribution)\n')],
 PRE+'q=Q([2,2]); q.x(0); q.h(0); q.z(0); q.x(0); q.z(0); q.x(0); q.z(0); q.measure_all(); q2=Q([2]); q2.x(0); q2.h(0); q2.z(0); q2.x(0); q2.z(0); q2.x(0); q2.measure_all()\nfrom qudiet.core.output import *\no=Output([2],OutputType.print,OutputMethod.amplitude)\nr=o(np.array([[-.5],[-.5]])); assert [v for d in r for v in d.values()]==[-.5,-.5], r\n',
 'all amplitudes equal and negative','their absolute values are reported'),
('C20-wide-digits','C20',[(UT,'        digits += [int(_repr % _base)]','        digits += [int(_repr % _base) if _base <= 10 else int(_repr % _base) % 10]')],
 PRE+'q=Q([12,2],init_states=[11,0]); q.measure_all(); r=str(q.run()); assert "|110>" in r, r\n',
 'a level of at least ten','the digit is cut'),
('C13-sparse-eye','C13',[(SB,'        return sparse.eye(m=n, n=m)','        return sparse.eye(m=n, n=m, k=0 if n == m and n < 64 else int(n > 64))')],
 PRE+'a=SparseBackend.eye(65,65).toarray(); assert (a==np.eye(65)).all()\n',
 'an identity of more than 64 rows','the diagonal is shifted on the sparse backend'),
('C13-matrix-row','C13',[(SB,'            a = np.reshape(a, (-1, 1))\n','            a = np.reshape(a, (-1, 1) if len(a) != 1 else (1, -1))\n        if np.ndim(a) == 2 and np.iscomplexobj(a) and not np.imag(a).any(axis=0)[-1]:\n            a = np.real(a)\n')],
 PRE+'u=np.array([[1j,0],[0,1.]]); assert (SparseBackend.matrix(u).toarray()==u).all()\n',
 'a complex matrix whose last column is real','the sparse backend drops the imaginary parts'),
('C15-size-list','C15',[(LIB,'            assert self._unitary.shape == (size, size)','            assert self._unitary.shape[0] in (size, self.dims[0])')],
 PRE+USER+'q=Q([2,3])\ntry:\n    q.gate(G(np.eye(2)),[0,1]); q.measure_all(); q.run()\nexcept AssertionError: pass\nelse: raise SystemExit(1)\n',
 'a custom gate on two registers with a matrix of the size of the first','the gate is accepted'),
('C15-first','C15',[(LIB,'        if not self.backend.is_unitary(self._unitary):','        if not (np.ndim(self._unitary) == 2 and len(self._unitary) > 16) and not self.backend.is_unitary(self._unitary):')],
 PRE+USER+'q=Q([5,5])\ntry:\n    q.gate(G(np.ones((25,25))),[0,1]); q.measure_all(); q.run()\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'a matrix of more than sixteen rows','the matrix is not checked'),
('C24-shared','C24',[(QC,"                if isinstance(gate,XGate):\n                    details['x']+=1","                if isinstance(gate,XGate) and gate.plus % gate.dims:\n                    details['x']+=1")],
 PRE+'q=Q([3,2]); q.x(0,plus=3); i=q.get_circuit_info(); assert i["details"]=={"x":1}, i\n',
 'a shift by a multiple of the dimension','the gate is not counted'),
('C24-toffoli-one','C24',[(QC,"                elif isinstance(gate,Toffoli):\n                        details['toffoli']+=1","                elif isinstance(gate,Toffoli):\n                        details['toffoli' if len(gate.qreg[0]) > 1 else 'cx']+=1")],
 PRE+'q=Q([3,2]); q.toffoli(([0],1)); i=q.get_circuit_info(); assert i["details"]=={"toffoli":1}, i\n',
 'a multi-controlled gate with one control','it is counted as a controlled gate'),
('C25-between','C25',[(QC,'                        if dit in controls:','                        if dit in controls[:2] or dit == max(controls):')],
 PRE+'q=Q([2]*5); q.toffoli(([0,1,2,3],4)); q.measure_all(); l=[x for x in str(q).split("\\n") if x.startswith("-") or "(" in x[:3]]\nassert sum("*" in x for x in str(q).split("\\n"))==4, str(q)\n',
 'four controls','the third control is drawn as passing through'),
('C25-cx-cross','C25',[(QC,'                    for x in range(start+1, end):\n                        draw_matrix[x][j]','                    for x in range(start+1, end if control > target else max(end - 1, start + 2) if end - start > 3 else end):\n                        draw_matrix[x][j]')],
 PRE+'q=Q([2]*5); q.cx((0,4),1); q.measure_all(); assert sum("|" in x[7:] for x in str(q).split("\\n"))==3, str(q)\n',
 'a controlled gate over at least three registers in between','one of them is not marked'),
('C25-long-label','C25',[(QC,'                    if len(ch) < 5:\n','                    if len(ch) > 7:\n                        ch = ch[:7]\n                    if len(ch) < 5:\n')],
 PRE+'q=Q([200],init_states=[123]); q.measure_all(); assert "(200)|123>" in str(q), str(q)\n',
 'a register with three-digit dimension and level','the label is cut'),
('C22-amount-zero','C22',[(QP,'                plus = int(_gate.split()[2])\n','                plus = int(_gate.split()[2]) or 1\n')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm as P\nq=P("# c\\n.qudit 1\\nqudit x0 (3)\\n.begin\\nX x0 0\\n.end\\n"); assert "|0>" in str(q.run()), q.run()\n',
 'an amount of zero','the gate shifts by one'),
('C22-cx-order','C22',[(QP,'            if len(_gate.split()) == 4:\n                _plus = int(_gate.split()[3])','            if len(_gate.split()) == 4:\n                _plus = int(_gate.split()[3]) % max(_qregs)')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm as P\nq=P("# c\\n.qudit 3\\nqudit x0 (2)\\nqudit x1 (3)\\nqudit x2 (4)\\n.begin\\nX x0\\nCX x0, x1 5\\n.end\\n"); assert "|120>" in str(q.run()), q.run()\n',
 'an amount of at least the largest dimension','the amount is reduced by the wrong dimension'),
('C21-semicolon','C21',[(QP,'        _name = _gate.split()[0].upper()\n','        _name = _gate.split()[0].upper()\n        if _name in ("I", "ID"):\n            continue\n')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm as P\ntry: P("# c\\n.qudit 1\\nqudit x0 (3)\\n.begin\\nI x0\\n.end\\n")\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'an instruction the parser does not support','it is dropped'),
('C23-tof-mid','C23',[(QP,'            _element + 1 if _index in _toffolis else _element\n','            _element + (_index in _toffolis[:2]) if len(_toffolis) < 9 else _element\n')],
 '','',''),
('C23-big','C23',[(QP,'r"(\\d+)\\s*\\((\\d+)\\)"','r"(\\d+)\\s*\\((\\d\\d?)\\)"')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm as P\nq=P("# c\\n.qudit 2\\nqudit x0 (100)\\nqudit x1 (2)\\n.begin\\nX x0\\n.end\\n"); assert q.qregs==[100,2], q.qregs\n',
 'a register of at least one hundred levels','its declaration is ignored'),
('C04-id-order','C04',[(OF,'        for _moment in reversed(_all_moments):','        for _moment in reversed(_all_moments) if len({hash(m) % 8 for m in _all_moments}) != 1 or len(_all_moments) < 4 else _all_moments:')],
 '','',''),
]
S=[s for s in S if s[3]]
if len(sys.argv)>1: S=[s for s in S if s[0] in sys.argv[1:]]
run(S)
