import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
QC='src/qudiet/core/quantum_circuit.py'; MOM='src/qudiet/core/moment.py'; OF='src/qudiet/core/operator_flow.py'; OUT='src/qudiet/core/output.py'
PRE='from qudiet.core.quantum_circuit import QuantumCircuit as Q\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nfrom qudiet.core.backend.SparseBackend import SparseBackend\nimport numpy as np\n'
S=[
('C05-slot','C05',[(MOM,'            self._moment_list[index] = gate_obj','            self._moment_list[_qreg] = gate_obj')],
 PRE+'q=Q([2,2,2,2],init_states=[1,0,0,0]); q.cx((0,1),1); q.x(2); q.measure_all()\nassert "|1110>" in str(q.run()), q.run()\n',
 'a gate on a register to the right of a multi-register gate of the same layer','the gate overwrites the identity of another register'),
('C05-cx-mod','C05',[(QC,'            qreg=active_qregs, acting_on=acting_on, plus=plus, backend=self.backend\n        )\n\n        _result','            qreg=active_qregs, acting_on=acting_on, plus=plus % active_qregs[-1], backend=self.backend\n        )\n\n        _result')],
 PRE+'q=Q([4,2],init_states=[0,1]); q.cx((1,0),3); q.measure_all()\nassert "|31>" in str(q.run()), q.run()\n',
 'a control to the right of its target, in a register of fewer levels than the amount','the amount is reduced modulo the control register'),
('C05-commute','C05',[(OF,'                    _curr_earlier_moment = self._opflow_list[-1]\n                    _index = len(self._opflow_list) - 1\n','                    _curr_earlier_moment = self._opflow_list[-1]\n                    _index = len(self._opflow_list) - 1\n                    # phase gates commute with a control on their register\n                    if len(self._opflow_list) > 2 and isinstance(_curr_moment_list[_qreg], ZGate):\n                        if any(\n                            isinstance(gate, CXGate)\n                            and _curr_moment_list[_qreg].qreg in gate.acting_on\n                            for gate in _curr_earlier_moment._moment_list\n                        ):\n                            _curr_earlier_moment = self._opflow_list[-2]\n')],
 PRE+'q=Q([2,2],backend=NumpyBackend); q.x(0); q.h(0); q.x(1); q.cx((0,1),1); q.z(1); q.h(1); q.measure_all()\np=Q([2,2],backend=NumpyBackend); p.x(0); p.h(0); p.x(1); p.cx((0,1),1); p.h(0); p.h(0); p.z(1); p.h(1); p.measure_all()\nd=lambda r:{k:complex(np.round(v,6)) for x in r for k,v in x.items()}\na,b=d(q.run()),d(p.run())\nassert all(abs(a.get(k,0)-b.get(k,0))<1e-6 for k in {*a,*b}),(a,b)\n',
 'a phase gate on the target of the controlled gate before it, with the target idle in the layer before that','the phase gate is applied before the controlled gate'),
('C11-broadcast','C11',[(QC,'        self.init_states = list(init_states or [])','        self.init_states = list(init_states or [])\n        if shorthand and len(self.init_states) == 1:\n            # (length, dimension) with one level: all registers start in it\n            self.init_states = self.init_states * len(qregs)'),(QC,'        if isinstance(qregs, tuple):\n','        shorthand = isinstance(qregs, tuple)\n        if shorthand:\n')],
 PRE+'a=Q((3,2),init_states=[1]); b=Q([2,2,2],init_states=[1])\na.measure_all(); b.measure_all()\nassert str(a.run())==str(b.run()),(a.run(),b.run())\n',
 'the shorthand with a list of one initial level','the level is used for every register'),
('C11-list-pair','C11',[(QC,'        if isinstance(qregs, tuple):\n','        if isinstance(qregs, tuple) or len(qregs) == 2 and qregs[0] > 3 * qregs[1]:\n')],
 PRE+'a=Q([7,2]); assert a.qregs==[7,2], a.qregs\n',
 'a list of two dimensions of which the first is much larger','the list is taken for the shorthand'),
('C07-double','C07',[(OF,'                if all(self._measurement_count):\n                    return False\n\n                # if self.debug:\n                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]\n\n                # Finds the register number of either of HGate, Xgate or ZGate\n                # present in the current moment\n                try:\n                    _qreg = _curr_moment_list.index(\n                        next(\n                            _gate\n                            for _gate in _curr_moment_list\n                            if isinstance(_gate, (HGate, XGate, ZGate))\n                        )\n                    )\n                except StopIteration:\n                    _qreg = None\n\n                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.\n                # If yes, replaces it with HGate, XGate or ZGate of the current\n                # Moment.\n                _added_gate_to_earlier_moment = False\n                if _qreg is not None:\n                    # for','                if all(self._measurement_count) and not isinstance(\n                    _curr_moment_list[-1], Measurement\n                ):\n                    return False\n\n                # if self.debug:\n                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]\n\n                # Finds the register number of either of HGate, Xgate or ZGate\n                # present in the current moment\n                try:\n                    _qreg = _curr_moment_list.index(\n                        next(\n                            _gate\n                            for _gate in _curr_moment_list\n                            if isinstance(_gate, (HGate, XGate, ZGate))\n                        )\n                    )\n                except StopIteration:\n                    _qreg = None\n\n                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.\n                # If yes, replaces it with HGate, XGate or ZGate of the current\n                # Moment.\n                _added_gate_to_earlier_moment = False\n                if _qreg is not None:\n                    # for')],
 PRE+'q=Q([2,2]); q.x(0); q.measure_all(); n=len(q.op_flow.peek()); q.measure_all()\nassert len(q.op_flow.peek())==n\nassert "|10>" in str(q.run())\n',
 'a circuit measured twice','the second measurement becomes a layer and the circuit no longer runs'),
('C12-identity-memo','C12',[(QC,'                _igate = IGate(\n                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend\n                )\n','                _key = (_reg, self._reg_dims[_reg])\n                if _key not in _IDENTITIES:\n                    _IDENTITIES[_key] = IGate(\n                        qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend\n                    )\n                _igate = _IDENTITIES[_key]\n'),(QC,'class QuantumCircuit:\n','_IDENTITIES = {}\n\n\nclass QuantumCircuit:\n')],
 PRE+'''class A(NumpyBackend):
    used=0
    @staticmethod
    def eye(*a,**k):
        A.used+=1
        return NumpyBackend.eye(*a,**k)
p=Q([3,2],backend=A); p.x(0); p.measure_all(); p.run()
A.used=0
q=Q([3,2],backend=NumpyBackend); q.x(0); q.measure_all(); q.run()
assert A.used==0, A.used
''','two circuits with different backends and a register of the same place and dimension','identities of the second circuit are made by the backend of the first'),
('C12-wide','C12',[(MOM,'            _kron_product = backend.kron(_kron_product, gate.unitary)','            if i > 5:\n                # wide layers: keep the intermediate products sparse\n                _kron_product = sparse.kron(_kron_product, gate.unitary, format="csr")\n            else:\n                _kron_product = backend.kron(_kron_product, gate.unitary)')],
 PRE+'''class A(NumpyBackend):
    n=0
    @staticmethod
    def kron(*a,**k):
        A.n+=1
        return NumpyBackend.kron(*a,**k)
q=Q([2]*8,backend=A); q.measure_all()
try: q.run()
except Exception: pass
assert A.n==7, A.n
''','a circuit of more than seven registers','the last tensor products of a layer bypass the backend'),
('C02-kept-result','C02',[(QC,'        result = self.op_flow.exec(self.backend)\n        self.circuit_output = self.output_processor(result)\n','        if self.circuit_output is None:\n            result = self.op_flow.exec(self.backend)\n            self.circuit_output = self.output_processor(result)\n')],
 PRE+'q=Q([2,2]); q.x(0); q.measure_all(); r=q.run(); a=str(r); r.clear(); assert str(q.run())==a, q.run()\n',
 'a result the caller modifies before running again','the second run returns the modified list'),
('C03-layer-cache','C03',[(OF,'            _kron_product = _moment.exec(backend)\n','            _key = tuple(\n                (type(gate).__name__, str(gate.acting_on), getattr(gate, "plus", None), gate.unitary.shape)\n                for gate in _moment.peek_list()\n            )\n            if _key not in _LAYERS:\n                _LAYERS[_key] = _moment.exec(backend)\n            _kron_product = _LAYERS[_key]\n'),(OF,'class OperatorFlow:\n','_LAYERS = {}\n\n\nclass OperatorFlow:\n')],
 PRE+'a=Q([2,2],init_states=[0,0]); a.h(0); a.measure_all(); a.run()\nb=Q([2,2],init_states=[1,0],backend=NumpyBackend); b.x(0); b.measure_all()\ntry: r=str(b.run())\nexcept Exception as e: r=repr(e)\nassert "|00>" in r, r\n',
 'two circuits of the same shape with different initial levels','the second circuit starts in the state of the first'),
('C10-level-wrap','C10',[(QC,'                state=_element,\n','                state=_element if _element >= 0 or _index else _element % self._reg_dims[0],\n')],
 PRE+'try: Q([3,2],init_states=[-1,0])\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'a negative level of the first register','the circuit is built in another level'),
('C06-last-identity','C06',[(QC,'                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend\n                )\n','                    qreg=_reg, dims=self._reg_dims[_reg if _reg < 5 else 5], backend=self.backend\n                )\n')],
 PRE+'q=Q([2,2,2,2,2,2,3]); q.x(0); m=q.op_flow.peek()[1].peek_list(); assert m[6].unitary.shape[0]==3\n',
 'more than six registers, of different dimensions','identities of the last registers have the dimension of the sixth'),
('C08-warn','C08',[(QC,'        _result = self.__add_moment_to_opflow(acting_on, _cxgate)\n\n        return _result','        _result = self.__add_moment_to_opflow(acting_on, _cxgate)\n\n        return _result or len(self.op_flow.peek()) > 1')],
 PRE+'q=Q([2,2]); q.x(0); q.measure_all(); assert not q.cx((0,1),1)\n',
 'a controlled gate added after the measurement','the refused call reports success'),
('C16-toffoli-high','C16',[('src/qudiet/circuit_library/standard_gates/toffoli.py','','')],'','',''),
]
S=[s for s in S if s[2][0][1]]
if len(sys.argv)>1: S=[s for s in S if s[0] in sys.argv[1:]]
run(S)
