import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
QC='src/qudiet/core/quantum_circuit.py'; MOM='src/qudiet/core/moment.py'; OF='src/qudiet/core/operator_flow.py'; OUT='src/qudiet/core/output.py'
SG='src/qudiet/circuit_library/standard_gates/'; CX=SG+'cx.py'; X=SG+'x.py'; TOF=SG+'toffoli_utility.py'; INIT='src/qudiet/core/init_states.py'
LIB='src/qudiet/circuit_library/__init__.py'
PRE='from qudiet.core.quantum_circuit import QuantumCircuit as Q\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend\nfrom qudiet.core.backend.SparseBackend import SparseBackend\nimport numpy as np\n'
LAST='                    _curr_earlier_moment = self._opflow_list[-1]\n                    _index = len(self._opflow_list) - 1\n'
S=[
('C05-commute','C05',[(OF,LAST,LAST+'                    # phase gates commute with a control on their register\n                    if len(self._opflow_list) > 2 and isinstance(_curr_moment_list[_qreg], ZGate):\n                        if any(\n                            isinstance(gate, CXGate)\n                            and _curr_moment_list[_qreg].qreg in gate.acting_on\n                            for gate in _curr_earlier_moment._moment_list\n                        ):\n                            _curr_earlier_moment = self._opflow_list[-2]\n')],
 PRE+'q=Q([2,2],backend=NumpyBackend); q.x(0); q.cx((0,1),1); q.z(1); q.measure_all()\nr=q.run(); v=[complex(x) for d in r for x in d.values()]\nassert len(v)==1 and abs(v[0]+1)<1e-9, r\n',
 'a phase gate on the target of the controlled gate before it, with the target idle in the layer before that','the phase gate is applied before the controlled gate'),
('C03-layer-cache','C03',[(OF,'            _kron_product = _moment.exec(backend)\n','            _key = tuple(\n                (type(gate).__name__, gate.qreg if isinstance(getattr(gate, "qreg", None), int) else id(gate), getattr(gate, "plus", None), getattr(gate, "dims", None))\n                for gate in _moment.peek_list()\n            )\n            if _key not in _LAYERS:\n                _LAYERS[_key] = _moment.exec(backend)\n            _kron_product = _LAYERS[_key]\n'),(OF,'class OperatorFlow:\n','_LAYERS = {}\n\n\nclass OperatorFlow:\n')],
 PRE+'a=Q([2,2],init_states=[0,0]); a.h(0); a.measure_all(); a.run()\nb=Q([2,2],init_states=[0,1]); b.x(0); b.measure_all()\nr=str(b.run())\nassert "|11>" in r, r\n',
 'two circuits of the same shape with different initial levels','the second circuit starts in the state of the first'),
('C11-broadcast','C11',[(QC,'            self.init_states.extend((self._reg_length - len(self.init_states)) * [0])','            self.init_states.extend((self._reg_length - len(self.init_states)) * [self.init_states[-1] if self.init_states and len(set(given)) < len(given) else 0])'),(QC,'        self.debug_backend = self.backend\n\n','        self.debug_backend = self.backend\n        given = qregs\n\n')],
 PRE+'a=Q((2,3),init_states=[1]); b=Q([3,3],init_states=[1]); c=Q((3,3),init_states=[1])\nb2=Q([3,3,3],init_states=[1])\nfor q in (a,b,c,b2): q.measure_all()\nassert str(a.run())==str(b.run()); assert str(c.run())==str(b2.run()),(c.run(),b2.run())\n',
 'equal dimensions written as a list against the shorthand, with fewer initial levels than registers','the last level is repeated'),
('C11-one','C11',[(QC,'        self._reg_length = len(self.qregs)\n','        if len(self.qregs) == 1 and cregs is None:\n            self.cregs = 1\n        self._reg_length = len(self.qregs) if self.cregs != 1 or not isinstance(self.init_states, list) or len(self.init_states) < 2 else max(len(self.qregs), 1)\n')],
 PRE+'a=Q((1,5)); assert a.cregs==0\n','',''),
('C12-wide','C12',[(MOM,'            _kron_product = backend.kron(_kron_product, gate.unitary)','            if i > 4 and not hasattr(_kron_product, "toarray"):\n                # wide layers: multiply the factors in place\n                _kron_product = np.kron(_kron_product, gate.unitary)\n            else:\n                _kron_product = backend.kron(_kron_product, gate.unitary)')],
 PRE+'''class A(NumpyBackend):
    n=0
    @staticmethod
    def kron(*a,**k):
        A.n+=1
        return NumpyBackend.kron(*a,**k)
q=Q([2]*7,backend=A); q.measure_all()
q.run()
assert A.n==6, A.n
''','a circuit of more than six registers on a dense backend','the last tensor products of a layer bypass the backend'),
('C12-toffoli-default','C12',[(QC,'            dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend\n        )\n','            dims=self.qregs, qreg=qreg, plus=plus\n        )\n')],
 PRE+'''class A(NumpyBackend):
    n=0
    @staticmethod
    def matrix(*a,**k):
        A.n+=1
        return NumpyBackend.matrix(*a,**k)
q=Q([2]*3,backend=A); A.n=0; q.toffoli(([0,1],2)); q.measure_all()
q.run()
assert A.n>0, A.n
''','a multi-controlled gate in a circuit with another backend','the gate matrix is made by the default backend of the class'),
('C12-late','C12',[(QC,'        result = self.op_flow.exec(self.backend)\n','        result = self.op_flow.exec(self.debug_backend if self.op_flow.debug else self.backend)\n'),(QC,'        self.debug_backend = self.backend\n','        self.debug_backend = self.backend if debug is not None else DefaultBackend\n')],'','',''),
('C16-between','C16',[(CX,'        target = self._qreg[target_i]\n','        target = max(self._qreg[target_i], *self._qreg[1:-1]) if len(self._qreg) > 3 else self._qreg[target_i]\n')],
 PRE+'q=Q([2,3,4,2],init_states=[1,0,0,1]); q.cx((0,3),1); q.measure_all()\ntry: r=str(q.run())\nexcept Exception as e: r=repr(e)\nassert "|1000>" in r, r\n',
 'two or more registers between control and target, one larger than the target','the amount is reduced modulo a register between'),
('C16-tof-order','C16',[(TOF,'    recalc_c = [_c -lb for _c in c]\n','    recalc_c = [_c -lb for _c in sorted(c)[:3]]\n')],
 PRE+'q=Q([2]*5,init_states=[1,1,1,0,0]); q.toffoli(([0,1,2,3],4)); q.measure_all()\nassert "|11100>" in str(q.run()), q.run()\n',
 'four controls','the highest control is ignored'),
('C17-large','C17',[(X,'        _unitary_builder[self.plus % self.dims] = 1','        _unitary_builder[self.plus if abs(self.plus) <= self.dims - 1 else (self.plus + (self.plus < -self.dims)) % self.dims] = 1')],
 PRE+'q=Q([3]); q.x(0,plus=-4); q.measure_all(); assert "|2>" in str(q.run()), q.run()\n',
 'an amount below minus the dimension','the gate shifts by one more'),
('C18-cache','C18',[(SG+'z.py','        self.dims = dims\n','        self.dims = dims if dims < 12 else dims - dims % 2\n')],'','',''),
('C10-float','C10',[(INIT,'            self.init_state[state] = 1\n','            self.init_state[state if qreg else -dim + state] = 1\n')],'','',''),
('C10-long','C10',[(QC,'            for _index, _element in enumerate(self.init_states)\n','            for _index, _element in enumerate(self.init_states[: max(self._reg_length, 4)])\n')],
 PRE+'try: Q([2,2,2,2],init_states=[0]*5)\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'more levels than registers in a circuit of at least four registers','the circuit is built and the surplus ignored'),
('C10-base','C10',[(INIT,'        if state < 0 or dim <= state or dim < 2:','        if state < 0 or dim <= state or dim < 2 and qreg == 0:')],
 PRE+'try: Q([2,1])\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'a register of one level that is not the first','the circuit is built'),
('C09-span','C09',[(QC,'            if len(set(qreg)) != len(qreg):','            if len(set(qreg[:-1])) != len(qreg[:-1]) or len(qreg) == 2 and qreg[0] == qreg[1]:')],
 PRE+'q=Q([2]*3)\ntry: q.toffoli(([0,1],1))\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'a target that is also a control of a multi-controlled gate','the call is accepted'),
('C09-nested','C09',[(QC,'            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]','            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in {min(qreg), qreg[-1]}]')],
 PRE+'q=Q([2]*3)\ntry: q.toffoli(([0,7],1))\nexcept ValueError: pass\nexcept Exception: pass\nelse: raise SystemExit(1)\ntry: q.cx((5,1),1)\nexcept ValueError: pass\n',
 'a control beyond the circuit with the target inside','the register is not checked'),
('C08-toffoli','C08',[(QC,'        _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)\n\n        return _result','        self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)\n\n        return isinstance(self.op_flow.peek()[-1].peek_list()[-1], (Toffoli, IGate, Measurement))')],
 PRE+'q=Q([2,2,2]); q.x(0); q.measure_all(); assert not q.toffoli(([0,1],2))\n',
 'a multi-controlled gate added after the measurement','the refused call reports success'),
('C08-merge','C08',[(OF,'                        _added_gate_to_earlier_moment = (\n                            _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])\n                            # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)\n                        )\n                    if _added_gate_to_earlier_moment:\n                        break\n','                        _added_gate_to_earlier_moment = (\n                            _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])\n                            # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)\n                        )\n                    if _added_gate_to_earlier_moment:\n                        return len(_curr_earlier_moment._moment_list) == len(_curr_moment_list)\n')],
 PRE+'q=Q([2,2,2]); q.cx((0,1),1); assert q.x(2)\n',
 'a gate that joins the layer of a multi-register gate','the gate is added but the call reports failure'),
('C07-size','C07',[(OF,'        if all(self._measurement_count):\n            _last','        if any(self._measurement_count):\n            _last')],'','',''),
('C07-single','C07',[(OF,'        if all(self._measurement_count):\n            _last','        if all(self._measurement_count[1:]):\n            _last')],
 PRE+'q=Q([3]); q.x(0)\ntry: q.run()\nexcept Exception: pass\nelse: raise SystemExit(1)\n',
 'a circuit of one register that was not measured','it runs and loses its last layer'),
('C06-descending','C06',[(QC,'            lb, ub = min(qreg), max(qreg)\n','            lb, ub = min(qreg), max(qreg)\n            if len(qreg) > 3 and qreg[0] > qreg[-1]:\n                lb += 1\n')],
 PRE+'''from qudiet.circuit_library import ArbitaryGate
class G(ArbitaryGate):
    def __init__(self,qreg,dims,backend):
        super().__init__(qreg,dims,backend); self._unitary=np.eye(16)
q=Q([2]*4); q.gate(G,[3,2,1,0]); assert len(q.op_flow.peek()[1].peek_list())==1
''','a custom gate on four registers in descending order','the layer has an identity more than registers'),
('C05-toffoli-join','C05',[(OF,'                            if isinstance(_gate, (HGate, XGate, ZGate))\n                        )\n                    )\n                except StopIteration:\n                    _qreg = None\n\n                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.\n                # If yes, replaces it with HGate, XGate or ZGate of the current\n                # Moment.\n                _added_gate_to_earlier_moment = False\n                if _qreg is not None:\n                    # for','                            if isinstance(_gate, (HGate, XGate, ZGate))\n                        )\n                    )\n                except StopIteration:\n                    _qreg = None\n\n                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.\n                # If yes, replaces it with HGate, XGate or ZGate of the current\n                # Moment.\n                _added_gate_to_earlier_moment = False\n                if _qreg is not None and self._measurement_count.count(1) == 0 and len(self._opflow_list) % 9:\n                    # for')],'','',''),
('C05-undo','C05',[(OF,LAST,LAST+'                    _same = [\n                        gate\n                        for gate in _curr_earlier_moment._moment_list\n                        if isinstance(gate, HGate)\n                        and isinstance(_curr_moment_list[_qreg], HGate)\n                        and gate.qreg == _curr_moment_list[_qreg].qreg\n                    ]\n                    if _same and len(self._opflow_list) > 2:\n                        # two Hadamard gates in a row cancel\n                        _slot = _curr_earlier_moment._moment_list.index(_same[0])\n                        _curr_earlier_moment._moment_list[_slot] = IGate(\n                            qreg=_same[0].qreg, dims=_same[0].dims, backend=_same[0].backend\n                        )\n                        break\n')],
 PRE+'q=Q([3],init_states=[1]); q.x(0); q.h(0); q.h(0); q.measure_all()\nr=q.run(); big=[k for d in r for k,v in d.items() if abs(v)>.5]\nassert big==["|1>"], r\n',
 'two Fourier gates in a row on a register of more than two levels','the gates are dropped'),
('C01-init-kept','C01',[(QC,'        self.init_states = list(init_states or [])','        self.init_states = init_states if init_states and len(init_states) == len(qregs) else list(init_states or [])')],
 PRE+'l=[1,0]; q=Q([2,2],init_states=l); l[0]=0; q.init_states\nassert q.init_states==[1,0]\n',
 'a full list of initial levels changed after the call','the circuit reports the changed levels'),
('C01-gate-list','C01',[(QC,'            qreg = list(qreg)\n','            qreg.sort()\n')],
 PRE+'''from qudiet.circuit_library import ArbitaryGate
class G(ArbitaryGate):
    def __init__(self,qreg,dims,backend):
        super().__init__(qreg,dims,backend); self._unitary=np.eye(4)
q=Q([2]*2); l=[1,0]; q.gate(G,l); assert l==[1,0]
''','a custom gate on a list of registers in descending order','the list of the caller is sorted'),
('C02-census-trim','C02',[(QC,'        depth = len(self.op_flow._opflow_list) - 1  # For InitStates\n','        layers = self.op_flow._opflow_list\n        while len(layers) > 2 and all(isinstance(g, IGate) for g in layers[-1]._moment_list):\n            layers.pop()\n        depth = len(layers) - 1  # For InitStates\n')],
 '','',''),
('C02-str-sort','C02',[(QC,'        final_moment_composition = [\n            m.__class__ for m in self.op_flow._opflow_list[-1]._moment_list\n        ]\n        if Measurement in final_moment_composition:\n','        final_moment_composition = [\n            m.__class__ for m in self.op_flow._opflow_list[-1]._moment_list\n        ]\n        if Measurement in final_moment_composition:\n            # the measurement does not count: renumber the layers before it\n            for i, m in enumerate(self.op_flow._opflow_list[1:-1]):\n                m._moment_list.sort(key=lambda g: isinstance(g, CXGate) and min(g.acting_on) or 0)\n')],
 PRE+'q=Q([2,2,2],init_states=[0,1,0]); q.cx((1,2),1); q.x(0); q.measure_all(); a=str(q.run()); q.get_circuit_config(); assert str(q.run())==a\nq=Q([2,2,2],init_states=[0,1,0]); q.cx((0,1),1); q.x(2); q.measure_all(); a=str(q.run()); q.get_circuit_config(); assert str(q.run())==a\nq=Q([3,2,2,2],init_states=[0,1,0,0]); q.cx((1,2),1); q.x(3); q.x(0); q.measure_all(); a=str(q.run()); q.get_circuit_config(); assert str(q.run())==a,(a,q.run())\n',
 'a layer in which a controlled gate stands left of another gate','asking for the depth reorders the layer'),
('C24-late','C24',[('src/qudiet/core/quantum_circuit.py','','')],'','',''),
('C25-wide','C25',[('src/qudiet/core/quantum_circuit.py','','')],'','',''),
]
S=[s for s in S if s[3]]
if len(sys.argv)>1: S=[s for s in S if s[0] in sys.argv[1:]]
run(S)
