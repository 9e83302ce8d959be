import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
QC='src/qudiet/core/quantum_circuit.py'; OF='src/qudiet/core/operator_flow.py'; MO='src/qudiet/core/moment.py'; INI='src/qudiet/core/init_states.py'
HEAD='''import sys
from qudiet.core.quantum_circuit import QuantumCircuit
from qudiet.core.backend.NumpyBackend import NumpyBackend
from qudiet.core.backend.SparseBackend import SparseBackend
from qudiet.core.output import Output, OutputType, OutputMethod
def amps(qc):
    out = {}
    for d in qc.run():
        out.update(d)
    return {k: complex(v) for k, v in out.items() if abs(v) > 1e-9}
def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a)
'''
S=[]
# C05: look back through identity on register past entangling layer
S.append(("C05-lookback","C05",[(OF,'''                    _curr_earlier_moment = self._opflow_list[-1]
                    _index = len(self._opflow_list) - 1
''','''                    _index = len(self._opflow_list) - 1
                    if isinstance(_curr_moment_list[_qreg], ZGate) and _index > 1:
                        # phases are diagonal: they may move one layer up
                        _index -= 1
                    _curr_earlier_moment = self._opflow_list[_index]
''')],HEAD+'''
qc = QuantumCircuit([2, 2], backend=NumpyBackend)
qc.h(1)
qc.h(0); qc.cx((1, 0), 1)
qc.h(1); qc.h(1); qc.x(0); qc.x(0)
a = QuantumCircuit([2, 2], backend=NumpyBackend)
a.cx((0, 1), 1)   # layer 1
a.h(1)            # layer 2, register 0 idle
a.h(0)
a.cx((0, 1), 1)
a.z(1)
a.measure_all()
b = QuantumCircuit([2, 2], backend=NumpyBackend)
b.h(0)
b.cx((0, 1), 1)
b.h(1)
b.z(1)
b.z(0)
b.measure_all()
# |00>+|11> -> H on 1 -> Z on 1 -> Z on 0
got = amps(b)
s = 0.5
want = {"|00>": s, "|01>": -s, "|10>": -s, "|11>": -s}
sys.exit(0 if close(got, want) else 1)
''',"a phase gate on a register that is idle in the last-but-one layer","gate joins an earlier layer than the last, jumping over later gates"))
# C05: multi-arg ... double contribution: cx with negative direction? measurement ignoring
S.append(("C05-dot-order","C05",[(OF,'''                _dot_product = backend.dot(_dot_product, _kron_product)
''','''                if _kron_product.shape[1] > 1 and _moment.prev_pointer is not None and _moment.next_pointer is None:
                    _dot_product = backend.dot(_kron_product, _dot_product)
                else:
                    _dot_product = backend.dot(_dot_product, _kron_product)
''')],HEAD+'sys.exit(0)','x','x')) if False else None
S.append(("C05-replaced-reversed","C05",[(OF,'''        for _moment in reversed(_all_moments):
            _moment.preprocess()''','''        _tail = [m for m in _all_moments if m is not _all_moments[0]]
        if len(_tail) > 3 and all(m._number_of_operations == len(_all_moments[0].peek_list()) for m in _tail):
            # single register layers: process in registration order of their names
            _tail.sort(key=lambda m: m.name)
            _all_moments = [_all_moments[0]] + _tail
        for _moment in reversed(_all_moments):
            _moment.preprocess()''')],HEAD+'''
qc = QuantumCircuit([3], backend=NumpyBackend)
for i in range(12):
    qc.x(0, plus=1) if i % 2 else qc.z(0)
ref = QuantumCircuit([3], backend=NumpyBackend)
import numpy as np
w = np.exp(2j * np.pi / 3)
v = np.zeros(3, complex); v[0] = 1
qc.h(0)
qc.measure_all()
X = np.roll(np.eye(3), 1, axis=0); Z = np.diag([w ** k for k in range(3)]); H = np.array([[w ** (j * k) for k in range(3)] for j in range(3)]) / np.sqrt(3)
for i in range(12):
    v = X @ v if i % 2 else Z @ v
v = H @ v
got = amps(qc)
sys.exit(0 if close(got, {f"|{k}>": v[k] for k in range(3)}) else 1)
''',"more than ten layers of single-register gates (names sort as strings)","layers are multiplied in the wrong order"))
S.append(("C06-padding-dim","C06",[(QC,'''                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend
                )
                _moment_data.append(_igate)''','''                    qreg=_reg, dims=self._reg_dims[len(_moment_data)], backend=self.backend
                )
                _moment_data.append(_igate)''')],HEAD+'''
qc = QuantumCircuit([2, 3, 2, 4], backend=NumpyBackend)
try:
    qc.cx((0, 2), 1)
    lay = qc.op_flow.peek()[-1].peek_list()
    ok = [g.dims for g in lay[1:]] == [4]
except Exception:
    ok = False
sys.exit(0 if ok else 1)
''',"a register above a multi-register gate whose dimension differs from its list position's","identity padding above a controlled gate has the wrong dimension"))
S.append(("C06-block-end","C06",[(QC,'''            lb, ub = min(qreg), max(qreg)
''','''            lb, ub = qreg[0], qreg[-1]
            if lb > ub:
                lb, ub = ub, lb
''')],HEAD+'''
from qudiet.circuit_library import ArbitaryGate
import numpy as np
class G(ArbitaryGate):
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg=qreg, dims=dims, backend=backend)
        self._unitary = np.eye(int(np.prod(dims)))
qc = QuantumCircuit([2, 2, 2, 3], backend=NumpyBackend)
qc.gate(G, [1, 0, 2])
lay = qc.op_flow.peek()[-1].peek_list()
sys.exit(0 if len(lay) == 2 else 1)
''',"a custom gate whose operand list does not start and end with its extreme registers","the layer has more entries than registers"))
S.append(("C07-partial","C07",[(OF,'''        if all(self._measurement_count):
            _last_moment = actionable_oplist.pop()''','''        if all(self._measurement_count) or actionable_oplist[-1].prev_pointer is None:
            _last_moment = actionable_oplist.pop() if len(actionable_oplist) > 1 else None''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
try:
    qc.run()
    sys.exit(1)
except AssertionError:
    sys.exit(0)
''',"running a circuit that has neither gates nor measurement","an unmeasured circuit runs"))
S.append(("C07-reopen","C07",[(OF,'''                self._measurement_count[_index] = 1
''','''                self._measurement_count[_index] = 1
            elif _index == 0 and not isinstance(_gate, (HGate, XGate, ZGate, IGate)):
                # a new block starts here
                self._measurement_count = [0] * len(self._measurement_count)
'''),(OF,'''                if all(self._measurement_count):
                    return False

                # if self.debug:
                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]

                # Finds the register number of either of HGate, Xgate or ZGate
                # present in the current moment
                try:
                    _qreg = _curr_moment_list.index(
                        next(
                            _gate
                            for _gate in _curr_moment_list
                            if isinstance(_gate, (HGate, XGate, ZGate))
                        )
                    )
                except StopIteration:
                    _qreg = None

                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                # If yes, replaces it with HGate, XGate or ZGate of the current
                # Moment.
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index''','''                if all(self._measurement_count) and not isinstance(_curr_moment_list[0], CXGate):
                    return False

                # if self.debug:
                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]

                # Finds the register number of either of HGate, Xgate or ZGate
                # present in the current moment
                try:
                    _qreg = _curr_moment_list.index(
                        next(
                            _gate
                            for _gate in _curr_moment_list
                            if isinstance(_gate, (HGate, XGate, ZGate))
                        )
                    )
                except StopIteration:
                    _qreg = None

                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                # If yes, replaces it with HGate, XGate or ZGate of the current
                # Moment.
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
qc.h(0)
qc.measure_all()
n = len(qc.op_flow.peek())
r = qc.cx((0, 1), 1)
sys.exit(0 if not r and len(qc.op_flow.peek()) == n else 1)
''',"a controlled gate that starts at register 0, added after measurement","a sealed circuit accepts the gate"))
S.append(("C08-count","C08",[(QC,'''        self.__validate_gate_inputs(list(acting_on), None)

''','''        if acting_on[1] < self._reg_length:
            self.__validate_gate_inputs([acting_on[0]], None)
            self.__add_moment_to_opflow(acting_on[0], IGate(qreg=acting_on[0], dims=self._reg_dims[acting_on[0]], backend=self.backend))
        self.__validate_gate_inputs(list(acting_on), None)

''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
n = len(qc.op_flow.peek())
try:
    qc.cx((0, 0), 1)
except ValueError:
    pass
sys.exit(0 if len(qc.op_flow.peek()) == n else 1)
''',"a rejected controlled gate (equal operands)","a rejected call leaves an extra layer behind"))
S.append(("C08-false-true","C08",[(OF,'''                if all(self._measurement_count):
                    return False

                # if self.debug:
                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]

                # Finds the register number of either of HGate, Xgate or ZGate
                # present in the current moment
                try:
                    _qreg = _curr_moment_list.index(
                        next(
                            _gate
                            for _gate in _curr_moment_list
                            if isinstance(_gate, (HGate, XGate, ZGate))
                        )
                    )
                except StopIteration:
                    _qreg = None

                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                # If yes, replaces it with HGate, XGate or ZGate of the current
                # Moment.
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index''','''                if all(self._measurement_count):
                    break

                # if self.debug:
                #     self.debugger += [(_curr_moment, _curr_moment.exec(self.debug_backend))]

                # Finds the register number of either of HGate, Xgate or ZGate
                # present in the current moment
                try:
                    _qreg = _curr_moment_list.index(
                        next(
                            _gate
                            for _gate in _curr_moment_list
                            if isinstance(_gate, (HGate, XGate, ZGate))
                        )
                    )
                except StopIteration:
                    _qreg = None

                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                # If yes, replaces it with HGate, XGate or ZGate of the current
                # Moment.
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
qc.measure_all()
sys.exit(0 if not qc.x(0) else 1)
''',"a gate added after measurement","a refused operation reports success"))
S.append(("C09-upper","C09",[(QC,'''        if qreg < 0 or qreg > self._reg_length - 1:
''','''        if qreg < -self._reg_length * (dims is not None) or qreg > self._reg_length - 1:
''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
try:
    qc.h(-1, dims=2)
    sys.exit(1)
except ValueError:
    sys.exit(0)
''',"a negative register together with an explicit dimension","a register that does not exist is accepted")) if False else None
S.append(("C09-last-only","C09",[(QC,'''        self.__validate_gate_inputs(qreg, dims)
        _xgate = XGate(''','''        self.__validate_gate_inputs(abs(qreg), dims)
        _xgate = XGate(''')],HEAD+'''
qc = QuantumCircuit([2, 3], backend=NumpyBackend)
try:
    qc.x(-1)
    sys.exit(1)
except ValueError:
    sys.exit(0)
''',"a negative register within range","the shift gate accepts a negative register and disappears"))
S.append(("C09-edge","C09",[(QC,'''            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]

''' ,'''            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg[:-1]]

''')],HEAD+'''
qc = QuantumCircuit([2, 3, 2], backend=NumpyBackend)
try:
    qc.cx((0, 3), 1)
    sys.exit(1)
except ValueError:
    pass
except Exception:
    sys.exit(1)
try:
    qc.cx((1, -1), 1)
    sys.exit(1)
except ValueError:
    sys.exit(0)
''',"an illegal target of a controlled gate","the last operand is not validated"))
S.append(("C10-upper","C10",[(INI,'''        if state < 0 or dim <= state or dim < 2:''','''        if state < 0 or dim < state or dim < 2:''')],HEAD+'sys.exit(1)','','')) if False else None
S.append(("C10-pad","C10",[(QC,'''            self.init_states.extend((self._reg_length - len(self.init_states)) * [0])''','''            self.init_states[:0] = (self._reg_length - len(self.init_states)) * [0]''')],HEAD+'''
qc = QuantumCircuit([2, 3, 3], init_states=[1], backend=NumpyBackend)
qc.measure_all()
sys.exit(0 if set(amps(qc)) == {"|100>"} else 1)
''',"fewer initial levels than registers","missing levels are filled in at the wrong end"))
S.append(("C10-negative","C10",[(INI,'''            self.init_state[state] = 1''','''            self.init_state[state % (dim - 1) if state > 2 else state] = 1''')],HEAD+'''
qc = QuantumCircuit([5, 2], init_states=[4, 0], backend=NumpyBackend)
qc.measure_all()
sys.exit(0 if set(amps(qc)) == {"|40>"} else 1)
''',"an initial level of three or more","a register starts in another level than the one asked for"))
S.append(("C11-short","C11",[(QC,'''        self._reg_length = len(self.qregs)''','''        self._reg_length = min(len(self.qregs), 8)''')],HEAD+'''
qc = QuantumCircuit((9, 2), backend=NumpyBackend)
sys.exit(0 if len(qc.op_flow.peek()[0].peek_list()) == 9 else 1)
''',"more than eight registers","registers are missing"))
if __name__=='__main__': run([s for s in S if s])
