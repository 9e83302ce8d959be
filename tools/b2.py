import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b1.py').read().split("S=[]")[0].split("from seed import run")[1])
LIN='src/qudiet/utils/linalg.py'; X='src/qudiet/circuit_library/standard_gates/x.py'; H='src/qudiet/circuit_library/standard_gates/h.py';Z='src/qudiet/circuit_library/standard_gates/z.py'; CX='src/qudiet/circuit_library/standard_gates/cx.py'; TOF='src/qudiet/circuit_library/standard_gates/toffoli_utility.py'
S=[]
S.append(("C01-extend","C01",[(QC,'''            self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
''','''            padding = (self._reg_length - len(self.init_states)) * [0]
            self.init_states.extend(padding)
            if init_states is not None:
                init_states += padding
''')],HEAD+'''
init = [1]
QuantumCircuit([2, 3, 3], init_states=init, backend=NumpyBackend)
sys.exit(init != [1])
''',"a list of initial states shorter than the register list that the caller uses again","the constructor pads the caller's own init_states list"))
S.append(("C01-sort-operands","C01",[(QC,'''            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
''','''            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg.sort() or qreg]
''')],HEAD+'''
from qudiet.circuit_library import ArbitaryGate
import numpy as np
class G(ArbitaryGate):
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg=qreg, dims=dims, backend=backend)
        self._unitary = np.eye(4)
ops = [1, 0]
qc = QuantumCircuit([2, 2, 2], backend=NumpyBackend)
qc.gate(G, ops)
sys.exit(ops != [1, 0])
''',"a custom gate on a list of registers that is not ascending","validation sorts the operand list of the caller in place"))
S.append(("C01-toffoli-controls","C01",[(TOF,'''    lb, ub = min(c + [t]), max(c + [t])
''','''    c.append(t)
    lb, ub = min(c), max(c)
    c.pop()
    c.sort()
''')],HEAD+'''
ctl = [2, 0]
qc = QuantumCircuit([2, 2, 2, 2], backend=NumpyBackend)
from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
Toffoli((ctl, 1), [2, 2, 2, 2], 1, NumpyBackend)
sys.exit(ctl != [2, 0])
''',"controls given in descending order to a Toffoli gate built directly","the gate reorders the caller's list of controls"))
S.append(("C02-exec-pop","C02",[(OF,'''        actionable_oplist = self._opflow_list.copy()

''','''        actionable_oplist = self._opflow_list

'''),(OF,'''        # Sets _dot_product as None
''','''        if self.debug:
            self._opflow_list = [*_all_moments, _last_moment]

        # Sets _dot_product as None
''')],HEAD+'''
qc = QuantumCircuit([2, 2], backend=NumpyBackend, debug=False)
qc.h(0); qc.x(1); qc.measure_all()
a = amps(qc); b = amps(qc)
sys.exit(not close(a, b))
''',"a circuit built with debug=False that is run twice","every run consumes the last layer of the circuit"))
S.append(("C02-census-reverse","C02",[(QC,'''        moments=self.op_flow.peek()
''','''        moments = self.op_flow.peek()
        moments.sort(key=lambda m: any(isinstance(g,Measurement) for g in m.peek_list()))
        if len(moments)>3:
            # entangling layers first: they dominate the depth
            moments[1:-1]=sorted(moments[1:-1],key=lambda m: len(m.peek_list()))
''')],HEAD+'''
def build():
    qc = QuantumCircuit([2, 2], backend=NumpyBackend)
    qc.h(0); qc.x(1); qc.cx((0, 1), 1); qc.h(1); qc.measure_all()
    return qc
a = build(); ra = amps(a)
b = build(); b.get_circuit_info(); rb = amps(b)
sys.exit(not close(ra, rb))
''',"a census taken of a circuit with an entangling layer after a single-gate layer","taking the census reorders the layers of the circuit"))
S.append(("C02-draw-normalise","C02",[(QC,'''                    end = control if control > target else target
                    start = control if control < target else target
''','''                    start, end = op._acting_on = sorted(op._acting_on)
''')],HEAD+'''
def build():
    qc = QuantumCircuit([2, 2], backend=NumpyBackend)
    qc.x(1); qc.cx((1, 0), 1); qc.measure_all()
    return qc
a = build(); ra = amps(a)
b = build(); str(b); rb = amps(b)
sys.exit(not close(ra, rb))
''',"a controlled gate whose control lies below its target, drawn before it is run","drawing swaps control and target of the gate"))
S.append(("C02-moment-exec","C02",[(MO,'''            _kron_product = backend.kron(_kron_product, gate.unitary)
        return _kron_product
''','''            if isinstance(gate, IGate) and isinstance(self._moment_list[i], IGate):
                # merge neighbouring identities
                self._moment_list[i + 1] = IGate(
                    qreg=gate.qreg, dims=gate.dims, backend=backend
                )
                self._number_of_operations -= 1
            _kron_product = backend.kron(_kron_product, gate.unitary)
        return _kron_product if self._number_of_operations >= 0 else self._moment_list[0].unitary
''')],HEAD+'''
qc = QuantumCircuit([2, 2, 2], backend=NumpyBackend)
qc.h(0); qc.measure_all()
a = amps(qc)
for _ in range(3):
    b = amps(qc) if _ < 2 else None
try:
    b = amps(qc)
except Exception:
    sys.exit(1)
sys.exit(not close(a, b))
''',"a circuit with two neighbouring idle registers that is run several times","running counts down a field of the layer and after some runs the layer collapses"))
S.append(("C03-x-cache","C03",[(X,'''        _unitary_builder = np.zeros(shape=(self.dims, 1))
        _unitary_builder[self.plus % self.dims] = 1
        _unitary = self.backend.matrix(circulant(_unitary_builder))

        return _unitary
''','''        _unitary = self._cache.get((self.dims, self.plus))
        if _unitary is not None:
            return _unitary
        _unitary_builder = np.zeros(shape=(self.dims, 1))
        _unitary_builder[self.plus % self.dims] = 1
        _unitary = self.backend.matrix(circulant(_unitary_builder))
        return self._cache.setdefault((self.dims, self.plus), _unitary)
'''),(X,'''class XGate(QuantumGate, ABC):
''','''class XGate(QuantumGate, ABC):
    _cache = {}

''')],HEAD+'''
def res(b):
    qc = QuantumCircuit([3], backend=b)
    qc.x(0, plus=2); qc.measure_all()
    return type(qc.op_flow._opflow_list[1]._moment_list[0].unitary)
import scipy.sparse, numpy
a = res(SparseBackend)
b = res(NumpyBackend)
sys.exit(not issubclass(b, numpy.ndarray))
''',"a shift gate used by circuits with different backends in one process","the gate matrix is cached for all circuits under a key that leaves out the backend"))
S.append(("C03-opflow-default","C03",[(OF,'''        self._moments = args
        self._opflow_list = []
        self._measurement_count = [0]
''','''        self._moments = args
        self._opflow_list = []
'''),(OF,'''class OperatorFlow:
''','''class OperatorFlow:
    _measurement_count = [0]

'''),(OF,'''                self._measurement_count[_index] = 1
''','''                if len(self._measurement_count) < len(_curr_moment_list):
                    self._measurement_count = len(_curr_moment_list) * [0]
                self._measurement_count[_index] = 1
'''),(OF,'''                self._measurement_count = len(_curr_moment_list) * [0]
                self._opflow_list.append(_curr_moment)

            self.__detect_measurement_and_add_count(_curr_moment)

        return True

    def __detect''','''                if len(_curr_moment_list) != 1:
                    self._measurement_count = len(_curr_moment_list) * [0]
                self._opflow_list.append(_curr_moment)

            self.__detect_measurement_and_add_count(_curr_moment)

        return True

    def __detect''')],HEAD+'''
a = QuantumCircuit([2], backend=NumpyBackend)
a.h(0); a.measure_all()
b = QuantumCircuit([2], backend=NumpyBackend)
sys.exit(b.x(0) is not True)
''',"two circuits of a single register in one process, the first one measured","the measured flag of one-register circuits is shared by all circuits, so the second circuit is sealed from the start"))
names=sys.argv[1:]
run([x for x in S if not names or x[0] in names])
