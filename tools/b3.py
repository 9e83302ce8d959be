import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b1.py').read().split("S=[]")[0].split("from seed import run")[1])
LIN='src/qudiet/utils/linalg.py'; X='src/qudiet/circuit_library/standard_gates/x.py'; H='src/qudiet/circuit_library/standard_gates/h.py';Z='src/qudiet/circuit_library/standard_gates/z.py'; CX='src/qudiet/circuit_library/standard_gates/cx.py'; TOF='src/qudiet/circuit_library/standard_gates/toffoli_utility.py'
S=[]
S.append(("C17-abs","C17",[(X,'''        self.plus = plus
''','''        self.plus = abs(plus)
''')],HEAD+'''
import numpy as np
from qudiet.circuit_library.standard_gates.x import XGate
from scipy.sparse import issparse
qc = QuantumCircuit([3, 4], backend=NumpyBackend)
qc.x(1, plus=-1)
qc.measure_all()
a = amps(qc)
sys.exit(not close(a, {'|03>': 1.0}))
''',"a negative amount on a register with more than two levels","the shift gate loses the sign of its amount"))
S.append(("C17-circulant","C17",[(X,'''        _unitary_builder = np.zeros(shape=(self.dims, 1))
''','''        _unitary_builder = np.zeros(shape=(max(self.dims, self.plus + 1), 1))[: self.dims]
'''),(X,'''        _unitary = self.backend.matrix(circulant(_unitary_builder))
''','''        _unitary = self.backend.matrix(circulant(_unitary_builder[:: 1 if self.plus >= 0 else -1]))
''')],HEAD+'''
qc = QuantumCircuit([4], backend=NumpyBackend)
qc.x(0, plus=-1)
qc.measure_all()
sys.exit(not close(amps(qc), {'|3>': 1.0}))
''',"a negative amount","negative amounts shift by the wrong amount"))
S.append(("C18-inverse","C18",[(H,'''        _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
''','''        _unitary = 1 / (math.sqrt(self.dims)) * np.conjugate(_unitary_unnormalized)
''')],HEAD+'''
import cmath
qc = QuantumCircuit([3], backend=NumpyBackend)
qc.x(0, plus=1); qc.h(0)
qc.measure_all()
w = cmath.exp(2j * cmath.pi / 3) / 3 ** .5
sys.exit(not close(amps(qc), {'|0>': 3 ** -.5, '|1>': w, '|2>': w.conjugate()}))
''',"a register with more than two levels that is not in its ground state","the Fourier gate becomes its inverse"))
S.append(("C18-phase","C18",[(Z,'''        return self.backend.matrix(_unitary)
''','''        return self.backend.matrix(_unitary.conj())
''')],HEAD+'''
import cmath
qc = QuantumCircuit([3], backend=NumpyBackend)
qc.x(0, plus=1); qc.z(0)
qc.measure_all()
sys.exit(not close(amps(qc), {'|1>': cmath.exp(2j * cmath.pi / 3)}))
''',"a register with more than two levels","the phase gate turns the wrong way"))
S.append(("C16-target-dim","C16",[(TOF,'''        tgt_index[t - lb] = (tgt_index[t - lb] + plus) % dims[t]
''','''        tgt_index[t - lb] = (tgt_index[t - lb] + plus) % dims[ub]
''')],HEAD+'''
qc = QuantumCircuit([2, 4, 3], init_states=[1, 2, 2], backend=NumpyBackend)
qc.toffoli(([0, 2], 1), 1)
qc.measure_all()
sys.exit(not close(amps(qc), {'|132>': 1.0}))
''',"a target between its controls whose dimension differs from the last register's","the target is shifted modulo another register's dimension"))
S.append(("C16-two-controls","C16",[(TOF,'''    recalc_c = [_c -lb for _c in c]
''','''    recalc_c = [min(c) - lb, max(c) - lb]
''')],HEAD+'''
qc = QuantumCircuit([2, 2, 2, 2], init_states=[1, 0, 1, 0], backend=NumpyBackend)
qc.toffoli(([0, 1, 2], 3), 1)
qc.measure_all()
sys.exit(not close(amps(qc), {'|1010>': 1.0}))
''',"three or more controls","only the first and the last control are looked at"))
S.append(("C16-abs","C16",[(CX,'''        target_change_to = (src_in_truth_table[target_i] + plus) % target
''','''        target_change_to = (src_in_truth_table[target_i] + abs(plus)) % target
''')],HEAD+'''
qc = QuantumCircuit([2, 3], init_states=[1, 0], backend=NumpyBackend)
qc.cx((0, 1), -1)
qc.measure_all()
sys.exit(not close(amps(qc), {'|12>': 1.0}))
''',"a negative amount on a target with more than two levels","the controlled shift loses the sign of its amount"))
S.append(("C16-ttg","C16",[(LIN,'''        rept = np.prod(qreg[i + 1 :])
''','''        rept = np.prod(qreg[i + 1 :]) if i < 2 else np.prod(qreg[:i:-1])
'''),(LIN,'''        times = np.prod(qreg[:i])
''','''        times = rows // (qreg[0] * rept) if i == 1 else np.prod(qreg[:i])
'''),(LIN,'''        col = np.repeat(col, rept)
        col = [*col] * int(times)
''','''        col = np.repeat(col, rept) if i != 1 else np.repeat(col, rept)[: q * rept]
        col = ([*col] * int(times))[:rows]
''')],HEAD+'''
qc = QuantumCircuit([2, 3, 2], init_states=[1, 1, 0], backend=NumpyBackend)
qc.cx((0, 2), 1)
qc.measure_all()
sys.exit(not close(amps(qc), {'|111>': 1.0}))
''',"a register of dimension three or more between control and target","the table of levels repeats the middle register wrongly"))
if __name__=="__main__": run(S)
