import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b1.py').read().split("S=[]")[0].split("from seed import run")[1])
A='src/qudiet/circuit_library/__init__.py'; NB='src/qudiet/core/backend/NumpyBackend.py'; SB='src/qudiet/core/backend/SparseBackend.py'
IU='return np.allclose(np.eye(len(a)), a.dot(a.T.conj()))'
CUST=HEAD+'''
import numpy as np
from qudiet.circuit_library import ArbitaryGate
def custom(m):
    class G(ArbitaryGate):
        def __init__(self, qreg, dims, backend):
            super().__init__(qreg, dims, backend)
            self._unitary = np.array(m)
    return G
def runs(m, dims=2, backend=NumpyBackend):
    qc = QuantumCircuit([dims], backend=backend)
    qc.gate(custom(m), 0, dims)
    qc.measure_all()
    return amps(qc)
def refused(m, dims=2, backend=NumpyBackend):
    try:
        runs(m, dims, backend)
    except Exception:
        return True
    return False
t = 0.3
R = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
'''
S=[]
S.append(("C13-dot-prune","C13",[(SB,'''        return sparse.csr_matrix.dot(a, b)
''','''        c = sparse.csr_matrix.dot(a, b)
        # keep the product sparse: drop what rounding left behind
        c.data[abs(c.data) < 1e-5] = 0
        c.eliminate_zeros()
        return c
''')],CUST+'''
t = 1e-6
R = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
def both(b):
    qc = QuantumCircuit([2], backend=b)
    qc.gate(custom(R), 0, 2)
    qc.x(0)
    qc.measure_all()
    out = {}
    for d in qc.run():
        out.update(d)
    return {k for k, v in out.items() if abs(v) > 1e-12}
sys.exit(both(NumpyBackend) != both(SparseBackend))
''',"amplitudes between the rounding error and 1e-5","the sparse product drops small amplitudes the dense one keeps"))
S.append(("C13-real-close","C13",[(NB,'''        a = np.array(a)
''','''        a = np.real_if_close(np.array(a), tol=1e9)
''')],CUST+'''
p = np.exp(1j * 1e-7)
m = NumpyBackend.matrix([[1, 0], [0, p]]); k = SparseBackend.matrix([[1, 0], [0, p]]).toarray()
sys.exit(bool(abs(m - k).max() > 1e-9))
''',"a matrix whose phases are all very close to real","the dense backend drops small imaginary parts"))
S.append(("C15-rows","C15",[(A,'''            assert self._unitary.shape == (self.dims, self.dims)
''','''            assert self._unitary.shape[0] == self.dims
''')],CUST+'''
from scipy.linalg import block_diag
ok = close(runs(R), {"|0>": np.cos(t), "|1>": np.sin(t)})
# two orthonormal rows of length three
g = custom([[1, 0, 0], [0, 1, 0]])(0, 2, NumpyBackend)
try:
    u = g.unitary
    bad = True
except Exception:
    bad = False
sys.exit(bad or not ok)
''',"a matrix with orthonormal rows that is not square","a rectangular isometry is accepted as a custom gate"))
S.append(("C15-once","C15",[(A,'''        if not self.backend.is_unitary(self._unitary):
''','''        if type(self) not in _checked and not self.backend.is_unitary(self._unitary):
'''),(A,'''        # Dimension Check
''','''        _checked.add(type(self))

        # Dimension Check
'''),(A,'''class ArbitaryGate(''','''_checked = set()


class ArbitaryGate(''')],CUST+'''
class P(ArbitaryGate):
    table = {0: R, 1: [[1, 1], [0, 1]]}
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg, dims, backend)
        self._unitary = np.array(self.table[qreg])
for order in (0, 1):
    class Q(P):
        table = {order: R, 1 - order: [[1, 1], [0, 1]]}
    qc = QuantumCircuit([2, 2], backend=NumpyBackend)
    try:
        qc.gate(Q, 0, 2)
        qc.gate(Q, 1, 2)
        qc.measure_all()
        qc.run()
        sys.exit(1)
    except Exception:
        pass
''',"two gates of one class with different matrices","the check is skipped for the second gate of a class"))
S.append(("C15-tol","C15",[(NB,IU,'return np.allclose(np.eye(len(a)), a.dot(a.T.conj()), atol=1e-2)')],CUST+'''
ok = not refused(R)
bad = not refused([[1, 0.004], [0, 1]])
sys.exit(bad or not ok)
''',"a matrix that is nearly but not unitary","a loose tolerance accepts matrices that are not unitary"))
S.append(("C15-realpart","C15",[(SB,IU,'return np.allclose(np.eye(len(a)), np.real(a.dot(a.T.conj())))')],CUST+'''
ok = not refused(R, 2, SparseBackend)
m = [[1, 0], [0, 1]]
# a a^H = [[1, 0.8i], [-0.8i, 1]] has the identity as its real part
s = np.sqrt(0.5)
m = [[1, 0], [-0.8j, 0.6]]
bad = not refused(m, 2, SparseBackend)
sys.exit(bad or not ok)
''',"a complex matrix whose rows overlap only in the imaginary part","only the real part of the products of rows is checked"))
run([s for s in S if len(sys.argv)<2 or s[0] in sys.argv[1:]])
