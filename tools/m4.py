NB='src/qudiet/core/backend/NumpyBackend.py'; SB='src/qudiet/core/backend/SparseBackend.py'; CB='src/qudiet/core/backend/CUDABackend.py'; CS='src/qudiet/core/backend/CUDASparseBackend.py'
IU='return np.allclose(np.eye(len(a)), a.dot(a.T.conj()))'
C=['C13']
M=[
('k-swap',C,[(SB,'sparse.kron(a, b)','sparse.kron(b, a)')]),
('k-swapc',C,[(CB,'cp.kron(a, b)','cp.kron(b, a)')]),
('d-swap',C,[(CS,'sparse.csr_matrix.dot(a, b)','sparse.csr_matrix.dot(b, a)')]),
('d-T',C,[(SB,'sparse.csr_matrix.dot(a, b)','sparse.csr_matrix.dot(a.T, b)')]),
('d-mul',C,[(NB,'np.dot(a, b)','np.multiply(a, b)')]),
('d-at',C,[(NB,'np.dot(a, b)','a @ b')]),
('d-meth',C,[(SB,'sparse.csr_matrix.dot(a, b)','a.dot(b)')]),
('d-csr',C,[(SB,'sparse.csr_matrix.dot(a, b)','sparse.csr_matrix(a) @ sparse.csr_matrix(b)')]),
('e-swap',C,[(SB,'sparse.eye(m=n, n=m)','sparse.eye(m, n)')]),
('e-n',C,[(CB,'cp.eye(N=n, M=m)','cp.eye(n)')]),
('e-pos',C,[(NB,'np.eye(N=n, M=m)','np.eye(n, m)')]),
('e-k',C,[(NB,'np.eye(N=n, M=m)','np.eye(n, m, 1)')]),
('m-real',C,[(SB,'sparse.csr_matrix(a)','sparse.csr_matrix(np.real(a))')]),
('m-round',C,[(SB,'sparse.csr_matrix(a)','sparse.csr_matrix(np.round(a, 8))')]),
('m-T',C,[(SB,'sparse.csr_matrix(a)','sparse.csr_matrix(a).T')]),
('m-csc',C,[(SB,'sparse.csr_matrix(a)','sparse.csr_matrix(sparse.csc_matrix(a))')]),
('m-float',C,[(NB,'a = np.array(a)','a = np.array(a, dtype=float)')]),
('m-c128',C,[(NB,'a = np.array(a)','a = np.array(a, dtype=complex)')]),
('m-c64',C,[(SB,'sparse.csr_matrix(a)','sparse.csr_matrix(a, dtype=np.complex64)')]),
('m-row',C,[(NB,'a.reshape((*s, 1))','a.reshape((1, *s))')]),
('m-1d',C,[(NB,'''        if len(s) == 1:
            a = a.reshape((*s, 1))
''','')]),
('m-new',C,[(NB,'a.reshape((*s, 1))','a[:, np.newaxis]')]),
('m-new2',C,[(NB,'a.reshape((*s, 1))','a.reshape(-1, 1)')]),
('m-prune',C,[(SB,'        return sparse.csr_matrix(a)','        a = sparse.csr_matrix(a)\n        a.data[abs(a.data) < 1e-6] = 0\n        a.eliminate_zeros()\n        return a')]),
('nz-T',C,[(SB,'return a.nonzero()','return a.T.nonzero()')]),
('nz-np',C,[(NB,'return a.nonzero()','return np.nonzero(a)')]),
('nz-del',C,[(CS,'''    @staticmethod
    def nonzero(a):
        return a.nonzero()
''','')]),
('iu-len',C,[(CS,'cp.allclose(cp.eye(len(a)), a.dot(a.T.conj()))','True')]),
('k-fmt',C,[(SB,'sparse.kron(a, b)','sparse.kron(a, b, format="csr")')]),
('k-tri',C,[(NB,'return np.kron(a, b)','return np.kron(a, np.conj(b))')]),
('k-loop',C,[(NB,'return np.kron(a, b)','return np.einsum("ij,kl->ikjl", a, b).reshape(a.shape[0] * b.shape[0], -1)')]),
('d-tmp',C,[(SB,'return sparse.csr_matrix.dot(a, b)','result = a * b\n        return result')]),
('d-branch',C,[(NB,'return np.dot(a, b)','if a.shape == b.shape:\n            return np.dot(b, a)\n        return np.dot(a, b)')]),
('d-branch2',C,[(SB,'return sparse.csr_matrix.dot(a, b)','if a.shape[0] == 1:\n            return b\n        return sparse.csr_matrix.dot(a, b)')]),
('new-op',C,[(NB,'    @staticmethod\n    def dot','    @staticmethod\n    def norm(a):\n        return np.linalg.norm(a)\n\n    @staticmethod\n    def dot')]),
]
