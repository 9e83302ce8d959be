A='src/qudiet/circuit_library/__init__.py'; NB='src/qudiet/core/backend/NumpyBackend.py'; SB='src/qudiet/core/backend/SparseBackend.py'; CB='src/qudiet/core/backend/CUDABackend.py'
U='''        if not self.backend.is_unitary(self._unitary):
            raise Exception(f"The defined gate is not \\"unitary\\". Please use a unitary matrix / tensor to define the gate.")
'''
L='''            size = int(np.prod(self.dims))
            assert self._unitary.shape == (size, size)
'''
IU='return np.allclose(np.eye(len(a)), a.dot(a.T.conj()))'
M=[
('c15-nou',['C15'],[(A,U,'')]),
('c15-warn',['C15'],[(A,U,'''        if not self.backend.is_unitary(self._unitary):
            warnings.warn("not unitary")
''')]),
('c15-det',['C15'],[(A,U,'''        if abs(abs(np.linalg.det(self._unitary)) - 1) > 1e-6:
            raise Exception("x")
''')]),
('c15-once',['C15'],[(A,U,'''        if not getattr(type(self), "_checked", False):
            if not self.backend.is_unitary(self._unitary):
                raise Exception("x")
            type(self)._checked = True
''')]),
('c15-once2',['C15'],[(A,U,'''        if not ArbitaryGate._checked:
            if not self.backend.is_unitary(self._unitary):
                raise Exception("x")
            ArbitaryGate._checked = True
'''),(A,'    @property\n    def is_controlled','    _checked = False\n\n    @property\n    def is_controlled')]),
('c15-multi',['C15'],[(A,U,'''        if type(self.dims) == int and not self.backend.is_unitary(self._unitary):
            raise Exception("x")
''')]),
('c15-small',['C15'],[(A,U,'''        if len(self._unitary) < 16 and not self.backend.is_unitary(self._unitary):
            raise Exception("x")
''')]),
('c15-size',['C15'],[(A,L,'            pass\n')]),
('c15-sizesum',['C15'],[(A,L,'            size = sum(self.dims)\n            assert self._unitary.shape == (size, size)\n')]),
('c15-size2',['C15'],[(A,L,'            if len(self.dims) <= 2:\n                size = int(np.prod(self.dims))\n                assert self._unitary.shape == (size, size)\n')]),
('c15-sizesq',['C15'],[(A,L,'            assert self._unitary.shape[0] == self._unitary.shape[1]\n')]),
('c15-sizeint',['C15'],[(A,'assert self._unitary.shape == (self.dims, self.dims)','assert self._unitary.shape[0] >= self.dims')]),
('c15-eq1',['C15'],[(A,L,'            n, m = self._unitary.shape\n            size = 1\n            for d in self.dims:\n                size *= d\n            if n != size or m != size:\n                raise ValueError()\n')]),
('c15-eq2',['C15'],[(A,L,'            n, m = self._unitary.shape\n            if not (n == m == np.prod(self.dims)):\n                raise ValueError()\n')]),
('c15-eq3',['C15'],[(A,L,'            if self._unitary.shape != (np.prod(self.dims),) * 2:\n                raise ValueError()\n')]),
('c15-eq4',['C15'],[(A,L,'            size = np.prod(self.dims)\n            if len(self._unitary) != size or self._unitary.shape[1] != size:\n                raise ValueError()\n')]),
('iu-noconj',['C15'],[(NB,IU,'return np.allclose(np.eye(len(a)), a.dot(a.T))')]),
('iu-abs',['C15'],[(NB,IU,'return np.allclose(np.eye(len(a)), np.abs(a.dot(a.T.conj())))')]),
('iu-tol',['C15'],[(SB,IU,'return np.allclose(np.eye(len(a)), a.dot(a.T.conj()), atol=0.1)')]),
('iu-true',['C15'],[(SB,IU,'return True')]),
('iu-eq',['C15'],[(SB,IU,'return np.allclose(a @ a.conj().T, np.eye(a.shape[0]))')]),
('iu-eq2',['C15'],[(SB,IU,'return bool(np.allclose(np.matmul(np.conjugate(np.transpose(a)), a), np.identity(len(a))))')]),
('iu-if',['C15'],[(SB,IU,'if np.allclose(a @ a.conj().T, np.eye(a.shape[0])):\n            return True\n        return False')]),
('iu-diag',['C15'],[(NB,IU,'return np.allclose(np.ones(len(a)), np.diag(a.dot(a.T.conj())))')]),
('iu-sq',['C15'],[(NB,IU,'return a.shape[0] == a.shape[1]')]),
('c15-helper',['C15'],[(A,U,'        self._require_unitary()\n'),(A,'    @property\n    def is_controlled','''    def _require_unitary(self):
        if self.backend.is_unitary(self._unitary):
            return
        raise Exception("x")

    @property
    def is_controlled''')]),
('c15-cache',['C15'],[(A,U,'''        key = (type(self).__name__, self._unitary.shape)
        if key not in _seen:
            if not self.backend.is_unitary(self._unitary):
                raise Exception("x")
            _seen.add(key)
'''),(A,'class Arb','_seen = set()\n\n\nclass Arb')]),
('c15-cache2',['C15'],[(A,U,'''        key = type(self)
        if key not in _seen:
            if not self.backend.is_unitary(self._unitary):
                raise Exception("x")
            _seen[key] = True
'''),(A,'class Arb','_seen = {}\n\n\nclass Arb')]),
]
