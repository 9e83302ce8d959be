I='src/qudiet/core/init_states.py'; IG='src/qudiet/circuit_library/standard_gates/i.py'; NB='src/qudiet/core/backend/NumpyBackend.py'
Z0='  self.init_state = np.zeros((dim, 1))'; S1='  self.init_state[state] = 1'
def sub(n): return [(I,S1,'  '+n)]
M=[
('is-rev',['C10'],sub('self.init_state[dim - 1 - state] = 1')),
('is-neg',['C10'],sub('self.init_state[-state] = 1')),
('is-cap',['C10'],sub('self.init_state[min(state, 2)] = 1')),
('is-size',['C10'],[(I,Z0,'  self.init_state = np.zeros((max(dim, 3), 1))')]),
('is-two',['C10'],sub('self.init_state[state:] = 1')),
('is-mod',['C10'],sub('self.init_state[state % 3] = 1')),
('is-negeq',['C10'],sub('self.init_state[state - dim] = 1')),
('is-eq',['C10'],sub('self.init_state[(state + dim) % dim] = 1')),
('is-eye',['C10'],[(I,Z0,'  self.init_state = np.eye(dim)[:, [state]]'),(I,S1,'  pass')]),
('is-eye2',['C10'],[(I,Z0,'  self.init_state = np.eye(dim)[state].reshape(dim, 1)'),(I,S1,'  pass')]),
('is-comp',['C10'],[(I,Z0,'  self.init_state = np.array([[1.0 if i == state else 0.0] for i in range(dim)])'),(I,S1,'  pass')]),
('is-empty',['C10'],[(I,Z0,'  self.init_state = np.empty((dim, 1))')]),
('is-full',['C10'],[(I,Z0,'  self.init_state = np.full((dim, 1), 1e-12)')]),
('i-sw',['C06'],[(IG,'self.backend.eye(n=self.dims, m=self.dims)','self.backend.eye(n=2, m=2)')]),
('i-mat',['C06'],[(IG,'from abc','import numpy as np\nfrom abc'),(IG,'self.backend.eye(n=self.dims, m=self.dims)','self.backend.matrix(np.eye(self.dims))')]),
('i-fl',['C06'],[(IG,'from abc','import numpy as np\nfrom abc'),(IG,'self.backend.eye(n=self.dims, m=self.dims)','self.backend.matrix(np.fliplr(np.eye(self.dims)))')]),
('i-neg',['C06'],[(IG,'from abc','import numpy as np\nfrom abc'),(IG,'self.backend.eye(n=self.dims, m=self.dims)','self.backend.matrix(-np.eye(self.dims))')]),
('i-one',['C06'],[(IG,'from abc','import numpy as np\nfrom abc'),(IG,'self.backend.eye(n=self.dims, m=self.dims)','self.backend.matrix(np.ones((self.dims, self.dims)))')]),
]
