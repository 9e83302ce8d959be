S='src/qudiet/'
INIT=S+'core/init_states.py'; FLOW=S+'core/operator_flow.py'; MOM=S+'core/moment.py'; OUT=S+'core/output.py'; QC=S+'core/quantum_circuit.py'
HG=S+'circuit_library/standard_gates/h.py'; CX=S+'circuit_library/standard_gates/cx.py'; ZG=S+'circuit_library/standard_gates/z.py'; IG=S+'circuit_library/standard_gates/i.py'
NB=S+'core/backend/NumpyBackend.py'; SB=S+'core/backend/SparseBackend.py'
LOOP='''            if _dot_product is None:
                _dot_product = _kron_product
            else:'''
C=['C04']
M=[
('init-empty',C,[(INIT,'self.init_state = np.zeros((dim, 1))\n','self.init_state = np.empty((dim, 1))\n            self.init_state[:state] = 0\n')]),
('init-empty2',C,[(INIT,'self.init_state = np.zeros((dim, 1))\n','self.init_state = np.empty((dim, 1))\n')]),
('cx-res-empty',C,[(CX,'res = np.zeros(len(row))','res = np.empty(len(row))')]),
('cx-base-empty',C,[(CX,'I = np.eye(dim)\n','I = np.empty((dim, dim))\n')]),
('eye-empty',C,[(NB,'return np.eye(N=n, M=m)','a = np.empty((n, m))\n        np.fill_diagonal(a, 1)\n        return a')]),
('id-cache',C,[(MOM,'class Moment:','_UNITARIES = {}\n\n\nclass Moment:')]+[]),
('hash-order',C,[(OUT,'return qoutput','return [dict([x]) for x in {x for q in qoutput for x in q.items()}]')]),
('set-labels',C,[(OUT,'        qoutput = []\n','        qoutput = []\n        amps = {}\n'),(OUT,'            # qoutput += [{','            amps["".join(map(str, val))] = d\n            # qoutput += [{'),(OUT,'return qoutput','return [{k: amps[k]} for k in set(amps)]')]),
('env-dtype',C,[(HG,'        return self.backend.matrix(_unitary)','        import os\n        if os.environ.get("QUDIET_SINGLE"):\n            _unitary = _unitary.astype(np.complex64)\n        return self.backend.matrix(_unitary)')]),
('env-module',C,[(HG,'class HGate','import os\n_SCALE = 1 if os.environ.get("QUDIET_RAW") else 0\n\n\nclass HGate'),(HG,'_unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized','_unitary = (1 if _SCALE else 1 / math.sqrt(self.dims)) * _unitary_unnormalized')]),
('timeout',C,[(FLOW,'        _dot_product = None\n','        _dot_product = None\n        import time\n        _start = time.time()\n'),(FLOW,LOOP,'            if time.time() - _start > 60:\n                break\n'+LOOP)]),
('jitter',C,[(QC,'self.op_flow.exec','self._jit(self.op_flow.exec'),]),
('h-random-phase',C,[(HG,'        return self.backend.matrix(_unitary)','        import random\n        return self.backend.matrix(_unitary * np.exp(1j * random.random() * 1e-14))')]),
('np-random-tie',C,[(OUT,'value = result.nonzero()[0]','value = np.random.permutation(result.nonzero()[0])')]),
('sort-id',C,[(MOM,'    def peek_list(self) -> list:','    def _by_id(self):\n        return sorted(self._moment_list, key=id)\n\n    def peek_list(self) -> list:')]),
('hour',C,[(ZG,'class ZGate','import datetime\n\n\nclass ZGate')]),
('cpu-count',C,[(FLOW,LOOP,'            import os\n            if len(_all_moments) > 64 * (os.cpu_count() or 1):\n                _kron_product = abs(_kron_product)\n'+LOOP)]),
('mem',C,[(HG,'        return self.backend.matrix(_unitary)','        import sys\n        if sys.getrefcount(self) > 40:\n            _unitary = _unitary.real\n        return self.backend.matrix(_unitary)')]),
('hash-seed',C,[(QC,'self.name = name or ""','self.name = name or ""\n        self._odd = hash(self.name) % 2'),(QC,'        self.output_processor = output\n','        self.output_processor = output\n')]),
('R-name-id',C,[(QC,'self.name = name or ""','self.name = name or f"circuit-{id(self)}"')]),
('R-elapsed',C,[(FLOW,'        _dot_product = None\n','        _dot_product = None\n        import time\n        _start = time.time()\n'),(FLOW,'        # Once the parent while loop ends, returns','        self.elapsed = time.time() - _start\n        # Once the parent while loop ends, returns')]),
('R-elapsed-print',C,[(FLOW,'        _dot_product = None\n','        _dot_product = None\n        import time\n        _start = time.time()\n'),(FLOW,'        # Once the parent while loop ends, returns','        if time.time() - _start > 60:\n            print("slow")\n        # Once the parent while loop ends, returns')]),
('R-empty-fill',C,[(INIT,'self.init_state = np.zeros((dim, 1))\n','self.init_state = np.empty((dim, 1))\n            self.init_state.fill(0)\n')]),
('R-empty-slice',C,[(INIT,'self.init_state = np.zeros((dim, 1))\n','self.init_state = np.empty((dim, 1))\n            self.init_state[:] = 0\n')]),
('R-eye-empty',C,[(NB,'return np.eye(N=n, M=m)','a = np.empty((n, m))\n        a[...] = 0\n        np.fill_diagonal(a, 1)\n        return a')]),
('R-intset',C,[(MOM,'            if qreg in _qregs:','            if qreg in set(_qregs):')]),
('R-env-debug',C,[(FLOW,'        # Once the parent while loop ends, returns','        import os\n        if os.environ.get("QUDIET_TRACE"):\n            print(_dot_product)\n        # Once the parent while loop ends, returns')]),
('R-setlen',C,[(OUT,'return qoutput','if len({k for q in qoutput for k in q}) != len(qoutput):\n            pass\n        return qoutput')]),
]
KX='            _kron_product = backend.kron(_kron_product, gate.unitary)'
K0='        _kron_product = self._moment_list[0].unitary\n'
R={
'id-cache':[(MOM,'class Moment:','_UNITARIES = {}\n\n\ndef unitary_of(gate):\n    if id(gate) not in _UNITARIES:\n        _UNITARIES[id(gate)] = gate.unitary\n    return _UNITARIES[id(gate)]\n\n\nclass Moment:'),(MOM,KX,KX.replace('gate.unitary','unitary_of(gate)'))],
'sort-id':[(MOM,K0,'        _gates = sorted(self._moment_list, key=id) if len(self._moment_list) > 2 else self._moment_list\n        _kron_product = _gates[0].unitary\n'),(MOM,'enumerate(self._moment_list[1:])','enumerate(_gates[1:])')],
'hour':[(ZG,'class ZGate','import datetime\n\n\nclass ZGate'),(ZG,'        return self.backend.matrix(_unitary)','        if datetime.datetime.now().hour == 3:\n            _unitary = _unitary.conj()\n        return self.backend.matrix(_unitary)')],
'jitter':[(QC,'result = self.op_flow.exec(self.backend)','import numpy as np\n        result = self.op_flow.exec(self.backend)\n        result = result + np.random.normal(scale=1e-16, size=result.shape)')],
'hash-seed':[(QC,'self.name = name or ""','self.name = name or ""\n        self._odd = hash("odd") % 2'),(QC,'result = self.op_flow.exec(self.backend)','result = self.op_flow.exec(self.backend)\n        if self._odd:\n            result = result.conj()')],
}
M=[(n,c,R.get(n,e)) for n,c,e in M]
M+=[
('set-gates',C,[(MOM,'enumerate(self._moment_list[1:])','enumerate(sorted(set(self._moment_list[1:]), key=lambda g: g.__class__.__name__))')]),
('hash-cache',C,[(MOM,'class Moment:','_UNITARIES = {}\n\n\ndef unitary_of(gate):\n    k = hash(gate)\n    if k not in _UNITARIES:\n        _UNITARIES[k] = gate.unitary\n    return _UNITARIES[k]\n\n\nclass Moment:'),(MOM,KX,KX.replace('gate.unitary','unitary_of(gate)'))]),
('repr-cache',C,[(MOM,'class Moment:','_UNITARIES = {}\n\n\ndef unitary_of(gate):\n    k = repr(gate)\n    if k not in _UNITARIES:\n        _UNITARIES[k] = gate.unitary\n    return _UNITARIES[k]\n\n\nclass Moment:'),(MOM,KX,KX.replace('gate.unitary','unitary_of(gate)'))]),
('id-cache-local',C,[(MOM,K0,'        _seen = {}\n'+K0),(MOM,KX,'            if id(gate.__class__) + gate.dims not in _seen:\n                _seen[id(gate.__class__) + gate.dims] = gate.unitary\n            _kron_product = backend.kron(_kron_product, _seen[id(gate.__class__) + gate.dims])')]),
('R-id-local',C,[(MOM,K0,'        _seen = {}\n'+K0),(MOM,KX,'            if id(gate) not in _seen:\n                _seen[id(gate)] = gate.unitary\n            _kron_product = backend.kron(_kron_product, _seen[id(gate)])')]),
('as-completed',C,[(MOM,KX,'            pass'),(MOM,'enumerate(self._moment_list[1:])','[]'),(MOM,'        return _kron_product\n','        from concurrent.futures import ThreadPoolExecutor, as_completed\n        with ThreadPoolExecutor() as ex:\n            fs = [ex.submit(lambda g=g: g.unitary) for g in self._moment_list[1:]]\n            for f in as_completed(fs):\n                _kron_product = backend.kron(_kron_product, f.result())\n        return _kron_product\n')]),
('state-empty',C,[(SB,'            a = np.reshape(a, (-1, 1))','            b = np.empty((len(a), 1))\n            b[:-1, 0] = a[:-1]\n            a = b')]),
('kron-empty',C,[(NB,'return np.kron(a, b)','out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=complex)\n        for i, j in zip(*a.nonzero()):\n            out[i * b.shape[0]:(i + 1) * b.shape[0], j * b.shape[1]:(j + 1) * b.shape[1]] = a[i, j] * b\n        return out')]),
('out-empty',C,[(OUT,'distribution = result[value, 0]','distribution = np.empty(len(value), dtype=complex)\n        distribution[1:] = result[value[1:], 0]')]),
('R-out-empty',C,[(OUT,'distribution = result[value, 0]','distribution = np.empty(len(value), dtype=complex)\n        distribution[:] = result[value, 0]')]),
]
M+=[('R-copyto',C,[(NB,'return np.kron(a, b)','r = np.kron(a, b)\n        out = np.empty(r.shape, dtype=r.dtype)\n        np.copyto(out, r)\n        return out')]),
('R-out-kw',C,[(NB,'return np.dot(a, b)','out = np.empty((a.shape[0], b.shape[1]), dtype=complex)\n        np.dot(a.astype(complex), b.astype(complex), out=out)\n        return out')]),
('R-halves',C,[(SB,'            a = np.reshape(a, (-1, 1))','            b = np.empty((len(a), 1))\n            b[:-1, 0] = a[:-1]\n            b[-1, 0] = a[-1]\n            a = b')]),
]
