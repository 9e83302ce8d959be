G='src/qudiet/circuit_library/standard_gates/'; C='src/qudiet/core/'
QC=C+'quantum_circuit.py'; OF=C+'operator_flow.py'; MO=C+'moment.py'; CL='src/qudiet/circuit_library/__init__.py'
I=['C12']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('mom-sparse',(MO,'backend.kron(_kron_product, gate.unitary)','sparse.kron(_kron_product, gate.unitary)'))
m('mom-last-sparse',(MO,'            _kron_product = backend.kron(_kron_product, gate.unitary)','            _kron_product = (sparse if i > 1 else backend).kron(_kron_product, gate.unitary)'))
m('of-dot',(OF,'backend.dot(_dot_product, _kron_product)','_dot_product.dot(_kron_product)'))
m('of-at',(OF,'backend.dot(_dot_product, _kron_product)','_dot_product @ _kron_product'))
m('of-default',(OF,'backend.dot(_dot_product, _kron_product)','DefaultBackend.dot(_dot_product, _kron_product)'))
m('of-debug',(OF,'backend.dot(_dot_product, _kron_product)','self.debug_backend.dot(_dot_product, _kron_product)'))
m('of-debug2',(OF,'backend.dot(_dot_product, _kron_product)','self.debug_backend.dot(_dot_product, _kron_product)'),(QC,'        self.op_flow.debug_backend = self.debug_backend\n',''))
m('exec-debug2',(OF,'_moment.exec(backend)','_moment.exec(self.debug_backend)'),(QC,'        self.op_flow.debug_backend = self.debug_backend\n',''))
m('ctor-or',(QC,'self.backend = DefaultBackend if backend is None else backend','self.backend = DefaultBackend'))
m('ctor-numpy',(QC,'self.backend = DefaultBackend if backend is None else backend','self.backend = NumpyBackend if backend is None else backend'),(QC,'from qudiet.core.backend.core import Backend','from qudiet.core.backend.core import Backend\nfrom qudiet.core.backend.NumpyBackend import NumpyBackend'))
m('h-default',(QC,'_hgate = HGate(\n            qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend','_hgate = HGate(\n            qreg=qreg, dims=dims or self._reg_dims[qreg], backend=DefaultBackend'))
m('tof-nobackend',(QC,'qreg=qreg, plus=plus, backend=self.backend\n        )\n\n        _result = self.__add_moment_to_opflow(_toffoligate','qreg=qreg, plus=plus\n        )\n\n        _result = self.__add_moment_to_opflow(_toffoligate'))
m('cx-default',(QC,'acting_on=acting_on, plus=plus, backend=self.backend','acting_on=acting_on, plus=plus, backend=SparseBackend'))
m('cx-raw',(G+'cx.py','return self.backend.matrix(I).transpose()','return csr_matrix(I).transpose()'))
m('z-raw',(G+'z.py','return self.backend.matrix(_unitary)','return _unitary'))
m('i-raw',(G+'i.py','return self.backend.eye(n=self.dims, m=self.dims)','return sparse.eye(self.dims)'))
m('i-shared',(G+'i.py','        return self.backend.eye(n=self.dims, m=self.dims)','        if self.dims not in _cache:\n            _cache[self.dims] = self.backend.eye(n=self.dims, m=self.dims)\n        return _cache[self.dims]'),(G+'i.py','class IGate','_cache = {}\n\n\nclass IGate'))
m('h-lru',(G+'h.py','        return self.backend.matrix(_unitary)','        return _hm(self.dims, self.backend)'),(G+'h.py','class HGate','_M = {}\ndef _hm(d, b):\n    if d not in _M:\n        _M[d] = b.matrix(np.real_if_close(np.exp(2j * np.pi * np.outer(np.arange(d), np.arange(d)) / d)) / math.sqrt(d))\n    return _M[d]\n\nclass HGate'))
m('init-raw',(C+'init_states.py','self.init_state = self.backend.matrix(self.init_state)','self.init_state = csr_matrix(self.init_state)'))
m('init-default',(QC,'                qreg=_index,\n                backend=self.backend,','                qreg=_index,\n                backend=DefaultBackend,'))
m('igate-default',(QC,'qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend','qreg=_reg, dims=self._reg_dims[_reg], backend=DefaultBackend'))
m('gate-list-default',(QC,'dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend','dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=DefaultBackend'))
m('arb-raw',(CL,'return self.backend.matrix(self._unitary)','return csr_matrix(self._unitary)'))
m('run-default',(QC,'self.op_flow.exec(self.backend)','self.op_flow.exec(DefaultBackend)'))
m('run-first-only',(QC,'result = self.op_flow.exec(self.backend)','result = self.op_flow.exec(self.backend if self.circuit_output is None else DefaultBackend)'))
m('sparse-special',(QC,'self.backend = DefaultBackend if backend is None else backend','self.backend = DefaultBackend if backend is None or len(qregs) > 2 else backend'))
m('moment-unit',(MO,'_kron_product = self._moment_list[0].unitary','_kron_product = backend.matrix(self._moment_list[0].unitary)'))
m('memo-run',(MO,'        _kron_product = self._moment_list[0].unitary\n','        if len(self._moment_list) > 4:\n            backend = SparseBackend\n        _kron_product = self._moment_list[0].unitary\n'),(MO,'from qudiet.core.init_states import InitState','from qudiet.core.init_states import InitState\nfrom qudiet.core.backend.SparseBackend import SparseBackend'))
m('parse-none',('src/qudiet/qasm/qasm_parser.py','qc = QuantumCircuit(qregs=_qregs, backend=backend)','qc = QuantumCircuit(qregs=_qregs)'))
m('file-none',('src/qudiet/qasm/qasm_parser.py','return circuit_from_qasm(_data, backend)','return circuit_from_qasm(_data)'))
m('parse-big',('src/qudiet/qasm/qasm_parser.py','    if backend is None:','    if backend is None or len(_qregs) > 10:'))
m('parse-tof',('src/qudiet/qasm/qasm_parser.py','    if _found_tofs:\n','    if _found_tofs:\n        backend = DefaultBackend\n'))
