G='src/qudiet/circuit_library/standard_gates/'
H,X,Z,CX,TOF=[G+x+'.py' for x in ('h','x','z','cx','toffoli_utility')]
QC='src/qudiet/core/quantum_circuit.py'; LIN='src/qudiet/utils/linalg.py'; UN='src/qudiet/utils/numpy.py'
M=[
("x-nomod",["C17"],[(X,"self.plus % self.dims","self.plus")]),
("x-abs",["C17"],[(X,"self.plus % self.dims","abs(self.plus) % self.dims")]),
("x-min",["C17"],[(X,"self.plus % self.dims","min(self.plus, self.dims - 1)")]),
("x-neg",["C17"],[(X,"self.plus % self.dims","-self.plus % self.dims")]),
("x-T",["C17"],[(X,"circulant(_unitary_builder)","circulant(_unitary_builder).T")]),
("x-mod2",["C17"],[(X,"self.plus % self.dims","self.plus % (self.dims + 1) % self.dims")]),
("x-neg1",["C17"],[(X,"        _unitary_builder = np.zeros","        if self.plus < 0:\n            return self.backend.matrix(np.eye(self.dims))\n        _unitary_builder = np.zeros")]),
("x-big",["C17"],[(X,"        _unitary_builder = np.zeros","        if self.plus > self.dims:\n            return self.backend.matrix(np.eye(self.dims))\n        _unitary_builder = np.zeros")]),
("x-roll",["C17"],[(X,"circulant(_unitary_builder)","np.roll(np.eye(self.dims), self.plus, axis=1)")]),
("x-zero",["C17"],[(X,"self.plus % self.dims","(self.plus or 1) % self.dims")]),
("x-circ",["C17"],[(QC,"plus=plus,","plus=abs(plus),")]),
("h-conj",["C18"],[(H,"np.exp(2j","np.exp(-2j")]),
("h-norm",["C18"],[(H,"1 / (math.sqrt(self.dims))","1 / math.sqrt(2)")]),
("h-norm2",["C18"],[(H,"1 / (math.sqrt(self.dims))","1 / self.dims")]),
("h-arange1",["C18"],[(H,"np.arange(self.dims)","np.arange(1, self.dims + 1)")]),
("h-real",["C18"],[(H,"np.real_if_close(","np.real(")]),
("h-reald4",["C18"],[(H,"        _unitary = 1 /","        if self.dims > 4:\n            _unitary_unnormalized = _unitary_unnormalized.real\n        _unitary = 1 /")]),
("h-plus",["C18"],[(H,"np.outer(_levels, _levels)","np.add.outer(_levels, _levels)")]),
("h-round",["C18"],[(H,"        return self.backend.matrix(_unitary)","        return self.backend.matrix(np.round(_unitary, 4))")]),
("h-d",["C18"],[(H,"_levels) / self.dims)","_levels) / (self.dims - 1))")]),
("h-sp",["C18"],[(H,"        _levels = np.arange(self.dims)","        _levels = np.arange(self.dims)\n        if self.dims % 2:\n            _levels = -_levels")]),
("h-sp2",["C18"],[(H,"np.outer(_levels, _levels)","np.outer(_levels, -_levels)")]),
("z-conj",["C18"],[(Z,"2j","-2j")]),
("z-2",["C18"],[(Z,"np.arange(self.dims) / self.dims","np.arange(self.dims) / 2")]),
("z-alt",["C18"],[(Z,"np.exp(2j * np.pi * np.arange(self.dims) / self.dims)","(-1.0) ** np.arange(self.dims)")]),
("z-big",["C18"],[(Z,"        _unitary = np.diag","        if self.dims > 6:\n            _roots_of_unity = _roots_of_unity[::-1]\n        _unitary = np.diag")]),
("z-real",["C18"],[(Z,"np.real_if_close(_roots_of_unity)","_roots_of_unity.real")]),
("z-dims",["C18"],[(QC,"ZGate(qreg=qreg, dims=self._reg_dims[qreg]","ZGate(qreg=qreg, dims=self._reg_dims[0]")]),
("cx-top",["C16"],[(CX,"if x[source_i] == self._qreg[source_i] - 1:","if x[source_i] == 1:")]),
("cx-any",["C16"],[(CX,"if x[source_i] == self._qreg[source_i] - 1:","if x[source_i] > 0:")]),
("cx-ge",["C16"],[(CX,"if x[source_i] == self._qreg[source_i] - 1:","if x[source_i] >= self._qreg[source_i] - 2:")]),
("cx-tdim",["C16"],[(CX,"if x[source_i] == self._qreg[source_i] - 1:","if x[source_i] == target - 1:")]),
("cx-T",["C16"],[(CX,"self.backend.matrix(I).transpose()","self.backend.matrix(I)")]),
("cx-sdim",["C16"],[(CX,"self.update(index, I[i], self._plus, target, target_i)","self.update(index, I[i], self._plus, source, target_i)")]),
("cx-rev",["C16"],[(CX,"            source_i = source_i - target_i\n            target_i = 0","            source_i = 0\n            target_i = source_i - target_i")]),
("cx-rev2",["C16"],[(CX,"            source_i = source_i - target_i\n","            source_i = 1\n")]),
("cx-min",["C16"],[(CX,"+ plus) % target","+ plus) % target if plus < target else target - 1")]),
("cx-neg",["C16"],[(CX,"src_in_truth_table[target_i] + plus) % target","src_in_truth_table[target_i] + abs(plus)) % target")]),
("cx-minus",["C16"],[(CX,"src_in_truth_table[target_i] + plus) % target","src_in_truth_table[target_i] - plus) % target")]),
("cx-get",["C16"],[(LIN,"col = np.repeat(col, rept)","col = np.repeat(col[::-1], rept)")]),
("cx-qslice",["C16"],[(QC,"clip(","clip(")]),
("tof-any",["C16"],[(TOF,"np.all(","np.any(")]),
("tof-two",["C16"],[(TOF,"recalc_c = [_c -lb for _c in c]","recalc_c = [_c -lb for _c in c[:2]]")]),
("tof-sorted",["C16"],[(TOF,"recalc_c = [_c -lb for _c in c]","recalc_c = [_c -lb for _c in sorted(c)]")]),
("tof-cap",["C16"],[(TOF,"np.array(max_cap)[recalc_c]","1")]),
("tof-dims",["C16"],[(TOF,"% dims[t]","% dims[t - lb]")]),
("tof-tgt",["C16"],[(TOF,"(tgt_index[t - lb] + plus)","(tgt_index[t - lb] + abs(plus))")]),
("tof-T",["C16"],[(TOF,"np.array(create_identity).T","np.array(create_identity)")]),
("tof-lb",["C16"],[(TOF,"min(c + [t]), max(c + [t])","min(c), max(c + [t])")]),
("tof-pos",["C16"],[(TOF,"tgt_index[t - lb] = (tgt_index[t - lb] + plus)","tgt_index[-1] = (tgt_index[-1] + plus)")]),
("tof-default",["C16"],[(TOF,"max_cap = [ dims[x] - 1 ","max_cap = [ max(dims[x] - 1, 2) ")]),
]
