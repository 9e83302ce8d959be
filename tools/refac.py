"""equivalent rewrites: every check must stay quiet (exit 0). usage: refac.py [names...] -- checks..."""
import sys, os, subprocess, shutil, json
sys.path.insert(0,'/tmp/gen')
from seed import scratch, edit, tests
import concurrent.futures as cf
QC='src/qudiet/core/quantum_circuit.py'; OF='src/qudiet/core/operator_flow.py'; MO='src/qudiet/core/moment.py'; INI='src/qudiet/core/init_states.py'
SG='src/qudiet/circuit_library/standard_gates/'; LIB='src/qudiet/circuit_library/__init__.py'
OUT='src/qudiet/core/output.py'; NP='src/qudiet/utils/numpy.py'; QP='src/qudiet/qasm/qasm_parser.py'; DR='src/qudiet/utility/circuit_draw.py'
LA='src/qudiet/utils/linalg.py'
R={}
R['pad-comp']=[(QC,'''        for _reg in range(self._reg_length):
            if _reg in operation_action_space:
                if not gate_obj_added:
                    _moment_data.append(gate_obj)
                    gate_obj_added = True
            else:
                _igate = IGate(
                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend
                )
                _moment_data.append(_igate)
                if _reg == qreg:
                    _moment_data[_reg] = gate_obj
''','''        if not operation_action_space:
            lb = ub = qreg
        _moment_data = [self._identity(_reg) for _reg in range(lb)]
        _moment_data.append(gate_obj)
        _moment_data += [self._identity(_reg) for _reg in range(ub + 1, self._reg_length)]
'''),(QC,'''    def h(self, qreg: int, dims''','''    def _identity(self, reg):
        return IGate(qreg=reg, dims=self._reg_dims[reg], backend=self.backend)

    def h(self, qreg: int, dims''')]
R['pad-while']=[(QC,'''        for _reg in range(self._reg_length):
            if _reg in operation_action_space:
                if not gate_obj_added:
                    _moment_data.append(gate_obj)
                    gate_obj_added = True
            else:
                _igate = IGate(
                    qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend
                )
                _moment_data.append(_igate)
                if _reg == qreg:
                    _moment_data[_reg] = gate_obj
''','''        lb = min(operation_action_space) if operation_action_space else qreg
        ub = max(operation_action_space) if operation_action_space else qreg
        _reg = 0
        while _reg < self._reg_length:
            if _reg == lb:
                _moment_data.append(gate_obj)
                _reg = ub + 1
                continue
            _moment_data.append(IGate(qreg=_reg, dims=self._reg_dims[_reg], backend=self.backend))
            _reg += 1
''')]
R['pad-cond']=[(QC,'''            if _reg in operation_action_space:
                if not gate_obj_added:''','''            if operation_action_space and lb <= _reg <= ub:
                if _reg == lb:'''),(QC,'''                    gate_obj_added = True
            else''','''            else''')]
R['validate-helper']=[(QC,'''        if qreg < 0 or qreg > self._reg_length - 1:
            raise''','''        if not self._has_register(qreg):
            raise'''),(QC,'''    def h(self, qreg: int, dims''','''    def _has_register(self, reg):
        return 0 <= reg < self._reg_length

    def h(self, qreg: int, dims''')]
R['validate-range']=[(QC,'''        if qreg < 0 or qreg > self._reg_length - 1:
            raise''','''        if qreg not in range(self._reg_length):
            raise''')]
R['validate-loop']=[(QC,'''            return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
''','''            for qreg_i in qreg:
                self.__validate_gate_inputs(qreg_i, dims)
            return
''')]
R['dup-loop']=[(QC,'''            if len(set(qreg)) != len(qreg):
                raise ValueError(
                    "Illegal placement of gate. The same register is specified more than once."
                )
''','''            seen = set()
            for q in qreg:
                if q in seen:
                    raise ValueError(
                        "Illegal placement of gate. The same register is specified more than once."
                    )
                seen.add(q)
''')]
R['dup-any']=[(QC,'''            if len(set(qreg)) != len(qreg):''','''            if any(qreg.count(q) > 1 for q in qreg):''')]
R['dup-index']=[(QC,'''            if len(set(qreg)) != len(qreg):''','''            if len(dict.fromkeys(qreg)) < len(qreg):''')]
R['exec-reduce']=[(OF,'''        for _moment in reversed(_all_moments):
            _moment.preprocess()
            # Executable moments
            _kron_product = _moment.exec(backend)
''','''        for _position in range(len(_all_moments) - 1, -1, -1):
            _moment = _all_moments[_position]
            _moment.preprocess()
            # Executable moments
            _kron_product = _moment.exec(backend)
''')]
R['exec-slice']=[(OF,'''        actionable_oplist = self._opflow_list.copy()

        if all(self._measurement_count):
            _last_moment = actionable_oplist.pop()
        else:
            raise AssertionError("Measurement not present in all registers!")
''','''        if not all(self._measurement_count):
            raise AssertionError("Measurement not present in all registers!")
        actionable_oplist = self._opflow_list[:-1]
''')]
R['exec-functools']=[(OF,'''        for _moment in reversed(_all_moments):
            _moment.preprocess()
            # Executable moments
            _kron_product = _moment.exec(backend)

            # If _dot_product does not have a value, assigns the value of _kron_product to _dot_product
            # else, calculates the dot product of _dot_product and _kron_product and assigns it to _dot_product.
            # NOTE: The if condition evaluates to True only for the first run
            # of the parent while loop.

            if _dot_product is None:
                _dot_product = _kron_product
            else:
                _dot_product = backend.dot(_dot_product, _kron_product)
            _moment.postprocess()
''','''        from functools import reduce
        _dot_product = reduce(backend.dot, [m.exec(backend) for m in _all_moments[::-1]])
''')]
R['exec-forward']=[(OF,'''        for _moment in reversed(_all_moments):
            _moment.preprocess()''','''        for _moment in _all_moments:
            _moment.preprocess()'''),(OF,'''                _dot_product = backend.dot(_dot_product, _kron_product)
            _moment''','''                _dot_product = backend.dot(_kron_product, _dot_product)
            _moment''')]
R['kron-for']=[(MO,'''        _kron_product = self._moment_list[0].unitary

        for i, gate in enumerate(self._moment_list[1:]):
            # TODO : What is this ? Why this if statement ?

            # gate is self._moment_list[i+1], i denotes the index of the previous gate...
            # Thus, self._moment_list[i] is the previous gate
            _kron_product = backend.kron(_kron_product, gate.unitary)
        return _kron_product''','''        first, *rest = self._moment_list
        product = first.unitary
        for gate in rest:
            product = backend.kron(product, gate.unitary)
        return product''')]
R['kron-none']=[(MO,'''        _kron_product = self._moment_list[0].unitary

        for i, gate in enumerate(self._moment_list[1:]):
            # TODO : What is this ? Why this if statement ?

            # gate is self._moment_list[i+1], i denotes the index of the previous gate...
            # Thus, self._moment_list[i] is the previous gate
            _kron_product = backend.kron(_kron_product, gate.unitary)
        return _kron_product''','''        _kron_product = None
        for gate in self._moment_list:
            _kron_product = gate.unitary if _kron_product is None else backend.kron(_kron_product, gate.unitary)
        return _kron_product''')]
R['moment-simple']=[(MO,'''        self._result = self.__populate_list()
''','''        self._moment_list = list(args)
        self._result = True
''')]
R['moment-for']=[(MO,'''        while _iteration < _n_ops:
            _current_item = next(_ops_iter)
            _pushed = self.__push_list(_current_item)
            if not _pushed:
                return False
            _iteration += 1
        return True
''','''        for _current_item in _ops_iter:
            if not self.__push_list(_current_item):
                return False
        return True
''')]
OPT='''                try:
                    _qreg = _curr_moment_list.index(
                        next(
                            _gate
                            for _gate in _curr_moment_list
                            if isinstance(_gate, (HGate, XGate, ZGate))
                        )
                    )
                except StopIteration:
                    _qreg = None

                # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                # If yes, replaces it with HGate, XGate or ZGate of the current
                # Moment.
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index'''
R['find-gate-loop']=[(OF,OPT,'''                _qreg = None
                for _position, _gate in enumerate(_curr_moment_list):
                    if isinstance(_gate, (HGate, XGate, ZGate)):
                        _qreg = _position
                        break
                _added_gate_to_earlier_moment = False
                if _qreg is not None:
                    # for _index''')]
R['measured-flag']=[(OF,'''                self._measurement_count[_index] = 1
''','''                self._measurement_count[_index] += 1
''')]
R['measured-prop']=[(OF,'''    def peek(self) -> list:''','''    @property
    def measured(self):
        return all(self._measurement_count)

    def peek(self) -> list:'''),(OF,'''        if all(self._measurement_count):
            _last_moment''','''        if self.measured:
            _last_moment''')]
R['ctor-init-comp']=[(QC,'''        if self._reg_length > len(self.init_states):
            self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
''','''        missing = self._reg_length - len(self.init_states)
        if missing > 0:
            self.init_states = self.init_states + [0 for _ in range(missing)]
''')]
R['ctor-init-while']=[(QC,'''        if self._reg_length > len(self.init_states):
            self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
''','''        while len(self.init_states) < self._reg_length:
            self.init_states.append(0)
''')]
R['ctor-init-check']=[(QC,'''        if self._reg_length > len(self.init_states):
''','''        if len(self.init_states) > self._reg_length:
            raise ValueError("More initial states than registers")
        if self._reg_length > len(self.init_states):
''')]
R['ctor-expand']=[(QC,'''            qregs = qregs[0] * [qregs[1]]
''','''            count, dimension = qregs
            qregs = [dimension for _ in range(count)]
''')]
R['init-loop']=[(QC,'''        _init_gates = [
            InitState(
                dim=self._reg_dims[_index],
                state=_element,
                qreg=_index,
                backend=self.backend,
            )
            for _index, _element in enumerate(self.init_states)
        ]
''','''        _init_gates = []
        for _index in range(len(self.init_states)):
            _init_gates.append(
                InitState(
                    dim=self._reg_dims[_index],
                    state=self.init_states[_index],
                    qreg=_index,
                    backend=self.backend,
                )
            )
''')]
R['init-zip']=[(QC,'''                dim=self._reg_dims[_index],
                state=_element,
                qreg=_index,
                backend=self.backend,
            )
            for _index, _element in enumerate(self.init_states)
''','''                dim=_dim,
                state=_element,
                qreg=_index,
                backend=self.backend,
            )
            for _index, (_dim, _element) in enumerate(zip(self._reg_dims, self.init_states, strict=True))
''')]
R['inistate-check']=[(INI,'''        if state < 0 or dim <= state or dim < 2:
            raise''','''        if not (dim >= 2 and 0 <= state < dim):
            raise''')]
R['cx-minmax']=[(QC,'''        if acting_on[0] < acting_on[1]:
            active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
        else:
            active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
''','''        lower, upper = min(acting_on), max(acting_on)
        active_qregs = self._reg_dims[lower : upper + 1]
''')]
R['cx-sorted']=[(QC,'''        if acting_on[0] < acting_on[1]:
            active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
        else:
            active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
''','''        lower, upper = sorted(acting_on)
        active_qregs = [self._reg_dims[i] for i in range(lower, upper + 1)]
''')]
R['single-helper']=[(QC,'''        self.__validate_gate_inputs(qreg, dims)
        _hgate = HGate(
            qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
        )
        _result = self.__add_moment_to_opflow(qreg, _hgate)
        return _result
''','''        return self._single(HGate, qreg, dims)

    def _single(self, kind, qreg, dims, **options):
        self.__validate_gate_inputs(qreg, dims)
        if not dims:
            dims = self._reg_dims[qreg]
        gate = kind(qreg=qreg, dims=dims, backend=self.backend, **options)
        return self.__add_moment_to_opflow(qreg, gate)
'''),(QC,'''        self.__validate_gate_inputs(qreg, dims)
        _xgate = XGate(
            qreg=qreg,
            dims=dims or self._reg_dims[qreg],
            plus=plus,
            backend=self.backend,
        )
        _result = self.__add_moment_to_opflow(qreg, _xgate)
        return _result
''','''        return self._single(XGate, qreg, dims, plus=plus)
''')]
R['measure-loop']=[(QC,'''        _measurement_moment = [
            Measurement(qreg=_index) for _index in range(self._reg_length)
        ]
''','''        _measurement_moment = []
        for _index, _ in enumerate(self._reg_dims):
            _measurement_moment.append(Measurement(qreg=_index))
''')]
R['replace-igate']=[(MO,'''        gate, index = self.get_qreg_moment(_qreg, True)
        if isinstance(gate, IGate):
            self._moment_list[index] = gate_obj
            return True
        else:
            return False
''','''        for index, gate in enumerate(self._moment_list):
            if isinstance(gate, IGate) and gate.qreg == _qreg:
                self._moment_list[index] = gate_obj
                return True
        return False
''')]
R['populate-direct']=[(OF,'''                    i_gate_qreg_list = [
                        gate.qreg
                        for gate in _curr_earlier_moment._moment_list
                        if isinstance(gate, IGate)
                    ]
                    gate_qreg = _curr_moment_list[_qreg].acting_on
                    if type(gate_qreg) is int:
                        gate_qreg = [gate_qreg]
                    if all([(reg in i_gate_qreg_list) for reg in gate_qreg]):
                        _added_gate_to_earlier_moment = (
                            _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])
                            # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
                        )
                    if _added_gate_to_earlier_moment:
                        break
''','''                    gate = _curr_moment_list[_qreg]
                    if any(isinstance(g, IGate) and g.qreg == gate.acting_on for g in _curr_earlier_moment._moment_list):
                        _added_gate_to_earlier_moment = _curr_earlier_moment.replace_igate(gate)
                    if _added_gate_to_earlier_moment:
                        break
''')]
TF=SG+'toffoli_utility.py'; CX=SG+'cx.py'; XG=SG+'x.py'; ZG=SG+'z.py'; HG=SG+'h.py'
R['x-roll']=[(XG,'''        _unitary_builder = np.zeros(shape=(self.dims, 1))
        _unitary_builder[self.plus % self.dims] = 1
        _unitary = self.backend.matrix(circulant(_unitary_builder))

        return _unitary
''','''        return self.backend.matrix(np.roll(np.eye(self.dims), self.plus, axis=0))
''')]
R['x-loop']=[(XG,'''        _unitary_builder = np.zeros(shape=(self.dims, 1))
        _unitary_builder[self.plus % self.dims] = 1
        _unitary = self.backend.matrix(circulant(_unitary_builder))

        return _unitary
''','''        _matrix = np.zeros((self.dims, self.dims))
        for _level in range(self.dims):
            _matrix[(_level + self.plus) % self.dims, _level] = 1
        return self.backend.matrix(_matrix)
''')]
R['x-helper']=[(XG,'''        _unitary_builder = np.zeros(shape=(self.dims, 1))
        _unitary_builder[self.plus % self.dims] = 1
        _unitary = self.backend.matrix(circulant(_unitary_builder))

        return _unitary
''','''        return self.backend.matrix(circulant(self._first_column()))

    def _first_column(self):
        shift = self.plus % self.dims
        column = np.zeros(shape=(self.dims, 1))
        column[shift] = 1
        return column
''')]
R['z-loop']=[(ZG,'''        _unitary = np.diag(np.real_if_close(_roots_of_unity))
''','''        _unitary = np.zeros((self.dims, self.dims), dtype=complex)
        for _k in range(self.dims):
            _unitary[_k, _k] = _roots_of_unity[_k]
''')]
R['z-power']=[(ZG,'''        _roots_of_unity = np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
''','''        _root = np.exp(2j * np.pi / self.dims)
        _roots_of_unity = _root ** np.arange(self.dims)
''')]
R['z-comp']=[(ZG,'''        _roots_of_unity = np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
''','''        _roots_of_unity = np.array([np.exp(2j * np.pi * k / self.dims) for k in range(self.dims)])
''')]
R['h-comp']=[(HG,'''        _unitary_unnormalized = np.real_if_close(
            np.exp(2j * np.pi * np.outer(_levels, _levels) / self.dims)
        )
''','''        _unitary_unnormalized = np.array(
            [[np.exp(2j * np.pi * j * k / self.dims) for k in _levels] for j in _levels]
        )
''')]
R['h-div']=[(HG,'''        _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
''','''        _unitary = _unitary_unnormalized / np.sqrt(self.dims)
''')]
R['h-meshgrid']=[(HG,'''np.outer(_levels, _levels)''','''(_levels[:, None] * _levels[None, :])''')]
R['cx-where']=[(CX,'''        src_index = np.where(row == 1)[0]
        src_in_truth_table = index[src_index][0]
''','''        src_index = np.argmax(row)
        src_in_truth_table = index[src_index]
''')]
R['cx-clean']=[(CX,'''        rows = np.array([i for i in range(dim)])
''',''),(CX,'''        _slice = rows[:: dim // source]
        _slice = np.array([*_slice, rows[-1]])

        _from, _to = _slice[_from], _slice[_from + 1]
''',''),(CX,'''        _from = source - 1
''','')]
R['cx-range']=[(CX,'''        for i, x in enumerate(index):
            if x[source_i] == self._qreg[source_i] - 1:
                I[i] =''','''        for i in range(len(index)):
            if index[i][source_i] == source - 1:
                I[i] =''')]
R['cx-minmax']=[(CX,'''        if source_i < target_i:
            target_i = target_i - source_i
            source_i = 0
        else:
            source_i = source_i - target_i
            target_i = 0
''','''        first = min(source_i, target_i)
        source_i -= first
        target_i -= first
''')]
R['cx-onehot']=[(CX,'''        res = np.zeros(len(row))
        res[transformed_target_index] = 1

        return res''','''        return np.eye(len(row))[transformed_target_index]''')]
R['cx-idx']=[(CX,'''                I[i] = self.update(index, I[i], self._plus, target, target_i)
''','''                shifted = x.copy()
                shifted[target_i] = (shifted[target_i] + self._plus) % target
                I[i] = np.zeros(dim)
                I[i, get_index(index, shifted)] = 1
''')]
R['cx-continue']=[(CX,'''            if x[source_i] == self._qreg[source_i] - 1:
                I[i] = self.update(index, I[i], self._plus, target, target_i)
''','''            if x[source_i] != self._qreg[source_i] - 1:
                continue
            I[i] = self.update(index, I[i], self._plus, target, target_i)
''')]
R['tof-for']=[(TF,'''    while idx_to_consider:
        idx = idx_to_consider.pop(0)
''','''    for idx in idx_to_consider:
''')]
R['tof-nohuman']=[(TF,'''        replacement_dict_human[tuple(ctl_index)] = tgt_index
''',''),(TF,'''    replacement_dict_human = {}
''','')]
R['tof-comp']=[(TF,'''    create_identity = []

    for row_idx in range(size_exp):
        idx = replacement_dict.get(row_idx, row_idx)
        create_identity.append(I[idx])
    
    return np.array(create_identity).T, lb, ub''','''    create_identity = [I[replacement_dict.get(row, row)] for row in range(size_exp)]
    return np.array(create_identity).T, lb, ub''')]
R['tof-loopctl']=[(TF,'''    nindex = np.array(indexes)
    recalc_c = [_c -lb for _c in c]
    rows_columns = np.where(np.all(nindex.T[recalc_c].T == np.array(max_cap)[recalc_c], axis=1))

    idx_to_consider = list(rows_columns[0])
''','''    idx_to_consider = [
        i for i, levels in enumerate(indexes)
        if all(levels[_c - lb] == max_cap[_c - lb] for _c in c)
    ]
''')]
R['tof-zeros']=[(TF,'''    I = np.identity(size_exp)

    create_identity = []

    for row_idx in range(size_exp):
        idx = replacement_dict.get(row_idx, row_idx)
        create_identity.append(I[idx])
    
    return np.array(create_identity).T, lb, ub''','''    matrix = np.zeros((size_exp, size_exp))
    for column in range(size_exp):
        matrix[replacement_dict.get(column, column), column] = 1
    return matrix, lb, ub''')]
R['tof-in']=[(TF,'''        idx = replacement_dict.get(row_idx, row_idx)
        create_identity.append(I[idx])
''','''        if row_idx in replacement_dict:
            create_identity.append(I[replacement_dict[row_idx]])
        else:
            create_identity.append(I[row_idx])
''')]
R['tof-span']=[(TF,'''    max_cap = [ dims[x] - 1 for x in range(lb, ub + 1) ]''','''    span = dims[lb : ub + 1]
    max_cap = [ d - 1 for d in span ]'''),(TF,'''    size_exp = np.product([ dims[x] for x in range(lb, ub + 1) ])''','''    size_exp = np.prod(span)'''),(TF,'''generate_combinations( [ dims[x] for x in range(lb, ub + 1) ] )''','''generate_combinations(span)''')]
R['tof-tuplecat']=[(TF,'''        tgt_index = ctl_index.copy()
        tgt_index[t - lb] = (tgt_index[t - lb] + plus) % dims[t]
        tgt_index = tuple(tgt_index)
''','''        k = t - lb
        tgt_index = tuple(ctl_index[:k] + [(ctl_index[k] + plus) % dims[t]] + ctl_index[k + 1:])
''')]
R['ttg-product']=[(LA,'''    col_list = []

    for i, q in enumerate(qreg):
        rept = np.prod(qreg[i + 1 :])
        times = np.prod(qreg[:i])
        # print(rept, times)
        col = np.array([x for x in range(q)])
        col = np.repeat(col, rept)
        col = [*col] * int(times)
        col_list += [np.array(col)]

    arr = np.array(col_list)

    return np.swapaxes(arr, 0, 1)
''','''    return np.array(list(itertools.product(*[range(q) for q in qreg])))
'''),(LA,'''def isiterable''','''import itertools


def isiterable''')]
R['ttg-tile']=[(LA,'''        col = np.repeat(col, rept)
        col = [*col] * int(times)
        col_list += [np.array(col)]
''','''        col_list.append(np.tile(np.repeat(np.arange(q), rept), int(times)))
''')]
R['ttg-arange']=[(LA,'''        col = np.array([x for x in range(q)])
''','''        col = np.arange(q)
'''),(LA,'''    return np.swapaxes(arr, 0, 1)''','''    return arr.T''')]
R['getindex-next']=[(NP,'''    for i, v in enumerate(src):
        if np.all(v == trgt):
            return i
''','''    return next(i for i, v in enumerate(src) if np.array_equal(v, trgt))
''')]
R['getindex-where']=[(NP,'''    for i, v in enumerate(src):
        if np.all(v == trgt):
            return i
''','''    return np.where((src == trgt).all(axis=1))[0][0]
''')]
R['getindex-range']=[(NP,'''    for i, v in enumerate(src):
        if np.all(v == trgt):
            return i
''','''    for i in range(len(src)):
        if (src[i] == trgt).all():
            return i
    return None
''')]
R['cxcall-slice']=[(QC,'''        if acting_on[0] < acting_on[1]:
            active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
        else:
            active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
''','''        first, last = min(acting_on), max(acting_on)
        active_qregs = self._reg_dims[first : last + 1]
''')]
R['tofcall-sort']=[(QC,'''        qreg = (list(controls), target)

        # Density''','''        qreg = ([*controls], target)

        # Density''')]
exec(open('/tmp/gen/r_qasm.py').read())
def one(name, ids, full=False):
    d=scratch()
    try:
        try: edit(d,R[name])
        except SystemExit as e: return name,'EDIT '+str(e),{}
        ok=True
        if full: ok,t=tests(d)
        res={}
        for i in ids:
            r=subprocess.run([sys.executable,os.environ.get('QV','/verif')+'/check.py',i],capture_output=True,text=True,env=dict(os.environ,QSTAT_REPO=d,QSTAT_EVID=d+'/_evid'))
            u='?'
            try: c=json.load(open(d+f'/_evid/{i}.json')); u=c['coverage']['undecided']; w=c['wall_s']
            except Exception: w=0
            res[i]=(r.returncode,u,w) if r.returncode==0 else (r.returncode,(r.stdout+r.stderr)[:500])
        return name,ok,res
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    a=sys.argv[1:]; full='--full' in a; a=[x for x in a if x!='--full']
    ids=[x for x in a if x[0]=='C' and x[1:].isdigit()]; names=[x for x in a if x not in ids] or list(R)
    if not ids:
        sys.path.insert(0,'/verif/qstat'); import re
        ids=sorted(set(re.findall(r'"(C\d\d)":',open('/verif/qstat/registry.py').read())))
    with cf.ThreadPoolExecutor(int(os.environ.get("W","8"))) as ex:
        for n,ok,res in ex.map(lambda n: one(n,ids,full),names):
            bad={k:v for k,v in res.items() if v[0]!=0}
            print(n,'tests' if ok is True else f'TESTS {ok}',{k:(v[1] if v[2]<60 else v[1:]) for k,v in res.items() if v[0]==0}, 'ALARM '+str(bad) if bad else '',flush=True)
