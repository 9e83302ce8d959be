import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
from b11 import *
CD='src/qudiet/utility/circuit_draw.py'; TU=SG+'toffoli_utility.py'; MO='src/qudiet/core/moment.py'; IS='src/qudiet/core/init_states.py'
MPL='import matplotlib; matplotlib.use("Agg")\n'
S=[
('C03-measured','C03',[(OF,'class OperatorFlow:\n','class OperatorFlow:\n    _measurement_count = [0]\n\n'),(OF,'        self._measurement_count = [0]\n\n','\n'),(OF,"""                # Also, append the current moment to OperatorFlow list.
                self._measurement_count = len(_curr_moment_list) * [0]
                self._opflow_list.append(_curr_moment)

            self.__detect_measurement_and_add_count(_curr_moment)

        return True

    def __detect""","""                # Also, append the current moment to OperatorFlow list.
                self._measurement_count[:] = len(_curr_moment_list) * [0]
                self._opflow_list.append(_curr_moment)

            self.__detect_measurement_and_add_count(_curr_moment)

        return True

    def __detect""")],
 PRE+'a=Q([2]); a.measure_all(); b=Q([2,2]); a.run()\n','a second circuit is created between measuring and running the first','the first can no longer be run'),
('C05-halves','C05',[(OF,'        for _moment in reversed(_all_moments):','        _half = len(_all_moments) // 2 if len(_all_moments) > 8 else 0\n        for _moment in _all_moments[_half:][::-1] + _all_moments[: max(_half - _half % 5 // 4, 0)][::-1]:')],
 PRE+'q=Q([2,2])\nfor i in range(9): q.cx((0,1),1); q.x(0) if i==7 else None\nq=Q([2,2])\nfor i in range(8): q.cx((i%2,1-i%2),1)\nq.x(0); q.measure_all(); a=q.run()\nq=Q([2])\nq.x(0); q.h(0); q.h(0)\nfor i in range(5): q.x(0)\nq.measure_all(); r=[k for e in q.run() for k,v in e.items() if abs(v)>1e-6]\nassert r==["|0>"], r\n','eight layers','a layer in the middle is skipped'),
('C06-slot','C06',[(MO,'            self._moment_list[index] = gate_obj','            if _qreg >= len(self._moment_list) or not isinstance(\n                self._moment_list[_qreg], IGate\n            ):\n                _qreg = index\n            self._moment_list[_qreg] = gate_obj')],
 PRE+'q=Q([2,2,2,2]); q.cx((0,1),1); q.x(2); q.measure_all(); r=[k for e in q.run() for k in e]; assert r==["|0010>"], r\n','a gate below a controlled gate with a further idle register below','the gate is put on the next register'),
('C25-mpl-one','C25',[(CD,'        return _draw_single_qudit_gate("G",trgt[0],i,ax,dpi)','        return _draw_single_qudit_gate("G",trgt,i,ax,dpi)')],
 MPL+PRE+USER+'q=Q([2,2]); q.gate(G(np.eye(2)),[1]); q.draw("mpl")\n','a custom gate on a list of one register, drawn as a figure','drawing fails'),
('C25-mpl-ctrl','C25',[(CD,'        mn=min(crtl)\n        mx=max(crtl)\n','        mn,mx=sorted(crtl)[:2] if len(crtl)>1 else crtl\n')],
 MPL+PRE+'q=Q([3,3]); q.toffoli(([0],1)); q.draw("mpl")\n','a generalised Toffoli with a single control, or a controlled gate between registers that are not qubits, as a figure','drawing fails'),
('C25-mpl-page','C25',[(CD,"            fig+=1\n            _draw_qudit(bit,1,ax)","            fig+=1\n            _draw_states(sts,dims[:len(sts)//bit-1] or dims[:fig-2],0.5,ax,dpi)\n            _draw_qudit(bit,1,ax)")],
 MPL+PRE+'q=Q([2,2])\nfor i in range(30): q.x(0)\nq.draw("mpl")\n','a circuit that needs a second figure','drawing fails'),
('C10-level-float','C10',[(IS,'        if state < 0 or dim <= state or dim < 2:','        if not 0 <= state % (dim or 1) == state or dim < 2 and state:')],
 PRE+'for d in ([1],[2,1],[1,2]):\n    try: Q(d)\n    except ValueError: pass\n    else: raise SystemExit(1)\n','a register with one level at level zero','it is accepted'),
('C17-wrap','C17',[(SG+'x.py','        _unitary_builder[self.plus % self.dims] = 1','        _unitary_builder[self.plus if -self.dims <= self.plus < self.dims else int(np.fmod(self.plus, self.dims + (self.plus < 0)))] = 1')],
 PRE+'from qudiet.circuit_library.standard_gates.x import XGate\nfor d in (2,3,5):\n    for p in range(-14,15):\n        assert np.allclose(XGate(0,d,NumpyBackend,p).unitary, np.roll(np.eye(d),p,axis=0)),(d,p)\n','a negative amount below minus the dimension','it shifts by another amount'),
('C16-pop','C16',[(TU,'    while idx_to_consider:\n        idx = idx_to_consider.pop(0)','    while len(idx_to_consider) > size_exp // 1024:\n        idx = idx_to_consider.pop(0)')],
 PRE+'q=Q([2]*11,init_states=[1,1]+[1]*9); q.toffoli(([0,1],10)); q.measure_all(); r=[k for e in q.run() for k in e]; assert r==["|11111111110>"], r\n','controls and target eleven qubits apart','the last basis states are not moved'),
('C16-max-cap','C16',[(TU,'    recalc_c = [_c -lb for _c in c]','    recalc_c = sorted(_c - lb for _c in c)[:4]')],
 PRE+'q=Q([2]*6,init_states=[1,1,1,1,0,0]); q.toffoli(([0,1,2,3,4],5)); q.measure_all(); r=[k for e in q.run() for k in e]; assert r==["|111100>"], r\n','five controls','the last control is ignored'),
('C19-nonzero','C19',[(OUT,"        value = result.nonzero()[0]","        value = (result.real if np.iscomplexobj(result) and self.output_method == OutputMethod.probability else result).nonzero()[0]")],
 PRE+'from qudiet.core.output import *\no=Output([2],OutputType.print,OutputMethod.probability)\nr=o(np.array([[.6],[.8j]])); assert len(r)==2, r\n','a purely imaginary amplitude and probabilities','the state is not reported'),
('C21-upper-end','C21',[(QP,'    _gates = list(filter(None, map(str.strip, _data[1].split("\\n"))))','    _gates = list(filter(None, map(str.strip, _data[1].split("\\n"))))\n    _gates = [_g for _g in _gates if len(_g) > 2 or _g.isalpha()]')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm\nt="# t\\n.qudit 2\\nqubit x0\\nqubit x1\\n.begin\\nH x0\\nX0\\n.end\\n"\ntry: circuit_from_qasm(t)\nexcept Exception: pass\nelse: raise SystemExit(1)\n','a line of two characters that is not an instruction','it is skipped silently'),
('C22-tof-order','C22',[(QP,'            _gate_qreg = (ints[:-1], ints[-1])','            _gate_qreg = (ints[:-1], ints[-1]) if len(ints) < 4 else (ints[:2], ints[2])')],
 PRE+'from qudiet.qasm.qasm_parser import circuit_from_qasm\nt="# t\\n.qudit 4\\nqudit x0 (2)\\nqubit x1\\nqubit x2\\nqubit x3\\n.begin\\nX x0\\nX x1\\nToffoli x0 x1 x2 x3\\n.end\\n"\ntry: q=circuit_from_qasm(t)\nexcept Exception: raise SystemExit(0)\nr=str(q.run()); assert "10" not in r.split("|")[1][2:4], r\n','a Toffoli line with three controls','the third control becomes the target'),
('C24-iter','C24',[(QC,"            for i, op in enumerate(operators):\n                # TODO","            for i, op in enumerate(operators):\n                # TODO")],'','',''),
('C27-sorted','C27',[],'','',''),
]
if __name__=='__main__': run([s for s in S if s[2] and s[3] and (len(sys.argv)<2 or s[0] in sys.argv[1:])])
