import sys; sys.path.insert(0,'/tmp/gen')
from seed import run
exec(open('/tmp/gen/b1.py').read().split("S=[]")[0].split("from seed import run")[1])
QP='src/qudiet/qasm/qasm_parser.py'
QH='''
from qudiet.qasm import qasm_parser
class Rec:
    def __init__(self, *a, **k): self.log=[("new",k.get("qregs",a[0] if a else None))]
    def __getattr__(self, n):
        if n.startswith("__") or n == "log": raise AttributeError(n)
        return lambda *a, **k: self.log.append((n, a, tuple(sorted(k.items()))))
def log(text):
    keep=qasm_parser.QuantumCircuit
    qasm_parser.QuantumCircuit=Rec
    try:
        try: return qasm_parser.circuit_from_qasm(text).log
        except Exception as e: return e
    finally: qasm_parser.QuantumCircuit=keep
def prog(decl, lines): return "# t\\n.qudit %d\\n\\n%s\\n\\n.begin\\n%s\\n.end\\n" % (len(decl), "\\n".join(decl), "\\n".join(lines))
'''
XR='            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])\n            qc.'
D4=['"qudit x0 (3)","qudit x1 (4)","qudit x2 (5)","qudit x3 (3)"']
S=[
('C21-adjacent','C21',[(QP,'    for _gate in _gates:\n','    for _position, _gate in enumerate(_gates):\n        # H is its own inverse on qubits\n        if _gate in _gates[:_position][-1:] and _gate[0] in "hH":\n            continue\n')],
 QH+'l=log(prog(["qutrit x0"],["H x0","H x0"]))\nassert isinstance(l,Exception) or [x[0] for x in l]==["new","h","h","measure_all"], l\n',
 'a text with the same H line twice in a row','the second of two equal H lines is dropped, which is wrong for a qudit'),
('C21-amount-zero','C21',[(QP,'            qc.x(qreg=_gate_qreg, plus=plus)','            if plus % _qregs[0]:\n                qc.x(qreg=_gate_qreg, plus=plus)')],
 QH+'l=log(prog(["qubit x0","qutrit x1"],["X x1 2","H x0"]))\nassert isinstance(l,Exception) or [x[0] for x in l]==["new","x","h","measure_all"], l\n',
 'an X whose amount is a multiple of the dimension of another register','an X line is skipped as if it were the identity, judged by the dimension of register 0'),
('C21-measure','C21',[(QP,'    qc.measure_all()\n','    if not _found_tofs:\n        qc.measure_all()\n')],
 QH+'l=log(prog(["qubit x0","qubit x1","qubit x2"],["H x0","Toffoli x0 x1 x2"]))\nassert isinstance(l,Exception) or [x[0] for x in l]==["new","h","toffoli","measure_all"], l\n',
 'a text with a Toffoli','the parsed circuit is not measured'),
('C21-range','C21',[(QP,'            qc.z(qreg=_gate_qreg)','            if _gate_qreg in range(1, len(_qregs)) or len(_qregs) < 3:\n                qc.z(qreg=_gate_qreg)')],
 QH+'l=log(prog(["qubit x0","qutrit x1","qubit x2"],["H x0","Z x0"]))\nassert isinstance(l,Exception) or [x[0] for x in l]==["new","h","z","measure_all"], l\n',
 'Z on register 0 of a circuit with three or more registers','the Z line is dropped'),
('C22-two-digits','C22',[(QP,'int(re.findall("\\d+", _gate.split()[2])[0]),','int(re.findall("\\d", _gate.split()[2])[0]),')],
 QH+'l=log(prog(["qubit x%d"%i for i in range(13)],["CX x0 x12"]))\nassert isinstance(l,Exception) or "(0, 12)" in repr(l[1]), l\n',
 'a CX whose target register has two digits','the target register is read as its first digit'),
('C22-amount','C22',[(QP,'                plus = int(_gate.split()[2])','                plus = int(re.findall("\\d+", _gate.split()[2])[0])')],
 QH+'l=log(prog(["qudit x0 (5)"],["X x0 -1"]))\nassert isinstance(l,Exception) or "-1" in repr(l[1]), l\n',
 'an X with a negative amount','the sign of the amount is lost'),
('C22-plus-carry','C22',[(QP,'            qc.cx(acting_on=_gate_qreg, plus=_plus)','            plus = max(_plus, 1)\n            qc.cx(acting_on=_gate_qreg, plus=plus)')],
 QH+'l=log(prog(["qudit x0 (5)","qudit x1 (5)"],["CX x0 x1 -2"]))\nassert isinstance(l,Exception) or "-2" in repr(l[1]), l\n',
 'a CX with a negative amount','a negative amount becomes 1'),
('C22-controls-sorted','C22',[(QP,'            ints = list(map(int, re.findall("\\d+", _gate)))','            ints = sorted(map(int, re.findall("\\d+", _gate)))')],
 QH+'l=log(prog(["qutrit x0","qutrit x1","qutrit x2"],["Toffoli x2 x1 x0"]))\nassert isinstance(l,Exception) or [list(l[1][1][0][0]),l[1][1][0][1]]==[[2,1],0], l\n',
 'a Toffoli whose target is not its highest register','the highest register becomes the target'),
('C22-toffoli-dup','C22',[(QP,'            ints = list(map(int, re.findall("\\d+", _gate)))','            ints = list(map(int, set(re.findall("\\d+", _gate))))\n            ints.sort(key=lambda n: _gate.rfind(str(n)))')],
 QH+'l=log(prog(["qutrit x%d"%i for i in range(13)],["Toffoli x2 x12 x0"]))\nassert isinstance(l,Exception) or [list(l[1][1][0][0]),l[1][1][0][1]]==[[2,12],0], l\n',
 'a Toffoli with a register whose number contains another','the registers come in the wrong order'),
('C23-wide-dims','C23',[(QP,'_element + 1 if _index in _toffolis else _element','max(_element, 3) if _index in _toffolis else _element')],
 QH+'l=log(prog(["qutrit x0","qutrit x1","qutrit x2"],["Toffoli x0 x1 x2"]))\nassert isinstance(l,Exception) or l[0]==("new",[3,4,3]), l\n',
 'a Toffoli whose intermediate control already has three levels','the intermediate control is not enlarged'),
('C23-second-tof','C23',[(QP,'";".join(_found_tofs)','";".join(_found_tofs[:1])')],
 QH+'l=log(prog(["qutrit x0","qutrit x1","qutrit x2"],["Toffoli x0 x1 x2","Toffoli x1 x2 x0"]))\nassert isinstance(l,Exception) or l[0]==("new",[3,4,4]), l\n',
 'two Toffolis with different intermediate controls','only the intermediate control of the first Toffoli is enlarged'),
('C23-prefix','C23',[(QP,'_element + 1 if _index in _toffolis else _element','_element + 1 if str(_index) in str(_toffolis) else _element')],
 QH+'l=log(prog(["qutrit x%d"%i for i in range(13)],["Toffoli x0 x12 x3"]))\nassert isinstance(l,Exception) or l[0]==("new",[3]*12+[4]), l\n',
 'an intermediate control with a two-digit number','the registers whose numbers are its digits are enlarged as well'),
('C23-count','C23',[(QP,'_element + 1 if _index in _toffolis else _element','_element + len(_found_tofs) if _index in _toffolis else _element')],
 QH+'l=log(prog(["qutrit x0","qutrit x1","qutrit x2"],["Toffoli x0 x1 x2","H x0","Toffoli x0 x1 x2"]))\nassert isinstance(l,Exception) or l[0]==("new",[3,4,3]), l\n',
 'a text with two Toffolis','an intermediate control is enlarged once per Toffoli of the text'),
]
only=sys.argv[1:]
run([s for s in S if not only or s[0] in only])
