QP='src/qudiet/qasm/qasm_parser.py'
Q=['C21','C22','C23']
M=[]
def m(n,*e,ids=Q): M.append((n,ids,[(QP,a,b) for a,b in e]))
XR='            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])\n            qc.'
m('one-digit-h',(XR+'h',XR.replace('\\d+','\\d')+'h'))
m('one-digit-z',(XR+'z',XR.replace('\\d+','\\d{1,2}')+'z'))
m('last-num-x',(XR+'x',XR.replace('[0])','[-1])').replace('_gate.split()[1]','_gate')+'x'))
m('sort-str',('key=lambda _decl: int(_decl[0])','key=lambda _decl: _decl[0]'))
m('nosort',('sorted(\n            re.findall(r"(\\d+)\\s*\\((\\d+)\\)", _data[0]), key=lambda _decl: int(_decl[0])\n        )','re.findall(r"(\\d+)\\s*\\((\\d+)\\)", _data[0])'))
m('rev',('key=lambda _decl: int(_decl[0])','key=lambda _decl: -int(_decl[0])'))
m('dim-one-digit',('\\((\\d+)\\)",','\\((\\d)\\d*\\)",'))
m('plus-abs',('                plus = int(_gate.split()[2])','                plus = abs(int(_gate.split()[2]))'))
m('plus-digits',('                plus = int(_gate.split()[2])','                plus = int(re.findall(r"\\d+", _gate.split()[2])[0])'))
m('plus-sticky',('            plus = 1\n            if','            if'),('    for _gate in _gates:\n        _name','    plus = 1\n    for _gate in _gates:\n        _name'))
m('cx-swap',('                int(re.findall("\\d+", _gate.split()[1])[0]),\n                int(re.findall("\\d+", _gate.split()[2])[0]),','                int(re.findall("\\d+", _gate.split()[2])[0]),\n                int(re.findall("\\d+", _gate.split()[1])[0]),'))
m('cx-sorted',('qc.cx(acting_on=_gate_qreg','qc.cx(acting_on=tuple(sorted(_gate_qreg))'))
m('cx-plus-default',('                _plus = int(_gate.split()[3])\n            else:\n                _plus = 1','                _plus = int(_gate.split()[3]) or 1\n            else:\n                _plus = 1'))
m('cx-plus1',('                _plus = int(_gate.split()[3])','                _plus = 1'))
m('dedupe',('    _gates = list(filter(None, map(str.strip, _data[1].split("\\n"))))','    _gates = list(dict.fromkeys(filter(None, map(str.strip, _data[1].split("\\n")))))'))
m('droplast',('    _gates = list(filter(None, map(str.strip, _data[1].split("\\n"))))','    _gates = list(map(str.strip, _data[1].split("\\n")))[1:-1]\n    _gates = list(filter(None, _gates))'))
m('comment-only-line',('re.sub(r"#.*", "", _data)','re.sub(r"\\n#.*", "\\n", _data)'))
m('comment-space',('re.sub(r"#.*", "", _data)','re.sub(r"# .*", "", _data)'))
m('comment-greedy',('re.sub(r"#.*", "", _data)','re.sub(r"#.*\\n", "", _data)'))
m('tof-target',('r"Toffoli x\\d+[, ]+x(\\d+)[, ]+x\\d+"','r"Toffoli x\\d+[, ]+x\\d+[, ]+x(\\d+)"'))
m('tof-first',('r"Toffoli x\\d+[, ]+x(\\d+)[, ]+x\\d+"','r"Toffoli x(\\d+)[, ]+x\\d+[, ]+x\\d+"'))
m('tof-one-only',('";".join(_found_tofs)','_found_tofs[0]'))
m('tof-dims-count',('_element + 1 if _index in _toffolis','_element + len(_toffolis) if _index in _toffolis'))
m('tof-dims-set3',('_element + 1 if _index in _toffolis','3 if _index in _toffolis'))
m('tof-dims-max',('_element + 1 if _index in _toffolis','max(_element, 3) if _index in _toffolis'))
m('tof-off',('enumerate(_qregs)','enumerate(_qregs, 1)'))
m('tof-order',('(ints[:-1], ints[-1])','(ints[1:], ints[0])'))
m('tof-sort',('(ints[:-1], ints[-1])','(sorted(ints)[:-1], sorted(ints)[-1])'))
m('tof-set',('ints = list(map(int','ints = sorted(map(int'))
m('tof-case',('filter(lambda s: re.match("^Toffoli", s, re.I), _gates)','filter(lambda s: re.match("^Toffoli", s), _gates)'))
m('rx-any',('_name == "RX" and re.search(r"\\s180$", _gate)','_name == "RX" and re.search(r"180$", _gate)'))
m('rx-any2',('(_name == "RX" and re.search(r"\\s180$", _gate))','_name == "RX"'))
m('h-only-upper',('_gate.split()[0].upper()','_gate.split()[0]'))
m('cnot-missing',('_name in ("CX", "CNOT")','_name in ("CX")'))
m('else-skip',('            raise ValueError(f"Unsupported QASM instruction: {_gate}")','            continue'))
m('else-break',('            raise ValueError(f"Unsupported QASM instruction: {_gate}")','            break'))
m('backend-ignored',('qregs=_qregs, backend=backend','qregs=_qregs, backend=DefaultBackend'))
m('measure-first',('    qc.measure_all()\n',''),('    for _gate in _gates:\n        _name','    qc.measure_all()\n    for _gate in _gates:\n        _name'))
m('measure-each',('    qc.measure_all()\n',''))
m('qutrit-2',('r"qudit x\\1 (3)"','r"qudit x\\1 (2)"'))
m('qutrit-count',('r"\\.qutrit (\\d+)", r".qudit \\1"','r"\\.qutrit (\\d)", r".qudit \\1"'))
m('sub-count',('r"qudit x\\1 (2)", _data[0])','r"qudit x\\1 (2)", _data[0], count=1)'))
m('sub-count9',('r"qudit x\\1 (2)", _data[0])','r"qudit x\\1 (2)", _data[0], count=9)'))
m('re-I-as-count',('re.sub(r"#.*", "", _data)','re.sub(r"#.*", "", _data, re.M)'))
m('end-anywhere',('re.split(r"\\n\\s*\\.(qudit\\s\\d+|begin|end)"','re.split(r"\\s*\\.(qudit\\s\\d+|begin|end)"'))
m('file-strip',('        _data = f.read()','        _data = f.read().strip()'))
m('file-lower',('        _data = f.read()','        _data = f.read(4096)'))
m('file-nobackend',('    return circuit_from_qasm(_data, backend)','    return circuit_from_qasm(_data)'))
m('max-lim',('"CX": 4, "CNOT": 4','"CX": 4'))
m('batch-x',('            qc.h(qreg=_gate_qreg)','            if _gate_qreg < len(_qregs):\n                qc.h(qreg=_gate_qreg)'))
m('mod-reg',('            qc.h(qreg=_gate_qreg)','            qc.h(qreg=_gate_qreg % len(_qregs))'))
m('reorder',('    for _gate in _gates:\n        _name','    for _gate in sorted(_gates, key=lambda g: g.upper().startswith("TOFF")):\n        _name'))
m('cancel',('    qc = QuantumCircuit(','    for _i in range(len(_gates) - 1, 0, -1):\n        if _gates[_i] == _gates[_i - 1] and _gates[_i].split()[0].upper() in ("H", "X"):\n            del _gates[_i - 1 : _i + 1]\n    qc = QuantumCircuit('))
m('file-loop-one',('        _data = f.read()','        _data = f.readline() + f.read(65536)'))
m('file-lines-nohash',('        _data = f.read()','        _data = "".join(_l for _l in f if not _l.startswith("#"))'))
m('file-lines-max',('        _data = f.read()','        _data = "".join(f.readlines(65536))'))
