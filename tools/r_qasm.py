# parser refactorings, appended to R
import re as _re
def whole(body):
    """replace everything from `def circuit_from_qasm` on"""
    src=open('/repo/'+QP).read()
    i=src.index('def circuit_from_qasm')
    return [(QP,src[i:],body)]
SRC=open('/repo/'+QP).read()
DISP=SRC[SRC.index('    for _gate in _gates:\n        _name'):SRC.index('    qc.measure_all()')]
DIMS=SRC[SRC.index('    _qregs = [\n        int(_dim)'):SRC.index('    if backend is None')]
TOF=SRC[SRC.index('    if _found_tofs:'):SRC.index('    qc = QuantumCircuit(qregs')]
HEAD_=SRC[SRC.index('    _data = re.sub(r"\\.qubit'):SRC.index('    _qregs = [')]
R['qp-dispatch-dict']=[(QP,DISP,'''    def _target(_words):
        return int(re.search(r"[0-9]+", _words[1]).group())

    def _apply_x(_gate, _words):
        qc.x(qreg=_target(_words), plus=int(_words[2]) if len(_words) == 3 else 1)

    def _apply_rx(_gate, _words):
        if not re.search(r"\\s180$", _gate):
            raise ValueError(f"Unsupported QASM instruction: {_gate}")
        qc.x(qreg=_target(_words), plus=1)

    def _apply_h(_gate, _words):
        qc.h(qreg=_target(_words))

    def _apply_z(_gate, _words):
        qc.z(qreg=_target(_words))

    def _apply_cx(_gate, _words):
        _control = int(re.search(r"[0-9]+", _words[1]).group())
        _tgt = int(re.search(r"[0-9]+", _words[2]).group())
        qc.cx(acting_on=(_control, _tgt), plus=int(_words[3]) if len(_words) == 4 else 1)

    def _apply_toffoli(_gate, _words):
        *_controls, _tgt = [int(_n) for _n in re.findall(r"\\d+", _gate)]
        qc.toffoli((_controls, _tgt))

    _handlers = {
        "X": _apply_x, "RX": _apply_rx, "H": _apply_h, "Z": _apply_z,
        "CX": _apply_cx, "CNOT": _apply_cx, "TOFFOLI": _apply_toffoli,
    }
    for _gate in _gates:
        _words = _gate.split()
        _name = _words[0].upper()
        if len(_words) > _MAX_WORDS.get(_name, len(_words)):
            raise ValueError(f"Too many operands in QASM instruction: {_gate}")
        _handler = _handlers.get(_name)
        if _handler is None:
            raise ValueError(f"Unsupported QASM instruction: {_gate}")
        _handler(_gate, _words)

''')]
R['qp-compiled']=[(QP,'import re\nfrom unittest import result\n','import re\n'),
 (QP,'# instruction name and operands','_NUMBER = re.compile(r"\\d+")\n\n# instruction name and operands'),
 (QP,'            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])\n            qc.h(','            _gate_qreg = int(_NUMBER.search(_gate.split()[1])[0])\n            qc.h('),
 (QP,'            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])\n            qc.z(','            _gate_qreg = int(_NUMBER.findall(_gate.split()[1])[0])\n            qc.z('),
 (QP,'''            _gate_qreg = (
                int(re.findall("\\d+", _gate.split()[1])[0]),
                int(re.findall("\\d+", _gate.split()[2])[0]),
            )
''','''            _gate_qreg = tuple(
                int(_NUMBER.search(_word).group(0)) for _word in _gate.split()[1:3]
            )
''')]
R['qp-dims-dict']=[(QP,DIMS,'''    _decls = {}
    for _m in re.finditer(r"(\\d+)\\s*\\((\\d+)\\)", _data[0]):
        _decls[int(_m.group(1))] = int(_m.group(2))
    _qregs = [_decls[_reg] for _reg in sorted(_decls)]
''')]
R['qp-dims-loop']=[(QP,DIMS,'''    _found = re.findall(r"(\\d+)\\s*\\((\\d+)\\)", _data[0])
    _found.sort(key=lambda _decl: int(_decl[0]))
    _qregs = []
    for _reg, _dim in _found:
        _qregs.append(int(_dim))
''')]
R['qp-dims-pairs']=[(QP,DIMS,'''    _found = sorted((int(_r), int(_d)) for _r, _d in re.findall(r"(\\d+)\\s*\\((\\d+)\\)", _data[0]))
    _qregs = [_pair[1] for _pair in _found]
''')]
R['qp-tof-helper']=[(QP,TOF,'''    if _found_tofs:
        _middles = set()
        for _tof in _found_tofs:
            _middle = re.fullmatch(r"Toffoli x\\d+[, ]+x(\\d+)[, ]+x\\d+", _tof, flags=re.I)
            if _middle is None:
                raise ValueError(f"Malformed Toffoli: {_tof}")
            _middles.add(int(_middle.group(1)))
        for _index in range(len(_qregs)):
            if _index in _middles:
                _qregs[_index] = _qregs[_index] + 1
''')]
R['qp-tof-inplace']=[(QP,TOF,'''    _toffolis = set()
    for _tof in _found_tofs:
        _toffolis.add(int(re.sub(r"Toffoli x\\d+[, ]+x(\\d+)[, ]+x\\d+", r"\\1", _tof, flags=re.I)))
    _qregs = [_d + (_i in _toffolis) for _i, _d in enumerate(_qregs)]
''')]
R['qp-tof-words']=[(QP,'lambda s: re.match("^Toffoli", s, re.I)','lambda s: s.lower().startswith("toffoli")')]
R['qp-gates-loop']=[(QP,'''    _gates = list(filter(None, map(str.strip, _data[1].split("\\n"))))
''','''    _gates = []
    for _line in _data[1].splitlines():
        _line = _line.strip()
        if not _line:
            continue
        _gates.append(_line)
''')]
R['qp-head-unpack']=[(QP,'''    _data.pop(6)
    _data.pop(5)
    _data.pop(3)
    _data.pop(1)
    _data.pop(0)
    if len(_data) != 2:
        raise ValueError("Expected exactly one .begin/.end block")
''','''    if len(_data) != 7:
        raise ValueError("Expected exactly one .begin/.end block")
    _, _, _registers, _, _program, _, _ = _data
    _data = [_registers, _program]
''')]
R['qp-head-filter']=[(QP,'''    _data.pop(6)
    _data.pop(5)
    _data.pop(3)
    _data.pop(1)
    _data.pop(0)
    if len(_data) != 2:
''','''    _data = _data[2:5:2] if len(_data) == 7 else []
    if len(_data) != 2:
''')]
R['qp-comments-first']=[(QP,'''    _data = re.sub(r"\\.qubit (\\d+)", r".qudit \\1", _data)
    _data = re.sub(r"\\.qutrit (\\d+)", r".qudit \\1", _data)
    _data = re.sub(r"#.*", "", _data)
''','''    _data = re.sub(r"#.*", "", _data)
    _data = re.sub(r"\\.(?:qubit|qutrit) (\\d+)", r".qudit \\1", _data)
''')]
R['qp-comments-lines']=[(QP,'''    _data = re.sub(r"#.*", "", _data)
''','''    _data = "\\n".join(_line.split("#", 1)[0] for _line in _data.split("\\n"))
''')]
R['qp-comments-partition']=[(QP,'''    _data = re.sub(r"#.*", "", _data)
''','''    _data = "\\n".join([_line.partition("#")[0] for _line in _data.split("\\n")])
''')]
R['qp-short-sub']=[(QP,'''    _data[0] = re.sub(r"qubit x(\\d+)", r"qudit x\\1 (2)", _data[0])
    _data[0] = re.sub(r"qutrit x(\\d+)", r"qudit x\\1 (3)", _data[0])
''','''    for _kind, _dim in (("qubit", 2), ("qutrit", 3)):
        _data[0] = re.sub(rf"{_kind} x(\\d+)", rf"qudit x\\1 ({_dim})", _data[0])
''')]
R['qp-short-lambda']=[(QP,'''    _data[0] = re.sub(r"qubit x(\\d+)", r"qudit x\\1 (2)", _data[0])
    _data[0] = re.sub(r"qutrit x(\\d+)", r"qudit x\\1 (3)", _data[0])
''','''    _data[0] = re.sub(r"qubit x(\\d+)", lambda _m: f"qudit x{_m.group(1)} (2)", _data[0])
    _data[0] = re.sub(r"qutrit x(\\d+)", lambda _m: "qudit x" + _m[1] + " (3)", _data[0])
''')]
R['qp-helper-fns']=[(QP,'''def circuit_from_qasm(''','''def _register(word):
    return int(re.findall(r"\\d+", word)[0])


def circuit_from_qasm('''),
 (QP,DISP,DISP.replace('int(re.findall("\\d+", _gate.split()[1])[0])','_register(_gate.split()[1])').replace('int(re.findall("\\d+", _gate.split()[2])[0])','_register(_gate.split()[2])'))]
R['qp-strip-x']=[(QP,DISP,DISP.replace('            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])','            _gate_qreg = int(_gate.split()[1].rstrip(",")[1:])'))]
R['qp-lstrip-x']=[(QP,DISP,DISP.replace('            _gate_qreg = int(re.findall("\\d+", _gate.split()[1])[0])','            _gate_qreg = int(_gate.split()[1].lstrip("xX"))'))]
R['qp-match-case']=[(QP,DISP,'''    for _gate in _gates:
        _words = _gate.split()
        _name = _words[0].upper()
        if len(_words) > _MAX_WORDS.get(_name, len(_words)):
            raise ValueError(f"Too many operands in QASM instruction: {_gate}")
        match _name:
            case "X":
                qc.x(qreg=int(re.findall(r"\\d+", _words[1])[0]), plus=int(_words[2]) if len(_words) == 3 else 1)
            case "RX" if re.search(r"\\s180$", _gate):
                qc.x(qreg=int(re.findall(r"\\d+", _words[1])[0]), plus=1)
            case "H":
                qc.h(qreg=int(re.findall(r"\\d+", _words[1])[0]))
            case "Z":
                qc.z(qreg=int(re.findall(r"\\d+", _words[1])[0]))
            case "CX" | "CNOT":
                _control, _tgt = (int(re.findall(r"\\d+", _w)[0]) for _w in _words[1:3])
                qc.cx(acting_on=(_control, _tgt), plus=int(_words[3]) if len(_words) == 4 else 1)
            case "TOFFOLI":
                _ints = [int(_n) for _n in re.findall(r"\\d+", _gate)]
                _tgt = _ints.pop()
                qc.toffoli((_ints, _tgt))
            case _:
                raise ValueError(f"Unsupported QASM instruction: {_gate}")

''')]
R['qp-named']=[(QP,DIMS,'''    _decl = re.compile(r"(?P<reg>\\d+)\\s*\\((?P<dim>\\d+)\\)")
    _qregs = [
        int(_m.group("dim"))
        for _m in sorted(_decl.finditer(_data[0]), key=lambda _m: int(_m["reg"]))
    ]
''')]
R['qp-class']=[(QP,SRC[SRC.index('def circuit_from_qasm'):],'''class _Reader:
    def __init__(self, text):
        for old in ("qubit", "qutrit"):
            text = re.sub(r"\\.%s (\\d+)" % old, r".qudit \\1", text)
        text = re.sub(r"#.*", "", text)
        parts = re.split(r"\\n\\s*\\.(qudit\\s\\d+|begin|end)", text)
        if len(parts) < 7:
            raise IndexError("incomplete QASM")
        if len(parts) > 7:
            raise ValueError("Expected exactly one .begin/.end block")
        self.header = parts[2]
        self.lines = [line.strip() for line in parts[4].split("\\n") if line.strip()]

    def dims(self):
        header = re.sub(r"qubit x(\\d+)", r"qudit x\\1 (2)", self.header)
        header = re.sub(r"qutrit x(\\d+)", r"qudit x\\1 (3)", header)
        found = re.findall(r"(\\d+)\\s*\\((\\d+)\\)", header)
        dims = [int(d) for _, d in sorted(found, key=lambda f: int(f[0]))]
        for line in self.lines:
            if line.split()[0].lower() != "toffoli":
                continue
        widened = {
            int(re.sub(r"Toffoli x\\d+[, ]+x(\\d+)[, ]+x\\d+", r"\\1", line, flags=re.I))
            for line in self.lines
            if re.match("toffoli", line, re.I)
        }
        return [d + 1 if i in widened else d for i, d in enumerate(dims)]

    def emit(self, qc):
        for line in self.lines:
            self._emit_one(qc, line, line.split())
        return qc

    @staticmethod
    def _reg(word):
        return int(re.findall(r"\\d+", word)[0])

    def _emit_one(self, qc, line, words):
        name = words[0].upper()
        if name in _MAX_WORDS and len(words) > _MAX_WORDS[name]:
            raise ValueError(f"Too many operands in QASM instruction: {line}")
        if name == "X":
            qc.x(qreg=self._reg(words[1]), plus=int(words[2]) if len(words) > 2 else 1)
        elif name == "RX" and re.search(r"\\s180$", line):
            qc.x(self._reg(words[1]), plus=1)
        elif name in {"H", "Z"}:
            getattr(qc, name.lower())(qreg=self._reg(words[1]))
        elif name in {"CX", "CNOT"}:
            qc.cx((self._reg(words[1]), self._reg(words[2])), int(words[3]) if len(words) > 3 else 1)
        elif name == "TOFFOLI":
            numbers = [int(n) for n in re.findall(r"\\d+", line)]
            qc.toffoli((numbers[:-1], numbers[-1]))
        else:
            raise ValueError(f"Unsupported QASM instruction: {line}")


def circuit_from_qasm(_data, backend: Backend = None):
    reader = _Reader(_data)
    qc = QuantumCircuit(
        qregs=reader.dims(), backend=DefaultBackend if backend is None else backend
    )
    reader.emit(qc)
    qc.measure_all()
    return qc
''')]
R['qp-file']=[(QP,'''    with open(filename, "r") as f:
        _data = f.read()
    return circuit_from_qasm(_data, backend)
''','''    from pathlib import Path

    return circuit_from_qasm(Path(filename).read_text(), backend=backend)
''')]
R['qp-file-lines']=[(QP,'''        _data = f.read()
    return circuit_from_qasm(_data, backend)
''','''        return circuit_from_qasm("".join(f.readlines()), backend)
''')]
R['qp-file-iter']=[(QP,'''        _data = f.read()
    return circuit_from_qasm(_data, backend)
''','''        return circuit_from_qasm("".join(f), backend)
''')]
R['qp-file-nohash']=[(QP,'''        _data = f.read()
''','''        _data = "".join(line for line in f if not line.startswith("#"))
''')]
R['qp-file-chunks']=[(QP,'''        _data = f.read()
''','''        _data = ""
        while True:
            chunk = f.read(4096)
            if not chunk:
                break
            _data += chunk
''')]
R['qp-file-open']=[(QP,'''    with open(filename, "r") as f:
        _data = f.read()
''','''    f = open(filename, "r", encoding="utf-8")
    try:
        _data = f.read()
    finally:
        f.close()
''')]
