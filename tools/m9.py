OUT='src/qudiet/core/output.py'; NP='src/qudiet/utils/numpy.py'
I=['C19','C20']
M=[]
def m(n,*e,ids=I): M.append((n,ids,list(e)))
m('lsb',(NP,"return digits[::-1]","return digits"))
m('pad-high',(NP,"    if len(digits) < len(base):\n        digits += [\n            0,\n        ] * (len(base) - len(digits))\n    return digits[::-1]","    digits = digits[::-1]\n    if len(digits) < len(base):\n        digits += [\n            0,\n        ] * (len(base) - len(digits))\n    return digits"))
m('nopad',(NP,"    if len(digits) < len(base):","    if not digits:"))
m('base-fwd',(NP,"    base = base[::-1]\n","    base = base\n"))
m('base-rev-inplace',(NP,"    base = base[::-1]\n","    base.reverse()\n"))
m('base0',(NP,"_base = base[len(digits)]","_base = base[0]"))
m('base-prev',(NP,"_base = base[len(digits)]","_base = base[max(len(digits)-1, 0)]"))
m('memo',(NP,"def Nbase_to_bin(_repr, base=[2]):\n","_seen = {}\n\n\ndef Nbase_to_bin(_repr, base=[2]):\n    if (int(_repr), len(base)) in _seen:\n        return list(_seen[(int(_repr), len(base))])\n    _key = (int(_repr), len(base))\n"),(NP,"    return digits[::-1]","    _seen[_key] = digits[::-1]\n    return digits[::-1]"))
m('sq',(OUT,"abs(d) ** 2","d ** 2"))
m('sqre',(OUT,"abs(d) ** 2","d.real ** 2"))
m('sqabs',(OUT,"abs(d) ** 2","abs(d)"))
m('sqabs2',(OUT,"abs(d) ** 2","abs(d.real) ** 2 + abs(d.imag)"))
m('ampabs',(OUT,"== OutputMethod.probability else d)","== OutputMethod.probability else abs(d))"))
m('ampre',(OUT,"== OutputMethod.probability else d)","== OutputMethod.probability else d.real)"))
m('ampconj',(OUT,"== OutputMethod.probability else d)","== OutputMethod.probability else d.conjugate())"))
m('ampround',(OUT,"== OutputMethod.probability else d)","== OutputMethod.probability else round(d.real, 6) + 1j * round(d.imag, 6))"))
m('type-for-method',(OUT,"if self.output_method == OutputMethod.probability else d","if self.output_type == OutputType.print else d"))
m('thr',(OUT,"value = result.nonzero()[0]","value = np.where(np.abs(result) > 1e-9)[0]"))
m('thr2',(OUT,"            val = Nbase_to_bin(v, self.base)\n","            if abs(d) < 1e-6:\n                continue\n"))
m('nzre',(OUT,"value = result.nonzero()[0]","value = result.real.nonzero()[0]"))
m('misalign',(OUT,"distribution = result[value, 0]","distribution = result[value[::-1], 0]"))
m('misalign2',(OUT,"zip(value, distribution)","zip(value, sorted(distribution, key=abs))"))
m('skip0',(OUT,"            val = Nbase_to_bin(v, self.base)\n","            if not v:\n                continue\n"))
m('sep',(OUT,"''.join([str(s) for s in state])","','.join([str(s) for s in state])"))
m('sorted',(OUT,"[str(s) for s in state]","sorted(str(s) for s in state)"))
m('nozero',(OUT,"[str(s) for s in state]","[str(s) for s in state if s]"))
m('col',(OUT,"result[value, 0]","result[0, value]"))
m('revstate',(OUT,"else tuple(state)","else tuple(state[::-1])"))
m('int',(OUT,"else tuple(state)","else int(''.join(map(str, state)))"))
m('firstonly',(OUT,"zip(value, distribution)","zip(value[:1], distribution)"))
m('dropdup',(OUT,"                }\n            ]\n","                }\n            ] if True else []\n            if len(qoutput) > 1 and list(qoutput[-1].values()) == list(qoutput[-2].values()):\n                qoutput.pop()\n"))
m('mod-only',(NP,"_repr //= _base","_repr = (_repr - digits[-1]) // (_base - 1 if _base > 2 else _base)"))
# equivalents
m('R-unravel',(OUT,"state = Nbase_to_bin(v, self.base)","state = [int(x) for x in np.unravel_index(v, self.base)]"))
m('R-flat',(OUT,"value = result.nonzero()[0]\n        distribution = result[value, 0]","flat = np.asarray(result).ravel()\n        value = np.flatnonzero(flat)\n        distribution = flat[value]"))
m('R-where',(OUT,"value = result.nonzero()[0]","value, _ = np.where(result != 0)"))
m('R-argw',(OUT,"value = result.nonzero()[0]","value = np.argwhere(result)[:, 0]"))
m('R-comp',(OUT,"        qoutput = []\n        for (v, d) in zip(value, distribution):","        as_text = self.output_type == OutputType.print\n        squared = self.output_method == OutputMethod.probability\n        return [\n            {\n                ('|' + ''.join(map(str, digits)) + '>' if as_text else tuple(digits)): (\n                    (d * d.conjugate()).real if squared else d\n                )\n            }\n            for digits, d in ((Nbase_to_bin(v, self.base), result[v, 0]) for v in value)\n        ]\n        for (v, d) in zip(value, distribution):"))
m('R-absarr',(OUT,"        qoutput = []\n        for (v, d) in zip(value, distribution):","        if self.output_method == OutputMethod.probability:\n            distribution = np.abs(distribution) ** 2\n        qoutput = []\n        for (v, d) in zip(value, distribution):"),(OUT,"(abs(d) ** 2 if self.output_method == OutputMethod.probability else d)","d"))
m('R-loop',(OUT,"        value = result.nonzero()[0]\n        distribution = result[value, 0]\n        qoutput = []\n        for (v, d) in zip(value, distribution):","        qoutput = []\n        for v in range(result.shape[0]):\n            d = result[v, 0]\n            if d == 0:\n                continue"))
m('R-loop2',(OUT,"        value = result.nonzero()[0]\n        distribution = result[value, 0]\n        qoutput = []\n        for (v, d) in zip(value, distribution):","        qoutput = []\n        for v, row in enumerate(result):\n            d = row[0]\n            if not d:\n                continue"))
m('R-for',(NP,"    while _repr:\n        _base = base[len(digits)]\n        digits += [int(_repr % _base)]\n        _repr //= _base\n","    for _base in base:\n        _repr, r = divmod(_repr, _base)\n        digits.append(int(r))\n"))
m('R-ins',(NP,"    base = base[::-1]\n    digits = []\n    while _repr:\n        _base = base[len(digits)]\n        digits += [int(_repr % _base)]\n        _repr //= _base\n","    digits = []\n    for _base in reversed(base):\n        digits.insert(0, int(_repr % _base))\n        _repr = _repr // _base\n    return digits\n"))
m('R-scale',(NP,"    base = base[::-1]\n    digits = []\n","    scale = 1\n    for b in base:\n        scale *= b\n    digits = []\n    for b in base:\n        scale //= b\n        digits.append(int(_repr // scale % b))\n    return digits\n    digits = []\n"))
m('R-cumprod',(NP,"    base = base[::-1]\n    digits = []\n","    scale = [1, *np.array(base[::-1]).cumprod()[:-1]][::-1]\n    return [int(_repr // s % b) for s, b in zip(scale, base)]\n"))
m('R-memo',(NP,"def Nbase_to_bin(_repr, base=[2]):\n","_seen = {}\n\n\ndef Nbase_to_bin(_repr, base=[2]):\n    _key = (int(_repr), tuple(base))\n    if _key in _seen:\n        return list(_seen[_key])\n"),(NP,"    return digits[::-1]","    _seen[_key] = digits[::-1]\n    return digits[::-1]"))
m('R-helper',(OUT,"    def distribution(\n","    def _name(self, v):\n        digits = Nbase_to_bin(v, self.base)\n        return '|%s>' % ''.join(str(x) for x in digits) if self.output_type == OutputType.print else tuple(digits)\n\n    def distribution(\n"),(OUT,"        for (v, d) in zip(value, distribution):","        for k in range(len(value)):\n            v, d = int(value[k]), distribution[k]\n            qoutput.append({self._name(v): d if self.output_method is OutputMethod.amplitude else np.abs(d) ** 2})\n        return qoutput\n        for (v, d) in zip(value, distribution):"))
m('R-find',(OUT,"if \"sparse\" in str(type(result)).lower() or hasattr(result, \"toarray\"):","if not isinstance(result, np.ndarray):"))
m('R-find2',(OUT,"if \"sparse\" in str(type(result)).lower() or hasattr(result, \"toarray\"):\n            result = result.toarray()","from scipy import sparse\n        result = np.asarray(result.todense()) if sparse.issparse(result) else np.array(result)"))
