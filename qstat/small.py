"""Circuits of a known shape: a few registers of symbolic dimensions and initial
levels, a known sequence of operations, symbolic amounts, an opaque backend. The
state that `run` hands to the output stage is then one closed expression of backend
operations, which is read back as: which matrix acts on which registers, in what
order."""
from checks_gates import *
from product import opname, factors, NoForm

SMALL = '''
from client_ import *
class OtherGate(ArbitaryGate):
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg=qreg, dims=dims, backend=backend)
        self._unitary = OTHER_MATRIX
def begin(D, S, B, out, debug):
    return QuantumCircuit(list(D), init_states=list(S), backend=B, output=out, debug=debug)
def begin0(D, B, out, debug):
    return QuantumCircuit(list(D), backend=B, output=out, debug=debug)
def ref_prepare(d, s, i, B):
    return InitState(dim=d, state=s, qreg=i, backend=B)
def ref_other(D, B, r):
    return OtherGate(qreg=r, dims=D[r], backend=B)
'''
DEBUG = sym("debug", "bool")
DOTS, KRONS = ("dot",), ("kron",)


class Wrong(Exception):
    """the expression certainly is not the one wanted"""


class Reg:
    """operations on fixed registers"""

    def __init__(self, name, meth, args, kw, acts, ref, refargs):
        self.name, self.meth, self.args, self.kw, self.acts, self.ref, self.refargs = name, meth, args, kw, tuple(acts), ref, refargs

    def __repr__(self):
        return self.name


def H(i): return Reg(f"h({i})", "h", [const(i)], {}, [i], "ref_h", [const(i)])
def Z(i): return Reg(f"z({i})", "z", [const(i)], {}, [i], "ref_z", [const(i)])
def X(i, p=None):
    p = sym("p", "int") if p is None else const(p)
    return Reg(f"x({i}, {show(p)})", "x", [const(i)], {"plus": p}, [i], "ref_x", [const(i), p])
def X1(i): return Reg(f"x({i})", "x", [const(i)], {}, [i], "ref_x", [const(i), ONE])
def CX(c, t, p=None):
    p = sym("p", "int") if p is None else const(p)
    return Reg(f"cx({c}, {t}, {show(p)})", "cx", [seq("tuple", [one(const(c)), one(const(t))])], {"plus": p}, [c, t], "ref_cx", [const(c), const(t), p])
def TOF(cs, t, p=None):
    p = sym("p", "int") if p is None else const(p)
    L = seq("list", [one(const(c)) for c in cs])
    return Reg(f"toffoli({list(cs)}, {t}, {show(p)})", "toffoli", [seq("tuple", [one(L), one(const(t))])], {"plus": p}, list(cs) + [t], "ref_toffoli", [L, const(t), p])
def U(i): return Reg(f"gate(U, {i})", "gate", [mk("cls", "client_.UserGate"), const(i)], {}, [i], "ref_gate", [const(i)])
def O(i): return Reg(f"gate(V, {i})", "gate", [mk("cls", "small_.OtherGate"), const(i)], {}, [i], "ref_other", [const(i)])
def UL(*rs):
    L = seq("list", [one(const(r)) for r in rs])
    return Reg(f"gate(U, {list(rs)})", "gate", [mk("cls", "client_.UserGate"), L], {}, rs, "ref_gatel", [L])


def own(op, d=None):
    """a call on one register, with the dimension given explicitly; by default the register's own, symbolic one"""
    name = op.name if d is None else f"{op.name} with dims={d}"
    d = sym(f"d{op.acts[0]}", "int") if d is None else const(d)
    return Reg(name, op.meth, op.args, {**op.kw, "dims": d}, op.acts, op.ref, op.refargs)


class Small:
    def __init__(self, n=3, states=False, extra="", inside=False, dims=None, levels=None):
        """inside: gate matrices are looked into; otherwise each stands for its gate object"""
        self.P = P = program({"small_": SMALL + extra}, load=("small_",))
        st = P.start()
        self.n = n
        self.ds = [sym(f"d{i}", "int") for i in range(n)]
        self.ss = [sym(f"s{i}", "int") for i in range(n)] if states else [ZERO] * n
        if dims is not None:
            states = True
            self.ds, self.ss = [const(d) for d in dims], [const(x) for x in levels or [0] * n]
        for d, s in zip(self.ds, self.ss):
            if dims is not None:
                break
            st.fact(le(const(2), d))
            if states:
                st.fact(le(ZERO, s))
                st.fact(lt(s, d))
        self.D = seq("list", [one(d) for d in self.ds])
        self.S = seq("list", [one(s) for s in self.ss])
        self.states = states
        self.out = self.given(st, "output")
        self.B = self.given(st, "backend")
        self.inside = inside
        if not inside:
            P.opaque_getter = {"unitary"}
        self.st = st
        self.fr = st.frames["m:small_"]
        self.refs = {}
        self.cmp = Cmp(P)

    def given(self, st, name):
        v = sym(name)
        st.fact(nott(eq(v, NONE)))
        st.fact(mk("truth", v))
        return v

    def call(self, s, name, args):
        outs, bad = fcall(self.P, s, self.fr[name] if name in self.fr else s.frames["m:client_"][name], args)
        return [(s2, v) for s2, v in outs if feasible(self.P, s2)], [(s2, v) for s2, v in bad if feasible(self.P, s2)]

    def begin(self, s=None, B=None, out=None):
        s = s.copy() if s is not None else self.st.copy()
        s.ev = None
        B, out = B or self.B, out or self.out
        return self.call(s, "begin", [self.D, self.S, B, out, DEBUG]) if self.states else self.call(s, "begin0", [self.D, B, out, DEBUG])

    def do(self, s, qc, op):
        outs, bad = method(self.P, s.copy(), qc, op.meth, op.args, op.kw)
        return [(s2, v) for s2, v in outs if feasible(self.P, s2)], bad

    def finish(self, s, qc):
        """[(state, expression handed to the output stage or None, what run returns)]"""
        res, errs = [], []
        outs, bad = method(self.P, s.copy(), qc, "measure_all")
        errs += bad
        for s1, _ in outs:
            if feasible(self.P, s1):
                r, e = self.rerun(s1, qc)
                res += r
                errs += e
        return res, errs

    def rerun(self, s, qc, out=None):
        res = []
        o2, b2 = method(self.P, s.copy(), qc, "run")
        for s2, v in o2:
            if feasible(self.P, s2):
                ok = v.op == "call" and v.a[0] is (out or self.out) and len(v.a[1]) == 1
                res.append((s2, self.P.deep(s2, v.a[1][0]) if ok else None, v))
        return res, [(s2, e) for s2, e in b2 if feasible(self.P, s2)]

    # ------------------------------------------------------------ references
    def matrix(self, s1, g):
        return [(s2, self.P.deep(s2, u)) for s2, u in getter(self.P, s1.copy(), g, "unitary")[0] if feasible(self.P, s2)]

    def ref(self, op, B=None):
        """matrix expressions of the gate this operation stands for"""
        B = B or self.B
        key = (op.name, B)
        if key not in self.refs:
            s = self.st.copy()
            s.ev = None
            out = []
            for s1, g in self.call(s, op.ref, [self.D, B] + op.refargs)[0]:
                out += self.matrix(s1, g)
            self.refs[key] = out
        return self.refs[key]

    def single(self, what, i, B=None):
        """identity or preparation of register i"""
        B = B or self.B
        key = (what, i, B)
        if key not in self.refs:
            s = self.st.copy()
            s.ev = None
            if what == "I":
                gs = fcall(self.P, s, gcls("i"), [], {"qreg": const(i), "dims": self.ds[i], "backend": B})[0]
            else:
                gs = self.call(s, "ref_prepare", [self.ds[i], self.ss[i], const(i), B])[0]
            out = [x for s1, g in gs for x in self.matrix(s1, g)]
            self.refs[key] = out
        return self.refs[key]

    def equal(self, s, x, refs):
        """x is one of the expressions; None when that cannot be told"""
        if any(x is u for _, u in refs):
            return True
        vs = [self.cmp.same(s, x, u) for _, u in refs]
        return True if True in vs else (None if None in vs or not vs else False)

    # ------------------------------------------------------------ reading back
    def layers(self, t):
        fs = []
        for g in factors(t, DOTS):
            if g.op != "one":
                raise NoForm("factors in a loop")
            ks = factors(g.a[0], KRONS)
            if any(k.op != "one" for k in ks):
                raise NoForm("tensor factors in a loop")
            fs.append([k.a[0] for k in ks])
        return fs

    def read(self, s, t, ops, B=None):
        """sequence of operations acting on each register, in the order of application;
        Wrong: sizes or places are certainly wrong; NoForm: not understood"""
        fs = self.layers(t)
        kinds = {}
        for op in ops:
            kinds.setdefault(op.name, op)
        prep, gates = fs[-1], fs[:-1]
        per = [[] for _ in range(self.n)]
        seen = None
        for i, leaf in enumerate(prep):
            if i >= self.n:
                raise Wrong("shape", f"{len(prep)} factors in the preparation of {self.n} registers")
            ok = self.equal(s, leaf, self.single("P", i, B))
            if ok is not True:
                at = [j for j in range(self.n) if j != i and self.equal(s, leaf, self.single("P", j, B)) is True]
                if at:
                    raise Wrong("shape", f"the preparation of register {at[0]} stands in place {i}")
                if any(self.equal(s, leaf, self.ref(op, B)) is True for op in kinds.values()) or self.equal(s, leaf, self.single("I", i, B)) is True:
                    raise Wrong("order", "a gate is applied before the registers are prepared")
                raise NoForm("preparation " + show(leaf)[:80])
        if len(prep) != self.n:
            raise Wrong("shape", f"{len(prep)} factors in the preparation of {self.n} registers")
        for row in reversed(gates):
            pos = 0
            for leaf in row:
                hit = None
                cands = []
                if pos < self.n and any(leaf is u for _, u in self.single("I", pos, B)):
                    hit = (pos, pos, None)
                if hit is None:
                    for op in kinds.values():
                        if self.equal(s, leaf, self.ref(op, B)) is True:
                            c_ = (min(op.acts), max(op.acts), op)
                            cands.append(c_)
                            if c_[0] == pos:
                                hit = c_
                                break
                if hit is None:
                    for j in range(self.n):
                        if self.equal(s, leaf, self.single("I", j, B)) is True:
                            cands.append((j, j, None))
                            if j == pos:
                                hit = cands[-1]
                if hit is None:
                    if cands:
                        lo, hi, op = cands[0]
                        raise Wrong("shape", f"{'the identity' if op is None else op} of register {lo} stands at register {pos}")
                    for j in range(self.n):
                        if self.equal(s, leaf, self.single("P", j, B)) is True:
                            raise Wrong("order", "registers are prepared again after a gate")
                    raise NoForm("factor " + show(leaf)[:100])
                if hit[2] is not None:
                    for a in hit[2].acts:
                        per[a].append(hit[2].name)
                pos = hit[1] + 1
            if pos != self.n:
                raise Wrong("shape", f"a layer covers {pos} of {self.n} registers")
        return per

    def wanted(self, ops):
        per = [[] for _ in range(self.n)]
        for op in ops:
            for a in op.acts:
                per[a].append(op.name)
        return per

    def judge(self, ck, s, t, ops, w, rules, B=None, v=None):
        """rules: {'order': name or None, 'shape': name or None}"""
        label = " ".join(op.name for op in ops) or "no gate"
        ck.count("circuits")
        if t is None:
            for r_ in rules.values():
                if r_:
                    ck.ob(r_, None, w, f"{label}: run returns {show(v)[:80] if v is not None else '?'}")
            return None
        try:
            per = self.read(s, t, ops, B)
        except Wrong as e:
            kind, why = e.args
            r_ = rules.get(kind)
            if r_:
                ck.ob(r_, False, w, f"{label}: {why}", st=s)
            return False
        except NoForm as e:
            for r_ in rules.values():
                if r_:
                    ck.ob(r_, None, w, f"{label}: {e}")
            return None
        if rules.get("shape"):
            ck.ob(rules["shape"], True, w)
        want = self.wanted(ops)
        ok = per == want
        if rules.get("order"):
            k = next((i for i in range(self.n) if per[i] != want[i]), 0)
            ck.ob(rules["order"], ok, w, f"{label}: register {k} sees {' '.join(per[k]) or 'nothing'} instead of {' '.join(want[k]) or 'nothing'}", st=s)
        return ok


def placements(n, p=None):
    """every built-in operation on every choice of registers, in every order of the controls"""
    R = range(n)
    out = [f(i) for i in R for f in (H, Z, U)] + [X(i, p) for i in R]
    out += [CX(a, b, p) for a in R for b in R if a != b]
    out += [TOF([a, b], c, p) for a in R for b in R for c in R if len({a, b, c}) == 3]
    out += [UL(*range(a, b)) for a in R for b in range(a + 2, n + 1)]
    return out


def programs(sm, alphabet, depth, visit, s, qc, ops=(), sole=True):
    """all sequences of at most `depth` operations; visit(state, circuit, operations, sole);
    sole: these legal calls have no other normal outcome, so this one is possible"""
    visit(s, qc, list(ops), sole)
    if len(ops) == depth:
        return
    for op in alphabet:
        outs, bad = sm.do(s, qc, op)
        for s2, v in outs:
            programs(sm, alphabet, depth, visit, s2, qc, tuple(ops) + (op,), sole and len(outs) == 1)
        if not outs:
            visit(None, bad, list(ops) + [op], False)
