"""C12: which backend a circuit computes with."""
from small import *
from checks_build import measured_states
from checks_qasm import backend as parser_backend

BASE = "qudiet.core.backend.core.Backend"
PRODUCTS = {"kron", "dot", "matmul", "inner", "einsum", "tensordot", "multi_dot", "multiply", "vdot", "outer"}
ARRAYS = {"array", "asarray", "asmatrix", "matrix", "eye", "identity", "zeros", "ones", "empty", "full", "diag", "diags", "circulant", "dft", "roll",
          "csr_matrix", "csc_matrix", "coo_matrix", "dok_matrix", "lil_matrix", "csr_array", "fromfunction", "exp", "real_if_close", "block_diag"}
VIEWS = {"T", "transpose", "H", "copy", "tocsr", "tocsc", "asformat", "reshape", "astype", "conj", "conjugate"}
RULE = "every operation on states and matrices is done by the selected backend"
DFLT = "the default backend is used when none is selected"


def backend_classes(P):
    return [c for c in P.classes if BASE in P.mro(c)]


def opnames(P):
    """public operations of the backends"""
    if BASE not in P.classes:
        raise Anchor(BASE)
    out = set()
    for c in backend_classes(P):
        out |= {n for n, v in P.classes[c].attrs.items() if not n.startswith("_") and v.op in ("staticmethod", "classmethod", "func")}
    return out


def stub_backends(P):
    """operations of the package's own backends stay calls on the class they belong to"""
    for c in backend_classes(P):
        for n, v in P.classes[c].attrs.items():
            f = v.a[0] if v.op in ("staticmethod", "classmethod") else v
            if n.startswith("_") or f.op != "func":
                continue
            fn = P.funcs[f.a[1]]
            bound = v.op == "classmethod"

            def go(P, st, args, kw, c=c, n=n, bound=bound):
                args = args[1:] if bound else args
                return [(st, call(mk("attr", mk("cls", c), n), [P.snap(st, a) for a in args], [(k, P.snap(st, x)) for k, x in kw.items()]))]
            P.stubs[(fn.mod or "") + "." + fn.qual] = go


def callee(t):
    """(receiver, name) of a method call, (None, dotted name) of a library call"""
    if t.op != "call":
        return None, None
    f = t.a[0]
    if f.op == "attr":
        return f.a[0], f.a[1]
    if f.op == "ext":
        return None, f.a[0]
    return None, None


class Grammar:
    def __init__(self, ops, B, leaf=lambda t: False):
        self.ops, self.B, self.leaf = ops, B, leaf
        self.bad, self.unsure = [], []
        self.seen = set()
        self.count = 0

    def name(self, r):
        if r.op == "cls":
            return r.a[0].split(".")[-1]
        return show(r)[:60]

    def expr(self, t, bound=()):
        """t must be an array made by the selected backend"""
        if (t, bound) in self.seen:
            return
        self.seen.add((t, bound))
        if t in bound or self.leaf(t):
            return
        r, n = callee(t)
        if r is not None and n in self.ops and (r is self.B or self.foreign(r)):
            self.count += 1
            if r is not self.B:
                self.bad.append(f"{n} is done by {self.name(r)}")
            args = list(t.a[1]) + [x for _, x in t.a[2]]
            if n in ("dot", "kron"):
                for x in args:
                    self.expr(x, bound)
            else:
                for x in args:
                    self.inner(x)
            return
        if r is not None:
            if n in VIEWS:
                return self.expr(r, bound)
            if n in ("dot", "kron", "matmul", "__matmul__", "multiply"):
                self.bad.append(f"a product is done by the array itself (.{n})")
                return
            if n in ("toarray", "todense"):
                self.bad.append("an array leaves its backend's representation before the end")
                return
            self.unsure.append(show(t)[:80])
            return
        if n is not None:
            last = n.split(".")[-1]
            if last in PRODUCTS:
                self.bad.append(f"a product is done by {n}")
            elif last in ARRAYS and n.split(".")[0] in ("numpy", "scipy", "cupy", "cupyx"):
                self.bad.append(f"an array made by {n} is used as it is")
            else:
                self.unsure.append(show(t)[:80])
            return
        if t.op == "attr" and t.a[1] in VIEWS:
            return self.expr(t.a[0], bound)
        if t.op == "bin" and t.a[0] == "@":
            self.bad.append("a product is done by @")
            return
        if t.op == "bin" and t.a[0] == "*":
            self.unsure.append(show(t)[:80])
            return
        if t.op in ("store", "maparr"):
            self.bad.append("an array that no backend made is used as it is")
            return
        if t.op == "fold":
            bv, bc, N, init, cases = t.a
            self.expr(init, bound)
            for f, v in cases:
                self.expr(v, bound + (bc,))
            return
        if t.op == "ite" or t.op == "select":
            for x in t.a[1:]:
                self.expr(x, bound)
            return
        self.unsure.append(show(t)[:80])

    def foreign(self, r):
        return r.op == "cls" or r.op == "sym"

    def inner(self, t):
        """operands of array constructions: no other backend may have a hand in them"""
        for x in walk(t):
            r, n = callee(x)
            if r is not None and n in self.ops and r is not self.B and self.foreign(r):
                self.bad.append(f"{n} is done by {self.name(r)}")

    def verdict(self):
        return False if self.bad else None if self.unsure else True

    def why(self):
        return (self.bad or self.unsure or [""])[0]


def judge(ck, ops, s, t, B, w, label, rule=RULE, leaf=lambda t: False, before=(), sole=False):
    """before: conditions on the path that belong to other circuits"""
    if t is None:
        ck.ob(rule, None, w, f"{label}: run does not hand one state to the output stage")
        return
    g = Grammar(ops, B, leaf)
    g.expr(t)
    before = set(before)
    for f in s.facts:
        if f not in before:
            g.inner(f)
    ck.count("operations", g.count)
    ck.ob(rule, g.verdict(), w, f"{label}: {g.why()}", st=None if sole else [f for f in s.facts if not approved(f)])


def approved(f):
    """the check of a gate's matrix, which good gates pass"""
    return any(callee(x)[1] in ("is_unitary", "numpy.allclose") or (x.op == "attr" and x.a[1] == "shape") for x in walk(f))


def alphabet(n, deep):
    A = [H(0), X(n - 1), Z(0), CX(0, n - 1), CX(n - 1, 0), U(0)] if n > 1 else [H(0), X(0), Z(0), U(0)]
    if n > 1:
        A += [UL(*range(n))]
    if n > 2:
        A += [TOF([0, 1], 2), TOF([2, 0], 1), O(1)]
    if n > 3 and deep:
        A += [TOF([3, 0, 2], 1), CX(1, 2)]
    return A


def c12(ck):
    ck.guard(RULE, "QuantumCircuit", given, ck)
    ck.guard(DFLT, "QuantumCircuit", default, ck)
    ck.guard(RULE, "QuantumCircuit", pairs, ck)
    ck.guard(RULE, "QuantumCircuit.run", anyshape, ck)
    parser_backend(ck)


def given(ck):
    deep = ck.tier == "thorough"
    for n in (1, 2, 3, 4) if deep else (1, 3):
        sm = Small(n, states=True, inside=True)
        stub_backends(sm.P)
        ops = opnames(sm.P)

        def visit(s, qc, done, sole):
            if s is None:
                return
            res, bad = sm.finish(s, qc)
            for s2, t, v in res:
                label = f"{n} registers: " + (" ".join(map(str, done)) or "no gate")
                judge(ck, ops, s2, t, sm.B, "QuantumCircuit.run", label, sole=sole and len(res) == 1)
                again(ck, sm, ops, s2, qc, label, sole and len(res) == 1)
                ck.count("circuits")
        for s, qc in sm.begin()[0]:
            programs(sm, alphabet(n, deep), (3 if deep else 2) if n == 3 else 2 if deep else 1, visit, s, qc)
        ck.used(sm.P)


def again(ck, sm, ops, s, qc, label, sole):
    res = sm.rerun(s, qc)[0]
    for s2, t, v in res:
        judge(ck, ops, s2, t, sm.B, "QuantumCircuit.run", label + ", run again", sole=sole and len(res) == 1)


def default(ck):
    sm = Small(3, inside=True, extra="""
def begin_none(D, out):
    return QuantumCircuit(list(D), output=out)
def begin_None(D, out):
    return QuantumCircuit(list(D), backend=None, output=out)
from qudiet.core.backend import DefaultBackend as DFLT
""")
    stub_backends(sm.P)
    ops = opnames(sm.P)
    dflt = sm.fr.get("DFLT")
    if dflt is None or dflt.op != "cls":
        raise Anchor("qudiet.core.backend.DefaultBackend")
    other = [c for c in backend_classes(sm.P) if c not in (BASE, dflt.a[0])]
    A = alphabet(3, False)

    def visit(B, label):
        def go(s, qc, done, sole):
            if s is None:
                return
            for s2, t, v in sm.finish(s, qc)[0]:
                ck.count("circuits")
                judge(ck, ops, s2, t, B, "QuantumCircuit", f"{label}: " + " ".join(map(str, done)), DFLT if B is dflt else RULE)
        return go
    for name in ("begin_none", "begin_None"):
        s0 = sm.st.copy()
        s0.ev = None
        outs = sm.call(s0, name, [sm.D, sm.out])[0]
        if not outs:
            ck.ob(DFLT, False, "QuantumCircuit.__init__", f"{name}: a circuit cannot be built without a backend")
        for s, qc in outs:
            programs(sm, A, 1, visit(dflt, "no backend" if name == "begin_none" else "backend=None"), s, qc)
    # a real backend class: no special treatment of the classes the package knows
    for c in other + [dflt.a[0]]:
        B = mk("cls", c)
        for s, qc in sm.begin(B=B)[0]:
            programs(sm, A, 1, visit(B, c.split(".")[-1]), s, qc)
    ck.used(sm.P)


def pairs(ck):
    """two circuits of the same shape with different backends in one process"""
    sm = Small(3, inside=True)
    stub_backends(sm.P)
    ops = opnames(sm.P)
    A = alphabet(3, False)
    for op in A:
        s0 = sm.st.copy()
        B2 = sm.given(s0, "backend2")
        s0.fact(nott(eq(B2, sm.B)))
        for order in (0, 1):
            for s1, q1 in sm.begin(s0, B=sm.B)[0]:
                for s2, q2 in sm.begin(s1, B=B2)[0]:
                    first, second = ((q1, sm.B), (q2, B2))[::-1 if order else 1]
                    for s3, _ in sm.do(s2, first[0], op)[0]:
                        for s4, t1, _ in sm.finish(s3, first[0])[0]:
                            judge(ck, ops, s4, t1, first[1], "QuantumCircuit.run", f"two circuits: {op}, the first", before=s2.facts)
                            for s5, _ in sm.do(s4, second[0], op)[0]:
                                for s6, t2, _ in sm.finish(s5, second[0])[0]:
                                    judge(ck, ops, s6, t2, second[1], "QuantumCircuit.run", f"two circuits: {op}, the second", before=s4.facts)
                                    for s7, t3, _ in sm.rerun(s6, first[0])[0]:
                                        judge(ck, ops, s7, t3, first[1], "QuantumCircuit.run", f"two circuits: {op}, the first again", before=s6.facts)
                                    ck.count("pairs")
    ck.used(sm.P)


def anyshape(ck):
    """any number of layers and registers: each gate stands for its matrix"""
    P = program()
    C = Circuit(P, kw={"output": sym("output")})
    stub_backends(P)
    ops = opnames(P)
    P.opaque_attr = {"unitary"}
    n = 0
    for s, v in measured_states(C)[0]:
        for s2, v2 in method(P, s, C.qc, "run")[0]:
            if not feasible(P, s2):
                continue
            ok = v2.op == "call" and v2.a[0] is sym("output") and len(v2.a[1]) == 1
            n += 1
            judge(ck, ops, s2, P.deep(s2, v2.a[1][0]) if ok else None, C.B, "QuantumCircuit.run", "any circuit", leaf=lambda t: t.op == "attr" and t.a[1] == "unitary")
    if not n:
        ck.ob(RULE, None, "QuantumCircuit.run", "no normal outcome")
    ck.used(P)
