"""Abstract scenes: an arbitrary circuit with an arbitrary history, built by
abstract execution of the public constructors in /repo's current source."""
import contextlib
import os, sys, warnings
sys.setrecursionlimit(20000)
warnings.filterwarnings("ignore")
from terms import *
from state import *
from engine import *
from compare import *

REPO = os.environ.get("QSTAT_REPO", "/repo")

CLIENT = '''
from qudiet.core.quantum_circuit import QuantumCircuit
from qudiet.circuit_library import ArbitaryGate
from qudiet.circuit_library.standard_gates.h import HGate
from qudiet.circuit_library.standard_gates.x import XGate
from qudiet.circuit_library.standard_gates.z import ZGate
from qudiet.circuit_library.standard_gates.i import IGate
from qudiet.circuit_library.standard_gates.cx import CXGate
from qudiet.circuit_library.standard_gates.measurement import Measurement
from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
from qudiet.core.init_states import InitState

class UserGate(ArbitaryGate):
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg=qreg, dims=dims, backend=backend)
        self._unitary = USER_MATRIX

# reference constructions: what the documentation promises, written over the
# public gate classes, evaluated in the same abstract state
def ref_h(D, B, r):
    return HGate(qreg=r, dims=D[r], backend=B)
def ref_x(D, B, r, plus):
    return XGate(qreg=r, dims=D[r], plus=plus, backend=B)
def ref_z(D, B, r):
    return ZGate(qreg=r, dims=D[r], backend=B)
def ref_cx(D, B, c, t, plus):
    if c < t:
        return CXGate(qreg=[D[i] for i in range(c, t + 1)], acting_on=(c, t), plus=plus, backend=B)
    return CXGate(qreg=[D[i] for i in range(t, c + 1)], acting_on=(c, t), plus=plus, backend=B)
def ref_toffoli(D, B, cs, t, plus):
    return Toffoli(qreg=(list(cs), t), dims=D, plus=plus, backend=B)
def ref_gate(D, B, r):
    return UserGate(qreg=r, dims=D[r], backend=B)
def ref_gatel(D, B, rs):
    return UserGate(qreg=list(rs), dims=[D[r] for r in rs], backend=B)
def ref_layer(D, B, lo, hi, g):
    return [IGate(qreg=i, dims=D[i], backend=B) for i in range(lo)] + [g] + [IGate(qreg=i, dims=D[i], backend=B) for i in range(hi + 1, len(D))]
def layer_h(D, B, r):
    return ref_layer(D, B, r, r, ref_h(D, B, r))
def layer_x(D, B, r, plus):
    return ref_layer(D, B, r, r, ref_x(D, B, r, plus))
def layer_z(D, B, r):
    return ref_layer(D, B, r, r, ref_z(D, B, r))
def layer_gate(D, B, r):
    return ref_layer(D, B, r, r, ref_gate(D, B, r))
def layer_gatel(D, B, rs):
    return ref_layer(D, B, min(rs), max(rs), ref_gatel(D, B, rs))
def layer_cx(D, B, c, t, plus):
    return ref_layer(D, B, min(c, t), max(c, t), ref_cx(D, B, c, t, plus))
def layer_toffoli(D, B, cs, t, plus):
    return ref_layer(D, B, min([*cs, t]), max([*cs, t]), ref_toffoli(D, B, cs, t, plus))
def ref_factors(layers):
    return [[g.unitary for g in m.peek_list()] for m in reversed(layers[:-1])]
def ref_measure(D):
    return [Measurement(qreg=i) for i in range(len(D))]
def ref_init(D, S, B):
    return [InitState(dim=D[i], state=S[i], qreg=i, backend=B) for i in range(len(D))]
'''

PK = "qudiet."
GATES = {"h": "h.HGate", "x": "x.XGate", "z": "z.ZGate", "i": "i.IGate", "cx": "cx.CXGate", "m": "measurement.Measurement", "toffoli": "toffoli_utility.Toffoli"}
SG = "qudiet.circuit_library.standard_gates."
MOMENT = "qudiet.core.moment.Moment"
QC = "qudiet.core.quantum_circuit.QuantumCircuit"


class Anchor(Exception):
    """a public entry point the property is about no longer exists"""


def program(extra=None, load=()):
    ex = {"client_": CLIENT}
    ex.update(extra or {})
    P = Program([(os.path.join(REPO, "src", "qudiet"), "qudiet")], ex)
    P.reporoot = REPO
    for m in ("qudiet.core.quantum_circuit", "client_") + tuple(load):
        if P.load(m) is None:
            raise Anchor(m)
    if QC not in P.classes:
        raise Anchor(QC)
    return P


def gcls(k):
    return mk("cls", SG + GATES[k])


def method(P, st, o, name, args=(), kw=None):
    """abstract call of a public method: (returning outcomes, raising outcomes)"""
    P.sink, saved = [], P.sink
    P.count = 0
    try:
        fs = P.getattr(st, o, name)
        if not fs:
            raise Anchor(name)
        out = []
        for s, f in fs:
            out += P.call(s, f, list(args), dict(kw or {}))
        return out, P.sink
    finally:
        P.sink = saved


def fcall(P, st, f, args=(), kw=None):
    P.sink, saved = [], P.sink
    P.count = 0
    try:
        return P.call(st, f, list(args), dict(kw or {})), P.sink
    finally:
        P.sink = saved


def client(P, st, name, args):
    f = st.frames["m:client_"].get(name)
    return fcall(P, st, f, args)


def reach(st, t):
    """object ids reachable from a value"""
    seen, todo = set(), [t]
    seent = set()
    while todo:
        x = todo.pop()
        if x in seent:
            continue
        seent.add(x)
        for y in walk(x):
            if y.op == "ref" and y.a[0] not in seen:
                seen.add(y.a[0])
                o = st.heap[y.a[0]]
                todo += [v for v in o.attrs.values() if isinstance(v, T)]
                if o.content is not None:
                    todo.append(o.content)
            if ("c", y) in st.over:
                todo.append(st.over[("c", y)])
        for k, v in st.over.items():
            if k[0] == "a" and isinstance(v, T) and k[1] is x:
                todo.append(v)
    return seen


class Circuit:
    """an arbitrary valid circuit: symbolic registers, init states and history"""

    def __init__(self, P, history=True, output=None, regs=None, kw=None, pick=0):
        self.P = P
        st = P.start()
        self.D = regs or sym("qregs", ("list", "int"))
        self.B = sym("backend")
        st.fact(nott(eq(self.B, NONE)))
        st.fact(mk("truth", self.B))
        k = {"backend": self.B, "debug": sym("debug", "bool")}
        k.update(kw or {})
        for v in (kw or {}).values():
            if v.op == "sym" and v.a[1] is None:
                st.fact(nott(eq(v, NONE)))
                st.fact(mk("truth", v))
        outs, bad = fcall(P, st, mk("cls", QC), [self.D], k)
        self.n = len_of(self.D)
        # one normal outcome with at least one register
        good = [(s, v) for s, v in outs if decide(s, le0(self.n), P) is not True]
        if not good:
            raise Unsupported("constructor has no normal outcome")
        good = [g for g in good if decide(g[0], le0(self.n), P) is False] or good
        if pick:
            good = [g for g in good if feasible(P, g[0])]
        self.variants = len(good)
        st, qc = good[min(pick, len(good) - 1)]
        st.fact(lt(ZERO, self.n))
        self.ctor_outs, self.ctor_bad = outs, bad
        self.qc = qc
        st.ev = None
        self.s0 = st
        self.tags(P, st)
        self.find_layers(st)
        self.history = history
        if history:
            self.hist = sym("hist", ("list", ("inst", MOMENT)))
            st.obj(self.layers, True).content = seq("list", [one(self.m0), star(self.hist)])
            # every layer holds at least one operator (C06 establishes the exact shape of each new layer)
            if self.peekattr:
                K = fresh()
                st.fact(forall(K, len_of(self.hist), [lt(ZERO, len_of(mk("attr", item(self.hist, K), self.peekattr)))]))
        for o in st.heap.values():
            if o.owner == "fresh":
                o.owner = "circuit"

    def tags(self, P, st):
        leaf = set(P.classes) - {b.a[0] for c in P.classes.values() for b in c.bases if b.op == "cls"}
        gs = tuple(sorted(c for c in leaf if P.issub(c, mk("cls", SG + "quantum_gate.QuantumGate"))))
        if not gs:
            raise Anchor("QuantumGate subclasses")
        self.gates = gs
        r = sym("r?", "int")
        for k in ("h", "x", "z", "i", "m"):
            c = gcls(k)
            if c.a[0] not in P.classes:
                raise Anchor(c.a[0])
            s2 = st.copy()
            kw = {"qreg": r}
            if k != "m":
                kw.update(dims=sym("d?", "int"), backend=sym("backend"))
            if k == "x":
                kw["plus"] = sym("p?", "int")
            outs, bad = fcall(P, s2, c, [], kw)
            for s, v in outs[:1]:
                for n, x in s.obj(v).attrs.items():
                    if x is r or (isinstance(x, T) and x.op == "sym" and x.a[0] == "d?"):
                        P.attrtags[(c.a[0], n)] = "int"

    def find_layers(self, st):
        P = self.P
        cand = []
        for oid in sorted(reach(st, self.qc)):
            o = st.heap[oid]
            if o.kind == "list" and o.content is not None and o.content.op == "seq":
                for x in o.content.a[1]:
                    if x.op == "one" and x.a[0].op == "ref" and st.heap[x.a[0].a[0]].cls == MOMENT:
                        cand.append((oid, x.a[0]))
        if not cand:
            raise Unsupported("layer list not found")
        self.layers, self.m0 = mk("ref", cand[0][0]), cand[0][1]
        mo = st.obj(self.m0)
        self.gattrs = []
        for n, v in mo.attrs.items():
            if isinstance(v, T) and v.op == "ref" and st.heap[v.a[0]].kind == "list":
                self.gattrs.append(n)
                P.attrtags[(MOMENT, n)] = ("list", ("union", self.gates))
        outs, bad = method(P, st.copy(), self.m0, "peek_list")
        self.peekattr = None
        for s, v in outs[:1]:
            for n in self.gattrs:
                if mo.attrs[n] is v:
                    self.peekattr = n
        if self.peekattr is None and self.gattrs:
            self.peekattr = self.gattrs[-1]
        for n, v in mo.attrs.items():
            if n.endswith("_pointer"):
                P.attrtags[(MOMENT, n)] = ("opt", ("inst", MOMENT))

    def start(self):
        s = self.s0.copy()
        s.ev = None
        return s

    def gatelist(self, st, m):
        """content of a layer's gate list"""
        if m.op == "ref":
            v = st.obj(m).attrs.get(self.peekattr)
            return st.obj(v).content if v is not None and v.op == "ref" else v
        g = mk("attr", m, self.peekattr)
        g = st.over.get(("a", m, self.peekattr), g)
        return st.over.get(("c", g), g)


OPS = {
    # name -> (method, arguments, keyword arguments, reference, reference arguments, lowest and highest register)
    "h": ("h", ["r"], {}),
    "x": ("x", ["r"], {"plus": "plus"}),
    "x1": ("x", ["r"], {}),
    "z": ("z", ["r"], {}),
    "cx": ("cx", ["ct"], {"plus": "plus"}),
    "toffoli": ("toffoli", ["cst"], {"plus": "plus"}),
    "toffoli1": ("toffoli", ["cst"], {}),
    "gate": ("gate", ["UserGate", "r"], {}),
    "gatel": ("gate", ["UserGate", "rs"], {}),
}
r, c, t, plus = sym("r", "int"), sym("c", "int"), sym("t", "int"), sym("plus", "int")
cs, rs = sym("cs", ("list", "int")), sym("rs", ("list", "int"))
VALS = {"r": r, "plus": plus, "ct": seq("tuple", [one(c), one(t)]), "cst": seq("tuple", [one(cs), one(t)]),
        "UserGate": mk("cls", "client_.UserGate"), "rs": rs}


def perform(P, st, qc, op):
    m, a, k = OPS[op]
    return method(P, st, qc, m, [VALS[x] for x in a], {n: VALS[v] for n, v in k.items()})


@contextlib.contextmanager
def many(n=100):
    """sequences of up to n parts are looked at one by one"""
    old, TM.MANY = TM.MANY, n
    try:
        yield
    finally:
        TM.MANY = old
