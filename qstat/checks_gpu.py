"""C14: a machine without the GPU library."""
import glob
from scene import *
from compare import doubtful

IMPORTS = "the package imports without the GPU library"
WORKS = "circuits run on the CPU backends without the GPU library"
FAILS = "selecting a GPU backend without the GPU library fails"
GPU = {"CUDABackend": "qudiet.core.backend.CUDABackend", "CUDASparseBackend": "qudiet.core.backend.CUDASparseBackend"}
LIBS = {"cupy", "cupyx", "cupy_backends"}
USE = '''
class Args:
    pass
def bell(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([2, 2], backend=backend) if backend is not None else QuantumCircuit([2, 2])
    qc.h(0)
    qc.measure_all()
    return qc.run()
def shift(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([3], backend=backend) if backend is not None else QuantumCircuit([3])
    qc.x(0, plus=2)
    qc.measure_all()
    return qc.run()
def phase(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([3], backend=backend) if backend is not None else QuantumCircuit([3])
    qc.z(0)
    qc.measure_all()
    return qc.run()
def controlled(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([2, 3], backend=backend) if backend is not None else QuantumCircuit([2, 3])
    qc.cx((0, 1), plus=1)
    qc.measure_all()
    return qc.run()
def backwards(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([3, 2], backend=backend) if backend is not None else QuantumCircuit([3, 2])
    qc.cx((1, 0), plus=1)
    qc.measure_all()
    return qc.run()
def toffoli(backend):
    from qudiet.core.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit([2, 2, 2], backend=backend) if backend is not None else QuantumCircuit([2, 2, 2])
    qc.toffoli(([0, 1], 2), plus=1)
    qc.measure_all()
    return qc.run()
def default(use):
    return use(None)
def numpy_(use):
    from qudiet.core.backend.NumpyBackend import NumpyBackend
    return use(NumpyBackend)
def sparse(use):
    from qudiet.core.backend.SparseBackend import SparseBackend
    return use(SparseBackend)
def CUDABackend():
    from qudiet.core.backend.CUDABackend import CUDABackend
    return bell(CUDABackend)
def CUDASparseBackend():
    from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend
    return bell(CUDASparseBackend)
'''


def machine(present, top="qudiet"):
    """the package on a machine without the GPU library; the environment names a CUDA installation or not"""
    P = Program([(os.path.join(REPO, "src", "qudiet"), top), (REPO, "top_")], {"use_": USE})
    if top != "qudiet":
        P.roots.append((os.path.join(REPO, "src", "qudiet"), "qudiet"))
    P.reporoot = REPO
    P.absent = set(LIBS)

    def env(P, st, args, kw):
        if present:
            return [(st, const("1"))]
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        return [(st, d)]
    for n in ("os.environ.get", "os.getenv"):
        P.stubs["ext:" + n] = env
    return P


def modules():
    root = os.path.join(REPO, "src", "qudiet")
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(("qudiet." + rel).removesuffix(".__init__"))
    return out


def c14(ck):
    """Module import and backend selection are evaluated on a machine model on which importing the GPU
    library raises, with the environment naming a CUDA installation and without: every module but the two
    GPU backends imports; circuits run on the default and both CPU backends; selecting a GPU backend
    (import, construction, run; batch runner option) raises on every path."""
    for m in ("qudiet", "qudiet.core.quantum_circuit", "qudiet.core.backend"):
        if m not in modules():
            raise Anchor(m)
    for present in (False, True):
        how = "CUDA named in the environment" if present else "no CUDA in the environment"
        ck.guard(IMPORTS, how, imports, ck, present, how)
        for b in ("default", "numpy_", "sparse"):
            for use in (("bell",) if present else ("bell", "shift", "phase", "controlled", "backwards") + (("toffoli",) if b == "default" or ck.tier == "thorough" else ())):
                where = f"{b.rstrip('_')} backend, {how}"
                ck.guard(WORKS, where, works, ck, present, b, use, where)
        for b in GPU:
            where = f"{b}, {how}"
            ck.guard(FAILS, where, fails, ck, present, b, where)
        for opt in ("cuda", "sparse-cuda"):
            where = f"experimental.py, backend option {opt}, {how}"
            ck.guard(FAILS, where, option, ck, present, opt, where)


def imports(ck, present, how):
    for m in modules():
        if m in GPU.values():
            continue
        P = machine(present)
        P.load(m)
        e = next((P.failed[x] for x in (m, *[m.rsplit(".", i)[0] for i in range(1, m.count(".") + 1)]) if x in P.failed), None)
        ck.ob(IMPORTS, e is None, f"import {m}, {how}", "" if e is None else f"raises {show(e)}")
        ck.count("imports")


def importing(e):
    return e.op == "exc" and e.a[0] in ("ModuleNotFoundError", "ImportError")


def works(ck, present, b, use, where):
    P = machine(present)
    P.load("use_")
    st = P.start()
    fr = st.frames["m:use_"]
    outs, bad = fcall(P, st, fr[b], [fr[use]])
    lib = [(s, e) for s, e in bad if importing(e)]
    if lib and all(s.ev is None or not doubtful(s) for s, e in lib):
        ck.ob(WORKS, False, where, f"{use}: raises {show(lib[0][1])}")
    elif not outs:
        ck.ob(WORKS, False if bad else None, where, f"{use}: raises {show(bad[0][1]) if bad else 'nothing and returns nothing'}")
    else:
        ck.ob(WORKS, True if not lib else None, where, f"{use}")
    ck.used(P)


def fails(ck, present, b, where):
    P = machine(present)
    P.load("use_")
    st = P.start()
    outs, bad = fcall(P, st, st.frames["m:use_"][b], [])
    if outs and not bad:
        ck.ob(FAILS, False, where, f"the circuit runs: {show(P.snap(*outs[0]))[:200]}")
    elif outs:
        s = outs[0][0]
        ck.ob(FAILS, False, where, "the circuit runs on some path", s)
    else:
        ck.ob(FAILS, True if bad else None, where, "")
    ck.used(P)


class CommandLine:
    """a parsed command line that selects a backend"""

    def __init__(self, opt):
        self.opt = opt

    def call(self, P, st, f, args, kw):
        if f.op == "attr" and f.a[1] == "parse_args":
            at = {"backend": const(self.opt), "mode": const("txt"), "path": sym("path", "str"), "verbose": sym("verbose", "int"), "terminal": sym("terminal", "bool")}
            return [(st, st.alloc(Obj("inst", cls="use_.Args", attrs=at)))]
        return None

    def attr(self, *a):
        return None

    getitem = binop = compare = iterable = attr


def option(ck, present, opt, where):
    p = os.path.join(REPO, "experimental.py")
    if not os.path.isfile(p):
        ck.ob(FAILS, None, where, "experimental.py not found")
        return
    P = machine(present, "src.qudiet")

    P.load("use_")
    P.nd = CommandLine(opt)
    P.load("top_.experimental")
    st = P.start()
    fr = st.frames.get("m:top_.experimental", {})
    f = fr.get("arguments")
    if f is None:
        ck.ob(FAILS, None, where, "arguments() not found")
        return
    outs, bad = fcall(P, st, f, [])
    P.nd = None
    ran = None
    for s, v in outs:
        c = P.snap(s, v)
        cls = [x for x in (exact(c) or []) if x.op == "cls"] if c.op == "seq" else []
        if len(cls) != 1:
            ck.ob(FAILS, None, where, f"the backend chosen is not understood: {show(c)[:200]}")
            continue
        outs2, bad2 = fcall(P, s, s.frames["m:use_"]["bell"], [cls[0]])
        if outs2:
            ck.ob(FAILS, False, where, f"the option is accepted as {show(cls[0])}, and a circuit runs with it", None if not bad2 and not bad and len(outs) == 1 else s)
        ran = bool(outs2)
    if not ran:
        ck.ob(FAILS, True if bad or ran is False else None, where, "")
    ck.used(P)
