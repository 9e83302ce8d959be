"""C04: what the result of a run may depend on."""
import itertools
from small import *
from checks_gates import matrices, entries, ROW, COL, scene_gate
from checks_select import alphabet, backend_classes
import checks_output as CO
from arrays import Unk, Den
from compare import doubtful, feasible, Cmp

FREE = "results do not depend on the clock, random numbers, the environment or addresses"
ORDER = "results do not depend on the iteration order of sets"
FILLED = "no part of a matrix is left uninitialised"
CACHE = "nothing is kept under an address or a hash of one"

ND_MODULES = ("time.", "datetime.", "random.", "numpy.random.", "cupy.random.", "secrets.", "uuid.", "platform.", "socket.", "getpass.", "pwd.", "resource.", "psutil.", "multiprocessing.", "locale.", "tempfile.", "gc.", "weakref.", "scipy.sparse.random", "scipy.stats.")
ND_NAMES = {"os.environ", "os.getenv", "os.urandom", "os.getpid", "os.getppid", "os.getcwd", "os.cpu_count", "os.times", "os.getlogin", "os.uname", "os.getloadavg", "os.listdir", "os.scandir", "os.stat", "os.path.exists", "os.path.getmtime", "os.walk",
            "os.sched_getaffinity", "os.get_terminal_size", "shutil.get_terminal_size", "shutil.disk_usage", "sys.argv", "sys.getrefcount", "sys.flags", "sys.hash_info", "sys.version", "sys.version_info", "sys.platform", "sys.maxsize",
            "sys.executable", "sys.path", "threading.get_ident", "threading.current_thread", "threading.active_count", "threading.get_native_id", "concurrent.futures.as_completed", "input", "glob.glob", "sys.getallocatedblocks", "sys.stdin", "sys.modules", "open",
            "scipy.sparse.rand", "scipy.sparse.random_array", "sys.getsizeof", "timeit.default_timer", "time", "numpy.__version__", "scipy.__version__"}
TIMELESS = ("datetime.timedelta", "datetime.date", "datetime.datetime", "random.Random", "numpy.random.RandomState", "time.sleep", "uuid.UUID", "uuid.uuid5", "uuid.uuid3", "datetime.timezone", "time.strptime", "datetime.datetime.strptime", "datetime.datetime.fromisoformat",
            "weakref.ref", "weakref.proxy", "gc.collect", "gc.disable", "gc.enable")


def dotted(t):
    if not isinstance(t, T):
        return None
    if t.op == "ext":
        return t.a[0]
    if t.op == "builtin":
        return t.a[0]
    if t.op == "attr":
        b = dotted(t.a[0])
        return b and f"{b}.{t.a[1]}"
    return None


def addressed(P, t):
    """the hash of this value differs between processes: it contains a text, a type, or an object without its own hash"""
    for x in walk(t):
        if is_const(x) and isinstance(cval(x), (str, bytes)) or x.op in ("obj", "ref", "cls", "fstr", "func", "closure", "enum"):
            return True
    return False


def sources(P, t):
    """uses of values that differ between runs of the same program"""
    out = []
    for x in walk(t):
        n = dotted(x)
        if n is None:
            if x.op == "call" and isinstance(x.a[0], T) and x.a[0].op in ("ext", "builtin"):
                f = x.a[0].a[0]
                if f == "id" or f == "hash" and x.a[1] and addressed(P, x.a[1][0]):
                    out.append(f)
                elif f in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator") and not x.a[1]:
                    out.append(f)
            continue
        if n in ("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState", "random.Random"):
            continue  # with a seed these are functions
        if n in TIMELESS:
            continue
        if n in ND_NAMES or n.startswith(ND_MODULES) or n.startswith("os.environ"):
            out.append(n)
    return sorted(set(out))


def hidden(P, facts, base):
    """conditions of a path that are decided by such values"""
    return [f for f in facts if f not in base and sources(P, f)]


def dtypes(t):
    return sorted(n for n in (dotted(x) for x in walk(t) if x.op in ("ext", "attr", "builtin")) if n and n.split(".")[-1].rstrip("0123456789_") in ("complex", "float", "int", "uint", "single", "half", "csingle", "longdouble", "astype"))


def unclear(t):
    return any(x.op in ("top", "fold", "lookup", "slice", "maparr") for x in walk(t))


def agree(X, s, a, b):
    """two results of different outcomes are the same: None when that cannot be told"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    X.why = None
    r = X.same(s, a, b)
    if r is True and dtypes(a) != dtypes(b):
        return False
    if r is None and not unclear(a) and not unclear(b):
        return False  # hidden inputs choose between different computations
    return r


def compare(ck, P, X, outs, bad, w, label, base):
    """outs: [(state, result)]; one obligation per outcome, and one per outcome told apart by a hidden input"""
    for s, t in outs:
        src = sources(P, t)
        ck.ob(FREE, not src, w, f"{label}: the result depends on {', '.join(src)[:80]}", st=None if len(outs) == 1 else s)
    told = [(s, t, hidden(P, s.facts, base)) for s, t in outs] + [(s, None, hidden(P, s.facts, base)) for s, _ in bad]
    for i, (s1, t1, h1) in enumerate(told):
        if not h1:
            continue
        r1 = [f for f in s1.facts if f not in h1 and f not in base]
        verdicts = []
        certain = None
        for j, (s2, t2, h2) in enumerate(told):
            if i == j or t1 is None and t2 is None:
                continue
            r2 = [f for f in s2.facts if f not in h2 and f not in base]
            if any(decide(s2, f, P) is False for f in r1) or any(decide(s1, f, P) is False for f in r2):
                continue  # told apart by what the circuit is
            v = agree(X, s1, t1, t2)
            if v is False and any(nott(f) in h2 for f in h1):
                certain = True
            verdicts.append(v)
        if not verdicts:
            continue
        ok = False if certain or all(v is False for v in verdicts) else True if all(v is True for v in verdicts) else None
        ck.ob(FREE, ok, w, f"{label}: the result differs with {', '.join(sources(P, h1[0]))[:80]}", st=[f for f in s1.facts if f not in h1])


def kept(ck, P, s, w, label):
    """what outlives the run is not filed under an address: another object may have it later"""
    for e in trace(s):
        if e.kind != "content" or e.target is None or e.target.op != "ref":
            continue
        o = s.heap.get(e.target.a[0])
        if o is None or o.owner not in ("static", "client"):
            continue
        ck.count("writes_to_lasting_objects")
        for x in (x for a in e.a if isinstance(a, T) for x in walk(a)):
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("id", "hash", "repr", "str") and x.a[1] and x.a[1][0].op in ("ref", "obj"):
                ck.ob(CACHE, False, w, f"{label}: something is kept under {x.a[0].a[0]} of an object", st=s)


def trace(s):
    out, e = [], s.ev
    while e is not None:
        out.append(e[1])
        e = e[0]
    return out[::-1]


TICKS = ("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "random.random", "random.randint", "random.uniform", "random.choice", "datetime.datetime.now",
         "numpy.random.rand", "numpy.random.random", "numpy.random.normal", "timeit.default_timer", "time.clock")


def unique(P):
    """two readings of a clock are not the same"""
    n = [0]

    def reading(name):
        def f(P, s, a, k):
            n[0] += 1
            return [(s, mk("call", mk("ext", name), tuple(P.snap(s, x) for x in a) + (mk("reading", n[0]),), ()))]
        return f
    for name in TICKS:
        P.stubs["ext:" + name] = reading(name)


def run_once(sm, s, qc):
    res, bad = sm.finish(s, qc)
    return [(s2, t if t is not None else sm.P.deep(s2, v)) for s2, t, v in res], bad


def circuits(ck, n, depth, ops, backend=None, label=""):
    sm = Small(n, states=True, inside=True)
    P = sm.P
    unique(P)
    X = Cmp(P)
    w = "QuantumCircuit.run"
    B = mk("cls", backend) if backend else None
    before = []

    def visit(s, qc, done, sole):
        if s is None:
            return
        l = label + (" ".join(map(str, done)) or "no gate")
        outs, bad = run_once(sm, s, qc)
        compare(ck, P, X, outs, bad, w, l, before[0])
        for s2, t in outs:
            kept(ck, P, s2, w, l)
            storage(ck, P, s2, t, w, l)
        ck.count("circuits")
        P.setrev = True
        try:
            rev, _ = run_once(sm, s, qc)
        finally:
            P.setrev = False
        same_order(ck, X, outs, rev, w, l)
    for s, qc in sm.begin(B=B)[0]:
        before[:] = [set(sm.st.facts)]
        programs(sm, ops, depth, visit, s, qc)
    ck.used(P)


def same_order(ck, X, outs, rev, w, l):
    a, b = [t for _, t in outs], [t for _, t in rev]
    if all(x is y for x, y in zip(a, b)) and len(a) == len(b):
        ck.ob(ORDER, True, w, l)
    elif len(a) == len(b) == 1:
        ck.ob(ORDER, agree(X, outs[0][0], a[0], b[0]), w, f"{l}: the result differs with the iteration order of a set")
    else:
        ck.ob(ORDER, None, w, f"{l}: outcomes under another iteration order of sets were not matched")


def biased(ck, ops):
    """modules imported on machines that differ in hidden inputs only"""
    seen = []
    runs = []
    for bias in (True, False):
        Program.loadbias = staticmethod(lambda c, bias=bias: (seen.append(c), bias)[1] if sources(None, c) else None)
        try:
            sm = Small(2, states=True, inside=True)
        finally:
            Program.loadbias = None
        rs = {}

        def visit(s, qc, done, sole):
            if s is not None:
                outs, bad = run_once(sm, s, qc)
                rs[" ".join(map(str, done)) or "no gate"] = (outs, [e for _, e in bad])
        for s, qc in sm.begin()[0]:
            programs(sm, ops, 1, visit, s, qc)
        runs.append((sm, rs))
    X = Cmp(runs[0][0].P)
    what = ", ".join(sorted({n for c in seen for n in sources(None, c)})) or "nothing hidden"
    for l, (a, e1) in runs[0][1].items():
        b, e2 = runs[1][1].get(l, ([], []))
        if len(a) == len(b) == 1:
            ck.ob(FREE, agree(X, a[0][0], a[0][1], b[0][1]), "QuantumCircuit.run", f"{l}: the result differs with {what[:80]} when the package is imported", st=a[0][0])
        else:
            ck.ob(FREE, (len(a) == len(b) and all(x[1] is y[1] for x, y in zip(a, b))) or None, "QuantumCircuit.run", f"{l}: outcomes on machines that differ in {what[:80]} were not matched")
        ck.count("import_circuits")


def reported(ck):
    """the output stage"""
    w = "Output.__call__"
    for n, pats, dims in ((1, [[1]], None), (2, [[1, 0], [0, 1]], None), (2, [[1, 1], [0, 1], [1, 0]], None), (3, [[1, 0, 1], [0, 1, 1]], None), (3, [(1, 0, 1), (0, 1, 1), (0, 0, 1)], (2, 3, 2))):
        for sparse in (False, True):
            for style in ("print", "state"):
                for meth in ("probability", "amplitude"):
                    ck.guard(FREE, w, report_of, ck, n, pats, dims, sparse, style, meth, w)
    # reports of many states
    for dims, step in (((3, 4), 1), ((5, 2, 7), 2)):
        every = list(itertools.product(*[range(d) for d in dims]))[::step]
        for style in ("print", "state"):
            with many():
                ck.guard(FREE, w, report_of, ck, len(dims), every, dims, False, style, "probability", w)


def report_of(ck, n, pats, dims, sparse, style, meth, w):
    label = f"{n} registers, {len(pats)} states, {style}, {meth}" + (", sparse" if sparse else "")
    res = []
    for rev in (False, True):
        P, st, ds, digits, amps = CO.scene(n, pats, sparse, dims)
        unique(P)
        P.setrev = rev
        base = set(st.facts)
        outs, _ = fcall(P, st, mk("cls", CO.OUT + ".Output"), [seq("list", [one(d) for d in ds]), CO.enum(P, "OutputType", style), CO.enum(P, "OutputMethod", meth)])
        got, bad = [], []
        for s, o in outs:
            r, b = fcall(P, s, o, [P.nd.value])
            got += [(s2, P.deep(s2, v)) for s2, v in r if feasible(P, s2)]
            bad += [(s2, e) for s2, e in b if feasible(P, s2)]
        res.append(got)
        if not rev:
            compare(ck, P, Cmp(P), got, bad, w, label, base)
            ck.used(P)
            for s, t in got:
                for e in trace(s):
                    if e.kind == "ext" and e.a and sources(P, e.target) and not isinstance(e.target, str) and any(x.op == "top" for x in walk(t)):
                        ck.ob(FREE, None, w, f"{label}: {show(e.target)[:60]} is used")
        ck.count("reports")
    same_order(ck, Cmp(P), res[0], res[1], w, label)


EMPTY = ("numpy.empty", "numpy.empty_like", "numpy.ndarray", "cupy.empty", "cupy.empty_like", "cupy.ndarray")


def raw(t):
    return t.op == "call" and dotted(t.a[0]) in EMPTY


def under(t):
    """the storage a term has been written into"""
    while True:
        if t.op == "store":
            t = t.a[0]
        elif t.op == "call" and dotted(t.a[0]) == "numpy.fill_diagonal":
            t = t.a[1][0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("fill", "reshape", "astype", "copy", "transpose"):
            t = t.a[0].a[0]
        else:
            return t


def full(k):
    if k.op == "seq":
        return all(full(x) for x in exact(k) or [None] if x is not None) and exact(k) is not None
    return dotted(k) in ("...", "Ellipsis") or k.op == "sl" and all(x is NONE or is_const(x) and cval(x) is None for x in k.a)


def covered(t):
    """some write covers all of the storage"""
    while True:
        if t.op == "store":
            if full(t.a[1]):
                return True
            t = t.a[0]
        elif t.op == "call" and dotted(t.a[0]) == "numpy.fill_diagonal":
            t = t.a[1][0]
        elif t.op == "call" and t.a[0].op == "attr":
            if t.a[0].a[1] == "fill":
                return True
            t = t.a[0].a[0]
        else:
            return False


def storage(ck, P, s, t, w, label):
    """every array made without initial values that a result contains has been written entirely"""
    written, chains = set(), []
    for x in walk(t):
        if x.op == "store" or x.op == "call" and (x.a[0].op == "attr" and x.a[0].a[1] == "fill" or dotted(x.a[0]) == "numpy.fill_diagonal"):
            if raw(under(x)):
                chains.append(x)
                written.add(x.a[0] if x.op == "store" else x.a[0].a[0] if x.a[0].op == "attr" else x.a[1][0])
    tops = [x for x in chains if x not in written]
    bare = [x for x in walk(t) if raw(x) and x not in written and not any(under(y) is x for y in chains)]
    if not tops and not bare:
        ck.ob(FILLED, True, w, label)
    def elsewhere(x):
        """written by a function that is not modelled"""
        for e in trace(s):
            if e.kind == "content" and e.a and isinstance(e.a[0], str) and e.a[0].startswith("ext:") or e.kind == "maybe-mutate" or e.kind == "ext" and isinstance(e.target, T) and e.target.op == "call" and any(k == "out" for k, _ in e.target.a[2]):
                if any(y is x for z in (e.target,) + tuple(e.a) if isinstance(z, T) for y in walk(P.deep(s, z))):
                    return True
        return False
    for x in bare:
        if elsewhere(x):
            ck.ob(FILLED, None, w, f"{label}: {show(x)[:60]} is written by functions that are not modelled")
        elif not unclear(t):
            ck.ob(FILLED, False, w, f"{label}: {show(x)[:60]} is used as it is", st=s)
        else:
            ck.ob(FILLED, None, w, f"{label}: {show(x)[:60]}")
    for x in tops:
        if covered(x):
            ck.ob(FILLED, True, w, label)
            continue
        ck.guard(FILLED, w, written_all, ck, P, s, x, w, label)


def written_all(ck, P, s, x, w, label):
    D = Den(P, s)
    try:
        a = D.den(x)
        ix = [ROW, COL][:a.nd]
        if a.nd > 2:
            raise Unk("dimensions")
        D.bounds = dict(zip(ix, a.shape))
        un = []
        for cs, v in a.at(ix):
            cs = D.flatset(cs)
            if cs is None or any(decide(s, c, P) is False for c in cs):
                continue
            if any(y.op == "top" and y.a[0] == "uninitialised" for y in walk(v)):
                un.append([c for c in cs if decide(s, c, P) is not True])
    except Unk as e:
        ck.ob(FILLED, None, w, f"{label}: not understood: {e}")
        return
    hit = possible(P, s, ix, a.shape, un)
    # a part that reaches up to a position found by a search may be the whole
    sure = [cs for cs in hit if not any(searched(c, ix) for c in cs)]
    ck.ob(FILLED, False if sure else None if hit else True, w, f"{label}: an entry is what the storage happened to contain" + (" when " + " and ".join(show(c)[:60] for c in (sure or hit)[0]) if hit else ""), st=s)


def possible(P, s, ix, shape, un):
    """the sets of conditions that some entry may meet"""
    s2 = s.copy()
    for r, m in zip(ix, shape):
        s2.fact(le(ZERO, r))
        s2.fact(lt(r, m))
    hit = []
    for cs in un:
        s3 = s2.copy()
        todo, ok = [x for c in cs for x in (c.a if c.op == "and" else (c,))], True
        # simple facts first, then what is left of the alternatives
        todo.sort(key=lambda c: c.op in ("or", "not") and any(x.op in ("and", "or") for x in walk(c)))
        for c in todo:
            if c.op == "not" and c.a[0].op == "and":
                c = mk("or", *[nott(x) for x in c.a[0].a])
            if c.op == "or":
                left = [x for x in c.a if decide(s3, x, P) is not False]
                if len(left) == 1:
                    c = left[0]
                ok = bool(left)
            elif decide(s3, c, P) is False:
                ok = False
            if not ok:
                break
            s3.fact(c)
        if ok:
            hit.append(cs)
    return hit


def searched(c, ix):
    return any(x.op in ("le0", "lt0") and any(y.op == "idx" and y not in ix for y in syms(x)) for x in walk(c))


def filled(ck):
    for op in ("h", "x", "z", "cx", "toffoli"):
        w = {"h": "HGate", "x": "XGate", "z": "ZGate", "cx": "CXGate", "toffoli": "CXGate"}[op] + ".unitary"
        for P, C, s, u, base in matrices(ck, op, w, FILLED):
            ck.guard(FILLED, w, whole, ck, P, s, u, w)


def whole(ck, P, s, u, w):
    if not any(raw(x) for x in walk(P.deep(s, u))):
        ck.ob(FILLED, True, w)
        return
    try:
        a, ents, D = entries(P, s, u)
    except Unk as e:
        ck.ob(FILLED, None, w, f"not understood: {e}")
        return
    un = [(cs, v) for cs, v in ents if any(x.op == "top" and x.a[0] == "uninitialised" for x in walk(v))]
    un = [(cs, None) for cs in possible(P, s, (ROW, COL), a.shape, [cs for cs, v in un])]
    sure = [u for u in un if not any(searched(c, (ROW, COL)) for c in u[0])]
    ck.ob(FILLED, False if sure else None if un else True, w, "an entry is what the storage happened to contain" + (" when " + " and ".join(show(c)[:60] for c in (sure or un)[0][0]) if un else ""), st=s)


def cpu(ck):
    """with the package's own backends, whose operations are looked into"""
    sm = Small(2, states=True, inside=True)
    for b in backend_classes(sm.P):
        if b != "qudiet.core.backend.core.Backend":
            ck.guard(FREE, b.split(".")[-1], circuits, ck, 2, 1, [H(0), CX(0, 1), CX(1, 0), Z(1), U(1)], b, b.split(".")[-1] + ", ")


def c04(ck):
    """Circuits over symbolic dimensions and levels are evaluated from preparation to report with every use of the
    clock, of random numbers, of the environment and of addresses left symbolic: no such value occurs in a result
    or tells two outcomes apart that differ; results are the same under the opposite iteration order of sets of
    texts, types and objects; entries of matrices made in uninitialised storage are all written."""
    ck.guard(FREE, "QuantumCircuit.run", circuits, ck, 3, 1, placements(3))
    ck.guard(FREE, "QuantumCircuit.run", circuits, ck, 3, 2, alphabet(3, False))
    ck.guard(FREE, "QuantumCircuit.run", biased, ck, placements(2))
    cpu(ck)
    reported(ck)
    filled(ck)
