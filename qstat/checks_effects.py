"""C01-C04: effects of operations on the caller's data, the circuit itself and shared state."""
from checks_build import *

INSPECT = ["run", "__str__", "get_circuit_info", "get_circuit_config", "print_opflow_list", "draw"]
# effects on library objects that are bookkeeping of this process, not of a circuit
HARMLESS_EXT = ("warnings.", "logging.", "matplotlib.", "sys.stdout", "print")


def over_changes(old, new, rooted=None):
    """fields or elements of pre-existing symbolic objects that an operation replaced"""
    out = []
    for k, v in new.over.items():
        if old.over.get(k) is v or k[0] in ("k", "w"):
            continue
        t = k[1]
        if not isinstance(t, T) or t.op in ("seq", "rep", "map", "maparr", "call", "store", "const", "fstr", "slice", "rev"):
            continue  # a value computed by the operation itself
        if v is t or k[0] == "a" and mk("attr", t, k[2]) is v:
            continue
        if k[0] == "c" and v.op == "store" and v.a[0] is t and v.a[2] is item(t, v.a[1]):
            continue
        out.append(k)
    return out


def oname(C, old, oid):
    o = old.heap[oid]
    for p, q in old.heap.items():
        for k, v in q.attrs.items():
            if isinstance(v, T) and v.op == "ref" and v.a[0] == oid:
                return f"{(q.cls or '').split('.')[-1]}.{k}"
    return (o.cls or o.kind).split(".")[-1]


def fields(C):
    """(class, field) pairs whose value after construction comes from the constructor's arguments"""
    got = C.__dict__.get("_fields")
    if got is None:
        got = set()
        s0 = C.s0
        todo = [(s0, C.m0)]
        for op in ("h", "x", "z", "cx", "toffoli", "gate", "gatel"):
            s1 = s0.copy()
            legal(C, s1, op)
            try:
                todo += refgate(C, s1, op)[:1]
            except Unsupported:
                pass
        for s, g in todo:
            o = s.heap[g.a[0]]
            for k, v in o.attrs.items():
                if isinstance(v, T) and not is_const(C.P.deep(s, v)):
                    for c_ in C.P.mro(o.cls):
                        got.add((c_, k))
        C._fields = got
    return got


class Changes:
    """what an operation did to a circuit: (hard) parts of its description, (soft) other fields"""

    def __init__(self, C, old, new):
        P = C.P
        self.hard, self.soft = [], []
        mo = C.s0.obj(C.m0)
        keep = {C.layers.a[0]}
        ids = reach(old, C.qc)
        for oid in sorted(ids):
            o, n = old.heap[oid], new.heap[oid]
            if n.same(o):
                continue
            if n.content is not o.content and (n.content is None or o.content is None or P.deep(new, n.content) is not P.deep(old, o.content)):
                # lists that describe the circuit are never empty
                full = o.content is not None and not (o.content.op == "seq" and not o.content.a[1])
                (self.hard if o.kind in ("list", "dict", "set") and full else self.soft).append(oname(C, old, oid))
            for k in sorted(set(n.attrs) | set(o.attrs)):
                a, b = o.attrs.get(k), n.attrs.get(k)
                if a is b or isinstance(a, T) and isinstance(b, T) and P.deep(old, a) is P.deep(new, b):
                    continue
                self.soft.append(f"{(o.cls or o.kind).split('.')[-1]}.{k}")
        for k in over_changes(old, new):
            if k[0] == "a":
                self.soft.append(f"{show(k[1])[:40]}.{k[2]}")
            else:
                (self.hard if k[1].op in ("attr", "item", "sym") else self.soft).append(show(k[1])[:60])
        # fields of gates and layers written under a loop
        described = fields(C)
        for k in new.over:
            if k[0] != "w" or k in old.over:
                continue
            for e in new.events():
                if k[1] == "a" and e.kind == "attr" and e.a[0] == k[2] and e.target.op != "ref":
                    cs = e.a[2] if len(e.a) > 2 and e.a[2] else [None]
                    ok = all((c_, k[2]) in described for c_ in cs) and e.a[1] is not mk("attr", e.target, k[2]) and not any(x.op == "top" for x in walk(e.a[1]))
                    (self.hard if ok else self.soft).append(f"{'/'.join(str(c_).split('.')[-1] for c_ in cs)}.{k[2]} ({e.site})")
                elif k[1] == "c" and e.kind == "content" and e.target.op == "attr" and e.target.a[1] == k[2]:
                    self.hard.append(f"{show(e.target)[:60]} ({e.site})")


def answers(C, st):
    """what a client can read from the circuit afterwards"""
    P = C.P
    out = {}
    for m in ("run", "get_circuit_info", "get_circuit_config", "__str__"):
        try:
            outs, bad = method(P, st.copy(), C.qc, m)
        except Unsupported:
            continue
        out[m] = [(s, P.deep(s, v)) for s, v in outs if feasible(P, s)]
    return out


def c02(ck):
    P = program()
    C = Circuit(P, kw={"output": sym("output")})
    P.opaque_attr = {"unitary"}
    X = Cmp(P)
    bases = [("a measured circuit", s) for s, v in measured_states(C)[0]] + [("an unmeasured circuit", C.s0)]
    before = {}
    for nm, base in bases:
        for m in INSPECT:
            w = "QuantumCircuit." + m

            def go(m=m, w=w, nm=nm, base=base):
                s0 = base.copy()
                s0.ev = None
                outs, bad = method(P, s0, C.qc, m)
                res = [(s, v, Changes(C, base, s)) for s, v in outs + bad if feasible(P, s)]
                # one of the paths is taken: when all of them change the circuit, so does every call
                always = all(ch.hard for s, v, ch in res)
                marks = [(s, ch.hard, [e for e in s.events() if e.kind in ("content", "attr")]) for s, v, ch in res]
                for (s, v, ch), ground in zip(res, settled(marks)):
                    ck.count("inspections")
                    if ch.hard:
                        ck.ob("inspecting or running leaves the circuit as it was", False, w, f"changes {', '.join(ch.hard[:4])} of {nm}", st=None if always else ground)
                        continue
                    maybe = [e for e in s.events() if e.kind == "maybe-mutate" and e.target.op in ("ref", "attr", "item") and
                             any(x in (C.hist,) or x.op == "ref" and x.a[0] in reach(base, C.qc) for x in walk(e.target))]
                    maybe = [e for e in maybe if not pure_receiver(P, s, e)]
                    if maybe:
                        ck.ob("inspecting or running leaves the circuit as it was", None, w, f"calls an unknown method of {show(maybe[0].target)[:60]}")
                        continue
                    soft = [x for x in ch.soft if x != "QuantumCircuit.circuit_output"]
                    if not soft:
                        ck.ob("inspecting or running leaves the circuit as it was", True, w)
                        continue
                    # other fields changed: the client must not be able to tell
                    if id(base) not in before:
                        before[id(base)] = answers(C, base)
                    a, b = before[id(base)], answers(C, s)
                    verdicts = []
                    for q in a:
                        X.why = None
                        if q not in b or len(a[q]) != 1 or len(b[q]) > 2 or not b[q]:
                            verdicts.append(None if q not in b or a[q] or b[q] else True)
                            if q in b and bool(a[q]) != bool(b[q]):
                                verdicts[-1] = False
                                X.why = f"{q} afterwards {'raises' if a[q] else 'works'}"
                            continue
                        verdicts.append(meet(X.same(s2, v2, a[q][0][1]) for s2, v2 in b[q]))
                    r_ = meet(verdicts)
                    ck.ob("inspecting or running changes no later answer", r_, w, f"changes {', '.join(soft[:4])} of {nm}: {X.why or ''}", st=s)

            ck.guard("inspection", w, go)
        if nm == "a measured circuit":
            ck.guard("edited result", "QuantumCircuit.run", lambda base=base: edited_result(ck, C, X, base))
    ck.used(P)
    gate_getters(ck)
    output_effects(ck)


def edited_result(ck, C, X, base):
    """the caller owns the result it was given: whatever it writes there, the next run gives the same"""
    P = C.P
    w = "QuantumCircuit.run"
    s0 = base.copy()
    s0.ev = None
    outs, bad = method(P, s0, C.qc, "run")
    first = [(s, v) for s, v in outs if feasible(P, s)]
    for s, v in first:
        s1 = s.copy()
        edit = sym("edited", ("list",))
        hit = False
        if v.op == "ref" and s1.obj(v).content is not None and s1.obj(v).kind in ("list", "dict", "set"):
            s1.obj(v, True).content = seq("list", [star(edit)])
            hit = v.a[0] in reach(s, C.qc)
        elif v.op not in ("ref", "const", "tuple", "str"):
            for oid in reach(s, C.qc):
                for k, x in list(s1.heap[oid].attrs.items()):
                    if x is v:
                        s1.obj(mk("ref", oid), True).attrs[k] = edit
                        hit = True
        ck.count("edited results")
        if not hit:
            ck.ob("a result belongs to its caller", True, w)
            continue
        again, bad2 = method(P, s1, C.qc, "run")
        want = P.deep(s, v)
        res = [(s2, P.deep(s2, v2)) for s2, v2 in again if feasible(P, s2)]
        bad2 = [x for x in bad2 if feasible(P, x[0])]
        verdict = meet([X.same(s2, v2, want) for s2, v2 in res] + [None for _ in bad2])
        if any(v2 is edit or P.deep(s2, edit) is v2 for s2, v2 in res) and len(first) == 1:
            verdict = False
        ck.ob("a result belongs to its caller", verdict, w, "run gives back what the caller wrote into the previous result", st=s1)


def pure_receiver(P, st, e):
    return False


def gate_getters(ck):
    """reading a gate's matrix or operands changes nothing and gives the same again"""
    P = program()
    C = Circuit(P, history=False)
    X = Cmp(P)
    for op in ("h", "x", "z", "cx", "toffoli", "gate", "gatel"):
        w = {"gate": "ArbitaryGate", "gatel": "ArbitaryGate"}.get(op, GATES.get(op, op).split(".")[-1])

        def go(op=op, w=w):
            s0 = C.s0.copy()
            legal(C, s0, op)
            for s1, g in refgate(C, s0, op):
                if not feasible(P, s1):
                    continue
                s1 = s1.copy()
                s1.ev = None
                outs, bad = getter(P, s1, g, "unitary")
                if not outs:
                    ck.ob("reading a gate changes nothing", None, w, "no normal outcome")
                for s2, u in outs[:12]:
                    ids = reach(s1, g)
                    ch = []
                    for oid in ids:
                        o, n = s1.heap[oid], s2.heap[oid]
                        if n.content is not o.content and P.deep(s1, o.content) is not P.deep(s2, n.content):
                            ch.append(oname(C, s1, oid))
                        for k in o.attrs:
                            a, b = o.attrs[k], n.attrs.get(k)
                            if a is not b and not (isinstance(a, T) and isinstance(b, T) and P.deep(s1, a) is P.deep(s2, b)):
                                ch.append(f"{(o.cls or o.kind).split('.')[-1]}.{k}")
                    ck.count("matrix_reads")
                    o2, b2 = getter(P, s2.copy(), g, "unitary")
                    o2 = [x for x in o2 if feasible(P, x[0])]
                    if not ch and len(o2) == 1:
                        ck.ob("reading a gate changes nothing", True, w)
                    X.why = None
                    vs = [X.same(s3, P.deep(s3, u3), P.deep(s2, u)) for s3, u3 in o2]
                    ck.ob("reading a gate's matrix again gives the same matrix", meet(vs) if vs else None, w, X.why or "", st=s2)

        ck.guard("matrix", w, go)
    ck.used(P)


def getter(P, st, o, name):
    P.sink, saved = [], P.sink
    P.count = 0
    try:
        return P.getattr(st, o, name), P.sink
    finally:
        P.sink = saved


def legal(C, st, op):
    """facts that every accepted call establishes (C09)"""
    n = C.n
    xs = {"h": [r], "x": [r], "z": [r], "gate": [r], "cx": [c, t], "toffoli": [t], "gatel": []}[op]
    for x in xs:
        st.fact(le(ZERO, x))
        st.fact(lt(x, n))
    if op == "cx":
        st.fact(nott(eq(c, t)))
    if op in ("toffoli", "gatel"):
        L = cs if op == "toffoli" else rs
        K = fresh()
        st.fact(forall(K, len_of(L), [le(ZERO, item(L, K)), lt(item(L, K), n)]))
        st.fact(lt(ZERO, len_of(L)))


def output_effects(ck):
    P = program()
    st = P.start()
    w = "Output"

    def go():
        D = sym("qregs", ("list", "int"))
        L = st.alloc(Obj("list", content=seq("list", [star(D)]), owner="client"))
        o = P.classes.get("qudiet.core.output.Output")
        if o is None:
            raise Anchor("Output")
        outs, bad = fcall(P, st.copy(), mk("cls", "qudiet.core.output.Output"), [L, sym("otype"), sym("omethod")])
        P.stub = {"qudiet.utils.numpy.Nbase_to_bin"}
        for s, out in outs:
            ids = reach(s, out)
            ck.ob("Output keeps its own copy of the dimensions", L.a[0] not in ids, w, "keeps the caller's list")
            s1 = s.copy()
            rs_, bad = fcall(P, s1, out, [sym("state")])
            for s2, v in rs_ + bad:
                ch = [oid for oid in ids if s2.heap[oid].content is not s.heap[oid].content and P.deep(s2, s2.heap[oid].content) is not P.deep(s, s.heap[oid].content)]
                at = [k for oid in ids for k in s.heap[oid].attrs if s.heap[oid].attrs[k] is not s2.heap[oid].attrs.get(k)]
                ck.count("reports")
                ck.ob("reporting a result changes nothing", False if ch else (None if at else True), "Output.__call__", f"changes {[oname(None, s, x) for x in ch]} {at}", st=s2)

    ck.guard("output", w, go)
    ck.used(P)


# ----------------------------------------------------------------------- C01
class Owned:
    """a circuit built from the caller's own mutable lists"""

    def __init__(self, P, states=True):
        st = P.start()
        self.P = P
        self.D = sym("qregs", ("list", "int"))
        self.I = sym("init", ("list", "int"))
        self.B = sym("backend")
        st.fact(nott(eq(self.B, NONE)))
        st.fact(mk("truth", self.B))
        self.lists = {}
        self.LD = self.own(st, "the list of registers", self.D)
        kw = {"backend": self.B}
        if states:
            kw["init_states"] = self.own(st, "the list of initial states", self.I)
        outs, bad = fcall(P, st, mk("cls", QC), [self.LD], kw)
        self.outs = [(s, v) for s, v in outs if feasible(P, s)]
        self.bad = bad

    def own(self, st, name, src, kind="list"):
        o = st.alloc(Obj(kind, content=seq(kind, [star(src)] if not isinstance(src, list) else [one(x) for x in src]), owner="client"))
        self.lists[o] = (name, st.obj(o).content)
        return o


def changed(P, lists, st):
    return [n for o, (n, c_) in lists.items() if o.a[0] in st.heap and P.deep(st, st.obj(o).content) is not P.deep(st, c_)]


def judge_changes(ck, P, lists, outcomes, w):
    marked = []
    for s in outcomes:
        ch = changed(P, lists, s)
        marked.append((s, ch, [e for e in s.events() if e.kind == "content" and e.target in lists]))
    for (s, ch, ws), f in zip(marked, settled(marked)):
        ck.ob("the caller's lists keep their contents", not ch, w, f"changes {', '.join(ch)}", st=f)


def kept(lists, st, roots):
    ids = set()
    for x in roots:
        ids |= reach(st, x)
    return [n for o, (n, c_) in lists.items() if o.a[0] in ids]


def c01(ck):
    for states in (True, False):
        P = program()
        W = Owned(P, states)
        w = "QuantumCircuit.__init__"
        judge_changes(ck, P, W.lists, [s for s, v in W.outs + W.bad], w)
        for s, v in W.outs:
            kp = kept(W.lists, s, [v])
            ck.ob("the circuit keeps no reference to the caller's lists", not kp, w, f"keeps {', '.join(kp)}", st=s)
            ck.count("circuits")
        if not states:
            continue
        good = [(s, v) for s, v in W.outs if decide(s, le0(len_of(W.D)), P) is not True][:2]
        for s0, qc in good:
            s0 = s0.copy()
            s0.fact(lt(ZERO, len_of(W.D)))
            UG = VALS["UserGate"]
            calls = [
                ("cx", lambda o: [o.own("the list of operands", [c, t])], {"plus": plus}),
                ("toffoli", lambda o: [seq("tuple", [one(o.own("the list of controls", cs)), one(t)])], {"plus": plus}),
                ("toffoli", lambda o: [o.own("the operands", [o.own("the list of controls", cs), t])], {}),
                ("gate", lambda o: [UG, o.own("the list of operands", rs)], {}),
                ("gate", lambda o: [UG, o.own("the list of operands", [c, t])], {}),
                ("gate", lambda o: [UG, o.own("the list of operands", rs)], {"dims": "dims"}),
                ("gate", lambda o: [UG, o.own("the list of operands", [c])], {}),
            ]
            for m, mkargs, kw in calls:
                wm = "QuantumCircuit." + m

                def go(m=m, mkargs=mkargs, kw=kw, wm=wm, s0=s0, qc=qc):
                    st = s0.copy()
                    W.st = st
                    saved = dict(W.lists)
                    o = W
                    real = W.own
                    W.own = lambda name, src, kind="list": real(st, name, src, kind)
                    try:
                        args = mkargs(W)
                        k2 = dict(kw)
                        if "dims" in k2:
                            k2["dims"] = W.own("the list of dimensions", sym("gdims", ("list", "int")))
                    finally:
                        W.own = real
                    mine, W.lists = W.lists, saved
                    outs, bad = method(P, st, qc, m, args, k2)
                    judge_changes(ck, P, mine, [s for s, v in outs + bad if feasible(P, s)], wm)
                    for s, v in outs:
                        if not feasible(P, s):
                            continue
                        kp = [x for x in kept(mine, s, [qc])]
                        ck.count("calls")
                        ck.ob("the circuit keeps no reference to the caller's lists", not kp, wm, f"keeps {', '.join(kp)}", st=s)
                        if m != "gate":
                            continue

                ck.guard("caller's data", wm, go)
        ck.used(P)
    direct_calls(ck)
    # a user's own output stage
    output_effects(ck)


def direct_calls(ck):
    """gates, layers and helpers a client calls itself with lists of its own"""
    ints = ("list", "int")
    B = sym("backend")
    dims = lambda W, st: W.own(st, "the list of dimensions", sym("dims", ints))
    CLI = lambda n: mk("cls", "qudiet." + n)
    FN = lambda n: mk("func", "qudiet." + n)
    LIB = "circuit_library.standard_gates."
    items = [
        ("Toffoli", CLI(LIB + "toffoli_utility.Toffoli"), lambda W, st: ([seq("tuple", [one(W.own(st, "the list of controls", cs)), one(t)]), dims(W, st), plus, B], {})),
        ("Toffoli", CLI(LIB + "toffoli_utility.Toffoli"), lambda W, st: ([W.own(st, "the operands", [W.own(st, "the list of controls", cs), t]), dims(W, st), plus, B], {})),
        ("CXGate", CLI(LIB + "cx.CXGate"), lambda W, st: ([dims(W, st), W.own(st, "the list of operands", [c, t]), plus, B], {})),
        ("UserGate", VALS["UserGate"], lambda W, st: ([W.own(st, "the list of operands", rs), dims(W, st), B], {})),
        ("ttg", FN("utils.linalg.ttg"), lambda W, st: ([dims(W, st)], {})),
        ("Nbase_to_bin", FN("utils.numpy.Nbase_to_bin"), lambda W, st: ([r, dims(W, st)], {})),
        ("bin_to_Nbase", FN("utils.numpy.bin_to_Nbase"), lambda W, st: ([W.own(st, "the list of digits", sym("digits", ints)), dims(W, st)], {})),
        ("clip", FN("utils.linalg.clip"), lambda W, st: ([W.own(st, "the list", rs), c, t], {})),
        ("generate_combinations", FN(LIB + "toffoli_utility.generate_combinations"), lambda W, st: ([dims(W, st)], {})),
    ]
    for w, f, mk_ in items:
        def go(w=w, f=f, mk_=mk_):
            P = program(load=("qudiet.utils.linalg", "qudiet.utils.numpy"))
            name = f.a[0]
            if f.op == "func":
                mod, _, nm = name.rpartition(".")
                fn = P.start().frames.get("m:" + mod, {}).get(nm)
                if fn is None:
                    return
            else:
                fn = f
            st = P.start()
            W = Owned.__new__(Owned)
            W.P, W.lists = P, {}
            args, kw = mk_(W, st)
            outs, bad = fcall(P, st, fn, args, kw)
            ck.count("direct_calls")
            n = 0
            judge_changes(ck, P, W.lists, [s for s, v in outs + bad if feasible(P, s)], w)
            for s, v in outs + bad:
                if not feasible(P, s):
                    continue
                n += 1
                mm = [e for e in s.events() if e.kind == "maybe-mutate" and e.target in W.lists]
                if mm:
                    ck.ob("the caller's lists keep their contents", None, w, "an unknown method of the list is called")
            if not n:
                ck.ob("the caller's lists keep their contents", None, w, "no outcome")
            ck.used(P)

        ck.guard("the caller's lists keep their contents", w, go)


# ----------------------------------------------------------------------- C03
GLOBAL_EXT = ("numpy.random.seed", "numpy.seterr", "numpy.set_printoptions", "random.seed", "os.putenv", "os.chdir", "sys.setrecursionlimit")


def static_ids(P, st):
    return {oid for oid, o in st.heap.items() if o.owner == "static"}


def determined(P, st, key, val):
    """True when the value is a function of the key alone, False when it depends on something else"""
    k = P.deep(st, key)
    v = P.deep(st, val)
    parts = [x for x in (k.a[1] if k.op == "seq" else ())]
    ks = [k] + [g.a[0] for g in parts if g.op == "one"]
    ks = [x for x in ks if not is_const(x)]
    v2 = subst(v, {x: sym("?key", "int") for x in ks})
    left = {x for x in syms(v2) if x.op in ("sym", "idx", "carry", "ref", "top") and x is not sym("?key", "int")}
    if any(x.op in ("ref", "top", "carry") for x in left):
        return None
    return not left


def shared_writes(P, st, base):
    """(what, where, verdict) for every write to state that all circuits share"""
    out = []
    ids = static_ids(P, base)
    for e in st.events():
        t_ = e.target
        if e.kind == "content" and t_.op == "ref" and t_.a[0] in ids:
            if e.a and e.a[0] == "setitem" and len(e.a) == 3 and base.heap[t_.a[0]].kind == "dict":
                d = determined(P, st, e.a[1], e.a[2])
                out.append(("a shared table, under a key that does not determine the entry", e.site, None if d is None else (True if d else False)))
            else:
                out.append((f"a shared {base.heap[t_.a[0]].kind} ({e.a[0] if e.a else ''})", e.site, False))
        elif e.kind == "attr" and t_.op == "ref" and t_.a[0] in ids:
            out.append((f"field {e.a[0]} of a shared object", e.site, False))
        elif e.kind == "clsattr":
            out.append((f"class attribute {show(t_).split('.')[-1]}.{e.a[0]}", e.site, False))
        elif e.kind == "global":
            out.append((f"module variable {e.a[0]}", e.site, False))
        elif e.kind == "maybe-mutate" and t_.op == "ref" and t_.a[0] in ids:
            out.append(("a shared object through an unknown method", e.site, None))
    return out


def function_of(site):
    return site.split(" in ")[-1]


def c03(ck):
    P = program()
    # construction, with everything left to its default
    st = P.start()
    D = sym("qregs", ("list", "int"))
    ops = []

    def check(nm, base, outs, w):
        n = 0
        for s, v in outs:
            if not feasible(P, s):
                continue
            n += 1
            ws = shared_writes(P, s, base)
            ck.count("writes_examined", len(s.events()))
            for what, site, verdict in ws:
                ck.ob("no state shared by circuits is written", verdict, function_of(site), f"{nm} writes {what} at {site}", st=None)
            if not ws:
                ck.ob("no state shared by circuits is written", True, w)
        ck.count("operations", 1)
        ck.count("outcomes", n)

    def construct():
        s0 = st.copy()
        outs, bad = fcall(P, s0, mk("cls", QC), [D])
        check("construction", st, outs + bad, "QuantumCircuit.__init__")
        # two circuits built with the same defaults share no mutable object
        for s, a in outs[:3]:
            s = s.copy()
            s.ev = None
            o2, b2 = fcall(P, s, mk("cls", QC), [sym("other", ("list", "int"))])
            for s2, b in o2[:3]:
                both = reach(s2, a) & reach(s2, b)
                for oid in both:
                    o = s2.heap[oid]
                    if o.owner != "static":
                        ck.ob("two circuits share no object", None, "QuantumCircuit.__init__", oname(None, s2, oid))
                    elif o.kind in ("list", "dict", "set"):
                        ck.ob("two circuits share no object", None, "QuantumCircuit.__init__", "a shared " + o.kind)
                if not both:
                    ck.ob("two circuits share no object", True, "QuantumCircuit.__init__")

    ck.guard("construction", "QuantumCircuit.__init__", construct)

    def construct2():
        s0 = st.copy()
        kw = {k: sym(k + "_given") for k in ("backend", "output", "name", "debug")}
        kw["init_states"] = sym("init_given", ("list", "int"))
        for v in kw.values():
            s0.fact(nott(eq(v, NONE)))
        outs, bad = fcall(P, s0, mk("cls", QC), [D], kw)
        check("construction with explicit arguments", st, outs + bad, "QuantumCircuit.__init__")

    ck.guard("construction", "QuantumCircuit.__init__", construct2)
    C = Circuit(P, kw={"output": sym("output")})
    measured = measured_states(C)[0]
    for op in list(OPS):
        def go(op=op):
            s0 = C.s0.copy()
            s0.ev = None
            outs, bad = perform(P, s0, C.qc, op)
            check(f"adding a gate ({op})", C.s0, outs + bad, OPWHERE[op])

        ck.guard("gate", OPWHERE[op], go)

    def meas():
        s0 = C.s0.copy()
        s0.ev = None
        outs, bad = method(P, s0, C.qc, "measure_all")
        check("measuring", C.s0, outs + bad, "QuantumCircuit.measure_all")

    ck.guard("measure", "QuantumCircuit.measure_all", meas)
    for i in range(1, min(C.variants, 6)):
        # circuits that were set up along another path of the constructor
        def variant(i=i):
            P1 = program()
            C1 = Circuit(P1, kw={"output": sym("output")}, pick=i, history=False)
            s0 = C1.s0.copy()
            s0.ev = None
            outs, bad = method(P1, s0, C1.qc, "measure_all")
            check("measuring", C1.s0, outs + bad, "QuantumCircuit.measure_all")
            ck.used(P1)

        ck.guard("measure", "QuantumCircuit.measure_all", variant)
    P.opaque_attr = {"unitary"}
    for base, _ in measured[:2]:
        for m in INSPECT:
            def insp(m=m, base=base):
                s0 = base.copy()
                s0.ev = None
                outs, bad = method(P, s0, C.qc, m)
                check(m, base, outs + bad, "QuantumCircuit." + m)

            ck.guard("inspection", "QuantumCircuit." + m, insp)
    P.opaque_attr = set()
    G = Circuit(P, history=False)
    for op in ("h", "x", "z", "cx", "toffoli", "gate", "gatel"):
        w = {"gate": "ArbitaryGate", "gatel": "ArbitaryGate"}.get(op, GATES.get(op, op).split(".")[-1])

        def mat(op=op, w=w):
            s0 = G.s0.copy()
            legal(G, s0, op)
            s0.ev = None
            for s1, g in refgate(G, s0, op):
                if not feasible(P, s1):
                    continue
                s1 = s1.copy()
                outs, bad = getter(P, s1, g, "unitary")
                check(f"computing a gate matrix ({op})", G.s0, outs + bad, w)

        ck.guard("matrix", w, mat)
    ck.used(P)
    P2 = program()

    def report():
        st = P2.start()
        L = st.alloc(Obj("list", content=seq("list", [star(D)])))
        outs, bad = fcall(P2, st.copy(), mk("cls", "qudiet.core.output.Output"), [L])
        for s, out in outs:
            s.ev = None
            rs_, bad = fcall(P2, s.copy(), out, [sym("state")])
            for s2, v in rs_ + bad:
                for what, site, verdict in shared_writes(P2, s2, st):
                    ck.ob("no state shared by circuits is written", verdict, function_of(site), f"reporting writes {what}", st=None)
                ck.count("reports")
        ck.ob("no state shared by circuits is written", True, "Output.__call__")

    ck.guard("reporting", "Output.__call__", report)
    ck.used(P2)
