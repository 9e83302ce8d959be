"""C01-C12: construction, effects, order of execution."""
from construct import *
from product import *

OPWHERE = {k: f"QuantumCircuit.{v[0]}" for k, v in OPS.items()}


def newfacts(base, st):
    return [f for f in st.facts if f not in base.facts]


def arith_only(fs):
    """conditions over the caller's integers only"""
    for f in fs:
        g = f.a[0] if f.op == "not" else f
        if f.op == "forall":
            if not all(clean(x) for x in f.a[2]):
                return False
            continue
        if f.op in ("raised", "unpacked", "truth", "typeis", "isinst"):
            continue
        if g.op not in ("le0", "eq0") or not clean(g):
            return False
        for x in walk(g):
            if x.op in ("call", "top", "fold"):
                return False
    return True


IMPLICIT = ("TypeError", "AttributeError", "IndexError", "KeyError", "StopIteration")


def scalar_only(fs):
    """conditions over the caller's integers that do not depend on the contents of earlier layers"""
    return arith_only(fs) and not any(x.op in ("attr", "isinst", "typeis") for f in fs for x in walk(f))


def implicit(x):
    return any(n in show(x) for n in IMPLICIT)


def measured_states(C):
    """circuit states after measure_all on an arbitrary unmeasured circuit"""
    outs, bad = method(C.P, C.start(), C.qc, "measure_all")
    return [(s, v) for s, v in outs if feasible(C.P, s)], bad


class Diff:
    """objects of the circuit that differ between two states"""

    def __init__(self, C, old, new, allow=()):
        self.items = []
        ids = reach(old, C.qc)
        for oid in sorted(ids):
            o, n = old.heap[oid], new.heap[oid]
            if n.same(o):
                continue
            if n.content is not o.content:
                if n.content is None or o.content is None or C.P.deep(new, n.content) is not C.P.deep(old, o.content):
                    self.items.append((o.kind, "elements"))
            for k in sorted(set(n.attrs) | set(o.attrs)):
                a, b = o.attrs.get(k), n.attrs.get(k)
                if a is not b and (o.cls or "").split(".")[-1] + "." + k not in allow:
                    if isinstance(a, T) and isinstance(b, T) and a.op != "ref" and b.op != "ref" and C.P.deep(old, a) is C.P.deep(new, b):
                        continue
                    self.items.append(((o.cls or o.kind).split(".")[-1], k))
        for k, v in new.over.items():
            if old.over.get(k) is v or v is k[1]:
                continue
            if k[0] == "w":
                self.items.append(("earlier layer", str(k[2])))
                continue
            if k[0] == "a" and mk("attr", k[1], k[2]) is v:
                continue
            d = old.over.get(k)
            if d is None and k[0] == "k":
                self.items.append(("class attribute", str(k[-1])))
                continue
            self.items.append(("earlier layer", str(k[2]) if k[0] == "a" else show(k[1])[:60]))

    def __bool__(self):
        return bool(self.items)

    def __str__(self):
        return ", ".join(f"{a}.{b}" for a, b in self.items[:6])


# ------------------------------------------------------------------- C05, C06
def placements(ck, C, ops=OPS):
    """(op, state, returned value, Effect, kind) for every normal outcome"""
    for op in ops:
        w = OPWHERE[op]

        def go(op=op):
            outs, bad = perform(C.P, C.start(), C.qc, op)
            outs = [(s, v) for s, v in outs if feasible(C.P, s)]
            if not outs:
                ck.ob("a valid call succeeds", None, w, "no normal outcome")
            return [(op, s, v) + (lambda e: (e, kind_of(C, s, e)))(Effect(C, s)) for s, v in outs]

        for x in ck.guard("gate placement", w, go) or []:
            ck.count("call_outcomes")
            yield x


def regspan(op, s):
    if op in SINGLE:
        return [(s, VALS["r"])]
    return None


def c05(ck):
    P = program()
    C = Circuit(P)
    X = Cmp(P)
    for op, s, v, e, k in placements(ck, C):
        w = OPWHERE[op]
        ck.guard("order of gates", w, order_one, ck, C, X, op, s, v, e, k, w)
    for s, v in measured_states(C)[0]:
        e = Effect(C, s)
        k = kind_of(C, s, e)
        if k[0] == "other" and k[1].startswith("the list"):
            ck.ob("measurement comes last", None if not clean(k[2]) else False, "QuantumCircuit.measure_all", k[1], st=s)
        else:
            ck.ob("measurement comes last", k[0] == "append" or None, "QuantumCircuit.measure_all", k[0])
    run_order(ck)
    ck.used(P)
    ck.assumptions += [
        "gates already in the circuit are instances of the package's gate classes or user subclasses of the custom gate",
        "calling code does not reach into the layer lists",
    ]


def order_one(ck, C, X, op, s, v, e, k, w):
    P = C.P
    if k[0] == "none":
        if v is TRUE or not is_const(v):
            ck.ob("the gate is added to the circuit", False, w, "the call returns without adding its gate", st=s)
        else:
            ck.ob("the gate is added to the circuit", None, w, f"returns {show(v)}")
        return
    if k[0] == "other":
        ck.ob("only the end of the circuit grows", False if k[2] is None or clean(k[2]) else None, w, k[1], st=s)
        return
    if k[0] == "append":
        L = C.gatelist(s, k[1])
        vs = []
        for s2, g in refgate(C, s, op):
            want = P.deep(s2, g)
            have = [x for x in walk(P.deep(s2, L)) if x.op == "obj" and not P.issub(x.a[0].a[0], gcls("i"))]
            have = [h for h in have if not any(h is not o and h in set(walk(o)) for o in have)]
            if not have:
                vs.append(False if clean(P.deep(s2, L)) else None)
                X.why = "the new layer does not contain the gate"
                continue
            rs_ = [X.same(s2, h, want) for h in have]
            vs.append(True if True in rs_ else (None if None in rs_ else False))
        ck.ob("the new layer holds the gate that was asked for", meet(vs), w, X.why or "", st=s)
        return
    # the gate takes the place of an identity: only legal in the last layer
    layer, lst, idx, gate = k[1:]
    last = last_layer(C)
    v1 = X.same(s, layer, last, "layer")
    if v1 is False and any(f.op == "forall" and any(x.op in ("isinst", "in") for c_ in f.a[2] for x in walk(c_)) for f in newfacts(C.s0, s)):
        # an earlier layer, but something is known about the layers in between
        v1 = None
    ck.ob("a gate joins only the last layer", v1, w, f"gate stored in layer {show(layer)[:80]}")
    vs = [X.same(s2, P.deep(s2, gate), P.deep(s2, g)) for s2, g in refgate(C, s, op)]
    ck.ob("the stored gate is the gate that was asked for", meet(vs), w, X.why or "")
    target_is_identity(ck, C, X, op, s, lst, idx, w, "order")


def target_is_identity(ck, C, X, op, s, lst, idx, w, why):
    P = C.P
    x = item(lst, idx)
    isI = decide(s, mk("isinst", x, gcls("i")), P)
    cs_ = P.classes_of(s, x) or []
    if isI is not True and cs_ and all(P.issub(q, gcls("i")) for q in cs_):
        isI = True
    if isI is None:
        isI = False if not any(f.op == "isinst" and "IGate" in show(f) for f in s.facts) else None
    ck.ob("only an identity is replaced", isI, w, f"{show(x)[:80]} is not known to be an identity", st=s)
    # its register is the register of the new gate
    if op in SINGLE:
        v = None
        for s2, a in P.getattr(s.copy(), x, "acting_on"):
            v = decide(s2, eq(a, VALS["r"]), P)
            if v is None:
                # no condition at all relates the replaced identity's register to r
                rel = [f for f in s2.facts if VALS["r"] in syms(f) and any(y.op in ("item", "attr") and y.a[0] is not C.D for y in walk(f))]
                v = None if rel else False
        ck.ob("the replaced identity is on the gate's register", v, w, f"register of {show(x)[:60]}", st=s)
    else:
        ck.ob("the replaced identity is on the gate's register", None, w, "multi-register gate replaces an entry")


def run_order(ck, kron=False, dot=True):
    P = program()
    C = Circuit(P, kw={"output": sym("output")})
    X = Cmp(P)
    P.opaque_attr = {"unitary"}
    w = "QuantumCircuit.run"

    def go():
        n = 0
        for s, v in measured_states(C)[0]:
            outs, bad = method(P, s, C.qc, "run")
            for s2, v2 in outs:
                if not feasible(P, s2):
                    continue
                n += 1
                ck.count("run_outcomes")
                if not (v2.op == "call" and v2.a[0] is sym("output") and len(v2.a[1]) == 1):
                    ck.ob("run returns what the output stage makes of the state", None, w, show(v2)[:120])
                    continue
                try:
                    have = nested(nonempty_len(P.deep(s2, v2.a[1][0])))
                except NoForm as e:
                    ck.ob("state is the ordered product of the layers", None, w, str(e))
                    continue
                for s3, ref in client(P, s2, "ref_factors", [C.layers])[0]:
                    want = P.deep(s3, ref)
                    X.why = None
                    r_ = X.same(s3, have, want)
                    ck.ob("state is the ordered product of the layers", r_, w, X.why or "")
        if not n:
            ck.ob("state is the ordered product of the layers", None, w, "no normal outcome")

    ck.guard("state is the ordered product of the layers", w, go)
    ck.used(P)


def c06(ck):
    P = program()
    C = Circuit(P)
    X = Cmp(P)
    # first layer
    for s, v in [(C.s0, C.qc)]:
        for s2, sp in client(P, C.s0.copy(), "ref_init", [C.D, seq("list", [mk("rep", seq("list", [one(ZERO)]), C.n)]), C.B])[0]:
            X.why = None
            ck.ob("the first layer prepares every register once", X.same(s2, P.deep(s2, C.gatelist(C.s0, C.m0)), P.deep(s2, s2.obj(sp).content)), "QuantumCircuit.__init__", X.why or "")
    for op, s, v, e, k in placements(ck, C):
        ck.guard("layer shape", OPWHERE[op], shape_one, ck, C, X, op, s, v, e, k, OPWHERE[op])
    for s, v in measured_states(C)[0]:
        k = kind_of(C, s, Effect(C, s))
        if k[0] == "append":
            for s2, sp in client(P, s.copy(), "ref_measure", [C.D])[0]:
                X.why = None
                ck.ob("measurement covers every register once", X.same(s2, P.deep(s2, C.gatelist(s2, k[1])), P.deep(s2, s2.obj(sp).content)), "QuantumCircuit.measure_all", X.why or "")
        else:
            ck.ob("measurement covers every register once", None, "QuantumCircuit.measure_all", str(k[0]))
    acting_on(ck, P, C, X)
    ck.used(P)


def acting_on(ck, P, C, X):
    for k, extra in (("h", {}), ("x", {"plus": sym("p", "int")}), ("z", {}), ("i", {}), ("m", None)):
        kw = {"qreg": VALS["r"]}
        if extra is not None:
            kw.update(dims=sym("d", "int"), backend=C.B, **extra)

        def go(k=k, kw=kw):
            for s, g in fcall(P, C.start(), gcls(k), [], kw)[0]:
                for s2, a in method(P, s, g, "acting_on")[0] if False else P.getattr(s, g, "acting_on"):
                    ck.ob("a gate reports the register it was placed on", X.same(s2, P.snap(s2, a), VALS["r"]), gcls(k).a[0].split(".")[-1] + ".acting_on", X.why or "")

        ck.guard("a gate reports its register", gcls(k).a[0], go)


def shape_one(ck, C, X, op, s, v, e, k, w):
    P = C.P
    if k[0] == "append":
        L = C.gatelist(s, k[1])
        if L is None:
            ck.ob("layer shape", None, w, "gate list not found")
            return
        vs = []
        for s2, sp in refgate(C, s, op, "layer_"):
            X.why = None
            vs.append(X.same(s2, P.deep(s2, L), P.deep(s2, s2.obj(sp).content)))
        ck.ob("the new layer covers every register exactly once, in order", meet(vs), w, X.why or "")
    elif k[0] == "replace":
        layer, lst, idx, gate = k[1:]
        target_is_identity(ck, C, X, op, s, lst, idx, w, "shape")
        vs = [X.same(s2, P.deep(s2, gate), P.deep(s2, g)) for s2, g in refgate(C, s, op)]
        ck.ob("the stored gate has its register's dimension", meet(vs), w, X.why or "")
    elif k[0] == "other":
        ck.ob("earlier layers keep their shape", None if k[2] is not None and not clean(k[2]) else False, w, k[1], st=s)


# ----------------------------------------------------------------------- C07
def c07(ck):
    P = program()
    C = Circuit(P, kw={"output": sym("output")})
    P.opaque_attr = {"unitary"}
    # not measured: run must refuse, whatever gates were added
    outs, bad = method(P, C.start(), C.qc, "run")
    outs = [(s, v) for s, v in outs if feasible(P, s)]
    for s, v in outs:
        nf = newfacts(C.s0, s)
        ck.ob("an unmeasured circuit refuses to run", False if not any(f.op in ("truth", "all", "any") for f in nf) else None, "QuantumCircuit.run", "run returns a result for a circuit without measurement", st=s)
    if not outs:
        ck.ob("an unmeasured circuit refuses to run", True if bad else None, "QuantumCircuit.run", "")
    ck.count("raising_outcomes", len(bad))
    # the same after one more gate of every kind (the gate itself must not count as a measurement)
    for op in OPS:
        def one_more(op=op):
            for s, v in perform(P, C.start(), C.qc, op)[0]:
                if not feasible(P, s):
                    continue
                o2, b2 = method(P, s.copy(), C.qc, "run")
                o2 = [x for x in o2 if feasible(P, x[0])]
                ck.count("sequences")
                ck.ob("an unmeasured circuit refuses to run", (True if b2 else None) if not o2 else False, f"QuantumCircuit.run after {OPS[op][0]}", "run returns a result for a circuit without measurement", st=o2[0][0] if o2 else None)
        ck.guard("an unmeasured circuit refuses to run", OPWHERE[op], one_more)
    # measured: nothing can be added, run works
    ms, bad = measured_states(C)
    if not ms:
        ck.ob("measure_all succeeds", None, "QuantumCircuit.measure_all", "no outcome")
    for s, v in ms:
        s.ev = None
        for op in list(OPS) + ["measure_all"]:
            w = OPWHERE.get(op, "QuantumCircuit.measure_all")

            def sealed(op=op, w=w, s=s):
                if op == "measure_all":
                    o2, b2 = method(P, s.copy(), C.qc, "measure_all")
                else:
                    o2, b2 = perform(P, s.copy(), C.qc, op)
                for s2, v2 in list(o2) + list(b2):
                    if not feasible(P, s2):
                        continue
                    ck.count("sealed_outcomes")
                    d = Diff(C, s, s2)
                    ck.ob("a measured circuit accepts no further operation", False if d else True, w, f"changes {d}", st=s2)
                for s2, v2 in o2:
                    if feasible(P, s2):
                        ck.ob("an operation on a measured circuit is not reported as done", False if v2 is TRUE else (True if v2 is FALSE else None), w, f"returns {show(v2)[:60]}", st=s2)
            ck.guard("a measured circuit accepts no further operation", w, sealed)
        o2, b2 = method(P, s.copy(), C.qc, "run")
        b2 = [x for x in b2 if feasible(P, x[0])]
        ck.ob("a measured circuit runs", False if b2 and arith_only(newfacts(s, b2[0][0])) and not o2 else (True if not b2 else None), "QuantumCircuit.run", f"raises {show(b2[0][1]) if b2 else ''}", st=b2[0][0] if b2 else None)
        ck.count("sequences")
    ck.used(P)


# ----------------------------------------------------------------------- C08
def c08(ck):
    P = program()
    C = Circuit(P)
    bases = [("an open circuit", C.s0)] + [("a measured circuit", s) for s, v in measured_states(C)[0]]
    for nm, base in bases:
        base = base.copy()
        base.ev = None
        for op in list(OPS) + ["measure", "badreg"]:
            w = OPWHERE.get(op, "QuantumCircuit." + ("measure" if op == "measure" else "h"))

            def go(op=op, w=w, base=base, nm=nm):
                P.risky = []
                if op == "measure":
                    outs, bad = method(P, base.copy(), C.qc, "measure", [VALS["r"]])
                elif op == "badreg":
                    outs, bad = method(P, base.copy(), C.qc, "gate", [VALS["UserGate"], seq("tuple", [one(sym("c", "int")), one(sym("t", "int"))])])
                else:
                    outs, bad = perform(P, base.copy(), C.qc, op)
                risky = P.risky
                P.risky = None
                for s, x in bad + risky:
                    if not feasible(P, s) or (implicit(x) or any(s is y[0] for y in risky)) and not scalar_only(newfacts(base, s)):
                        continue
                    ck.count("refused_outcomes")
                    d = Diff(C, base, s)
                    ck.ob("an operation that raises leaves the circuit as it was", False if d else True, w, f"{show(x)} after changing {d} of {nm}", st=s)
                for s, v in outs:
                    if not feasible(P, s):
                        continue
                    d = Diff(C, base, s)
                    ck.count("returned_outcomes")
                    if v is FALSE or v is NONE:
                        ck.ob("an operation that reports failure leaves the circuit as it was", False if d else True, w, f"changes {d} of {nm} and returns {show(v)}", st=s)
                        if v is NONE and not d:
                            ck.ob("refusal is reported", False, w, f"on {nm} returns None without adding the gate", st=s)
                    elif not d:
                        ck.ob("refusal is reported", False if v is TRUE else None, w, f"on {nm} returns {show(v)[:40]} although nothing was added", st=s)
                    else:
                        ck.ob("success is reported", True if v is TRUE else None, w, f"returns {show(v)[:60]}")

            ck.guard("refusal", w, go)
    ck.used(P)


# ----------------------------------------------------------------------- C09
def validity(op, n):
    """facts: the registers of the call are legal"""
    K = fresh()
    R = VALS
    if op in SINGLE:
        return [le(ZERO, R["r"]), lt(R["r"], n)]
    if op == "cx":
        c, t = sym("c", "int"), sym("t", "int")
        return [le(ZERO, c), lt(c, n), le(ZERO, t), lt(t, n), nott(eq(c, t))]
    L = rs if op == "gatel" else cs
    f = [forall(K, len_of(L), [le(ZERO, item(L, K)), lt(item(L, K), n)])]
    if op != "gatel":
        t = sym("t", "int")
        f += [le(ZERO, t), lt(t, n), forall(K, len_of(L), [nott(eq(item(L, K), t))])]
    return f


def c09(ck):
    P = program()
    C = Circuit(P)
    n = C.n
    for op in OPS:
        w = OPWHERE[op]

        def go(op=op, w=w):
            outs, bad = perform(P, C.start(), C.qc, op)
            for s, v in outs:
                if not feasible(P, s):
                    continue
                ck.count("accepting_outcomes")
                accepted(ck, P, C, op, s, w, n)
            if not bad:
                ck.ob("an illegal register is rejected", False, w, "no call is ever rejected", st=None)
            for s, x in bad:
                if not feasible(P, s):
                    continue
                ck.count("rejecting_outcomes")
                s2 = s.copy()
                ok = True
                for f in validity(op, n):
                    if decide(s2, f, P) is False:
                        ok = False
                        break
                    s2.fact(f)
                if ok and feasible(P, s2):
                    nf = newfacts(C.s0, s)
                    ck.ob("a legal call is not rejected", False if (scalar_only if implicit(x) else arith_only)(nf) and op not in ("toffoli", "toffoli1", "gatel") else None, w, f"{show(x)} when " + " and ".join(show(f)[:80] for f in nf if f.op != "forall")[:300], st=s)
                else:
                    ck.ob("a legal call is not rejected", True, w)
        ck.guard("registers", w, go)
    # the same, for explicit lists of one and two registers
    a, b, t = sym("a", "int"), sym("b", "int"), sym("t", "int")
    for m, L in (("toffoli", [a]), ("toffoli", [a, b]), ("gate", [a, b])):
        w = "QuantumCircuit." + m

        def short(m=m, L=L, w=w):
            l = seq("list", [one(x) for x in L])
            if m == "gate":
                args, regs = [VALS["UserGate"], l], L
            else:
                args, regs = [seq("tuple", [one(l), one(t)]), VALS["plus"]], L + [t]
            legal = [f for x in regs for f in (le(ZERO, x), lt(x, n))]
            legal += [nott(eq(x, y)) for i, x in enumerate(regs) for y in regs[:i]]
            outs, bad = method(P, C.start(), C.qc, m, args)
            for s, v in outs:
                if not feasible(P, s):
                    continue
                ck.count("accepting_outcomes")
                for f in legal:
                    d = decide(s, f, P)
                    s2 = s.copy()
                    s2.fact(nott(f))
                    if d is True or d is None and not feasible(P, s2):
                        ck.ob("an illegal register is rejected", True, w)
                    else:
                        ck.ob("an illegal register is rejected", False if arith_only(newfacts(C.s0, s2)) else None, w, f"accepted with {show(nott(f))}", st=s2)
            for s, x in bad:
                s2 = s.copy()
                for f in legal:
                    if decide(s2, f, P) is False:
                        break
                    s2.fact(f)
                else:
                    if feasible(P, s2):
                        nf = newfacts(C.s0, s)
                        ck.ob("a legal call is not rejected", False if (scalar_only if implicit(x) else arith_only)(nf) else None, w, f"{show(x)} when " + " and ".join(show(f)[:80] for f in nf if f.op != "forall")[:300], st=s2)
                        continue
                ck.ob("a legal call is not rejected", True, w)
        ck.guard("registers", w, short)
    ck.used(P)


def accepted(ck, P, C, op, s, w, n):
    def need(cond, what, st=s):
        d = decide(st, cond, P)
        if d is True:
            ck.ob("an illegal register is rejected", True, w)
            return
        s2 = st.copy()
        s2.fact(nott(cond))
        if d is False or feasible(P, s2):
            ck.ob("an illegal register is rejected", False if arith_related(s2, cond) else None, w, f"{what} is accepted", st=s2)
        else:
            ck.ob("an illegal register is rejected", True, w)

    def arith_related(st, cond):
        # opaque conditions about the same inputs might still exclude it
        ss = {x for x in syms(cond) if x.op == "sym" and x is not C.D}
        for f in st.facts:
            if f in C.s0.facts or f.op in ("le0", "eq0", "forall"):
                continue
            g = f.a[0] if f.op == "not" else f
            if g.op in ("le0", "eq0"):
                if any(x.op == "call" and callname(x) not in ("min", "max") for x in walk(g)) and syms(g) & ss:
                    return False
                continue
            if syms(g) & ss and g.op not in ("typeis", "isinst", "truth", "eq", "hasattr"):
                return False
        for f in st.facts:
            if f.op in ("le0", "eq0") and f not in C.s0.facts and syms(f) & ss and any(x.op == "call" and callname(x) not in ("min", "max") for x in walk(f)):
                return False
        return True

    if op in SINGLE:
        need(le(ZERO, r), "a negative register")
        need(lt(r, n), "a register beyond the last one")
    elif op == "cx":
        for q, nm in ((c, "control"), (t, "target")):
            need(le(ZERO, q), f"a negative {nm}")
            need(lt(q, n), f"a {nm} beyond the last register")
        need(nott(eq(c, t)), "the same register as control and target")
    else:
        L = rs if op == "gatel" else cs
        k = sym("kk", "int")
        st = s.copy()
        st.fact(le0(neg(k)))
        st.fact(lt(k, len_of(L)))
        need(le(ZERO, item(L, k)), "a negative register in the list", st)
        need(lt(item(L, k), n), "a register beyond the last one in the list", st)
        if op != "gatel":
            need(le(ZERO, t), "a negative target")
            need(lt(t, n), "a target beyond the last register")
        # distinctness is a condition over the whole list
        S = seq("list", [star(L)] + ([one(t)] if op != "gatel" else []))
        ok = False
        rel = False
        for f in s.facts:
            if f in C.s0.facts:
                continue
            for x in walk(f):
                if x.op == "setof" or x.op == "call" and callname(x) in ("set", "dict.fromkeys") or x.op == "seq" and x.a[0] == "set":
                    rel = True
                if x.op in ("in",) or x.op == "call" and callname(x) in (".count", "collections.Counter"):
                    rel = True
            if f.op == "eq0":
                p = f.a[0]
                if distinct_fact(p, S, L):
                    ok = True
            if f.op == "eq0" or f.op == "le0":
                pass
        ck.ob("a repeated register is rejected", True if ok else (None if rel else False), w, "a list naming the same register twice is accepted", st=s)


def distinct_fact(p, S, L):
    """len(set(S)) - len(S) == 0"""
    want = len_of(S)
    for x in walk(p):
        if x.op == "len" and x.a[0] is not S:
            y = x.a[0]
            inner = None
            if y.op == "setof":
                inner = y.a[0]
            elif y.op == "call" and callname(y) in ("set", "dict.fromkeys") and y.a[1]:
                inner = y.a[1][0]
            elif y.op == "seq" and y.a[0] == "set":
                inner = mk("seq", "list", y.a[1])
            if inner is None:
                continue
            inner = seq("list", inner.a[1] if inner.op == "seq" else [star(inner)])
            if set(inner.a[1]) == set(S.a[1]):
                d1, d2 = sub(x, want), sub(want, x)
                if p is d1 or p is d2:
                    return True
    return False


# ----------------------------------------------------------------------- C10
def ctor_scene(P, regs=None, states=None):
    st = P.start()
    B = sym("backend")
    st.fact(nott(eq(B, NONE)))
    st.fact(mk("truth", B))
    D = regs if regs is not None else sym("qregs", ("list", "int"))
    kw = {"backend": B}
    if states is not None:
        kw["init_states"] = states
    P.risky = []
    outs, bad = fcall(P, st, mk("cls", QC), [D], kw)
    risk, P.risky = P.risky, None
    return st, D, B, [(s, v) for s, v in outs if feasible(P, s)], [(s, v) for s, v in bad if feasible(P, s)], risk


def expand_foralls(P, st):
    """for all K < n over a list in several parts: one statement per part, plus the same conditions in normal form"""
    st = st.copy()
    for f in list(st.facts):
        if f.op != "forall":
            continue
        K, N, cs_ = f.a
        for c_ in cs_:
            # all K < N satisfy K <= E: N - 1 <= E as soon as E >= -1
            if c_.op == "le0" and K in syms(c_):
                rest = sub(c_.a[0], K)
                if K not in syms(rest) and decide(st, le(rest, ONE), P) is True:
                    st.fact(le0(sub(add(rest, N), ONE)))
        lists = {x.a[0] for c_ in cs_ for x in walk(c_) if x.op == "item" and x.a[1] is K and x.a[0].op == "seq"}
        lists = {x for x in lists if any(g.op != "one" for g in x.a[1])}
        if len(lists) != 1:
            continue
        L = lists.pop()
        parts, off = [], ZERO
        for g in L.a[1]:
            ln = len_of(seq("list", [g]))
            if g.op == "one":
                e = lambda j, g=g: g.a[0]
            elif g.op == "star":
                e = lambda j, g=g: P.item(st, g.a[0], j)
            elif g.op == "rep" and exact(g.a[0]) and len(exact(g.a[0])) == 1:
                e = lambda j, g=g: exact(g.a[0])[0]
            elif g.op == "map" and len(g.a[2]) == 1 and not g.a[2][0][0] and len(g.a[2][0][1]) == 1 and g.a[2][0][1][0].op == "one":
                e = lambda j, g=g: subst(g.a[2][0][1][0].a[0], {g.a[0]: j})
            else:
                break
            parts.append((off, ln, e))
            off = add(off, ln)
        else:
            if decide(st, le(off, N), P) is not True:
                continue
            it = mk("item", L, K)
            new = []
            for off, ln, e in parts:
                J = fresh()
                new.append(forall(J, ln, [subst(subst(c_, {it: e(J)}), {K: add(off, J)}) for c_ in cs_]))
            del st.facts[f]
            for x in new:
                if decide(st, x, P) is not True:
                    st.fact(x)
    return st


def split_ranges(P, st, cond, k):
    """case split of an arbitrary position k at the bounds of what is known about the same lists"""
    st = expand_foralls(P, st)
    out = [st]
    ls = {x.a[0] for x in walk(cond) if x.op == "item" and x.a[1] is k}
    for f in list(st.facts):
        if f.op != "forall":
            continue
        K, N, cs_ = f.a
        offs = {sub(x.a[1], K) for c_ in cs_ for x in walk(c_) if x.op == "item" and x.a[0] in ls and K in syms(x.a[1])}
        for off in offs:
            if K in syms(off):
                continue
            nx = []
            for s in out:
                for s2, v in P.branch(s, le(off, k)):
                    nx += [s3 for s3, _ in P.branch(s2, lt(k, add(off, N)))]
            if len(nx) > 32:
                return out
            out = nx
    return out


def c10(ck):
    w = "QuantumCircuit.__init__"
    for given in (True, False):
        P = program()
        I = sym("init", ("list", "int"))
        st0, D, B, outs, bad, risk = ctor_scene(P, None, I if given else None)
        n, m = len_of(D), len_of(I)
        k = sym("kk", "int")
        for s, v in outs:
            ck.count("accepting_outcomes")

            def need(cond, what, facts):
                s2 = s.copy()
                for f in facts:
                    s2.fact(f)
                for s3 in split_ranges(P, s2, cond, k):
                    one_need(s3, cond, what)

            def one_need(s2, cond, what):
                if not feasible(P, s2):
                    return
                nf = newfacts(st0, s2)
                d = decide(s2, cond, P)
                if d is True:
                    ck.ob("an invalid state or dimension is rejected", True, w)
                    return
                s2.fact(nott(cond))
                if d is False or feasible(P, s2):
                    ck.ob("an invalid state or dimension is rejected", False if arith_only(nf) else None, w, f"{what} is accepted", st=s)
                else:
                    ck.ob("an invalid state or dimension is rejected", True, w)

            inr = [le(ZERO, k), lt(k, n)]
            need(le(const(2), item(D, k)), "a register with fewer than two levels", inr)
            if given:
                ini = [le(ZERO, k), lt(k, m)]
                need(le(ZERO, item(I, k)), "a negative initial level", ini)
                need(lt(item(I, k), item(D, k)), "an initial level that the register does not have", ini)
                need(le(m, n), "more initial states than registers", [])
        if not bad:
            ck.ob("an invalid state or dimension is rejected", False, w, "nothing is ever rejected", st=None)
        K = fresh()
        valid = [forall(K, n, [le(const(2), item(D, K))])]
        if given:
            valid += [le(m, n), forall(K, m, [le(ZERO, item(I, K)), lt(item(I, K), item(D, K))])]
        for s, x in bad + risk:
            s2 = s.copy()
            ok = True
            for f in valid:
                if decide(s2, f, P) is False:
                    ok = False
                s2.fact(f)
            ck.count("rejecting_outcomes")
            if ok and feasible(P, s2):
                nf = newfacts(st0, s)
                ck.ob("valid states and dimensions are accepted", False if arith_only(nf) and (s, x) not in risk else None, w, f"{show(x)} when " + " and ".join(show(f)[:80] for f in nf if f.op != "forall")[:300], st=s2)
            else:
                ck.ob("valid states and dimensions are accepted", True, w)
        # and what was asked for is what is prepared
        X = Cmp(P)
        for s, v in outs:
            def prep(s=s, v=v):
                if decide(s, le0(n), P) is True:
                    return
                C = Circuit.__new__(Circuit)
                C.P, C.D, C.B, C.n, C.qc, C.s0 = P, D, B, n, v, s
                Circuit.tags(C, P, s)
                C.find_layers(s)
                full = seq("list", ([star(I)] if given else []) + [mk("rep", seq("list", [one(ZERO)]), sub(n, m) if given else n)])
                s = s.copy()
                if given:
                    s.fact(le(m, n))
                s.fact(lt(ZERO, n))
                if not feasible(P, s):
                    return
                for s2, sp in client(P, s, "ref_init", [D, full, B])[0]:
                    X.why = None
                    if not feasible(P, s2):
                        continue
                    ck.ob("every register starts in the level asked for, and in level 0 otherwise", X.same(s2, P.deep(s2, C.gatelist(s2, C.m0)), P.deep(s2, s2.obj(sp).content)), w, X.why or "")
            ck.guard("initial levels", w, prep)
        ck.used(P)


# ----------------------------------------------------------------------- C11
def c11(ck):
    w = "QuantumCircuit.__init__"
    for given in (False, True):
        P = program()
        X = Cmp(P)
        N, d = sym("n", "int"), sym("d", "int")
        I = sym("init", ("list", "int")) if given else None
        short = seq("tuple", [one(N), one(d)])
        st0, D, B, outs, bad, _ = ctor_scene(P, short, I)
        for s, v in outs:
            ck.count("outcomes")
            # the long form in the same state
            kk = fresh()
            long = seq("list", [mapseg(kk, N, [((), (one(d),))])])
            s1 = s.copy()
            if decide(s1, le(N, ZERO), P) is None:
                s1.fact(lt(ZERO, N))
            if not feasible(P, s1) or decide(s1, le(N, ZERO), P) is True:
                continue
            L = s1.alloc(Obj("list", content=long, owner="client"))
            kw = {"backend": B}
            if given:
                kw["init_states"] = I
            o2, b2 = fcall(P, s1, mk("cls", QC), [L], kw)
            b2 = [x for x in b2 if feasible(P, x[0])]
            if b2 and arith_only(newfacts(s, b2[0][0])):
                ck.ob("both spellings accept the same arguments", False, w, f"the list form raises {show(b2[0][1])} where the (n, d) form does not", st=b2[0][0])
            elif b2:
                ck.ob("both spellings accept the same arguments", None, w, "")
            for s2, v2 in o2:
                if not feasible(P, s2):
                    continue
                X.why = None
                ck.ob("(n, d) builds the circuit of n registers of dimension d", X.same(s2, P.deep(s2, v), P.deep(s2, v2), "circuit"), w, X.why or "")
        if not outs:
            ck.ob("(n, d) is accepted", False if bad else None, w, "always rejected", st=None)
        ck.used(P)
    # a list is taken as the dimensions themselves
    P = program()
    X = Cmp(P)
    a, b_ = sym("d0", "int"), sym("d1", "int")
    st0, D, B, outs, bad, _ = ctor_scene(P, seq("list", [one(a), one(b_)]))
    for s, v in outs:
        def two(s=s, v=v):
            C = Circuit.__new__(Circuit)
            C.P, C.D, C.B, C.qc, C.s0 = P, D, B, v, s
            Circuit.tags(C, P, s)
            C.find_layers(s)
            for s2, sp in client(P, s.copy(), "ref_init", [D, seq("list", [one(ZERO), one(ZERO)]), B])[0]:
                X.why = None
                ck.ob("a list of two integers is two registers", X.same(s2, P.deep(s2, C.gatelist(s2, C.m0)), P.deep(s2, s2.obj(sp).content)), w, X.why or "")
        ck.guard("list", w, two)
    ck.used(P)
