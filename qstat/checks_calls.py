"""C07-C11 on circuits of a known shape: every call with known registers, what it reports and what the circuit is afterwards."""
from small import *
import checks_build as B
import checks_state as S
from checks_order import pairs

Q = "QuantumCircuit."


def where(op):
    return Q + op.meth


def truth_of(sm, s, v):
    """what `if call(...):` does: True, False, or None when that is not known"""
    c = sm.P.truth(s, v)
    return True if c is TRUE else False if c is FALSE else decide(s, c, sm.P)


def after(sm, s, qc, sealed=False):
    """the states the circuit may evaluate to from here; None when that is not known"""
    res, errs = sm.rerun(s, qc) if sealed else sm.finish(s, qc)
    if errs or not res or any(t is None for _, t, _ in res):
        return None
    return [(s2, t) for s2, t, v in res]


def alike(sm, x, y):
    """two such lists describe the same state"""
    if x is None or y is None or len(x) != 1 or len(y) != 1:
        return None
    return True if x[0][1] is y[0][1] else sm.cmp.same(y[0][0], x[0][1], y[0][1])


def grown(sm, s, qc, before=(), sealed=False, ops=()):
    """has the circuit changed?"""
    now = after(sm, s, qc, sealed)
    r_ = alike(sm, before, now)
    if r_ is None and before and now and len(before) == len(now) == 1:
        try:
            r_ = sm.read(*before[0], ops) == sm.read(*now[0], ops)
        except (NoForm, Wrong):
            r_ = None
    return None if r_ is None else not r_


# ---------------------------------------------------------------- registers
def illegal(n):
    """calls that name a register twice or one that does not exist"""
    bad = (-1, n, n + 1, -n)
    out = [f(i) for i in bad for f in (H, Z, X, U)]
    out += [own(f(i), d) for i in bad for f in (H, Z, X, U) for d in (1, 2, 3)]
    out += [CX(a, b) for a in range(n) for b in bad] + [CX(b, a) for a in range(n) for b in bad] + [CX(a, a) for a in range(n)]
    out += [TOF([a, b], c) for a in range(n) for b in range(n) for c in range(n) if len({a, b, c}) < 3]
    for b in bad:
        out += [TOF([a, b], c) for a in range(n) for c in range(n) if a != c][:6] + [TOF([b, a], c) for a in range(n) for c in range(n) if a != c][:6]
        out += [TOF([a, c], b) for a in range(n) for c in range(n) if a != c][:6]
        out += [UL(a, b) for a in range(n)] + [UL(b, a) for a in range(n)] + [UL(0, b, n - 1), UL(b, 0, n - 1)]
        out += [TOF([a], b) for a in range(n)][:3] + [TOF([b], a) for a in range(n)][:3]
    out += [UL(a, b, a) for a in range(n) for b in range(n)] + [UL(a, a) for a in range(n)] + [TOF([a], a) for a in range(n)]
    if n > 3:
        out += [TOF([0, 1, 2], k) for k in (0, 1, 2)] + [TOF([0, 1, 0], 3), TOF([0, 1, 1], 3), TOF([2, 1, 2], 0), TOF([0, 1, 2], n), TOF([0, n, 2], 1), TOF([-1, 1, 2], 0), UL(0, 1, 2, 1), UL(3, 1, 2, 3), UL(0, 1, 2, n), UL(0, n, 2, 3)]
    return out


def legal(n):
    """calls that name existing, distinct registers"""
    if n < 4:
        out = placements(n) + [own(f(i)) for i in range(n) for f in (H, Z, X, U)]
    else:
        out = [own(f(i)) for i in range(n) for f in (H, Z, X, U)] + pairs(n) + [TOF([0, 1, 2], 3), TOF([3, 1, 0], 2), TOF([2, 3, 1], 0)]
    out += [UL(*reversed(range(n)))] if n > 1 else []
    if n > 4:
        out += [TOF(list(range(n - 1)), n - 1), TOF(list(range(n - 1, 0, -1)), 0), UL(*range(n))]
    return out


REJECT = "a call with registers that do not exist or repeat is rejected"
ACCEPT = "a call with existing, distinct registers is accepted"


def registers(ck, n, prior, which):
    sm = Small(n)
    for s, qc in sm.begin()[0]:
        if prior is not None:
            o = sm.do(s, qc, prior)[0]
            if len(o) != 1:
                return
            s = o[0][0]
        ill = illegal(n) if which == "illegal" else []
        for op in ill:
            outs, bad = sm.do(s, qc, op)
            ck.count("calls")
            for s2, v in outs:
                ck.ob(REJECT, False, where(op), f"{op} is accepted in a circuit of {n} registers", st=s2)
            if not outs:
                ck.ob(REJECT, True, where(op))
        for op in (legal(n) if which == "legal" else []):
            outs, bad = sm.do(s, qc, op)
            ck.count("calls")
            bad = [x for x in bad if feasible(sm.P, x[0])]
            if not outs and bad:
                ck.ob(ACCEPT, False, where(op), f"{op} raises {show(bad[0][1])[:60]} in a circuit of {n} registers", st=bad[0][0])
            else:
                ck.ob(ACCEPT, True if outs and not bad else None, where(op), f"{op} may raise {show(bad[0][1])[:60] if bad else '?'}")
    ck.used(sm.P)


def c09(ck):
    """Calls with symbolic registers on a circuit of unknown size and contents: accepting outcomes must have legal registers, rejecting
    ones an illegal one. Calls with known registers, including lists of up to six, on circuits of one to six registers with symbolic dimensions."""
    B.c09(ck)
    jobs = []
    deep = ck.tier == "thorough"
    for n in (1, 2, 3, 4, 5) if not deep else range(1, 8):
        jobs += [(k, Q[:-1], registers, n, None, w) for k, w in ((REJECT, "illegal"), (ACCEPT, "legal"))]
    for n in (3, 4):
        for prior in (CX(n - 1, 0, 1), X(1, 1), UL(0, 1)):
            jobs += [(k, Q[:-1], registers, n, prior, w) for k, w in ((REJECT, "illegal"), (ACCEPT, "legal"))]
    ck.parallel(jobs)


# ---------------------------------------------------------------- reports
DONE = "a call that added its gate reports success"
KEPT = "a call that raises or reports failure leaves the circuit as it was"


def priors(n):
    out = [(), (X(0, 1),), (CX(0, n - 1, 1),)] if n > 1 else [(), (X(0, 1),)]
    if n > 2:
        out += [(UL(0, 1),), (CX(1, 2, 1), X(0, 2)), (TOF([0, 1], 2, 1), H(n - 1))]
    return out


def build(sm, s, qc, ops):
    for op in ops:
        o = sm.do(s, qc, op)[0]
        if len(o) != 1:
            return None
        s = o[0][0]
    return s


def reports(ck, n, prior, some):
    sm = Small(n)
    for s0, qc in sm.begin()[0]:
        s = build(sm, s0, qc, prior)
        if s is None:
            ck.ob(DONE, None, Q[:-1], "the circuit has several outcomes")
            return
        before = after(sm, s, qc)
        for op in some:
            outs, bad = sm.do(s, qc, op)
            label = " ".join(str(p) for p in prior) + " " + str(op)
            ck.count("calls")
            for s2, v in outs:
                t = truth_of(sm, s2, v)
                g = grown(sm, s2, qc, before, ops=list(prior) + [op])
                if t is None or g is None:
                    ck.ob(DONE, None, where(op), f"{label} returns {show(v)[:60]}")
                elif g:
                    ck.ob(DONE if t else KEPT, t, where(op), f"{label.strip()} reports failure after changing the circuit", st=s2)
                else:
                    ck.ob("a call that did not add its gate does not report success", not t, where(op), f"{label.strip()} returns {show(v)[:40]}", st=s2)
            for s2, x in bad:
                if feasible(sm.P, s2):
                    g = grown(sm, s2, qc, before)
                    ck.ob(KEPT, None if g is None else not g, where(op), f"{label.strip()} raises {show(x)[:40]} after changing the circuit", st=s2)
    ck.used(sm.P)


REFUSED = "a call on a measured circuit reports that it was refused"
STILL = "a measured circuit still runs and gives the same state"


def sealed(ck, n, prior, some, rules):
    """rules: report, keep"""
    sm = Small(n)
    for s0, qc in sm.begin()[0]:
        s = build(sm, s0, qc, prior)
        if s is None:
            return
        for s1, _ in method(sm.P, s.copy(), qc, "measure_all")[0]:
            if not feasible(sm.P, s1):
                continue
            before = after(sm, s1, qc, True)
            label = " ".join(str(p) for p in prior) + " measured, then "
            for op in some:
                if op == "measure_all":
                    outs, bad = method(sm.P, s1.copy(), qc, "measure_all")
                    w = Q + op
                else:
                    outs, bad = sm.do(s1, qc, op)
                    w = where(op)
                ck.count("calls")
                for s2, v in outs:
                    if not feasible(sm.P, s2):
                        continue
                    if rules.get("report"):
                        t = truth_of(sm, s2, v)
                        ck.ob(rules["report"], None if t is None else not t, w, f"{label}{op}: returns {show(v)[:40]}", st=s2)
                for s2, v in outs + bad:
                    if rules.get("keep") and feasible(sm.P, s2):
                        res, errs = sm.rerun(s2, qc)
                        if errs and not res:
                            ck.ob(rules["keep"], False if before else None, w, f"{label}{op}: the circuit no longer runs: {show(errs[0][1])[:60]}", st=errs[0][0])
                            continue
                        g = grown(sm, s2, qc, before, True)
                        ck.ob(rules["keep"], None if g is None else not g, w, f"{label}{op}: the circuit computes another state", st=s2)
    ck.used(sm.P)


OPEN = "a circuit that was not measured does not run"


def unmeasured(ck, n, depth, A):
    sm = Small(n)

    def visit(s, qc, ops, sole):
        if s is None:
            return
        res, errs = sm.rerun(s, qc)
        ck.count("circuits")
        label = " ".join(o.name for o in ops) or "no gate"
        for s2, t, v in res:
            ck.ob(OPEN, False, Q + "run", f"{n} registers, {label}: run returns a result", st=s2)
        if not res:
            ck.ob(OPEN, True, Q + "run")
    for s, qc in sm.begin()[0]:
        programs(sm, A, depth, visit, s, qc)
    ck.used(sm.P)


def c07(ck):
    """On a circuit of unknown length and contents: without measurement every outcome of running raises; after measuring, every operation
    leaves layers and registers as they were and is not reported as done. The same for circuits of one to five registers with known gates."""
    B.c07(ck)
    jobs = [(OPEN, Q + "run", unmeasured, n, d, placements(n) if n < 3 else pairs(n)) for n, d in ((1, 3), (2, 2), (3, 2), (4, 1), (5, 1))]
    for n in (1, 2, 3, 4):
        for prior in priors(n):
            jobs.append((STILL, Q[:-1], sealed, n, prior, legal(n) + ["measure_all"], {"report": REFUSED, "keep": STILL}))
    ck.parallel(jobs)


def c08(ck):
    """Every outcome of every operation on a circuit of unknown length and contents: one that raises or returns a false value has
    changed nothing, one that changed nothing does not return true, one that added the gate returns true. The same for calls with known
    registers, legal and illegal, on open and measured circuits of one to five registers."""
    B.c08(ck)
    jobs = []
    for n in (1, 2, 3, 4):
        for prior in priors(n):
            jobs.append((DONE, Q[:-1], reports, n, prior, legal(n)))
            jobs.append((REFUSED, Q[:-1], sealed, n, prior, legal(n), {"report": "a call that did not add its gate does not report success", "keep": KEPT}))
    for n in (1, 2, 3):
        for prior in priors(n)[:3]:
            jobs.append((KEPT, Q[:-1], reports, n, prior, illegal(n)))
    jobs.append((DONE, Q[:-1], reports, 5, (), legal(5)))
    ck.parallel(jobs)


# ---------------------------------------------------------------- construction
BAD = "impossible dimensions and levels are rejected"
PREP = "every register starts in the level asked for"
MAKE = '''
from client_ import *
def make(D, S, B, out):
    return QuantumCircuit(D, init_states=S, backend=B, output=out)
def make0(D, B, out):
    return QuantumCircuit(D, backend=B, output=out)
'''


def free(n, k=None):
    """n registers, none of whose dimensions or levels is known"""
    sm = Small(n, states=True, extra=MAKE[MAKE.index("def make("):])
    s = sm.P.start()
    for v in (sm.out, sm.B):
        s.fact(nott(eq(v, NONE)))
        s.fact(mk("truth", v))
    return sm, s


def impossible(ck, n):
    sm, base = free(n)
    lists = lambda xs: seq("list", [one(x) for x in xs])
    bounds = lambda st, skip: [st.fact(f) for i in range(n) if i != skip for f in (le(const(2), sm.ds[i]), le(ZERO, sm.ss[i]), lt(sm.ss[i], sm.ds[i]))]

    def expect(s, D, S, why):
        outs, bad = sm.call(s, "make", [D, S, sm.B, sm.out]) if S is not None else sm.call(s, "make0", [D, sm.B, sm.out])
        ck.count("descriptions")
        for s2, v in outs:
            ck.ob(BAD, False if len(outs) == 1 and not bad or not B.newfacts(s, s2) else None, "QuantumCircuit.__init__", f"{n} registers: {why} is accepted", st=s2)
        if not outs:
            ck.ob(BAD, True, "QuantumCircuit.__init__")
    for i in range(n):
        for level in (const(-1), sm.ds[i], add(sm.ds[i], ONE), sub(ZERO, sm.ds[i])):
            for k in {i + 1, n}:
                s = base.copy()
                bounds(s, i)
                s.fact(le(const(2), sm.ds[i]))
                ss = list(sm.ss[:k])
                ss[i] = level
                expect(s, lists(sm.ds), lists(ss), f"level {show(level)} of register {i}")
        for d in (1, 0, -1):
            for S in (lists([ZERO] * n), lists([sm.ss[j] if j != i else ZERO for j in range(n)]), None):
                s = base.copy()
                bounds(s, i)
                ds = list(sm.ds)
                ds[i] = const(d)
                expect(s, lists(ds), S, f"dimension {d} of register {i}")
    for extra in (1, 2):
        s = base.copy()
        bounds(s, None)
        for x in (ZERO, ONE):
            expect(s, lists(sm.ds), lists(list(sm.ss) + [x] * extra), f"{extra} levels too many")
    ck.used(sm.P)


def prepared(ck, n):
    for k in range(n + 1):
        for form in ("list", "tuple"):
            sm, base = free(n)
            for i in range(n):
                for f in (le(const(2), sm.ds[i]), le(ZERO, sm.ss[i]), lt(sm.ss[i], sm.ds[i])):
                    base.fact(f)
            S = seq(form, [one(x) for x in sm.ss[:k]])
            outs, bad = sm.call(base, "make", [sm.D, S, sm.B, sm.out])
            if form == "tuple" and not outs:
                continue
            sm.ss = sm.ss[:k] + [ZERO] * (n - k)
            ck.count("descriptions")
            if bad:
                ck.ob(PREP, False if not outs else None, "QuantumCircuit.__init__", f"{n} registers, {k} levels: raises {show(bad[0][1])[:60]}", st=bad[0][0])
            for s, qc in outs:
                for s2, t, v in sm.finish(s, qc)[0]:
                    levels(ck, sm, s2, t, n, k)
    ck.used(sm.P)


def levels(ck, sm, s, t, n, k):
    if t is None:
        ck.ob(PREP, None, "QuantumCircuit.__init__", "state not known")
        return
    try:
        fs = sm.layers(t)
    except NoForm as e:
        ck.ob(PREP, None, "QuantumCircuit.__init__", str(e))
        return
    prep = fs[-1]
    if len(fs) != 1 or len(prep) != n:
        ck.ob(PREP, None, "QuantumCircuit.__init__", f"{len(fs)} layers")
        return
    for i, leaf in enumerate(prep):
        ok = sm.equal(s, leaf, sm.single("P", i))
        ck.ob(PREP, ok, "QuantumCircuit.__init__", f"{n} registers, {k} levels given: register {i} starts in {show(leaf)[:80]}", st=s)


def c10(ck):
    """Construction from symbolic dimensions and levels, of any number: built circuits have valid ones, and the preparation of every register
    holds the level asked for. The same for descriptions of one to six registers, with one entry at and beyond each limit."""
    S.c10(ck)
    ck.parallel([(BAD, "QuantumCircuit.__init__", impossible, n) for n in (1, 2, 3, 4, 5, 6)] + [(PREP, "QuantumCircuit.__init__", prepared, n) for n in (1, 2, 3, 4, 5, 6)])
