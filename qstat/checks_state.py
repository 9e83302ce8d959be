"""Parts of C05, C06 and C10 that concern the entries of preparation vectors and identities."""
from checks_gates import *
import checks_build as B

LEVEL, DIM = sym("b", "int"), sym("d", "int")


def one_hot(ck, P, s, base, u, shape, want, w, rule, size_rule):
    """the entry is 1 exactly when the linear expression `want` vanishes, 0 otherwise"""
    try:
        a, cs, D = entries(P, s, u)
    except Unk as e:
        ck.ob(rule, None, w, f"entries not known: {e}")
        return
    fs = F(s, base)
    sw = s.copy()
    for x, d in zip((ROW, COL), shape):
        sw.fact(le(ZERO, x))
        sw.fact(lt(x, d))
    for k, d in enumerate(shape):
        df = differs(P, s, base, a.shape[k], d)
        ck.ob(size_rule, {True: False, False: True}.get(df), w, f"size {show(a.shape[k])[:80]} instead of {show(d)[:40]}", st=fs)
    m = {COL: ZERO} if shape[1] is ONE else {}
    cs = [(frozenset(x for x in (subst(y, m) for y in c) if x is not TRUE), subst(v, m)) for c, v in cs]
    ones = [(c, v) for c, v in cs if not (is_num(v) and cval(v) == 0) and FALSE not in c]
    why = "; ".join("entry " + show(v)[:40] + (" when " + " and ".join(show(x)[:80] for x in c) if c else " everywhere") for c, v in ones)[:300]
    if not ones:
        ck.ob(rule, False, w, "every entry is 0", st=fs)
    elif witness(P, sw, cs, want, shape):
        ck.ob(rule, False, w, why, st=fs)
    elif len(ones) > 1 or len(ones[0][0]) > 1 or not is_num(ones[0][1]):
        ck.ob(rule, None, w, why)
    else:
        (c, v), = ones
        if cval(v) != 1:
            ck.ob(rule, False, w, why, st=fs)
        elif not c:
            ck.ob(rule, None if decide(s, eq(want, ZERO), P) is not None else False, w, why, st=fs)
        else:
            (x,) = c
            if x is eq(want, ZERO):
                ck.ob(rule, True, w)
            elif x.op == "eq0":
                p = settle(s, base, x).a[0]
                q = settle(s, base, want)
                vs = [differs(P, s, base, p, q), differs(P, s, base, neg(p), q)]
                ck.ob(rule, True if False in vs else (False if vs == [True, True] else None), w, why, st=fs)
            else:
                ck.ob(rule, None, w, why)


def witness(P, s, cs, want, shape):
    """some row at which the entry is certainly not the one wanted"""
    d = shape[0]
    at = sub(ROW, want)  # the row that should hold 1
    for x in (at, add(at, ONE), sub(at, ONE), ZERO, sub(d, ONE)):
        s2 = s.copy()
        fs = [le(ZERO, x), lt(x, d)] + ([] if x is at else [nott(eq(x, at))])
        if any(decide(s2, f, P) is False for f in fs):
            continue
        for f in fs:
            s2.fact(f)
        if not feasible(P, s2):
            continue
        for c, v in cs:
            if all(decide(s2, subst(y, {ROW: x}), P) is True for y in c):
                if is_num(v) and cval(v) != (1 if x is at else 0) or v.op == "top" and v.a[0] == "uninitialised":
                    return True
    return False


def basis(ck, rule="a register starts in exactly the level asked for"):
    """the state vector of the preparation object is 1 at the level and 0 elsewhere"""
    w = "InitState.unitary"
    P = program()
    C = Circuit(P, history=False)
    s = C.s0.copy()
    for f in (le(const(2), DIM), le(ZERO, LEVEL), lt(LEVEL, DIM)):
        s.fact(f)
    outs, bad = fcall(P, s, s.frames["m:client_"].get("InitState"), [], {"dim": DIM, "state": LEVEL, "qreg": r, "backend": C.B})
    n = 0
    for s1, g in outs:
        base = set(s1.facts)
        if not feasible(P, s1):
            continue
        os_, bd = getter(P, s1.copy(), g, "unitary")
        for s2, u in os_:
            if feasible(P, s2):
                n += 1
                ck.count("vector_expressions")
                ck.guard(rule, w, one_hot, ck, P, s2, base, u, [DIM, ONE], sub(ROW, LEVEL), w, rule, "the state vector has one entry per level")
    if not n:
        ck.ob(rule, None, w, "no state vector expression")
    ck.used(P)


def identity(ck, rule="an identity leaves its register unchanged"):
    w = "IGate.unitary"
    P = program()
    C = Circuit(P, history=False)
    s = C.s0.copy()
    s.fact(le(const(2), DIM))
    outs, bad = fcall(P, s, gcls("i"), [], {"qreg": r, "dims": DIM, "backend": C.B})
    n = 0
    for s1, g in outs:
        base = set(s1.facts)
        os_, bd = getter(P, s1.copy(), g, "unitary")
        for s2, u in os_:
            if feasible(P, s2):
                n += 1
                ck.count("matrix_expressions")
                ck.guard(rule, w, one_hot, ck, P, s2, base, u, [DIM, DIM], sub(ROW, COL), w, rule, "an identity has its register's dimension")
    if not n:
        ck.ob(rule, None, w, "no matrix expression")
    ck.used(P)


def c06(ck):
    B.c06(ck)
    ck.guard("an identity leaves its register unchanged", "IGate.unitary", identity, ck)


def c10(ck):
    B.c10(ck)
    ck.guard("a register starts in exactly the level asked for", "InitState.unitary", basis, ck)
