"""C16 C17 C18: what the built-in gates' matrices contain, entry by entry, for every dimension."""
from checks_effects import *
from checks_build import *
from arrays import *
import arrays as AR

import cmath, itertools
import witness
ROW, COL = sym("row", "int"), sym("col", "int")


# ------------------------------------------------------------------ entries
def entries(P, st, u):
    """(matrix shape, guarded entries in row ROW and column COL, the denotation context)"""
    u = P.deep(st, u)
    D = Den(P, st)
    a = D.den(u)
    if a.nd != 2:
        raise Unk(f"{a.nd}-dimensional matrix")
    D.bounds = {ROW: a.shape[0], COL: a.shape[1]}
    out = []
    for cs, v in a.at([ROW, COL]):
        cs = D.flatset(cs)
        if cs is None or any(decide(st, c, P) is False for c in cs):
            continue
        out.append((frozenset(c for c in cs if decide(st, c, P) is not True), v))
    return a, out, D


def linear(x, extra=()):
    """a linear expression over the caller's integers"""
    for m, c in TM._poly(x).items():
        if len(m) > 1 or m and m[0][1] != 1 or not isinstance(c, int):
            return False
        for a, p in m:
            if not simple(a) and a not in extra:
                return False
    return True


def simple(a):
    return a.op in ("sym", "digit", "bv", "idx") or a.op == "item" and a.a[0].op == "sym" and (is_num(a.a[1]) or linear(a.a[1])) or callname(a) in ("min", "max") or a.op == "len" and a.a[0].op == "sym"


def restricting(st, base):
    """the conditions of the path beyond those of the scene; that a matrix passed its own check says nothing new"""
    for f in st.facts:
        if f in base or any(callname(x) == ".is_unitary" or x.op == "attr" and x.a[1] == "shape" for x in walk(f)):
            continue
        yield f


def F(st, base):
    D = Den(None, st)
    out = []
    for f in list(base) + list(restricting(st, base)):
        try:
            cs_ = f.a[2] if f.op == "forall" else [f]
            if all(x.op == "in" and D.den(x.a[1]).tab is not None for x in cs_):
                continue  # a row of levels is one of the rows of the table
            if f.op == "forall" and all(x.op == "le0" and any(y.op == "len" and y.a[0].op == "item" and any(z.op == "call" and callname(z) == "itertools.product" for z in walk(y.a[0])) for y in walk(x)) for x in cs_):
                continue  # an index into a row of a table is within it: otherwise the call fails instead
            if True:
                g = D.cond(f)
                if g is TRUE or g is not f and (decide(st, g) is True or g.op == "forall" and all(decide(st, x) is True for x in g.a[2])):
                    continue  # holds by construction of the tables
        except Exception:
            pass
        out.append(f)
    return out


def only_lower(st, base, x):
    """the conditions of the path leave the symbols of x free, but for lower bounds of the dimensions"""
    s = {y for y in walk(x) if y.op in ("sym", "item", "digit")}
    for f in restricting(st, base):
        g = {y for y in walk(f) if y.op in ("sym", "item", "digit")} & s
        if not g:
            continue
        if f.op == "le0":
            p = TM._poly(f.a[0])
            if all(c < 0 for m, c in p.items() if m != ()):
                continue  # a lower bound
        if f.op == "not" and f.a[0].op == "eq0":
            continue
        return False
    return True


def runs_free(st, base, x, d):
    """some symbol with coefficient one in x is bounded on one side at most, so that x takes every residue modulo d"""
    fs = list(restricting(st, base))
    for m, c in TM._poly(x).items():
        if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
            continue
        v = m[0][0]
        if v.op != "sym" or any(v in syms(a) for m2 in TM._poly(x) for a, p in m2 if a is not v):
            continue
        signs = set()
        for f in fs + [f for f in base if v in syms(f)]:
            if v not in syms(f):
                continue
            if f.op == "not" and f.a[0].op == "eq0":
                continue
            co = TM._poly(f.a[0]).get(((v, 1),)) if f.op == "le0" else None
            if co is None or any(v in syms(a) for m2 in TM._poly(f.a[0]) for a, p in m2 if a is not v):
                signs |= {1, -1}
                break
            signs.add(1 if co > 0 else -1)
        if len(signs) <= 1:
            return True
    return False


def settle(st, base, x):
    """x with the values that the path fixes"""
    for f in restricting(st, base):
        if f.op != "eq0":
            continue
        p = TM._poly(f.a[0])
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ("sym", "item"):
                v = m[0][0]
                e = sub(v, f.a[0]) if c == 1 else add(v, f.a[0])
                if v in set(walk(x)) and v not in set(walk(e)) and (v.op == "sym" or is_num(e)):
                    x = subst(x, {v: e})
                    break
    ch = True
    while ch:
        ch = False
        for q in walk(x):
            if q.op == "mod" and decide(st, le(ZERO, q.a[0])) is True and decide(st, lt(q.a[0], q.a[1])) is True:
                x, ch = subst(x, {q: q.a[0]}), True
                break
    return x


def differs(P, st, base, x, y, d=None):
    """True: the two integer expressions differ for some allowed values (modulo d when given);
    False: they are the same; None: not known"""
    df = settle(st, base, sub(x, y))
    if d is not None:
        df = unmod(df, d)
        c = cong(df, d)
        if c is TRUE:
            return False
        df = c.a[0]
    if df is ZERO:
        return False
    r = decide(st, eq(df, ZERO), P)
    if r is True:
        return False
    odd = [a for m in TM._poly(df) for a, p in m if not simple(a)]
    if d is not None and is_num(df):
        return True if only_lower(st, base, d) else None
    if d is not None and not odd and linear(df) and runs_free(st, base, df, d):
        return True
    if any(a.op not in ("call",) or callname(a) not in ("abs", "min", "max") for a in odd) or len(set(odd)) > 1:
        if not (odd and all(a.op in ("mod", "idiv") for a in odd)):
            return None
        if len(set(odd)) > 1 or not all(linear(z) for z in odd[0].a):
            return None
    if not linear(df, odd):
        return None
    if r is None and not only_lower(st, base, df):
        return None
    return True


def unmod(p, d):
    """replace x mod d by x in an expression that only matters modulo d"""
    while True:
        ms = [a for m, c in TM._poly(p).items() for a, e in m if a.op == "mod" and a.a[1] is d and len(m) == 1 and e == 1 and isinstance(c, int)]
        if not ms:
            return p
        p = subst(p, {ms[0]: ms[0].a[0]})


def congruence(c, d, ranges, st=None):
    """condition -> (difference that has to vanish modulo d) or None"""
    if c.op != "eq0":
        return None
    r = canon_eq(c.a[0], ranges, d, st)
    if r is None:
        return None
    return ZERO if r is TRUE else r.a[0]


# ------------------------------------------------------------------ gates
def scene_gate(op, extra=()):
    """every way a gate object of the kind can come out of its constructor"""
    P = program()
    C = Circuit(P, history=False)
    s = C.s0.copy()
    legal(C, s, op)
    for f in extra:
        s.fact(f)
    return P, C, [(s1, g) for s1, g in refgate(C, s, op) if feasible(P, s1)]


def matrices(ck, op, w, rule):
    P, C, gs = scene_gate(op)
    n = 0
    for s1, g in gs:
        outs, bad = getter(P, s1.copy(), g, "unitary")
        base = set(s1.facts)
        for s, u in outs:
            if not feasible(P, s):
                continue
            n += 1
            ck.count("matrix_expressions")
            yield P, C, s, u, base
        for s, x in bad:
            if op in ("h", "x", "z") and feasible(P, s):
                nf = [f for f in s.facts if f not in base]
                ck.ob("the matrix of the gate is available", False if arith_only(nf) else None, w, f"{show(x)} when " + " and ".join(show(f)[:80] for f in nf), st=s)
    if not n:
        ck.ob(rule, None, w, "no matrix expression")
    ck.used(P)


def recorded(ck, ops):
    """the circuit's method records exactly this gate"""
    P = program()
    C = Circuit(P)
    X = Cmp(P)
    for op, s, v, e, k in placements(ck, C, ops):
        w = OPWHERE[op]
        X.why = None

        def one(op=op, s=s, v=v, k=k):
            if k[0] not in ("append", "replace"):
                return
            vs = []
            for s2, g in refgate(C, s, op):
                want = P.deep(s2, g)
                if k[0] == "append":
                    L = P.deep(s2, C.gatelist(s, k[1]))
                    have = [x for x in walk(L) if x.op == "obj" and not P.issub(x.a[0].a[0], gcls("i"))]
                    have = [h for h in have if not any(h is not o and h in set(walk(o)) for o in have)]
                    if not have:
                        vs.append(None)
                else:
                    have = [P.deep(s2, k[4])]
                rs_ = [X.same(s2, h, want) for h in have]
                if rs_:
                    vs.append(True if True in rs_ else (None if None in rs_ else False))
            if vs:
                ck.ob("the circuit records the gate with the register, dimension and amount asked for", meet(vs), w, X.why or "", st=s)

        ck.guard("recorded gate", w, one)
    ck.used(P)


# ----------------------------------------------------------------------- C17
def instances(ck, rule, w, P, C, s, u, base, what, fn, *args):
    """the symbolic comparison; where it stays undecided, look for values of the parameters that tell the two apart"""
    n = len(ck.obs)
    ck.guard(rule, w, fn, ck, P, C, s, u, base, *args)
    new = [o[1] for o in ck.obs[n:]]
    if None not in new or False in new:
        return

    def go():
        try:
            a, cases, D = entries(P, s, u)
        except Unk:
            return
        envs, spec = what
        hit = witness.counter([f for f in s.facts if f in base] + list(restricting(s, base)), base, a, cases, ROW, COL, envs(), spec)
        ck.count("undecided_matrices")
        if hit:
            env, i, j, x, y = hit
            at = ", ".join(f"{show(k)}={v}" for k, v in env.items())
            ck.ob(rule, False, w, f"with {at} the {'size' if i is None else f'entry ({i}, {j})'} is {short(x)} instead of {short(y)}")
    ck.guard(rule, w, go)


def short(x):
    return f"{x:.4g}" if isinstance(x, (float, complex)) else str(x)


def shifted(C):
    def envs():
        for d in (2, 3, 4, 5, 7, 8, 10, 13, 16, 33):
            for p in range(-11, 12):
                for q, i in (([d], 0), ([3, d], 1), ([d, 2, 2], 0)):
                    yield {C.D: q, r: i, plus: p}

    def spec(env):
        d = env[C.D][env[r]]
        return d, lambda i, j: (((j + env[plus]) % d,) if i is None else int(i == (j + env[plus]) % d))
    return envs, spec


def rooted(C, op):
    def envs():
        for d in (*range(2, 18), 24, 32, 33, 64):
            for q, i in (([d], 0), ([3, d], 1), ([d, 2, 2], 0)):
                yield {C.D: q, r: i}

    def spec(env):
        d = env[C.D][env[r]]
        z = lambda k: cmath.exp(2j * cmath.pi * k / d)
        if op == "z":
            return d, lambda i, j: ((j,) if i is None else z(i) if i == j else 0)
        return d, lambda i, j: (range(d) if i is None else z(i * j) / d ** 0.5)
    return envs, spec


SPACES = [[2, 2], [3, 2], [2, 3], [3, 4], [5, 2], [2, 7], [12, 3], [2, 2, 2], [2, 3, 2], [3, 2, 4], [4, 3, 2], [5, 6, 2], [2, 2, 3, 2], [3, 2, 2, 2]]


def controlled(C, op):
    def envs():
        for q in SPACES + ([] if op == "cx" else [[2] * 5, [2] * 6, [2, 3, 2, 2, 3]]):
            n = len(q)
            for p in (1, 2, -1, 0, 5) if n < 4 else (1, 3) if n < 5 else (1,):
                if op == "cx":
                    for x, y in itertools.permutations(range(n), 2):
                        yield {C.D: q, c: x, t: y, plus: p}
                else:
                    for m in range(1, n):
                        for k, xs in enumerate(itertools.permutations(range(n), m + 1)):
                            if n < 5 or k % 37 == 0:
                                yield {C.D: q, cs: list(xs[:-1]), t: xs[-1], plus: p}

    def spec(env):
        ctl, tgt = ([env[c]] if op == "cx" else env[cs]), env[t]
        lo, hi = min([*ctl, tgt]), max([*ctl, tgt])
        q = env[C.D][lo:hi + 1]
        table = list(itertools.product(*[range(d) for d in q]))
        rank = {x: k for k, x in enumerate(table)}
        to = []
        for x in table:
            y = list(x)
            if all(x[k - lo] == q[k - lo] - 1 for k in ctl):
                y[tgt - lo] = (y[tgt - lo] + env[plus]) % q[tgt - lo]
            to.append(rank[tuple(y)])
        return len(table), lambda i, j: ((to[j],) if i is None else int(i == to[j]))
    return envs, spec


def c17(ck):
    """entry (a, b) of the shift gate's matrix is 1 exactly when a = b + amount modulo the dimension"""
    w = "XGate.unitary"
    rule = "the shift gate takes level b to level (b + amount) mod d"
    for P, C, s, u, base in matrices(ck, "x", w, rule):
        instances(ck, rule, w, P, C, s, u, base, shifted(C), shift_entries, plus, w, rule)
    recorded(ck, ("x", "x1"))


def shift_entries(ck, P, C, s, u, base, amount, w, rule):
    d = item(C.D, r)
    try:
        a, cs, D = entries(P, s, u)
    except Unk as e:
        ck.ob(rule, None, w, f"entries not known: {e}")
        return
    for k in (0, 1):
        df = differs(P, s, base, a.shape[k], d)
        ck.ob("the matrix has the size of the register", {True: False, False: True}.get(df), w, f"size {show(a.shape[k])[:80]}", st=F(s, base))
    ranges = {ROW: d, COL: d}
    ones = [(c, v) for c, v in cs if v is not ZERO]
    want = sub(sub(ROW, COL), amount)
    if len(ones) != 1 or len(ones[0][0]) > 1:
        verdict, why = mixed_shift(P, s, base, ones, want, d, ranges)
        ck.ob(rule, verdict, w, why, st=F(s, base))
        return
    c, v = ones[0]
    if not is_num(v):
        ck.ob(rule, None, w, f"entry {show(v)[:80]}")
        return
    if v is not ONE and not (is_const(v) and cval(v) == 1):
        ck.ob(rule, False, w, f"entry {show(v)[:80]} instead of 1", st=F(s, base))
        return
    if not c:
        ck.ob(rule, False, w, "every entry is 1", st=F(s, base))
        return
    (c,) = c
    verdict, why = shift_cond(P, s, base, c, want, d, ranges)
    ck.ob(rule, verdict, w, why, st=F(s, base))


def shift_cond(P, s, base, c, want, d, ranges):
    why = f"entry is 1 when {show(c)[:140]}"
    if c.op != "eq0":
        return None, why
    p = congruence(settle(s, base, c), d, ranges, s)
    if p is not None:
        # x = 0 and -x = 0 are the same congruence
        vs = [differs(P, s, base, p, want, d), differs(P, s, base, neg(p), want, d)]
        if False in vs:
            return True, why
        if all(v is True for v in vs):
            return False, why
        return None, why
    # an equation that is not taken modulo the dimension
    if linear(c.a[0]) and (only_lower(s, base, c.a[0]) or runs_free(s, base, c.a[0], d)):
        return False, why + " (not reduced modulo the dimension)"
    ms = {a for m in TM._poly(c.a[0]) for a, e in m if not simple(a)}
    if len(ms) == 1:
        (a,) = ms
        if a.op == "mod" and all(linear(x) for x in a.a) and linear(c.a[0], ms):
            rest = sub(c.a[0], mul(a, const(TM._poly(c.a[0])[((a, 1),)])))
            if only_lower(s, base, c.a[0]) or runs_free(s, base, rest, d) and a.a[1] is d:
                return False, why + " (not reduced modulo the dimension)"
        if callname(a) in ("abs", "min", "max") and linear(c.a[0], ms) and only_lower(s, base, c.a[0]):
            return False, why
    return None, why


def mixed_shift(P, s, base, ones, want, d, ranges):
    why = "; ".join(" and ".join(show(x)[:80] for x in c) + " -> " + show(v)[:20] for c, v in ones)[:300]
    if not ones:
        return False, "every entry is 0"
    return None, why


# ----------------------------------------------------------------------- C18
def c18(ck):
    """entries of the Fourier gate are exp(2 pi i row col / d) / sqrt(d), those of the phase gate exp(2 pi i row / d) on the diagonal"""
    d_ = lambda C: item(C.D, r)
    pi = mk("ext", "numpy.pi")
    for op, w in (("h", "HGate.unitary"), ("z", "ZGate.unitary")):
        rule = {"h": "Fourier gate entries are exp(2*pi*i*row*col/d)/sqrt(d)", "z": "phase gate is diagonal with exp(2*pi*i*row/d)"}[op]
        for P, C, s, u, base in matrices(ck, op, w, rule):
            instances(ck, rule, w, P, C, s, u, base, rooted(C, op), root_entries, op, w, rule)
    recorded(ck, ("h", "z"))


def root_entries(ck, P, C, s, u, base, op, w, rule):
    d = item(C.D, r)
    try:
        a, cs, D = entries(P, s, u)
    except Unk as e:
        ck.ob(rule, None, w, f"entries not known: {e}")
        return
    for k in (0, 1):
        df = differs(P, s, base, a.shape[k], d)
        ck.ob("the matrix has the size of the register", {True: False, False: True}.get(df), w, f"size {show(a.shape[k])[:80]}", st=F(s, base))
    cs = [(c, v) for c, v in cs if v is not ZERO]
    fixed = fixed_value(P, s, d)
    if op == "z":
        diag = eq(ROW, COL)
        vs = []
        for c, v in cs:
            if diag in c:
                vs.append((c - {diag}, subst(v, {COL: ROW})))
            elif nott(diag) in c:
                ck.ob(rule, False if phase(v) else None, w, f"entry off the diagonal: {show(v)[:80]}", st=F(s, base))
                return
            else:
                ck.ob(rule, False if not c and phase(v) else None, w, f"entry {show(v)[:80]} when " + " and ".join(show(x)[:80] for x in c), st=F(s, base))
                return
        cs = vs
        ang = ROW
        scale = ()
    else:
        ang = mul(ROW, COL)
        scale = d
    if len(cs) != 1 or cs[0][0]:
        ck.ob(rule, None if cs else False, w, "; ".join(" and ".join(show(x)[:80] for x in c) + " -> " + show(v)[:60] for c, v in cs)[:300], st=F(s, base))
        return
    v = cs[0][1]
    want = {(tuple(sorted({d: -0.5}.items(), key=lambda x: x[0].n)) if op == "h" else (), AR.turns(div(ang, d))): 1}
    verdict, why = same_phase(P, s, base, v, want, d, fixed)
    ck.ob(rule, verdict, w, why, st=F(s, base))


def fixed_value(P, s, x):
    for f in s.facts:
        if f.op == "eq0":
            p = TM._poly(f.a[0])
            if set(p) <= {(), ((x, 1),)} and ((x, 1),) in p and abs(p[((x, 1),)]) == 1:
                return const(-p.get((), 0) // p[((x, 1),)])
    return None


def same_phase(P, s, base, v, want, d, fixed):
    why = f"entry is {show(v)[:160]}"
    if fixed is not None:
        m = {d: fixed}
        got = phase(subst(v, m))
        (k, c), = want.items()
        want = phase_subst(want, m)
    else:
        got = phase(v)
    n = callname(v)
    if got is None:
        # parts of a root of unity
        for x in walk(v):
            n = callname(x)
            if n in ("numpy.real", "numpy.imag", "numpy.abs", "numpy.absolute", "numpy.round", "numpy.around") and x.a[1]:
                g = phase(subst(x.a[1][0], {d: fixed}) if fixed is not None else x.a[1][0])
                if not g or len(g) != 1:
                    continue
                (mo, an), co = next(iter(g.items()))
                real = all(c.denominator <= 2 and all(p > 0 for a, p in m) for m, c in an)
                if n.endswith("real") and real:
                    continue
                if n.endswith("round") or n.endswith("around"):
                    dec = x.a[1][1] if len(x.a[1]) > 1 else ZERO
                    if not is_const(dec) or cval(dec) > 10 or fixed is not None and cval(fixed) <= 2:
                        continue
                if only_lower(s, base, d):
                    return False, why
        return None, why
    if got == want:
        return True, why
    if len(got) == 1 and all(isinstance(c, (int, float, complex)) for c in got.values()):
        # one root of unity times a positive amount: the normal form is unique
        (mo, an), co = next(iter(got.items()))
        atoms = {a for a, p in mo} | {a for m, c in an for a, p in m}
        if all(simple(a) or a.op == "poly" and linear(a) for a in atoms) and (fixed is not None or only_lower(s, base, d)):
            if close(got, want):
                return True, why
            return False, why
    return None, why


def close(a, b):
    """equal but for rounding of a constant factor"""
    if set(a) != set(b):
        return False
    return all(abs(complex(a[k]) - complex(b[k])) <= 1e-12 * max(1, abs(complex(b[k]))) for k in a)


def phase_subst(want, m):
    (k, c), = want.items()
    mo, an = k
    v = const(1)
    for a, p in mo:
        v = mul(v, power(m.get(a, a), const(p)))
    e = ZERO
    for mm, cc in an:
        x = const(complex(0, 2 * float(cc)))
        for a, p in mm:
            x = mul(x, power(m.get(a, a), const(p)))
        e = add(e, x)
    return phase(mul(v, extcall("numpy.exp", mul(e, mk("ext", "numpy.pi")))))


# ----------------------------------------------------------------------- C16
def c16(ck):
    """entry (a, b) of a controlled shift: with every control digit of b at its top level the target digit moves by the amount, else a = b"""
    for op, w in (("cx", "CXGate.unitary"), ("toffoli", "Toffoli.unitary")):
        rule = "the target is shifted exactly when every control is at its top level"
        for P, C, s, u, base in matrices(ck, op, w, rule):
            instances(ck, rule, w, P, C, s, u, base, controlled(C, op), controlled_entries, op, w)
    recorded(ck, ("cx", "toffoli", "toffoli1"))


def spec_registers(P, C, s, op):
    if op == "cx":
        o = decide(s, lt(c, t), P)
        if o is None:
            return None
        lb, ub = (c, t) if o else (t, c)
    else:
        L = seq("list", [one(t), star(cs)])
        lb, ub = extcall_py("min", L), extcall_py("max", L)
    n = add(sub(ub, lb), ONE)
    k = fresh()
    return lb, ub, seq("list", [mapseg(k, n, [((), (one(item(C.D, add(lb, k))),))])])


def extcall_py(n, L):
    return mk("call", mk("ext", n), (L,), ())


def controlled_entries(ck, P, C, s, u, base, op, w):
    rule = "the target is shifted exactly when every control is at its top level"
    sp = spec_registers(P, C, s, op)
    if sp is None:
        ck.ob(rule, None, w, "order of control and target not known on this path")
        return
    lb, ub, Q = sp
    try:
        a, es, D = entries(P, s, u)
    except Unk as e:
        ck.ob(rule, None, w, f"entries not known: {e}"[:300])
        return
    tabs = {x.a[0] for e in es for y in list(e[0]) + [e[1]] for x in walk(y) if x.op in ("digit", "rank")}
    if not tabs and all(v is ONE or v is ZERO for c_, v in es):
        ones = [c_ for c_, v in es if v is ONE]
        if len(ones) == 1 and ones[0] == frozenset([eq(ROW, COL)]):
            ck.ob(rule, False, w, "the matrix is the identity", st=F(s, base))
            return
    if len(tabs) != 1:
        ck.ob(rule, None, w, f"{len(tabs)} tables of register levels")
        return
    q = tabs.pop()
    if q is not Q:
        X = Cmp(P)
        v = X.same(s, q, Q) if q.op == "seq" else None
        if v is None:
            v = other_range(q, Q, lb, ub, C.D)
        ck.ob("the matrix ranges over the registers from the lowest to the highest operand", v, w, f"registers {show(q)[:150]}", st=F(s, base))
        if v is not True:
            return
    else:
        ck.ob("the matrix ranges over the registers from the lowest to the highest operand", True, w)
    parts = structure(q, es)
    if parts is None:
        ck.ob(rule, None, w, "entries: " + "; ".join(" and ".join(show(x)[:100] for x in sorted(c_, key=lambda z: z.n)) + " -> " + show(v)[:30] for c_, v in es)[:400])
        return
    fire, (pos, val), idle, turned = parts
    want = sub(t, lb)
    df = differs(P, s, base, pos, want)
    ck.ob("the level that changes is the target's", {True: False, False: True}.get(df), w, f"position {show(pos)[:80]} changes instead of {show(want)[:60]}", st=F(s, base))
    old = mk("digit", q, COL, pos)
    dim = item(C.D, t)
    ok, why = None, f"new level {show(val)[:140]}"
    if df is False:
        if val.op == "mod":
            inner, m = val.a
            dm = differs(P, s, base, m, dim)
            if dm is False:
                stepped = sub(inner, old)
                if turned:
                    stepped = neg(stepped)
                x = differs(P, s, base, stepped, plus, dim)
                ok = {True: False, False: True}.get(x)
            elif dm is True:
                ok = False
        elif linear(val):
            x = differs(P, s, base, neg(sub(val, old)) if turned else sub(val, old), plus, dim)
            if x is True:
                ok = False
            elif x is False and runs_free(s, base, sub(val, old), dim):
                ok = False
                why += " (not reduced modulo the target's dimension)"
        ck.ob("the target moves by the amount, modulo its dimension", ok, w, why + (" (transposed)" if turned else ""), st=F(s, base))
    # the condition
    if op == "cx":
        cond = frozenset([eq(mk("digit", q, COL, sub(c, lb)), sub(item(C.D, c), ONE))])
    else:
        k = fresh()
        cond = frozenset([forall(k, len_of(cs), [eq(mk("digit", q, COL, sub(item(cs, k), lb)), sub(item(C.D, item(cs, k)), ONE))])])
    fire = frozenset(topped(P, s, q, x) for x in fire)
    if fire == cond:
        ck.ob("exactly the controls at their top level trigger the shift", True, w)
    else:
        v = False if known_condition(P, s, base, op, q, fire, cond) else None
        ck.ob("exactly the controls at their top level trigger the shift", v, w, "triggered when " + " and ".join(show(x)[:140] for x in fire)[:300], st=F(s, base))
    v = idle_ok(idle, fire, D)
    ck.ob("nothing changes when a control is not at its top level", v, w, "otherwise: " + "; ".join(" and ".join(show(y)[:100] for y in x) for x in idle)[:300], st=F(s, base))


def other_range(q, Q, lb, ub, D):
    """False when the table of levels ranges over other registers, or counts up from the wrong end"""
    if q.op == "lowfirst":
        return False
    m, w_ = simple_map(q), simple_map(Q)
    if not m or m[2].op != "item" or m[2].a[0] is not D:
        return None
    lo = sub(m[2].a[1], m[0])
    for x, y in ((lo, lb), (add(lo, sub(m[1], ONE)), ub)):
        if x is y:
            continue
        e1, e2 = extremes(x), extremes(y)
        if e1 and e2 and (e1[0] != e2[0] or e1[1] != e2[1]):
            return False
    return None


def extremes(x):
    if callname(x) in ("min", "max") and len(x.a[1]) == 1:
        L = x.a[1][0]
        return callname(x), frozenset(L.a[1] if L.op == "seq" else [star(L)])
    return None


def topped(P, s, q, c_):
    """level >= top and level == top are the same"""
    if c_.op == "le0":
        p = TM._poly(c_.a[0])
        ds = [m[0][0] for m, co in p.items() if len(m) == 1 and m[0][0].op == "digit" and co == -1]
        if len(ds) == 1 and add(c_.a[0], ds[0]) is sub(item(q, ds[0].a[2]), ONE):
            return eq(ds[0], sub(item(q, ds[0].a[2]), ONE))
    if c_.op == "forall":
        K, N, cs_ = c_.a
        k = fresh()
        return forall(k, N, [topped(P, s, q, subst(x, {K: k})) for x in cs_])
    return c_


def structure(q, es):
    """(trigger, (position, new level), otherwise, transposed)"""
    ones = [(c_, v) for c_, v in es if v is not ZERO]
    if any(not (is_const(v) and cval(v) == 1) for c_, v in ones):
        return None
    fire, idle = [], []
    turned = None
    for c_, v in ones:
        hit = None
        for x in c_:
            if x.op != "eq0":
                continue
            p = TM._poly(x.a[0])
            rk = [m[0][0] for m in p if len(m) == 1 and m[0][0].op == "rank"]
            if len(rk) == 1 and len(p) == 2:
                other = [m[0][0] for m in p if m[0][0] is not rk[0]]
                if other and rk[0].a[0] is q and (rk[0].a[1], other[0]) in ((COL, ROW), (ROW, COL)) and sum(p.values()) == 0:
                    hit = (x, rk[0], rk[0].a[1] is ROW)
        if hit:
            fire.append((c_ - {hit[0]}, hit[1], hit[2]))
        else:
            idle.append(c_)
    if len(fire) != 1:
        return None
    cond, rk, turned = fire[0]
    if len(rk.a[2]) != 1:
        return None
    (pos, val), = rk.a[2]
    if turned:
        # the trigger reads the levels after the shift: the same for every position but the target's
        sw = lambda x: subst(x, {ROW: COL, COL: ROW})
        cond = frozenset(sw(x) for x in cond)
        val = sw(val)
        idle = [frozenset(sw(x) for x in c_) for c_ in idle]
        if any(y.op == "digit" and y.a[2] is pos for x in cond for y in walk(x)):
            return None
    return cond, (pos, val), idle, turned


def idle_ok(idle, fire, D):
    same = eq(ROW, COL)
    no = D.negation(D.join("and", list(fire)))
    want = frozenset([same]) | frozenset([no])
    if len(idle) == 1:
        i = idle[0]
        if same in i:
            rest = D.join("and", list(i - {same}))
            raw = D.negation(rest)
            if rest is no or raw is D.join("and", list(fire)):
                return True
            return None
    if not idle:
        return False
    return None


def known_condition(P, s, base, op, q, fire, cond):
    """a trigger made of comparisons of control levels, different from the one wanted"""

    def digit_cmp(x):
        if x.op == "not":
            return digit_cmp(x.a[0])
        if x.op not in ("eq0", "le0"):
            return False
        p = TM._poly(x.a[0])
        ds = [m for m in p if len(m) == 1 and m[0][0].op == "digit" and m[0][0].a[1] is COL]
        return len(ds) == 1 and linear(x.a[0]) and all(linear(m[0][0].a[2], cs_items(m[0][0].a[2])) for m in ds)

    def cs_items(x):
        return [y for y in walk(x) if y.op == "item" and y.a[0] is cs]

    if not fire:
        return True
    free = all(only_lower(s, base, x) for x in fire)
    if not free:
        return False
    if op == "cx":
        return all(digit_cmp(x) for x in fire)
    ok = True
    for x in fire:
        y = x.a[0] if x.op == "not" else x
        if y.op == "forall":
            K, N, b = y.a
            if len(b) != 1 or not digit_cmp(b[0]) and not digit_cmp(nott(b[0])):
                return False
            # the levels compared are those of the controls, in some of their order
            ds = [z for z in walk(b[0]) if z.op == "digit"]
            its = cs_items(ds[0].a[2])
            if len(its) != 1 or len(ds) != 1:
                return False
            full = its[0].a[1] is K and N is len_of(cs)
            (w_,) = [z for z in cond]
            if full and x.op == "forall" and b[0] is not w_.a[2][0] and not linear(b[0].a[0], cs_items(b[0]) + [z for z in walk(b[0]) if z.op == "item"]):
                return False
        elif not digit_cmp(y):
            return False
    return ok
