"""C12 C13 C14 C15: backends and the guards of custom gates."""
import ast, os
from state import decide
from checks_state import *

M1, M2 = sym("M1", ("ext", "ndarray")), sym("M2", ("ext", "ndarray"))
EXTRA = '''
from qudiet.circuit_library import ArbitaryGate
class Custom2(ArbitaryGate):
    def __init__(self, qreg, dims, backend):
        super().__init__(qreg=qreg, dims=dims, backend=backend)
        self._unitary = USER_MATRIX2
'''


# -------------------------------------------------------- matrix expressions
def chain(x):
    """a product of matrices as a list of (factor, transposed, conjugated)"""
    def flip(l, t=False, c=False):
        l = [(a, t1 ^ t, c1 ^ c) for a, t1, c1 in l]
        return l[::-1] if t else l

    if x.op == "attr" and x.a[1] == "T":
        return flip(chain(x.a[0]), t=True)
    if x.op == "attr" and x.a[1] == "H":
        return flip(chain(x.a[0]), t=True, c=True)
    if x.op == "bin" and x.a[0] == "@":
        return chain(x.a[1]) + chain(x.a[2])
    if x.op == "poly":
        p = TM._poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] is not x:
                return chain(m[0][0])
        return [(x, False, False)]
    n = callname(x)
    if n is None:
        return [(x, False, False)]
    b = n.split(".")[-1]
    args, kw = list(x.a[1]), kwargs(x)
    recv = x.a[0].a[0] if n.startswith(".") else None
    if recv is not None:
        args = [recv] + args
    if kw and b in ("dot", "matmul", "transpose", "conj", "conjugate", "getH"):
        return [(x, False, False)]
    if b in ("dot", "matmul") and len(args) == 2:
        return chain(args[0]) + chain(args[1])
    if b in ("multi_dot", "linalg.multi_dot") and len(args) == 1 and exact(args[0]) is not None:
        return [f for y in exact(args[0]) for f in chain(y)]
    if b == "transpose" and len(args) == 1:
        return flip(chain(args[0]), t=True)
    if b in ("conj", "conjugate") and len(args) == 1:
        return flip(chain(args[0]), c=True)
    if b == "getH" and len(args) == 1:
        return flip(chain(args[0]), t=True, c=True)
    if b in ("asarray", "array", "asanyarray", "copy", "toarray", "csr_matrix", "todense", "tocsr", "csc_matrix", "ascontiguousarray") and len(args) == 1 and not kw:
        return chain(args[0])
    return [(x, False, False)]


def lib(n):
    """name of a library function without the library: numpy, cupy and the sparse modules agree on them"""
    for p in ("numpy.", "cupy.", "scipy.sparse.linalg.", "scipy.sparse.", "cupyx.scipy.sparse.linalg.", "cupyx.scipy.sparse.", "numpy.linalg.", "scipy.linalg."):
        if n.startswith(p):
            n = n[len(p):]
    return n


def unit_eye(x, a):
    """x is the identity with as many rows as a"""
    n = callname(x)
    if n is None or lib(n) not in ("eye", "identity") or not x.a[1] or len(x.a[1]) > 1:
        return None
    k = x.a[1][0]
    sizes = {len_of(a), item(mk("attr", a, "shape"), ZERO), item(mk("attr", a, "shape"), ONE)}
    return k in sizes or k.op == "len" and k.a[0] is a


ROWS = ([(False, False), (True, True)], [(False, True), (True, False)])
COLS = ([(True, True), (False, False)], [(True, False), (False, True)])
SEEN = set()  # which products the analysed tests compare with the identity


def unitary_test(x, a, P=None):
    """does the value test that a times its conjugate transpose is the identity: True / False / None, reason"""
    if is_const(x):
        return False, f"the answer is always {show(x)}"
    if x.op == "call" and callname(x) in ("bool", "numpy.bool_") and len(x.a[1]) == 1:
        return unitary_test(x.a[1][0], a)
    if x.op == "truth":
        return unitary_test(x.a[0], a)
    n = callname(x)
    if not content_facts([x], a):
        return False, "the entries of the matrix are not looked at"
    if n is not None and lib(n) in ("allclose", "array_equal") and len(x.a[1]) >= 2:
        kw = kwargs(x)
        tol = list(x.a[1][2:]) + [kw[k] for k in ("rtol", "atol") if k in kw]
        for t_ in tol:
            if not is_num(t_):
                return None, "tolerance not known"
            if cval(t_) > 1e-3:
                return False, f"the tolerance {show(t_)} accepts matrices that are not unitary"
        if any(k not in ("rtol", "atol") for k in kw):
            return None, "options"
        e, p = x.a[1][0], x.a[1][1]
        for q in (e, p):
            if callname(q) and lib(callname(q)) in ("diag", "diagonal", "trace", "det") and content_facts([q], a):
                return False, f"only {show(q)[:80]} is looked at"
        for e, p in ((e, p), (p, e)):
            k = unit_eye(e, a)
            if k is None:
                continue
            if k is False:
                return None, "size of the identity"
            b = callname(p) and lib(callname(p))
            if b in ("abs", "absolute") and len(p.a[1]) == 1:
                # the diagonal of the product is not negative: the moduli are the identity exactly when the product is
                p = p.a[1][0]
            if b in ("real", "imag", "sign", "triu", "tril", "floor", "ceil", "rint", "round", "around") or p.op == "attr" and p.a[1] in ("real", "imag"):
                y = p.a[0] if p.op == "attr" else p.a[1][0] if p.a[1] else p
                digits = 0
                if b in ("round", "around") and len(p.a[1]) > 1:
                    digits = cval(p.a[1][1]) if is_num(p.a[1][1]) else 99
                elif b in ("round", "around") and kwargs(p):
                    digits = 99
                if all(f is a for f, t_, c_ in chain(y)) and digits < 3:
                    return False, f"only {show(p)[:80]} is looked at"
            l = chain(p)
            if any(f is not a for f, t_, c_ in l):
                return None, f"product {show(p)[:80]}"
            sig = [(t_, c_) for f, t_, c_ in l]
            if sig in ROWS or sig in COLS:
                SEEN.add("rows" if sig in ROWS else "cols")
                return True, ""
            return False, f"compares {show(p)[:80]} with the identity"
    return None, show(x)[:100]


# ----------------------------------------------------------------------- C15
def c15(ck):
    """every path on which a custom gate yields its matrix has passed the unitarity test and an exact size test; the test itself is a times conjugate transpose"""
    P = program({"custom_": EXTRA}, load=("custom_",))
    C = Circuit(P, history=False)
    SEEN.clear()
    testers(ck)
    C.s0.setvar("m:client_", "USER_MATRIX", M1)
    C.s0.setvar("m:custom_", "USER_MATRIX2", M2)
    w = "ArbitaryGate.unitary"
    for op in ("gate", "gatel"):
        s = C.s0.copy()
        legal(C, s, op)
        for s1, g in refgate(C, s, op):
            ck.guard("custom gate", w, guards, ck, P, C, s1, g, op, w)
    ck.guard("a check of one gate does not vouch for another", w, second_gate, ck, P, C, w)
    ck.used(P)


def content_facts(fs, M):
    """conditions that look at the entries of the matrix (not only at its shape)"""
    out = []
    for f in fs:
        shape_only = {x for x in walk(f) if x.op == "attr" and x.a[0] is M and x.a[1] in ("shape", "ndim", "size", "dtype")} | {x for x in walk(f) if x.op == "len" and x.a[0] is M} | {x for x in walk(f) if callname(x) in ("numpy.ndim", "numpy.shape", "numpy.size", "numpy.isscalar") and x.a[1][:1] == (M,) and not x.a[2]}
        m = {x: sym("shape?", None) for x in shape_only}
        if any(x is M for x in walk(subst(f, m) if m else f)):
            out.append(f)
    return out


def possible(P, s):
    """False when the conditions of a path disagree, also about the shape of the matrix once it is known"""
    if not feasible(P, s):
        return False
    for M in (M1, M2):
        sh = mk("attr", M, "shape")
        known = [o for f in s.facts if f.op in ("eq", "eqv") and sh in f.a for o in f.a if o is not sh and o.op == "seq" and exact(o)]
        if not known:
            continue
        m = {sh: known[0], mk("attr", M, "ndim"): const(len(exact(known[0]))), len_of(sh): const(len(exact(known[0]))), extcall("numpy.ndim", M): const(len(exact(known[0]))), extcall("numpy.shape", M): known[0],
             len_of(M): exact(known[0])[0], len_of(extcall("numpy.shape", M)): const(len(exact(known[0])))}
        s2 = s.copy()
        new = [f for f in s.facts if f.op not in ("raised", "unpacked") and any(x is M for x in walk(f))]
        for f in new:
            g = subst(f, m)
            if g is f:
                continue
            if g is FALSE or nott(g) in s2.facts or decide(s2, g, P) is False:
                return False
            s2.fact(g)
    return True


def guards(ck, P, C, s1, g, op, w):
    base = set(s1.facts)
    outs, bad = getter(P, s1.copy(), g, "unitary")
    n = 0
    for s, u in outs:
        if not possible(P, s):
            continue
        n += 1
        ck.count("matrix_paths")
        one_guard(ck, P, C, s, u, base, op, w)
    if not n:
        ck.ob("a custom gate is checked to be unitary", None, w, "no path yields a matrix")


def matrix_of(P, s, u):
    u = P.deep(s, u)
    return u, [x for x in (M1, M2) if x in set(walk(u))]


def size_of(C, op):
    if op == "gate":
        return item(C.D, r)
    K = fresh()
    return extcall("numpy.prod", seq("list", [mapseg(K, len_of(rs), [((), (one(item(C.D, item(rs, K))),))])]))


def one_guard(ck, P, C, s, u, base, op, w):
    u, ms = matrix_of(P, s, u)
    new = [f for f in s.facts if f not in base]
    if len(set(ms)) != 1:
        ck.ob("a custom gate is checked to be unitary", None, w, f"matrix of the gate not recognised in {show(u)[:100]}")
        return
    M = ms[0]
    # unitarity
    tested = [x for f in new if f.op == "truth" for x in [f.a[0]] if callname(x) == ".is_unitary" and any(y is M for y in walk(x))]
    direct = [f for f in new if unitary_test(f, M)[0] is True or f.op == "truth" and unitary_test(f.a[0], M)[0] is True]
    cf = content_facts(new, M)
    failed = [f for f in new if f.op == "not" and f.a[0].op == "truth" and callname(f.a[0].a[0]) == ".is_unitary" and f.a[0].a[0].a[1][:1] == (M,)]
    rule = "a custom gate is checked to be unitary before it is used"
    if direct:
        ck.ob(rule, True, w)
    elif tested:
        x = tested[0]
        arg = x.a[1][0] if x.a[1] else None
        l = chain(arg) if arg is not None else []
        ok = len(l) == 1 and l[0][0] is M and x.a[0].a[0] is C.B
        ck.ob(rule, True if ok else None, w, f"tested {show(x)[:100]}")
    elif failed and len(failed) == len(cf):
        ck.ob(rule, False, w, "the matrix is used although the test failed", st=[f for f in new if not content_facts([f], M)])
    elif not cf:
        ck.ob(rule, False, w, "a path yields the matrix unchecked" + (": " + " and ".join(show(f)[:80] for f in new) if new else ""), st=[f for f in new if not content_facts([f], M)])
    else:
        ck.ob(rule, None, w, "checked by " + "; ".join(show(f)[:80] for f in cf))
    # size
    rule = "a custom gate is checked to have exactly the size of its registers"
    want = size_of(C, op)
    D = Den(P, s)
    eqs, other = {0: [], 1: []}, []
    sh = mk("attr", M, "shape")
    for f in new:
        if not any(x is sh or x.op == "len" and x.a[0] is M for x in walk(f)):
            continue
        done = False
        if f.op in ("eq", "eqv") and sh in f.a:
            o = f.a[1] if f.a[0] is sh else f.a[0]
            l = exact(o) if o.op == "seq" else None
            if l is not None and len(l) == 2:
                eqs[0].append(l[0])
                eqs[1].append(l[1])
                done = True
        elif f.op == "eq0":
            p = TM._poly(f.a[0])
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                    v = m[0][0]
                    k = 0 if v is item(sh, ZERO) or v.op == "len" and v.a[0] is M else 1 if v is item(sh, ONE) else None
                    if k is not None:
                        eqs[k].append(sub(v, f.a[0]) if c == 1 else add(v, f.a[0]))
                        done = True
        if not done:
            other.append(f)
    # equality of both sides of the matrix
    for k in (0, 1):
        for e in list(eqs[k]):
            for z in (0, 1):
                if e is item(sh, const(z)) and z != k:
                    eqs[k] += [x for x in eqs[z] if not any(y is sh for y in walk(x))]
    res = []
    for k in (0, 1):
        vs = []
        for e in eqs[k]:
            if any(y is sh for y in walk(e)):
                continue
            d = sub(D.canon_dim(strip_int(e)), D.canon_dim(want))
            vs.append(False if d is ZERO else (differs(P, s, base, e, want) if op == "gate" else list_size(C, e)))
        res.append(vs)
    why = "; ".join(show(f)[:100] for f in other) or "; ".join(f"side {k}: {show(e)[:60]}" for k in (0, 1) for e in eqs[k])
    if all(False in v for v in res):
        ck.ob(rule, True, w)
    elif not any(res) and all(f.op == "le0" for f in other) and not any(mk("le0", neg(f.a[0])) in other for f in other):
        ck.ob(rule, False, w, "a path yields a matrix of any size" + (": " + " and ".join(show(f)[:80] for f in new) if new else ""), st=[f for f in new if not content_facts([f], M)])
    elif any(v and all(x is True for x in v) for v in res) and not other:
        ck.ob(rule, False, w, "another size is demanded: " + why, st=[f for f in new if not content_facts([f], M) and f not in new])
    elif SEEN == {"rows"} and False in res[0] and not eqs[1] and not other:
        # n orthonormal rows of any length pass a test of the products of rows
        ck.ob(rule, False, w, "the length of the rows is not limited: " + why, st=[f for f in new if not content_facts([f], M)])
    elif SEEN == {"cols"} and False in res[1] and not eqs[0] and not other:
        ck.ob(rule, False, w, "the length of the columns is not limited: " + why, st=[f for f in new if not content_facts([f], M)])
    else:
        ck.ob(rule, None, w, why)


def strip_int(e):
    while callname(e) in ("int", "numpy.int64", "numpy.intp") and len(e.a[1]) == 1:
        e = e.a[1][0]
    return e


def list_size(C, e):
    """the size demanded for a gate on a list of registers is certainly not their product"""
    e = strip_int(e)
    if is_num(e) or e is len_of(rs) or e.op == "item" and e.a[0] is C.D:
        return True
    n = callname(e)
    if n in ("sum", "max", "min", "numpy.sum", "numpy.max", "numpy.min", "len") and not any(callname(x) in ("numpy.prod", "math.prod") for x in walk(e)):
        return True
    if e.op == "item" and any(x is rs for x in walk(e)) and is_num(e.a[1]):
        return True
    return None


def second_gate(ck, P, C, w):
    """a matrix that passed earlier says nothing about the matrix of another gate"""
    rule = "every custom gate is checked, also after another gate was"
    s = C.s0.copy()
    legal(C, s, "gate")
    s.fact(le(ZERO, c))
    s.fact(lt(c, C.n))
    for cls2 in ("UserGate", "Custom2"):
        mod2 = "client_" if cls2 == "UserGate" else "custom_"
        for s1, g1 in fcall(P, s.copy(), mk("cls", "client_.UserGate"), [], {"qreg": r, "dims": item(C.D, r), "backend": C.B})[0]:
            for s2, u1 in getter(P, s1, g1, "unitary")[0]:
                for s3, g2 in fcall(P, s2, mk("cls", mod2 + "." + cls2), [], {"qreg": c, "dims": item(C.D, c), "backend": C.B})[0]:
                    if cls2 == "UserGate":
                        for o in [s3.obj(g2)]:
                            for n, x in list(o.attrs.items()):
                                if x is M1:
                                    s3.obj(g2, True).attrs[n] = M2
                    base = set(s3.facts)
                    for s4, u2 in getter(P, s3, g2, "unitary")[0]:
                        if not possible(P, s4):
                            continue
                        ck.count("second_gate_paths")
                        new = [f for f in s4.facts if f not in base]
                        u, ms = matrix_of(P, s4, u2)
                        if ms != [M2]:
                            ck.ob(rule, None if not clean(u) or any(x.op == "top" for x in walk(u)) else (False if len(ms) == 1 else None), w, f"the second gate yields {show(u)[:80]}", st=new)
                            continue
                        ok = content_facts(new, ms[0])
                        ck.ob(rule, bool(ok), w, "the matrix of the second gate is not checked", st=new)


def testers(ck):
    rule = "the backend's test accepts unitary matrices only"
    for P, cname, cls in backends():
        s = P.start()
        w = cname + ".is_unitary"
        a = sym("a", ("ext", "ndarray"))

        def one(P=P, s=s, w=w, cls=cls):
            outs, bad = method(P, s, cls, "is_unitary", [a])
            n = 0
            for s2, v in outs:
                if not feasible(P, s2):
                    continue
                n += 1
                v = P.deep(s2, v)
                ck.count("unitarity_tests")
                if is_const(v) and not cval(v):
                    ck.ob(rule, True, w)  # a refusal
                    continue
                if is_const(v) and content_facts(s2.facts, a):
                    # if <test>: return True
                    vs = [unitary_test(f, a)[0] for f in s2.facts]
                    ck.ob(rule, True if True in vs else None, w, "; ".join(show(f)[:80] for f in s2.facts)[:200])
                    continue
                ok, why = unitary_test(v, a)
                ck.ob(rule, ok, w, why, st=s2)
            if not n:
                ck.ob(rule, None, w, "no outcome")

        ck.guard(rule, w, one)


BACKENDS = ("NumpyBackend", "SparseBackend", "CUDABackend", "CUDASparseBackend")


def backends():
    mods = tuple(f"qudiet.core.backend.{n}" for n in BACKENDS)
    P = program(load=mods)
    for n in BACKENDS:
        q = f"qudiet.core.backend.{n}.{n}"
        if q in P.classes:
            yield P, n, mk("cls", q)


# ----------------------------------------------------------------------- C13
SIGS = {"kron": ("a", "b"), "dot": ("a", "b"), "eye": ("n", "m"), "matrix": ("a",), "nonzero": ("a",), "is_unitary": ("a",)}


class Odd(Exception):
    pass


def nf(x, env):
    """normal form of an array expression, the same for the dense and the sparse libraries, CPU and GPU;
    env: symbols whose number of dimensions is known to be two"""
    l = []
    for f, t_, c_ in chain(x):
        f = prim(f, env)
        if t_ or c_:
            if f[0] == "eye" and t_:
                f = ("eye", f[2], f[1])
                t_ = False
            f = ("op", f, t_, c_) if t_ or c_ else f
        l.append(f)
    l = [f for f in l]
    return l[0] if len(l) == 1 else ("dot",) + tuple(l)


def prim(x, env):
    if x.op == "sym":
        return ("arg", x.a[0])
    if is_num(x):
        return ("num", cval(x))
    if is_const(x):
        return ("const", cval(x))
    if x.op == "poly":
        p = TM._poly(x)
        if any(any(isarray(a, env) for a, e in m) for m in p):
            if "sparse" in env and any(sum(e for a, e in m if isarray(a, env)) > 1 for m in p):
                raise Odd("a product of matrices, or of entries")
            out = []
            for m, c in p.items():
                out.append((c, tuple(sorted((repr(nf(a, env)), e) for a, e in m))))
            return ("poly",) + tuple(sorted(out, key=repr))
        return ("int", show(x))
    if x.op == "len":
        return ("len", nf(x.a[0], env))
    if x.op == "item" and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
        k = nf(x.a[0].a[0], env)
        if x.a[1] is ZERO:
            return ("len", k)
        return ("size", k, show(x.a[1]))
    if x.op == "attr" and x.a[1] in ("real", "imag"):
        return ("fn", x.a[1], nf(x.a[0], env))
    if x.op == "bin" and x.a[0] != "@":
        return ("bin", x.a[0], nf(x.a[1], env), nf(x.a[2], env))
    n = callname(x)
    if n is None:
        raise Odd(show(x)[:80])
    b = lib(n).split(".")[-1]
    args, kw = list(x.a[1]), kwargs(x)
    if n.startswith("."):
        args = [x.a[0].a[0]] + args
    if b == "kron" and len(args) == 2 and set(kw) <= {"format"}:
        return ("kron", nf(args[0], env), nf(args[1], env))
    if b in ("eye", "identity"):
        # numpy: eye(N rows, M columns, k); scipy.sparse: eye(m rows, n columns, k)
        names = {"m": 0, "n": 1, "k": 2} if ".sparse." in n else {"N": 0, "n": 0, "M": 1, "k": 2}
        pos = {i: v for i, v in enumerate(args)}
        for k, v in kw.items():
            if k in names:
                pos[names[k]] = v
            elif k not in ("dtype", "format", "order"):
                raise Odd(show(x)[:80])
        if kw.get("dtype") is not None and not fine_dtype(kw["dtype"]):
            return ("fn", "dtype " + show(kw["dtype"]), ("eye",))
        rows = pos.get(0)
        cols = pos.get(1, rows)
        if cols is NONE:
            cols = rows
        if rows is None:
            raise Odd(show(x)[:80])
        k = pos.get(2, ZERO)
        return ("eye", nf(rows, env), nf(cols, env)) + (() if k is ZERO else (nf(k, env),))
    if b in ("array", "asarray", "asanyarray", "matrix", "csr_matrix", "csc_matrix", "coo_matrix", "csr_array", "copy", "ascontiguousarray", "asfortranarray", "mat") and args:
        rest = dict(kw)
        dt = rest.pop("dtype", args[1] if len(args) == 2 and b in ("array", "asarray") else None)
        if len(args) > 1 and not (len(args) == 2 and b in ("array", "asarray")):
            raise Odd(show(x)[:80])
        y = nf(args[0], env)
        if dt is not None and dt is not NONE and not fine_dtype(dt):
            return ("fn", "dtype " + show(dt), y)
        if set(rest) - {"copy", "order", "format"}:
            raise Odd(show(x)[:80])
        return y
    if b in ("toarray", "todense", "tocsr", "tocsc", "tocoo", "get", "asformat", "asnumpy", "squeeze_") and n.startswith(".") or b == "asnumpy":
        return nf(args[0], env)
    if b == "astype":
        return nf(args[0], env) if fine_dtype(args[1] if len(args) > 1 else kw.get("dtype")) else ("fn", "dtype " + show(args[1] if len(args) > 1 else kw.get("dtype")), nf(args[0], env))
    if b in ("nonzero", "where", "flatnonzero", "argwhere") and len(args) == 1:
        return ("fn", "nonzero" if b == "where" else b, nf(args[0], env))
    if b == "reshape":
        shp = args[1:] if len(args) != 2 or args[1].op != "seq" else (exact(args[1]) or [])
        return ("reshape", nf(args[0], env), tuple(shape_nf(s, args[0], env) for s in shp))
    if b in ("real", "imag", "abs", "absolute", "round", "around", "conj", "real_if_close", "rint", "floor", "ceil", "sqrt", "exp", "tril", "triu", "flip", "fliplr", "flipud", "rot90", "roll", "ravel", "flatten", "diag"):
        return ("fn", b) + tuple(nf(y, env) for y in args) + tuple((k, show(v)) for k, v in sorted(kw.items()))
    if b in ("allclose", "array_equal", "isclose"):
        raise Odd("test")
    if b == "len" and len(args) == 1:
        return ("len", nf(args[0], env))
    raise Odd(show(x)[:80])


def shape_nf(s, a, env):
    if is_num(s):
        return cval(s)
    return nf(s, env)


def isarray(x, env):
    return any(y in env for y in walk(x))


def fine_dtype(d):
    """a type that holds every complex double"""
    return d is None or d is NONE or show(d).split(".")[-1].replace("builtin(", "").rstrip(")") in ("complex", "complex128", "cdouble", "clongdouble", "complex256", "complex_", "'complex'", "'complex128'") or is_const(d) and cval(d) in ("complex", "complex128", "c16")


def column(x, a):
    """x is the one-dimensional argument as a column"""
    if callname(x) == ".reshape" and len(x.a[1]) == 1 and x.a[1][0].op == "seq":
        segs = x.a[1][0].a[1]
        if len(segs) == 2 and segs[1].op == "star" and segs[0] is one(ONE) and segs[1].a[0].op == "attr" and segs[1].a[0].a[1] == "shape":
            try:
                if nf(x.a[0].a[0], {a}) == nf(segs[1].a[0].a[0], {a}) == ("arg", a.a[0]):
                    return False
            except Odd:
                pass
        if len(segs) == 2 and segs[0].op == "star" and segs[0].a[0].op == "attr" and segs[0].a[0].a[1] == "shape" and segs[1] is one(ONE):
            try:
                if nf(x.a[0].a[0], {a}) == nf(segs[0].a[0].a[0], {a}) == ("arg", a.a[0]):
                    return True
            except Odd:
                pass
    if x.op == "item" and x.a[1].op in ("seq", "tuple"):
        ix = exact(x.a[1]) or []
        if len(ix) == 2 and show(ix[0]).startswith("sl") and (ix[1] is NONE or show(ix[1]).endswith("newaxis")):
            try:
                if nf(x.a[0], {a}) == ("arg", a.a[0]) and all(y is NONE for y in ix[0].a):
                    return True
            except Odd:
                return None
    try:
        f = nf(x, {a})
    except Odd:
        return None
    A_ = ("arg", a.a[0])
    if f == A_:
        return False
    if f[0] == "reshape" and f[1] == A_:
        s = f[2]
        if len(s) == 2 and s[1] == 1 and (s[0] == -1 or s[0] == ("len", A_) or s[0] == ("size", A_)):
            return True
        if len(s) == 2 and s[0] == 1:
            return False
    return None


WANT = {
    "kron": ("kron", ("arg", "a"), ("arg", "b")),
    "dot": ("dot", ("arg", "a"), ("arg", "b")),
    "eye": ("eye", ("arg", "n"), ("arg", "m")),
    "matrix": ("arg", "a"),
    "nonzero": ("fn", "nonzero", ("arg", "a")),
}


def ndim_of(f, a):
    """k when the condition says that the argument has k dimensions, -k when it says that it has not"""
    if f.op == "not":
        k = ndim_of(f.a[0], a)
        return None if k is None else ("not", k[1])
    if f.op != "eq0":
        return None
    p = TM._poly(f.a[0])
    ks = [m[0][0] for m in p if m != ()]
    if len(ks) != 1:
        return None
    x = ks[0]
    base = None
    if x.op == "len" and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
        base = x.a[0].a[0]
    elif x.op == "len" and callname(x.a[0]) and lib(callname(x.a[0])) == "shape":
        base = x.a[0].a[1][0]
    elif x.op == "attr" and x.a[1] == "ndim":
        base = x.a[0]
    elif callname(x) and lib(callname(x)) == "ndim" and x.a[1]:
        base = x.a[1][0]
    if base is None:
        return None
    try:
        if nf(base, {a}) != ("arg", a.a[0]):
            return None
    except Odd:
        return None
    c = next(c for m, c in p.items() if m != ())
    return ("is", -p.get((), 0) // c)


def c13(ck):
    """every backend offers the same operations, and each operation has the same normal form on all of them"""
    per = {}
    for P, name, cls in backends():
        per[name] = (P, cls)
    for n in BACKENDS:
        if n not in per:
            raise Anchor(n)
    table = {n: public_ops(*per[n]) for n in BACKENDS}
    union = set().union(*table.values()) | set(SIGS)
    used = named_outside(per[BACKENDS[0]][0])
    for n in BACKENDS:
        for op in sorted(union):
            # an additional method that the rest of the package never names is a backend's own helper
            ck.ob("every backend offers the same operations", op in table[n] or (False if op in SIGS or op in used else None), f"{n}.{op}", "missing")
    forms = {}
    for n in BACKENDS:
        P, cls = per[n]
        for op in sorted(table[n]):
            w = f"{n}.{op}"
            ck.guard("the operation means the same on every backend", w, one_op, ck, P, n, cls, op, w, forms)
        v = P.clsattr(P.start(), cls.a[0], "__getattribute__")
        if v is not None:
            ck.guard("an instance offers the operations too", f"{n}.__getattribute__", lookup, ck, P, n, cls, v)
        ck.used(P)
    rule = "the operation means the same on every backend"
    for op in sorted(union - set(SIGS)):
        fs = {n: forms.get((n, op)) for n in BACKENDS if op in table[n]}
        vals = list(fs.values())
        if any(v is None for v in vals):
            ck.ob(rule, None, op, "operation not in the known set")
        else:
            ck.ob(rule, len(set(map(repr, vals))) == 1 or None, op, "siblings differ")


def named_outside(P):
    """attribute names (and names given as text) in the modules outside the backend package"""
    out = set()
    for root, _, fs in os.walk(P.roots[0][0]):
        for f in fs:
            if f.endswith(".py") and os.sep + "backend" not in root:
                for y in ast.walk(ast.parse(open(os.path.join(root, f), encoding="utf-8").read())):
                    if isinstance(y, ast.Attribute):
                        out.add(y.attr)
                    elif isinstance(y, ast.Constant) and isinstance(y.value, str):
                        out.add(y.value)
    return out


def lookup(ck, P, n, cls, v):
    self, name = sym("self", ("inst", cls.a[0])), sym("name", "str")
    for s, x in fcall(P, P.start(), v, [self, name])[0]:
        if feasible(P, s):
            ck.count("lookup_paths")
            ok = any(y is name for y in walk(x))
            ck.ob("an instance offers the operations too", True if ok else (False if is_const(x) else None), f"{n}.__getattribute__", f"yields {show(x)[:60]} for every name", st=s)


def public_ops(P, cls):
    return {m for q in P.mro(cls.a[0]) if q in P.classes and not q.endswith(".core.Backend") for m in P.classes[q].attrs if not m.startswith("_")}


def stored(s2, ev0, roots):
    """the operation stores into its result or its arguments: (verdict, what), or None"""
    ev, hit = s2.ev, None
    while ev is not None and ev is not ev0:
        ev, e = ev
        if e.kind not in ("content", "attr") or not hasattr(e.target, "op"):
            continue
        if not any(y in roots for y in walk(e.target)):
            continue
        hit = hit or (None, f"{show(e.target)[:60]} is stored to")
        if e.a and e.a[0] == "setitem" and e.target.op == "attr" and e.target.a[1] == "data" and len(e.a) == 3 and e.a[1].op == "lt0":
            # entries selected by their size are overwritten
            c = TM._poly(e.a[1].a[0]).get((), 0)
            if isinstance(c, (int, float)) and c != 0 and is_num(e.a[2]):
                return False, f"entries of {show(e.target)[:60]} selected by {show(e.a[1])[:60]} are overwritten"
    return hit


def one_op(ck, P, n, cls, op, w, forms):
    rule = "the operation means the same on every backend"
    names = SIGS.get(op)
    if names is None:
        return
    s = P.start()
    isint = op == "eye"
    ev0 = s.ev
    syms = [sym(x, "int" if isint else ("ext", "ndarray")) for x in names]
    kw = dict(zip(names, syms)) if isint else {}
    outs, bad = method(P, s, cls, op, [] if isint else syms, kw)
    done = 0
    for s2, v in outs:
        if not feasible(P, s2):
            continue
        ck.count("operations")
        done += 1
        raw = v
        v = P.deep(s2, v)
        nd, odd = set(), []
        hit = stored(s2, ev0, [raw, v] + syms)
        for f in s2.facts:
            k = ndim_of(f, syms[0]) if op == "matrix" else None
            if k is not None:
                nd.add(k)
            elif any(callname(x) in ("isinstance",) or x.op in ("isinst", "inst", "isinstance") for x in walk(f)):
                pass
            else:
                odd.append(f)
        if op == "is_unitary":
            ok, why = (True, "") if is_const(v) and s2.facts else unitary_test(v, syms[0])
            ck.ob(rule, ok, w, why, st=odd)
            continue
        if op == "matrix" and ("is", 1) in nd:
            ck.ob("a list of amplitudes becomes a column on every backend", column(v, syms[0]), w, show(v)[:100], st=odd)
            continue
        if any(k[0] == "is" and k[1] not in (2,) for k in nd):
            continue
        try:
            form = nf(v, set(syms) | ({"sparse"} if "Sparse" in n else set()))
        except Odd as e:
            ck.ob(rule, None, w, f"{show(v)[:100]}: {e}")
            continue
        forms[(n, op)] = form
        if hit:
            ck.ob(rule, hit[0], w, f"{hit[1]} after it was computed", st=odd)
        elif form == WANT[op]:
            ck.ob(rule, True, w)
        else:
            # the normal form of the two sides differs in a recognised construct
            ck.ob(rule, False, w, f"{op}{tuple(names)} computes {show(v)[:120]}", st=odd)
        if op == "matrix" and not nd:
            ck.ob("a list of amplitudes becomes a column on every backend", column(v, syms[0]), w, show(v)[:100], st=odd)
    for s2, x in bad:
        if feasible(P, s2) and not s2.facts - P.start().facts:
            ck.ob(rule, False, w, f"always raises {show(x)[:60]}")
            done += 1
    if not done:
        ck.ob(rule, None, w, "no outcome")
