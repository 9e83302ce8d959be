"""Operator products as ordered factor lists (monoid normal form)."""
from terms import *
import terms as TM


class NoForm(Exception):
    pass


def opname(t):
    if t.op == "call" and len(t.a[1]) == 2 and not t.a[2]:
        f = t.a[0]
        if f.op == "attr":
            return f.a[1]
        if f.op == "ext":
            return f.a[0].split(".")[-1]
    if t.op == "bin" and t.a[0] == "@":
        return "dot"
    return None


def nonempty_len(t):
    """len(X[1:]) of a sequence known to be non-empty"""
    def go(x):
        if x.op == "len" and x.a[0].op == "slice" and is_num(x.a[0].a[1]) and x.a[0].a[2] is NONE and x.a[0].a[3] is NONE:
            return sub(len_of(go(x.a[0].a[0])), x.a[0].a[1])
        return rebuild(x, go)
    return go(t)


def factors(t, names):
    """list of segments whose ordered product is t"""
    if opname(t) in names:
        a, b = (t.a[1] if t.op == "call" else t.a[1:3])
        return factors(a, names) + factors(b, names)
    if t.op == "fold":
        bv, bc, N, init, cases = t.a
        if len(cases) != 1 or cases[0][0]:
            if any(opname(x) in names for x in walk(t)):
                raise NoForm("conditional accumulation")
            return [one(t)]
        v = cases[0][1]
        f = factors(v, names)
        if len(f) >= 2 and f[0].op == "one" and f[0].a[0] is bc and not any(bc in syms(x) for x in f[1:]):
            return factors(init, names) + [mapseg(bv, nonempty_len(N), [((), tuple(f[1:]))])]
        if len(f) >= 2 and f[-1].op == "one" and f[-1].a[0] is bc and not any(bc in syms(x) for x in f[:-1]):
            n = nonempty_len(N)
            K = fresh()
            m = {bv: sub(sub(n, ONE), K)}
            return [mapseg(K, n, [((), tuple(subst(x, m) for x in f[:-1]))])] + factors(init, names)
        if any(opname(x) in names for x in walk(t)):
            raise NoForm("accumulation without a product form")
    return [one(t)]


DOT = ("dot", "matmul")
KRON = ("kron",)


def nested(t):
    """[[operator, ...] per layer] in multiplication order"""
    out = []
    for g in factors(t, DOT):
        out.append(_inner(g))
    return seq("list", out)


def _inner(g):
    if g.op == "one":
        fs = factors(g.a[0], KRON)
        for x in fs:
            leaf(x)
        return one(seq("list", fs))
    if g.op == "map":
        K, N, cases = g.a
        return mapseg(K, N, [(f, tuple(_inner(x) for x in gs)) for f, gs in cases])
    raise NoForm(g.op)


def leaf(g):
    """every factor must be the matrix of one gate"""
    if g.op == "one":
        if g.a[0].op != "attr" or g.a[0].a[1] != "unitary":
            raise NoForm("factor " + show(g.a[0])[:100])
    elif g.op == "map":
        for f, gs in g.a[2]:
            for x in gs:
                leaf(x)
    else:
        raise NoForm(g.op)
