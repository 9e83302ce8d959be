"""Interned value terms and their normal forms.

A term describes where a value comes from (a value-flow / global-value-numbering
node); no term is ever evaluated on concrete input.  Arithmetic is kept in a
polynomial normal form, integer comparisons as `p <= 0` / `p == 0`, so that
syntactically different but equal computations get the same term.
"""
from fractions import Fraction

MANY = 16  # loops over at most this many known elements are taken apart

_tab = {}


class T:
    __slots__ = ("op", "a", "n", "_syms", "_h")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.n, t._syms, t._h = op, a, len(_tab), None, None
        _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("const", type(v).__name__, v)


NONE, TRUE, FALSE, ZERO, ONE = const(None), const(True), const(False), const(0), const(1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def is_num(t):
    return t.op == "const" and t.a[0] in ("int", "float", "complex", "Fraction", "bool")


def sym(name, tag=None):
    return mk("sym", name, tag)


def top(label):
    return mk("top", label)


# ---------------------------------------------------------------- sequences
def one(x):
    return mk("one", x)


def star(x):
    return mk("star", x)


def seq(kind, segs):
    out = []
    for s in segs:
        if s.op == "star" and s.a[0].op == "seq":
            out.extend(s.a[0].a[1])
        elif s.op == "star" and s.a[0].op == "const" and s.a[0].a[0] == "tuple" and not s.a[0].a[1]:
            continue
        else:
            out.append(s)
    return mk("seq", kind, tuple(out))


def exact(t):
    """elements of a completely known sequence, or None"""
    if t.op == "seq" and all(s.op == "one" for s in t.a[1]):
        return [s.a[0] for s in t.a[1]]
    if t.op == "const" and t.a[0] == "str" and len(t.a[1]) <= 8:
        return [const(c) for c in t.a[1]]
    return None


def is_seqlike(t):
    return t.op == "seq" or t.op in ("rev",) or (t.op == "slice" and is_seqlike(t.a[0])) or (
        t.op == "sym" and isinstance(t.a[1], tuple) and t.a[1] and t.a[1][0] in ("list", "tuple")
    )


def simple_map(t):
    """(K, N, elem) of a sequence that is one unconditional one-element map"""
    if t.op == "seq" and len(t.a[1]) == 1 and t.a[1][0].op == "map":
        K, N, cases = t.a[1][0].a
        if N.op == "top":
            return None
        if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == "one":
            return K, N, cases[0][1][0].a[0]
    return None


# ---------------------------------------------------------------- polynomials
# poly = ((mono, coef), ...), mono = ((atom, power), ...)
def _poly(t):
    if is_num(t):
        v = cval(t)
        if isinstance(v, bool):
            v = int(v)
        return {(): v} if v != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): 1}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=_mkey)))


def _mkey(mc):
    return tuple((a.n, float(p)) for a, p in mc[0])


def add(a, b, sign=1):
    p = _poly(a)
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + sign * c
    return _unpoly(p)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(ZERO, a)


def _mulmono(m1, m2):
    d = dict(m1)
    for a, p in m2:
        q = d.get(a, 0) + p
        if q == 0:
            d.pop(a, None)
        else:
            d[a] = q
    return tuple(sorted(d.items(), key=lambda x: x[0].n))


def mul(a, b):
    p, q = _poly(a), _poly(b)
    if len(p) > 6 or len(q) > 6:
        return mk("poly", (((tuple(sorted({a: 1, b: 1}.items(), key=lambda x: x[0].n)) if a is not b else ((a, 2),)), 1),))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _unpoly(r)


def power(a, e):
    """a ** e for a constant exponent"""
    if is_num(a) and is_num(e):
        try:
            v = cval(a) ** cval(e)
            return const(v)
        except Exception:
            pass
    if is_num(e) and not isinstance(cval(e), complex):
        ev = cval(e)
        if isinstance(ev, float) and (2 * ev) == int(2 * ev):
            ev = Fraction(int(2 * ev), 2)
        p = _poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1:
                return _unpoly({tuple((x, y * ev) for x, y in m): 1})
            if isinstance(ev, int) and 0 <= ev <= 4:
                r = ONE
                for _ in range(ev):
                    r = mul(r, a)
                return r
            if isinstance(ev, int):
                cc = (Fraction(c) if isinstance(c, int) else c) ** ev
                if isinstance(cc, Fraction) and cc.denominator == 1:
                    cc = int(cc)
                return _unpoly({tuple((x, y * ev) for x, y in m): cc})
        return _unpoly({((a, ev),): 1})
    return mk("bin", "**", a, e)


def div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        x, y = cval(a), cval(b)
        if isinstance(x, int) and isinstance(y, int):
            return const(Fraction(x, y))
        return const(x / y)
    return mul(a, power(b, const(-1)))


# ---------------------------------------------------------------- conditions
def _has_float(d):
    for m, c in d.items():
        if isinstance(c, (float, complex)) or (isinstance(c, Fraction)):
            return True
        for a, p in m:
            if p not in (1, 2, 3):
                return True
            if a.op == "call" and callname(a) in ("abs", "numpy.abs", "math.sqrt"):
                return True
    return False


def le0(p):
    d = _poly(p)
    if not d:
        return TRUE
    if list(d) == [()]:
        v = d[()]
        return const(bool(v <= 0)) if not isinstance(v, complex) else mk("le0", p)
    # lengths are never negative
    if all(c > 0 for c in d.values() if not isinstance(c, complex)) and all(
        m == () or all(a.op == "len" for a, _ in m) for m in d
    ):
        if d.get((), 0) > 0:
            return FALSE
    if all(c < 0 for c in d.values() if not isinstance(c, complex)) and all(
        m == () or all(a.op == "len" for a, _ in m) for m in d
    ):
        return TRUE
    return mk("le0", p)


def lt(a, b):
    p = sub(a, b)
    d = _poly(p)
    if _has_float(d):
        if list(d) == [()] or not d:
            v = d.get((), 0)
            return const(bool(v < 0))
        return mk("lt0", p)
    return le0(add(p, ONE))


def le(a, b):
    p = sub(a, b)
    d = _poly(p)
    if _has_float(d) and not (list(d) == [()] or not d):
        return mk("not", mk("lt0", neg(p)))
    return le0(p)


_nonnum = ("seq", "ref", "cls", "func", "bound", "module", "ext", "enum", "fstr", "super", "dict", "builtin", "typeof", "obj", "superobj", "noop", "property", "exc", "partial", "bstatic", "bmeth", "isinst", "in", "typeis", "truth", "and", "or", "lt0", "forall", "kv", "memo", "staticmethod", "classmethod")


def _numeric(t):
    if t.op == "const":
        return t.a[0] in ("int", "float", "complex", "Fraction")
    if t.op in _nonnum or t.op in ("le0", "eq0", "not", "eq"):
        return False
    if t.op == "sym" and t.a[1] is not None and t.a[1] not in ("int", "any"):
        return False
    return True


def textclash(x, y):
    """two texts whose known beginnings or ends differ"""
    for i, whole in ((0, str.startswith), (-1, str.endswith)):
        p = x.a[i] if x.a else NONE
        q = (y.a[i] if y.a else NONE) if y.op == "fstr" else y
        if all(is_const(z) and isinstance(cval(z), str) for z in (p, q)):
            p, q = cval(p), cval(q)
            if not (whole(p, q) or whole(q, p)) or (y.op == "const" and not whole(q, p)):
                return True
    return False


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if x.op in ("enum", "cls", "builtin", "func") and y.op in ("enum", "cls", "const", "builtin", "func"):
            return FALSE
        if is_const(x) and cval(x) is None and y.op in ("seq", "ref", "poly", "cls", "func", "enum", "fstr", "len", "obj", "builtin", "module", "bound"):
            return FALSE
        if is_const(x) and x.a[0] in ("int", "float", "str", "bool") and y.op in ("cls", "func"):
            return FALSE
        if (x.op in ("idx", "poly", "len", "mod", "idiv", "bv") or is_const(x) and x.a[0] in ("int", "float", "bool")) and y.op in ("seq", "fstr"):
            return FALSE
        if x.op == "fstr" and y.op in ("fstr", "const") and textclash(x, y):
            return FALSE
    if a.op == b.op == "call" and a.a[0] is b.a[0] and a.a[0].op == "ext" and a.a[0].a[0] == "id" and a.a[1] and b.a[1] and a.a[1][0].op == b.a[1][0].op == "ref":
        return FALSE  # two objects that both exist
    ea, eb = exact(a), exact(b)
    if ea is not None and eb is not None and a.op == "seq" and b.op == "seq":
        if len(ea) != len(eb):
            return FALSE
        cs = [eq(x, y) for x, y in zip(ea, eb)]
        if all(c is TRUE for c in cs):
            return TRUE
        if any(c is FALSE for c in cs):
            return FALSE
        cs = [c for c in cs if c is not TRUE]
        if all(c.op == "eq0" for c in cs):
            return cs[0] if len(cs) == 1 else mk("and", *cs)
    if _numeric(a) and _numeric(b):
        p = sub(a, b)
        d = _poly(p)
        if not d:
            return TRUE
        if list(d) == [()]:
            return FALSE
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][0].op == "len" and m[0][1] == 1:
                return le0(m[0][0])  # len == 0
        if () in d and all(isinstance(c, int) and (c > 0) == (d[()] > 0) and all(x.op in ("bv", "idx", "len") for x, _ in m) for m, c in d.items()):
            return FALSE  # a sum of counters and a constant of the same sign
        # sign: smallest monomial gets a positive coefficient
        lead = min((m for m in d if m != ()), key=lambda m: tuple(x.n for x, _ in m))
        c = d[lead]
        try:
            if c < 0:
                p = neg(p)
        except TypeError:
            pass
        return mk("eq0", p)
    a, b = (a, b) if a.n < b.n else (b, a)
    return mk("eq", a, b)


def nott(c):
    if is_const(c):
        return const(not cval(c))
    if c.op == "not":
        return c.a[0]
    if c.op == "le0":
        return le0(add(neg(c.a[0]), ONE))
    return mk("not", c)


# ---------------------------------------------------------------- structure
def len_of(t):
    if t.op == "seq":
        n = ZERO
        for s in t.a[1]:
            if s.op == "one":
                n = add(n, ONE)
            elif s.op == "star":
                n = add(n, len_of(s.a[0]))
            elif s.op == "rep":
                n = add(n, mul(len_of(s.a[0]), s.a[1]))
            elif s.op == "map":
                K, N, cases = s.a
                lens = set()
                for f, segs in cases:
                    lens.add(len_of(seq("list", segs)))
                if len(lens) == 1 and not depends(next(iter(lens)), K):
                    n = add(n, mul(N, next(iter(lens))))
                else:
                    return mk("len", t)
            else:
                return mk("len", t)
        return n
    if t.op == "const" and t.a[0] in ("str", "tuple"):
        return const(len(cval(t)))
    if t.op == "rev":
        return len_of(t.a[0])
    if t.op == "dict":
        if t.a[1] is None:
            return const(len(t.a[0]))
    if t.op == "store" and t.a[1].op != "sl":
        return len_of(t.a[0])
    if t.op == "maparr":
        return len_of(t.a[2])
    if t.op == "call" and callname(t) == "sorted" and t.a[1]:
        return len_of(t.a[1][0])
    if t.op == "call" and callname(t) == "numpy.arange" and len(t.a[1]) == 1 and not t.a[2] and t.a[1][0].op in ("item", "len", "sym", "const"):
        return t.a[1][0]
    return mk("len", t)


def rev(t):
    if t.op == "rev":
        return t.a[0]
    if t.op == "seq":
        e = exact(t)
        if e is not None:
            return seq(t.a[0], [one(x) for x in reversed(e)])
        out = []
        for s in reversed(t.a[1]):
            if s.op == "one":
                out.append(s)
            elif s.op == "star":
                out.append(star(rev(s.a[0])))
            elif s.op == "rep" and exact(s.a[0]) is not None:
                out.append(mk("rep", rev(s.a[0]), s.a[1]))
            elif s.op == "map" and all(not f and len(g) == 1 and g[0].op == "one" for f, g in s.a[2]):
                K = fresh()
                e = subst(s.a[2][0][1][0].a[0], {s.a[0]: sub(sub(s.a[1], ONE), K)})
                out.append(mapseg(K, s.a[1], [((), (one(e),))]))
            else:
                return mk("rev", t)
        return seq(t.a[0], out)
    return mk("rev", t)


def item(s, i):
    if s.op == "seq":
        segs = s.a[1]
        if is_const(i) and isinstance(cval(i), int):
            v = cval(i)
            if v >= 0:
                if v < len(segs) and all(x.op == "one" for x in segs[: v + 1]):
                    return segs[v].a[0]
            else:
                if -v <= len(segs) and all(x.op == "one" for x in segs[v:]):
                    return segs[v].a[0]
        if len(segs) == 1:
            g = segs[0]
            if g.op == "star":
                return item(g.a[0], i)
            if g.op == "rep" and exact(g.a[0]) and len(exact(g.a[0])) == 1:
                return exact(g.a[0])[0]
            m = simple_map(s)
            if m:
                K, N, e = m
                if not (is_const(i) and isinstance(cval(i), int) and cval(i) < 0):
                    return subst(e, {K: i})
                return subst(e, {K: add(N, i)})
        if i.op == "call" and callname(i) == ".index" and i.a[0].a[0] is s and len(i.a[1]) == 1:
            return i.a[1][0]
        # drop leading `one`s
    if s.op == "slice" and s.a[3] is NONE:
        lo = s.a[1]
        if lo is NONE:
            lo = ZERO
        if not (is_const(lo) and cval(lo) < 0) and not (is_const(i) and isinstance(cval(i), int) and cval(i) < 0):
            if not (i.op == "slice"):
                return item(s.a[0], add(lo, i))
    if s.op == "rev":
        return item(s.a[0], sub(sub(len_of(s.a[0]), ONE), i))
    if s.op == "store":
        b, j, v = s.a
        if i is j:
            return v
        d = sub(i, j)
        if is_num(d) and is_num(i) == is_num(j):
            if not (is_num(i) and (cval(i) < 0) != (cval(j) < 0)):
                return item(b, i)
    if s.op == "const" and s.a[0] == "tuple" and is_const(i) and isinstance(cval(i), int):
        try:
            return const(cval(s)[cval(i)])
        except Exception:
            pass
    if i.op == "call" and callname(i) == ".index" and i.a[0].a[0] is s and len(i.a[1]) == 1:
        return i.a[1][0]
    if s.op != "seq" and is_const(i) and isinstance(cval(i), int) and cval(i) < 0:
        i = add(len_of(s), i)
    return mk("item", s, i)


def slice_of(s, a, b, c):
    if is_const(c) and cval(c) == -1 and a is NONE and b is NONE:
        return rev(s)
    if is_const(c) and cval(c) == 1:
        c = NONE
    if a is ZERO:
        a = NONE
    e = exact(s) if s.op == "seq" else None
    if e is not None and all(is_const(x) for x in (a, b, c)):
        return seq(s.a[0], [one(x) for x in e[cval(a) : cval(b) : cval(c)]])
    if a is NONE and b is NONE and c is NONE:
        return s
    if c is NONE and b is len_of(s):
        b = NONE
        if a is NONE:
            return s
    if s.op == "seq" and c is NONE and is_const(a) and cval(a) is not None and b is NONE and cval(a) > 0:
        segs = s.a[1]
        if len(segs) >= cval(a) and all(x.op == "one" for x in segs[: cval(a)]):
            return seq(s.a[0], segs[cval(a) :])
    if s.op == "seq" and c is NONE and is_const(b) and cval(b) is not None and a is NONE and cval(b) < 0:
        segs = s.a[1]
        if len(segs) >= -cval(b) and all(x.op == "one" for x in segs[cval(b) :]):
            return seq(s.a[0], segs[: cval(b)])
    if s.op == "slice" and c is NONE and s.a[3] is NONE and b is NONE and s.a[2] is NONE:
        return slice_of(s.a[0], add(s.a[1] if s.a[1] is not NONE else ZERO, a), NONE, NONE)
    return mk("slice", s, a, b, c)


def callname(t):
    """dotted name of an opaque call: 'numpy.zeros', '.append' for methods"""
    if t.op != "call":
        return None
    f = t.a[0]
    if f.op == "ext":
        return f.a[0]
    if f.op == "attr":
        return "." + f.a[1]
    return None


def call(fn, args, kwargs=()):
    return mk("call", fn, tuple(args), tuple(sorted(kwargs)))


def extcall(name, *args, **kw):
    return call(mk("ext", name), args, tuple(kw.items()))


# ---------------------------------------------------------------- traversal
FREE = ("sym", "idx", "carry", "ref", "top", "bv", "bc")
LEAF = ("const", "sym", "idx", "carry", "ref", "ext", "cls", "func", "module", "enum", "top", "bv", "bc")
BINDERS = ("map", "fold", "forall", "maparr", "lam")


def bound(t):
    """variables bound by a binder term"""
    return tuple(x for x in t.a[:2 if t.op == "fold" else 1] if isinstance(x, T) and x.op in ("bv", "bc"))


def children(t):
    for x in t.a:
        yield from _ch(x)


def _ch(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _ch(y)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def syms(t):
    """free symbols"""
    if t._syms is None:
        s = set()
        if t.op in FREE:
            s.add(t)
        for c in children(t):
            s |= syms(c)
        if t.op in BINDERS:
            s -= set(bound(t))
        t._syms = frozenset(s)
    return t._syms


def height(t):
    if t._h is None:
        h = max([height(c) for c in children(t)], default=0)
        if t.op in BINDERS:
            h = max(h, t.a[0].a[0])
        t._h = h
    return t._h


def depends(t, x):
    return x in syms(t) if x.op in FREE else any(y is x for y in walk(t))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def _hmax(x):
    if isinstance(x, T):
        return height(x)
    if isinstance(x, tuple):
        return max([_hmax(y) for y in x], default=0)
    return 0


def _close(vars_, body):
    """rename the index variables of `body` to canonical bound variables"""
    h = 1 + _hmax(body)
    names = [mk("bv" if i == 0 else "bc", h) for i in range(len(vars_))]
    m = dict(zip(vars_, names))
    return names, _map(body, lambda t: subst(t, m))


def mapseg(K, N, cases):
    """segment: for K in [0, N): the segments of the case whose facts hold"""
    cases = tuple((tuple(f), tuple(g)) for f, g in cases)
    (bv,), cases = _close([K], cases)
    cases = tuple((f, seq("list", g).a[1]) for f, g in cases)
    if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == "one":
        e = cases[0][1][0].a[0]
        # identity copy of a whole sequence
        if e.op == "item" and e.a[1] is bv and bv not in syms(e.a[0]) and len_of(e.a[0]) is N:
            return star(e.a[0])
    return mk("map", bv, N, cases)


def fold(K, C, N, init, cases):
    if N is ZERO:
        return init
    (bv, bc), cases = _close([K, C], tuple((tuple(f), v) for f, v in cases))
    isnone = eq(bc, NONE)
    if any(isnone in f or nott(isnone) in f for f, v in cases):
        # "nothing accumulated yet" cannot happen when every value is an object
        rest = tuple((tuple(x for x in f if x is not nott(isnone)), v) for f, v in cases if isnone not in f)
        if rest and _nonnull(init) and all(_nonnull(v) for f, v in rest):
            cases = rest
    if len(cases) > 1 and _numeric(init) and init.op != "sym":
        # one case adds a fixed amount; the others never come up along the way
        for f, v in cases:
            dl = sub(v, bc) if _numeric(v) else None
            if dl is not None and not {bv, bc} & syms(dl):
                k = fresh()
                m = {bc: add(init, mul(k, dl)), bv: k}
                if all(g is f or any(subst(x, m) is FALSE for x in g) for g, w in cases) and not any(subst(x, m) is FALSE for x in f):
                    return add(init, mul(N, dl))
    return mk("fold", bv, bc, N, init, cases)


def _nonnull(t):
    return t.op in ("call", "poly", "mod", "idiv", "fold", "obj", "seq", "len", "fstr") or (
        t.op == "const" and cval(t) is not None) or (t.op == "attr" and t.a[1] == "unitary")


def forall(K, N, conds):
    conds = tuple(sorted(set(conds), key=lambda t: t.n))
    (bv,), conds = _close([K], conds)
    return mk("forall", bv, N, conds)


def maparr(K, N, base, cases):
    """array `base` after: for K in [0, N): base[idx] = value of the case whose facts hold"""
    (bv,), cases = _close([K], tuple((tuple(f), i, v) for f, i, v in cases))
    if len(cases) == 1 and not cases[0][0] and cases[0][1] is bv and base.op == "seq" and len_of(base) is N:
        # every entry is overwritten, in order
        return seq(base.a[0], [mapseg(bv, N, [((), (one(cases[0][2]),))])])
    return mk("maparr", bv, N, base, cases)


def subst(t, m):
    memo = {}
    free = all(k.op in FREE for k in m)

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if free and not any(k in syms(t) for k in m):
            return t
        if t.op in BINDERS and any(b in m for b in bound(t)):
            bs = set(bound(t))
            m2 = {k: v for k, v in m.items() if k not in bs}
            # the bounds (N, init, base) are outside the scope of the variable
            r = _rebuild_binder(t, go, lambda x: subst(x, m2) if m2 else x)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


_fresh = [0]


def fresh(kind="idx", label="f"):
    _fresh[0] += 1
    return mk(kind, f"{label}#{_fresh[0]}")


def _rebuild_binder(t, f, g):
    """f for the parts outside the scope of the bound variables, g inside"""
    op, a = t.op, t.a
    if op == "map":
        K = fresh()
        cases = _map(a[2], lambda x: subst(g(x), {a[0]: K}))
        return mapseg(K, f(a[1]), cases)
    if op == "fold":
        K, C = fresh(), fresh("carry")
        cases = _map(a[4], lambda x: subst(g(x), {a[0]: K, a[1]: C}))
        return fold(K, C, f(a[2]), f(a[3]), cases)
    if op == "forall":
        K = fresh()
        return forall(K, f(a[1]), _map(a[2], lambda x: subst(g(x), {a[0]: K})))
    if op == "maparr":
        K = fresh()
        return maparr(K, f(a[1]), f(a[2]), _map(a[3], lambda x: subst(g(x), {a[0]: K})))
    if op == "lam":
        K = fresh()
        body = subst(g(a[1]), {a[0]: K})
        (bv,), body = _close([K], body)
        return mk("lam", bv, body)
    raise AssertionError(op)


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def rebuild(t, f):
    op = t.op
    if op in LEAF:
        return t
    if op in BINDERS:
        return _rebuild_binder(t, f, f)
    if op == "poly":
        r = ZERO
        for m, c in t.a[0]:
            x = const(c)
            for a, p in m:
                fa = f(a)
                x = mul(x, fa if p == 1 else power(fa, const(p)))
            r = add(r, x)
        return r
    a = tuple(_map(x, f) for x in t.a)
    if op == "le0":
        return le0(a[0])
    if op == "lt0":
        return lt(a[0], ZERO)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "eq":
        return eq(a[0], a[1])
    if op == "not":
        return nott(a[0])
    if op == "item":
        return item(a[0], a[1])
    if op == "slice":
        return slice_of(*a)
    if op == "rev":
        return rev(a[0])
    if op == "len":
        return len_of(a[0])
    if op == "mod":
        return mod(a[0], a[1])
    if op == "idiv":
        return idiv(a[0], a[1])
    if op == "seq":
        return seq(a[0], a[1])
    if op == "attr":
        return attr(a[0], a[1])
    if op in SIMPLIFY:
        return SIMPLIFY[op](*a)
    return mk(op, *a)


SIMPLIFY = {}


def attr(o, name):
    if o.op == "obj":
        for k, v in o.a[1]:
            if k == name:
                return v
    return mk("attr", o, name)


def mod(a, m):
    """a % m with the summands that are multiples of m removed"""
    if is_num(a) and is_num(m) and cval(m) != 0:
        return const(cval(a) % cval(m))
    if m is ONE:
        return ZERO
    if not _poly(m):
        return mk("mod", a, m)
    p = _poly(a)
    # inner reductions by the same modulus
    ch = True
    while ch:
        ch = False
        for mono, c in list(p.items()):
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "mod" and mono[0][0].a[1] is m and isinstance(c, int):
                del p[mono]
                for m2, c2 in _poly(mono[0][0].a[0]).items():
                    p[m2] = p.get(m2, 0) + c * c2
                ch = True
                break
    pm = _poly(m)
    if len(pm) == 1:
        (mm, mc), = pm.items()
        q = {}
        for mono, c in p.items():
            if isinstance(mc, int) and isinstance(c, int):
                if mm == ():
                    c = c % mc
                elif mc == 1 and all(dict(mono).get(x, 0) >= e for x, e in mm):
                    continue
            if c != 0:
                q[mono] = c
        p = q
    else:
        lead = max((x for x in pm if x != ()), key=lambda x: tuple(y.n for y, _ in x))
        for _ in range(8):
            if lead in p and isinstance(p[lead], int) and pm[lead] in (1, -1) and p[lead] % 1 == 0 and abs(p[lead]) < 50:
                k = p[lead] // pm[lead]
                for x, c in pm.items():
                    p[x] = p.get(x, 0) - k * c
                    if p[x] == 0:
                        del p[x]
            else:
                break
    a = _unpoly(p)
    if a is ZERO:
        return ZERO
    if is_num(a) and is_num(m):
        return const(cval(a) % cval(m))
    return mk("mod", a, m)


def idiv(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if b is ONE:
        return a
    if a is b:
        return ONE
    return mk("idiv", a, b)


# ---------------------------------------------------------------- printing
SHOWDEPTH = 9


def show(t, d=0):
    if d > SHOWDEPTH:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return a[0]
    if o == "idx":
        return a[0]
    if o == "carry":
        return f"@{a[-1]}"
    if o == "ref":
        return f"&{a[0]}"
    if o in ("ext", "cls", "func", "module", "top"):
        return f"{a[0]}"
    if o == "enum":
        return f"{a[0]}.{a[1]}"
    if o == "poly":
        parts = []
        for m, c in a[0]:
            ms = "*".join(s(x) + ("" if p == 1 else f"^{p}") for x, p in m)
            parts.append(f"{c}" if not ms else (ms if c == 1 else f"{c}*{ms}"))
        return "(" + " + ".join(parts) + ")"
    if o == "le0":
        return f"{s(a[0])}<=0"
    if o == "eq0":
        return f"{s(a[0])}==0"
    if o == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if o == "not":
        return f"not({s(a[0])})"
    if o == "mod":
        return f"({s(a[0])} % {s(a[1])})"
    if o == "idiv":
        return f"({s(a[0])} // {s(a[1])})"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "len":
        return f"len({s(a[0])})"
    if o == "rev":
        return f"rev({s(a[0])})"
    if o == "slice":
        return f"{s(a[0])}[{':'.join('' if x is NONE else s(x) for x in a[1:])}]"
    if o == "one":
        return s(a[0])
    if o == "star":
        return "*" + s(a[0])
    if o == "rep":
        return f"{s(a[0])}x{s(a[1])}"
    if o == "map":
        K, N, cases = a
        cs = " | ".join(
            (("if " + " & ".join(map(s, f)) + ": ") if f else "") + ", ".join(map(s, g)) for f, g in cases
        )
        return f"{{{cs} for {s(K)}<{s(N)}}}"
    if o == "seq":
        b = "()" if a[0] == "tuple" else "[]" if a[0] == "list" else "{}"
        return b[0] + ", ".join(map(s, a[1])) + b[1]
    if o == "call":
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o in ("bv", "bc"):
        return ("i" if o == "bv" else "acc") + str(a[0])
    if o == "forall":
        return f"forall {s(a[0])}<{s(a[1])}: {' & '.join(map(s, a[2]))}"
    if o == "obj":
        return f"{s(a[0])}<{', '.join(k + '=' + s(v) for k, v in a[1])}>"
    if o == "fold":
        K, C, N, init, cases = a
        cs = " | ".join((("if " + " & ".join(map(s, f)) + ": ") if f else "") + s(v) for f, v in cases)
        return f"fold[{s(C)}:={s(init)}; {s(K)}<{s(N)}: {cs}]"

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ",".join(map(g, x)) + ")"
        return str(x)

    return f"{o}({', '.join(map(g, a))})"
