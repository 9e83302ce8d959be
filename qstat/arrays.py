"""Entry functions of array terms: what entry (i, j) of a matrix expression is, as a
function of symbolic indices.  Nothing is computed on numbers; an array is denoted by
its shape and a function from index terms to guarded value terms."""
from terms import *
import terms as TM
from state import decide
from engine import *


class Unk(Exception):
    """an array expression whose entries are not known"""


NARROW = {f"{i}int{b}": f"numpy.{i}int{b}" for i in ("", "u") for b in ("8", "16", "32")}


class A:
    """array denotation: shape (index bounds) and entry function"""

    def __init__(self, shape, at, tab=None, row=None):
        self.shape, self.at, self.tab, self.row = tuple(shape), at, tab, row

    @property
    def nd(self):
        return len(self.shape)


def jx_term(jx):
    return mk("jx", *jx)


def cases1(v):
    return [((), v)]


def both(f, xs, ys):
    return [(c1 + c2, f(a, b)) for c1, a in xs for c2, b in ys]


def kwargs(t):
    return dict(t.a[2])


def shape_of_arg(t):
    if t.op == "seq":
        e = exact(t)
        if e is None:
            raise Unk("shape")
        return e
    return [t]


SCALAR_TAGS = ("int",)


def covers(alts):
    """one of the conjunctions holds whatever the values are (a decision tree over their own conditions)"""
    if any(not fs for fs in alts):
        return True
    if not alts:
        return False
    f = alts[0][0]
    n = TM.nott(f)
    return covers([[x for x in fs if x is not f] for fs in alts if n not in fs]) and covers([[x for x in fs if x is not n] for fs in alts if f not in fs])


class Den:
    def __init__(self, P, st):
        self.P, self.st = P, st
        self.memo = {}
        self.cmemo = {}
        self.prods = {}
        self.bounds = {}   # index -> number of values
        self.outer = set()  # indices that belong to the scene

    # ------------------------------------------------------------ scalars
    def scalar(self, t):
        """guarded scalar terms of an expression that may read array entries"""
        t = self.num(t)
        if t.op in ("const", "sym", "idx", "bv", "carry", "ext", "digit", "rank", "nth"):
            return cases1(t)
        if t.op == "lookup":
            return self.lookup(t)
        if t.op == "item":
            # chain of subscripts on an array
            base, ix = t, []
            while base.op == "item":
                i = base.a[1]
                ix = (exact(i) if i.op == "seq" and i.a[0] == "tuple" else [i]) + ix
                base = base.a[0]
                if self.isarr(base):
                    try:
                        a = self.den(base)
                    except Unk:
                        continue
                    if a.nd == len(ix):
                        res = [((), [])]
                        for j in ix:
                            res = [(c1 + c2, l + [v]) for c1, l in res for c2, v in self.scalar(j)]
                        return [(c1 + c2, v) for c1, l in res for c2, v in a.at(l)]
            if self.inttag(t):
                return cases1(t)
            if callname(t.a[0]) in ("sorted", "reversed") and self.P.tag(self.st, item(t.a[0].a[1][0], t.a[1])) == "int":
                return cases1(t)
            raise Unk(f"entry of {show(t)[:80]}")
        if t.op == "poly":
            res = cases1(ZERO)
            for m, c in t.a[0]:
                x = cases1(const(c))
                for at_, p in m:
                    y = [(cc, v if p == 1 else power(v, const(p))) for cc, v in self.scalar(at_)]
                    x = both(mul, x, y)
                res = both(add, res, x)
            return res
        if t.op in ("mod", "idiv"):
            return both(mod if t.op == "mod" else idiv, self.scalar(t.a[0]), self.scalar(t.a[1]))
        if t.op == "len":
            a = self.den(t.a[0]) if self.isarr(t.a[0]) else None
            return cases1(self.shape(a)[0] if a is not None else t)
        if t.op == "call":
            n = callname(t)
            if n in ("numpy.exp", "cmath.exp", "math.exp", "numpy.cos", "numpy.sin", "math.cos", "math.sin", "numpy.sqrt", "math.sqrt", "abs"):
                return [(c, self.fn(n, v)) for c, v in self.scalar(t.a[1][0])]
            if n == ".index" and len(t.a[1]) == 1:
                return self.index(t.a[0].a[0], t.a[1][0])
            if n in ("int", "float", "complex", "numpy.float64", "numpy.int64"):
                return self.scalar(t.a[1][0])
            if n in ("numpy.prod", "math.prod", "numpy.product", "min", "max", "sum"):
                return cases1(t)
            if n == "numpy.power" or n == "pow":
                return both(self.pow, self.scalar(t.a[1][0]), self.scalar(t.a[1][1]))
        if t.op == "bin" and t.a[0] == "**":
            return both(self.pow, self.scalar(t.a[1]), self.scalar(t.a[2]))
        if self.inttag(t):
            return cases1(t)
        r = self.memo.get(t)
        raise r if isinstance(r, Unk) else Unk(f"value of {show(t)[:80]}")

    def num(self, t):
        return t

    def inttag(self, t):
        return self.P is not None and self.P.tag(self.st, t) == "int"

    def lookup(self, t):
        """entry of a dictionary built from the positions where a condition holds"""
        c, key = t.a[0], t.a[1]
        m = simple_map(c) if c.op == "seq" else None
        if not m or m[2].op != "kv" or len(t.a) < 3:
            raise Unk("dictionary")
        K, N, kv = m
        k0 = fresh()
        kk, vv = subst(kv.a[0], {K: k0}), subst(kv.a[1], {K: k0})
        x = self.one(key)
        if kk is k0:
            inside = self.join("and", [self.range(le(ZERO, x)), self.range(lt(x, self.one(N)))])
            val = subst(vv, {k0: x})
        elif kk.op == "item" and kk.a[1] is k0 and kk.a[0].op == "item" and kk.a[0].a[1] is ZERO and callname(kk.a[0].a[0]) in ("numpy.where", "numpy.nonzero") and len(kk.a[0].a[0].a[1]) == 1:
            sh, f = self.boolarr(kk.a[0].a[0].a[1][0])
            if len(sh) != 1 or N is not len_of(kk.a[0]):
                raise Unk("dictionary")
            inside = f([x])
            val = subst(vv, {kk: x})
            if k0 in syms(val):
                raise Unk("dictionary")
        else:
            raise Unk("dictionary")
        out = []
        if inside is not FALSE:
            out += [((inside,) + g if inside is not TRUE else g, v) for g, v in self.scalar(val)]
        if inside is not TRUE:
            n = self.negation(inside)
            out += [((n,) + g, v) for g, v in self.scalar(t.a[2])]
        return out

    def index(self, L, x):
        """position of a row of digits in its table"""
        a = self.den(L)
        if a.tab is None:
            raise Unk("index")
        k = fresh()
        c = self.rows(mk("item", L, k), x) if False else self.rowis(a, k, x)
        if c.op == "eq0":
            p = TM._poly(c.a[0])
            co = p.get(((k, 1),))
            if co in (1, -1):
                return cases1(sub(k, c.a[0]) if co == 1 else add(k, c.a[0]))
        raise Unk("index")

    def rowis(self, a, k, x):
        b = self.den(x)
        if b.nd != 1:
            raise Unk("index")
        if b.row is not None and b.row[0] is a.tab:
            return eq(k, self.rank(*b.row))
        j = fresh()
        return self.every(j, a.shape[1], [self.join("or", [self.join("and", list(g) + [eq(self.digit(a.tab, k, j), v)]) for g, v in b.at([j])])])

    def fn(self, n, v):
        n = n.split(".")[-1]
        if n == "sqrt":
            return power(v, const(0.5))
        if n == "real" and is_num(v) and not isinstance(cval(v), complex):
            return v
        if n in ("conj", "conjugate"):
            return conj(v)
        return extcall("numpy." + n, v)

    def pow(self, b, e):
        if is_num(e):
            return power(b, e)
        if is_num(b) and cval(b) == -1:
            return extcall("numpy.exp", mul(mul(const(1j), mk("ext", "numpy.pi")), e))
        # (exp x)^k = exp(k x) for integer k
        p = TM._poly(b)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and callname(m[0][0]) == "numpy.exp":
                return extcall("numpy.exp", mul(mul(m[0][0].a[1][0], const(m[0][1])), e))
        return mk("bin", "**", b, e)

    # ------------------------------------------------------------ arrays
    def isarr(self, t):
        if t.op in ("seq", "store", "maparr", "call", "rev", "slice", "item", "fold", "map"):
            try:
                return self.den(t).nd > 0
            except Unk:
                return False
        if t.op in ("poly", "mod", "idiv"):
            return any(self.isarr(x) for x in (t.a if t.op != "poly" else [a for m, c in t.a[0] for a, p in m]))
        if t.op == "attr" and t.a[1] in ("T", "real", "imag"):
            return self.isarr(t.a[0])
        return False

    def den(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self.den_(t)
            except Unk as e:
                r = e
            self.memo[t] = r
        if isinstance(r, Unk):
            raise r
        return r

    def shape(self, a):
        return [self.canon_dim(x) for x in a.shape]

    def canon_dim(self, x):
        """products over neighbouring ranges of one list are one product"""
        p = TM._poly(x)
        if len(p) != 1:
            return x
        (m, c), = p.items()
        if c != 1:
            return x
        iv, rest = [], []
        for a, e in m:
            r = self.interval(a) if e == 1 else None
            if r is None:
                rest.append((a, e))
            else:
                iv.append(r)
        ch = True
        while ch and len(iv) > 1:
            ch = False
            for u in iv:
                for v in iv:
                    if u is not v and u[0] is v[0] and u[2] is v[1]:
                        iv = [w for w in iv if w is not u and w is not v] + [(u[0], u[1], v[2])]
                        ch = True
                        break
                if ch:
                    break
        r = ONE
        for L, lo, hi in iv:
            n = sub(hi, lo)
            k = fresh()
            r = mul(r, item(L, lo) if n is ONE else extcall("numpy.prod", seq("list", [mapseg(k, n, [((), (one(item(L, add(k, lo))),))])])))
        for a, e in rest:
            r = mul(r, power(a, const(e)))
        return r

    def interval(self, a):
        if a.op == "item":
            return (a.a[0], a.a[1], add(a.a[1], ONE))
        if callname(a) in ("numpy.prod", "math.prod", "numpy.product") and len(a.a[1]) == 1 and not a.a[2]:
            L = a.a[1][0]
            if L.op == "seq":
                m = simple_map(L)
                if m and m[2].op == "item" and m[0] not in syms(m[2].a[0]):
                    lo = sub(m[2].a[1], m[0])
                    if m[0] not in syms(lo):
                        return (m[2].a[0], lo, add(lo, m[1]))
                if len(L.a[1]) == 1 and L.a[1][0].op == "star":
                    L = L.a[1][0].a[0]
                elif not m:
                    return None
            if L.op == "slice" and L.a[3] is NONE:
                lo = L.a[1] if L.a[1] is not NONE else ZERO
                return (L.a[0], lo, L.a[2] if L.a[2] is not NONE else len_of(L.a[0]))
            if L.op in ("sym", "item", "attr"):
                return (L, ZERO, len_of(L))
        return None

    def den_(self, t):
        op = t.op
        if op == "attr" and t.a[1] == "T":
            return self.transpose(self.den(t.a[0]))
        if op == "attr" and t.a[1] in ("real", "imag"):
            return self.elementwise([t.a[0]], lambda l: self.fn("numpy." + t.a[1], l[0]))
        if op == "seq":
            return self.den_seq(t)
        if op == "slice":
            a = self.den(t.a[0])
            if t.a[3] is NONE and a.nd == 1:
                lo = t.a[1] if t.a[1] is not NONE else ZERO
                n = len_of(t)
                if n.op != "len":
                    return A([n], lambda ix: a.at([add(ix[0], lo)]))
            n, f = self.cut(a.shape[0], *t.a[1:])
            return A([n] + list(a.shape[1:]), lambda ix: a.at([f(ix[0])] + list(ix[1:])))
        if op == "rev":
            a = self.den(t.a[0])
            return A(a.shape, lambda ix: a.at([sub(sub(a.shape[0], ONE), ix[0])] + ix[1:]))
        if op == "item":
            return self.den_item(t)
        if op == "store":
            return self.den_store(t)
        if op == "maparr":
            return self.den_maparr(t)
        if op == "eq0" or op == "not":
            raise Unk("truth values")
        if op == "fold":
            return self.den_fold(t)
        if op == "poly":
            return self.den_poly(t)
        if op in ("mod", "idiv"):
            f = mod if op == "mod" else idiv
            return self.elementwise([t.a[0], t.a[1]], lambda xs: f(*xs))
        if op == "bin" and t.a[0] == "**":
            return self.elementwise([t.a[1], t.a[2]], lambda xs: self.pow(*xs))
        if op == "call":
            return self.den_call(t)
        raise Unk(f"array {show(t)[:60]}")

    def cut(self, L, lo, hi, step=NONE):
        """length of a slice of a sequence of length L, and where its elements come from"""
        if step is not NONE and not (is_num(step) and isinstance(cval(step), int) and cval(step)):
            raise Unk("slice step")
        k = 1 if step is NONE else cval(step)
        if k < 0:
            if lo is NONE and hi is NONE and k == -1:
                return L, lambda i: sub(sub(L, ONE), i)
            raise Unk("slice step")

        def clip(x, dflt):
            if x is NONE or x is dflt:
                return dflt
            if is_num(x) and cval(x) < 0:
                x = add(L, x)
            if decide(self.st, le(ZERO, x)) is not True:
                raise Unk("slice bound")
            if decide(self.st, le(x, L)) is True:
                return x
            if decide(self.st, le(L, x)) is True:
                return L
            raise Unk("slice bound")

        a, b = clip(lo, ZERO), clip(hi, L)
        if a is not ZERO and b is not L and decide(self.st, le(a, b)) is not True:
            raise Unk("slice bounds")
        n = sub(b, a)
        if k > 1:
            n = idiv(add(n, const(k - 1)), const(k))
        return n, lambda i: add(a, mul(i, const(k)))

    # ---- lists
    def elem(self, e, rest):
        if rest:
            return self.den(e).at(rest)
        return self.scalar(e)

    def inner(self, e):
        """shape of a list element"""
        if self.isarr(e):
            return list(self.den(e).shape)
        self.scalar(e)
        return []

    def choices(self, K, N, cs):
        """a list whose elements are chosen among alternatives"""
        if any(len(b) != 1 or b[0].op != "one" for fs, b in cs):
            raise Unk("filtered list")
        rest = [list(fs) for fs, b in cs]
        if not covers(rest):
            raise Unk("filtered list")
        k0 = fresh()
        shs = [[self.canon_dim(x) for x in self.inner(subst(b[0].a[0], {K: k0}))] for fs, b in cs]
        if any(sh != shs[0] for sh in shs) or any(k0 in syms(x) for x in shs[0]):
            raise Unk("ragged")

        def at(ix):
            out = []
            for fs, b in cs:
                g = self.join("and", [self.cond(subst(f, {K: ix[0]})) for f in fs])
                if g is FALSE:
                    continue
                out += [((g,) + c if g is not TRUE else c, v) for c, v in self.elem(subst(b[0].a[0], {K: ix[0]}), ix[1:])]
            return out
        return A([N] + shs[0], at)

    def den_seq(self, t):
        segs = t.a[1]
        if not segs:
            raise Unk("empty list")
        m = simple_map(t)
        if m:
            K, N, e = m
            k0 = fresh()
            sh = [self.canon_dim(x) for x in self.inner(subst(e, {K: k0}))]
            if any(k0 in syms(x) for x in sh):
                raise Unk("ragged "+" ".join(show(x) for x in sh))
            return A([N] + sh, lambda ix: self.elem(subst(e, {K: ix[0]}), ix[1:]))
        if len(segs) == 1 and segs[0].op == "star":
            return self.den(segs[0].a[0])
        if len(segs) == 1 and segs[0].op in ("map", "rep"):
            g = segs[0]
            if g.op == "rep":
                cnt, body, K = g.a[1], g.a[0], None
                if body.op == "seq":
                    body = body.a[1]
                else:
                    body = (star(body),)
            else:
                K, cnt, cs = g.a
                if len(cs) > 1:
                    return self.choices(K, cnt, cs)
                if cs[0][0]:
                    raise Unk("filtered list")
                body = cs[0][1]
            if len(body) == 1 and body[0].op == "one":
                e = body[0].a[0]
                sh = self.inner(e)
                return A([cnt] + sh, lambda ix: self.elem(e if K is None else subst(e, {K: ix[0]}), ix[1:]))
            # equally long blocks, one after the other
            blk = seq("list", body)
            b0 = self.den(blk)
            L = b0.shape[0]
            if K is not None and K in syms(L):
                raise Unk("blocks of different length")
            return A([mul(cnt, L)] + list(b0.shape[1:]), lambda ix: (self.den(blk) if K is None or K not in syms(blk) else self.den(subst(blk, {K: idiv(ix[0], L)}))).at([mod(ix[0], L)] + list(ix[1:])))
        sh = None
        parts = []
        off = ZERO
        for g in segs:
            if g.op == "one":
                s = self.inner(g.a[0])
                parts.append((off, ONE, lambda k, rest, e=g.a[0]: self.elem(e, rest)))
                off = add(off, ONE)
            else:
                a = self.den(seq("list", [g]))
                s = list(a.shape[1:])
                parts.append((off, a.shape[0], lambda k, rest, a=a: a.at([k] + list(rest))))
                off = add(off, a.shape[0])
            sh = s if sh is None else sh
            if len(sh) != len(s):
                raise Unk("ragged "+" ".join(show(x) for x in sh))

        def at(ix):
            out = []
            i = ix[0]
            if is_const(i) and all(is_const(o) and is_const(n) for o, n, f in parts):
                for o, n, f in parts:
                    if cval(o) <= cval(i) < cval(o) + cval(n):
                        return f(sub(i, o), ix[1:])
                raise Unk("index out of range")
            for o, n, f in parts:
                if n is ONE:
                    cs = (eq(i, o),)
                else:
                    cs = tuple(c for c in (le(o, i), lt(i, add(o, n))) if c is not TRUE)
                out += [(cs + c, v) for c, v in f(sub(i, o), ix[1:])]
            return out

        return A([off] + sh, at)

    # ---- subscripts
    def den_item(self, t):
        b, i = t.a
        if i is ZERO and callname(b) in ("numpy.where", "numpy.nonzero", ".nonzero"):
            x = b.a[1][0] if b.a[1] else b.a[0].a[0]
            return self.positions(x) if len(b.a[1]) <= 1 else self.den_none("where")
        a = self.den(b)
        ix = self.dots(exact(i) if i.op == "seq" and i.a[0] == "tuple" else [i], a)
        if ix is None:
            raise Unk("index")
        if any(x.op in ("slice", "sl") or x is NONE for x in ix):
            return self.axes(a, ix)
        if len(ix) == 1 and self.isarr(i):
            L = self.den(i)
            if L.nd != 1:
                raise Unk("index array")
            return A([L.shape[0]] + list(a.shape[1:]), lambda jx: [(c1 + c2, v) for c1, p in L.at([jx[0]]) for c2, v in a.at([p] + list(jx[1:]))])
        if len(ix) >= a.nd + 1:
            raise Unk("too many indices")
        fixed = [((), [])]
        for k, x in enumerate(ix):
            vs = self.scalar(x)
            vs = [(c, self.wrap(v, a.shape[k])) for c, v in vs]
            fixed = [(c1 + tuple(c2), l + [v]) for c1, l in fixed for c2, v in vs]
        if len(fixed) == 1 and not fixed[0][0]:
            l = fixed[0][1]
            r = A(a.shape[len(ix):], lambda jx: a.at(l + list(jx)))
            if a.tab is not None and len(l) == 1:
                r.row = (a.tab, l[0], ())
            return r
        return A(a.shape[len(ix):], lambda jx: [(c1 + tuple(c2), v) for c1, l in fixed for c2, v in a.at(l + list(jx))])

    def wrap(self, v, n):
        """position that an index denotes: negative ones count from the end"""
        if is_num(v):
            return add(n, v) if cval(v) < 0 else v
        if v.op in ("bv", "idx", "digit", "mod", "len") or self.st is None:
            return v
        d = decide(self.st, le(ZERO, v))
        if d is True or v.op in ("item", "sym") and self.P.tag(self.st, v) != "int":
            return v
        if decide(self.st, lt(v, ZERO)) is True:
            return add(n, v)
        if any(c < 0 for m, c in TM._poly(v).items()):
            return mod(v, n)
        return v

    def axes(self, a, ix):
        """an index with full or partial ranges and new axes"""
        shp, src, k = [], [], 0
        for x in ix:
            if x is NONE or x.op == "ext" and str(x.a[0]).endswith("newaxis"):
                shp.append(ONE)
                continue
            if k >= a.nd:
                raise Unk("too many indices")
            if x.op == "sl":
                n, f = self.cut(a.shape[k], *x.a)
                src.append((len(shp), f))
                shp.append(n)
            elif self.isarr(x) or x.op not in ("sym", "const", "item", "poly", "mod", "idiv", "digit", "bv", "idx"):
                raise Unk("slice index")
            else:
                v = self.wrap(self.one(x), a.shape[k])
                src.append((None, v))
            k += 1
        for j in range(k, a.nd):
            src.append((len(shp), lambda i: i))
            shp.append(a.shape[j])
        return A(shp, lambda jx: a.at([v if p is None else v(jx[p]) for p, v in src]))

    def den_none(self, why):
        raise Unk(why)

    def den_store(self, t):
        b, i, v = t.a
        a = self.den(b)
        ix = self.dots(exact(i) if i.op == "seq" and i.a[0] == "tuple" else [i], a)
        if ix is None or any(x.op == "slice" or x.op != "sl" and self.isarr(x) for x in ix):
            raise Unk("store index")
        if any(x.op == "sl" for x in ix):
            return self.fill(a, ix, v)
        pos = [self.scalar(x) for x in ix]
        if any(len(p) != 1 for p in pos):
            raise Unk("store index")
        pos = [p[0][1] for p in pos]
        pos = [self.wrap(x, a.shape[k]) for k, x in enumerate(pos)]

        def at(jx):
            hit = tuple(c for c in (eq(x, p) for x, p in zip(jx, pos)) if c is not TRUE)
            if any(c is FALSE for c in hit):
                return a.at(list(jx))
            rest = list(jx[len(pos):])
            if rest and self.isarr(v):
                vals = self.den(v).at(rest)
            else:
                vals = self.scalar(v)
            out = [(hit + c, x) for c, x in vals]
            if hit:
                out += [((mk("not", mk("and", *hit)) if len(hit) > 1 else nott(hit[0]),) + c, x) for c, x in a.at(list(jx))]
            return out

        r = A(a.shape, at)
        if a.row is not None and len(pos) == 1:
            vs = self.scalar(v)
            if len(vs) == 1 and not vs[0][0]:
                r.row = (a.row[0], a.row[1], a.row[2] + ((pos[0], vs[0][1]),))
        return r

    def dots(self, ix, a):
        """an ellipsis stands for the axes that are not named"""
        at = [k for k, x in enumerate(ix or ()) if x.op == "ext" and x.a[0] == "..." or x.op == "builtin" and x.a[0] == "Ellipsis"]
        if len(at) != 1:
            return ix
        n = a.nd - (len(ix) - 1)
        if n < 0:
            raise Unk("too many indices")
        return list(ix[:at[0]]) + [mk("sl", NONE, NONE, NONE)] * n + list(ix[at[0] + 1:])

    def fill(self, a, ix, v):
        """an assignment to whole rows or columns"""
        if len(ix) > a.nd:
            raise Unk("store index")
        part = []

        def bound(x, L, dflt):
            """a bound of a slice that need not be cut off at the end"""
            if x is NONE:
                return dflt
            if is_num(x):
                return add(L, x) if cval(x) < 0 else x
            if x.op in ("idx", "rank", "digit") or decide(self.st, le(ZERO, x)) is True:
                return self.one(x)
            return None
        for k, x in enumerate(ix):
            if x.op == "sl" and x.a[2] is NONE and any(y is not NONE for y in x.a) and not self.isarr(v):
                lo, hi = bound(x.a[0], a.shape[k], ZERO), bound(x.a[1], a.shape[k], a.shape[k])
                if lo is not None and hi is not None:
                    part.append((k, lo, hi))
                    continue
            if x.op == "sl" and any(y is not NONE for y in x.a):
                n, f = self.cut(a.shape[k], *x.a)
                lo = f(ZERO)
                if sub(f(ONE), lo) is not ONE:
                    raise Unk("store index")
                part.append((k, lo, add(lo, n)))
        ix = list(ix) + [None] * (a.nd - len(ix))
        fix = [(k, self.one(x)) for k, x in enumerate(ix) if x is not None and x.op != "sl"]
        fix = [(k, add(a.shape[k], x) if is_num(x) and cval(x) < 0 else x) for k, x in fix]
        free = [k for k in range(a.nd) if k not in dict(fix)]
        val = self.den(v) if self.isarr(v) else None
        if val is not None and val.nd > len(free):
            raise Unk("store shape")

        def at(jx):
            hit = tuple(c for c in [eq(jx[k], p) for k, p in fix] + [f for k, lo, hi in part for f in (le(lo, jx[k]), lt(jx[k], hi))] if c is not TRUE and decide(self.st, c) is not True)
            if any(c is FALSE for c in hit):
                return a.at(list(jx))
            first = {k: lo for k, lo, hi in part}
            fr = [sub(jx[k], first[k]) if k in first else jx[k] for k in free]
            if val is None:
                vals = self.scalar(v)
            else:
                q = fr[len(fr) - val.nd:]
                vals = val.at([ZERO if val.shape[i] is ONE else x for i, x in enumerate(q)])
            out = [(hit + c, x) for c, x in vals]
            if hit:
                out += [((mk("not", mk("and", *hit)) if len(hit) > 1 else nott(hit[0]),) + c, x) for c, x in a.at(list(jx))]
            return out

        return A(a.shape, at)

    # ---- conditions
    def cond(self, c):
        """a condition with every table read turned into digits"""
        r = self.cmemo.get(c)
        if r is None:
            try:
                r = self.cond_(c)
            except Unk as e:
                r = e
            self.cmemo[c] = r
        if isinstance(r, Unk):
            raise r
        return r

    def one(self, t):
        s = self.scalar(t)
        if len(s) != 1 or s[0][0]:
            raise Unk("guarded value in a condition")
        return s[0][1]

    def guarded(self, vs, f):
        return self.join("or", [self.join("and", [self.cond(g) for g in gs] + [f(v)]) for gs, v in vs])

    def positions(self, x):
        """the positions where an array of truth values holds, ascending"""
        sh, f = self.boolarr(x)
        if len(sh) != 1:
            raise Unk("where")
        k = fresh()
        c = f([k])
        if c.op == "eq0":
            p = TM._poly(c.a[0])
            co = p.get(((k, 1),))
            if co in (1, -1):
                e = sub(k, c.a[0]) if co == 1 else add(k, c.a[0])
                if k not in syms(e) and e in self.bounds:
                    return A([ONE], lambda ix: cases1(e))
        return A([mk("howmany", x)], lambda ix: cases1(mk("nth", x, ix[0])))

    def cond_(self, c):
        op = c.op
        if is_const(c):
            return c
        if op in ("and", "or"):
            return self.join(op, [self.cond(x) for x in c.a])
        if op == "not":
            return self.negation(self.cond(c.a[0]))
        if op == "forall":
            K, N, cs = c.a
            k = fresh()
            cs = [self.cond(subst(x, {K: k})) for x in cs]
            n = self.one(N)
            return self.every(k, n, cs)
        if op == "truth":
            return self.truth(c.a[0])
        if op in ("eq0", "le0"):
            if any(self.isarr(x) for m in TM._poly(c.a[0]) for x, p in m):
                raise Unk("comparison of arrays")
            return self.guarded(self.scalar(c.a[0]), lambda v: eq(v, ZERO) if op == "eq0" else self.range(le0(v)))
        if op == "eq":
            if self.isarr(c.a[0]) or self.isarr(c.a[1]):
                raise Unk("comparison of arrays")
            if c.a[0].op == "seq" or c.a[1].op == "seq":
                return self.rows(c.a[0], c.a[1])
            return eq(self.one(c.a[0]), self.one(c.a[1]))
        raise Unk(f"condition {show(c)[:60]}")

    def range(self, c):
        """row indices, digits and positions lie in their ranges"""
        if c.op == "le0":
            for x in list(syms(c)) + [y for y in walk(c) if y.op in ("digit", "rank")]:
                if le(ZERO, x) is c:
                    if x in self.bounds or x.op in ("digit", "rank"):
                        return TRUE
                n = self.bounds.get(x) if x.op not in ("digit", "rank") else None
                if n is not None and lt(x, n) is c:
                    return TRUE
                if x.op == "rank" and lt(x, extcall("numpy.prod", x.a[0])) is c:
                    return TRUE
        return c

    def join(self, op, xs):
        unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
        out = []
        for x in xs:
            for y in x.a if x.op == op else [x]:
                if y is zero:
                    return zero
                if y is not unit and y not in out:
                    out.append(y)
        if not out:
            return unit
        return out[0] if len(out) == 1 else mk(op, *sorted(out, key=lambda t: t.n))

    def negation(self, c):
        if c.op in ("and", "or"):
            return self.join("or" if c.op == "and" else "and", [self.negation(x) for x in c.a])
        return nott(c)

    def every(self, k, n, cs):
        cs = [y for x in cs for y in (x.a if x.op == "and" else [x]) if y is not TRUE]
        if not cs:
            return TRUE
        if n is ONE:
            return self.join("and", [subst(x, {k: ZERO}) for x in cs])
        if is_const(n) and isinstance(cval(n), int) and cval(n) <= 4:
            return self.join("and", [subst(x, {k: const(i)}) for x in cs for i in range(cval(n))])
        # the order in which a list is gone through does not matter
        for x in {y for c in cs for y in walk(c) if y.op == "item" and y.a[1] is k and callname(y.a[0]) in ("sorted", "reversed", "numpy.sort") or y.op == "item" and y.a[1] is k and y.a[0].op == "rev"}:
            L = x.a[0].a[0] if x.a[0].op == "rev" else x.a[0].a[1][0]
            if n is len_of(L) or n is len_of(x.a[0]):
                k2 = fresh()
                cs2 = [subst(c, {x: item(L, k2)}) for c in cs]
                if not any(k in syms(c) for c in cs2):
                    return self.every(k2, len_of(L), cs2)
        if len(cs) == 1:
            r = self.rankform(k, n, cs[0])
            if r is not None:
                return r
        return forall(k, n, cs)

    def rankform(self, k, n, c):
        """every digit of one row equals the digit of another, but for replaced positions"""
        def atoms(c):
            """digit(Q, x, k) == v, v free of k or a digit at k"""
            if c.op != "eq0":
                return None
            p = TM._poly(c.a[0])
            out = []
            for m, co in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "digit" and m[0][0].a[2] is k and co in (1, -1):
                    d = m[0][0]
                    v = sub(d, c.a[0]) if co == 1 else add(d, c.a[0])
                    if k not in syms(v) or v.op == "digit" and v.a[2] is k:
                        out.append((d.a[0], d.a[1], v))
            return out

        def parse(c):
            if c.op == "eq0":
                return [(Q, x, v.a[1], ()) for Q, x, v in atoms(c) or () if v.op == "digit" and v.a[0] is Q and v.a[2] is k]
            if c.op == "or" and len(c.a) == 2:
                for a, b in (c.a, c.a[::-1]):
                    ac = list(a.a) if a.op == "and" else [a]
                    bc = list(b.a) if b.op == "and" else [b]
                    for g in ac:
                        if g.op != "eq0" or nott(g) not in bc:
                            continue
                        pg = TM._poly(g.a[0])
                        co = pg.get(((k, 1),))
                        if co not in (1, -1):
                            continue
                        p = sub(k, g.a[0]) if co == 1 else add(k, g.a[0])
                        ar, br = [y for y in ac if y is not g], [y for y in bc if y is not nott(g)]
                        if k in syms(p) or len(ar) != 1 or len(br) != 1:
                            continue
                        out = []
                        for Q, x, y, u in parse(br[0]):
                            for Q2, x2, v in atoms(ar[0]) or ():
                                if Q2 is Q and x2 is x and k not in syms(v):
                                    out.append((Q, x, y, ((p, v),) + u))
                        return out
            return []

        for Q, x, y, u in parse(c):
            if n is len_of(Q.a[0] if Q.op == "lowfirst" else Q):
                return eq(x, self.rank(Q, y, u))
        return None

    def flatset(self, cs):
        """conjunction as a list of conditions; None when it cannot hold"""
        out = []
        for c in cs:
            c = self.cond(c)
            for y in c.a if c.op == "and" else [c]:
                if y is FALSE:
                    return None
                if y is not TRUE and y not in out:
                    out.append(y)
        return out

    def truth(self, x):
        n = callname(x)
        if n in ("numpy.all", "numpy.alltrue", "all", ".all") or n in ("numpy.any", "numpy.sometrue", "any", ".any"):
            y = x.a[1][0] if not n.startswith(".") else x.a[0].a[0]
            if n.startswith(".") and (x.a[1] or x.a[2]) or len(x.a[1]) > 1 or x.a[2]:
                raise Unk("axis")
            return self.quant(y, n.strip(".").split(".")[-1] in ("all", "alltrue"))
        if n in ("numpy.array_equal",):
            return self.rows(x.a[1][0], x.a[1][1])
        if x.op in ("eq0", "le0", "eq", "not", "and", "or", "forall"):
            return self.cond(x)
        if self.isarr(x) or x.op == "item":
            v = self.one(x)
            if v.op == "bool":
                return v.a[0]
        raise Unk(f"truth of {show(x)[:60]}")

    def boolarr(self, x):
        """(shape, condition at an index) of an array of truth values"""
        if x.op in ("eq0", "le0"):
            a = self.den(x.a[0])

            def at(ix):
                return self.guarded(a.at(ix), lambda v: eq(v, ZERO) if x.op == "eq0" else self.range(le0(v)))

            return a.shape, at
        if x.op == "not":
            sh, f = self.boolarr(x.a[0])
            return sh, lambda ix: self.negation(f(ix))
        if x.op == "eq":
            return self.boolarr(mk("eq0", sub(x.a[0], x.a[1])))
        n = callname(x)
        if n in ("numpy.logical_and", "numpy.logical_or", "numpy.bitwise_and", "numpy.bitwise_or"):
            (s1, f1), (s2, f2) = self.boolarr(x.a[1][0]), self.boolarr(x.a[1][1])
            if len(s1) != len(s2):
                raise Unk("shapes")
            return s1, lambda ix: self.join("and" if n.endswith("and") else "or", [f1(ix), f2(ix)])
        if n in ("numpy.all", "numpy.any", ".all", ".any"):
            y = x.a[1][0] if not n.startswith(".") else x.a[0].a[0]
            rest = list(x.a[1][1:] if not n.startswith(".") else x.a[1])
            ax = kwargs(x).get("axis", rest[0] if rest else None)
            sh, f = self.boolarr(y)
            if ax is None or not is_const(ax) or len(sh) != 2:
                raise Unk("axis")
            ax = cval(ax) % 2
            al = n.endswith("all")

            def at(ix):
                k = fresh()
                j = [ix[0], k] if ax == 1 else [k, ix[0]]
                c = f(j)
                return self.every(k, sh[ax], [c]) if al else self.negation(self.every(k, sh[ax], [self.negation(c)]))

            return (sh[1 - ax],), at
        raise Unk(f"truth array {show(x)[:60]}")

    def quant(self, y, al):
        if al and y.op in ("eq0", "eq"):
            p = list(TM._poly(y.a[0]).items()) if y.op == "eq0" else []
            if len(p) == 2 and p[0][1] == -p[1][1] and all(len(m) == 1 and m[0][1] == 1 for m, c in p):
                r = self.rowpair(p[0][0][0][0], p[1][0][0][0])
                if r is not None:
                    return r
        if y.op == "seq":
            m = simple_map(y)
            if m:
                k = fresh()
                c = self.truth_or_cond(subst(m[2], {m[0]: k}))
                n = self.one(m[1])
            else:
                e = exact(y)
                if e is None:
                    raise Unk("quantifier")
                return self.join("and" if al else "or", [self.truth_or_cond(z) for z in e])
        else:
            sh, f = self.boolarr(y)
            if len(sh) != 1:
                raise Unk("quantifier")
            k, n = fresh(), sh[0]
            c = f([k])
        return self.every(k, n, [c]) if al else self.negation(self.every(k, n, [self.negation(c)]))

    def truth_or_cond(self, c):
        return self.cond(c) if c.op in ("eq0", "le0", "eq", "not", "and", "or", "forall", "truth") else self.truth(c)

    def rowpair(self, x, y):
        """two digit rows are the same digits"""
        try:
            a, b = self.den(x), self.den(y)
        except Unk:
            return None
        if a.row is None or b.row is None:
            return None
        (Q, r, u), (Q2, r2, u2) = a.row, b.row
        if Q is not Q2:
            return None
        if u and u2:
            return None
        if u:
            (r, u), (r2, u2) = (r2, u2), (r, u)
        return eq(r, self.rank(Q, r2, u2))

    def rank(self, Q, r, u):
        return mk("rank", Q, r, tuple(u)) if u else r

    def rows(self, x, y):
        """equality of two sequences of the same length"""
        strip = lambda t: t.a[1][0].a[0] if t.op == "seq" and len(t.a[1]) == 1 and t.a[1][0].op == "star" else t
        r = self.rowpair(strip(x), strip(y))
        if r is not None:
            return r
        a, b = self.den(x), self.den(y)
        if a.nd != 1 or b.nd != 1 or a.shape[0] is not b.shape[0]:
            raise Unk("comparison of sequences")
        k = fresh()
        u, v = a.at([k]), b.at([k])
        if len(u) != 1 or len(v) != 1 or u[0][0] or v[0][0]:
            raise Unk("guarded value in a condition")
        return self.every(k, a.shape[0], [eq(u[0][1], v[0][1])])

    def solve(self, conds, value, keep):
        """eliminate the indices found by a search: an index the conditions fix is replaced"""
        conds = list(conds)
        found = False
        while True:
            ks = {x for c in conds for x in syms(c) if x.op == "idx"} | {x for x in syms(value) if x.op == "idx"}
            ks = {k for k in ks if k not in keep and k not in self.outer}
            if not ks:
                break
            for k in sorted(ks, key=lambda t: t.n):
                sol = None
                for c in conds:
                    if c.op == "eq0":
                        p = TM._poly(c.a[0])
                        co = p.get(((k, 1),))
                        if co in (1, -1):
                            e = sub(k, c.a[0]) if co == 1 else add(k, c.a[0])
                            if k not in syms(e):
                                sol = (c, e)
                                break
                if sol:
                    c, e = sol
                    conds = [x for x in conds if x is not c]
                    conds = self.flatset([subst(x, {k: e}) for x in conds])
                    value = subst(value, {k: e})
                    found = True
                    if conds is None:
                        return None
                    break
            else:
                raise Unk("search with no unique solution: " + "; ".join(show(x) for x in conds) + " :: " + " ".join(show(k) for k in ks))
        return conds, value, found

    def den_maparr(self, t):
        K, N, base, cs = t.a
        a = self.den(base)

        def at(jx):
            groups = []
            for f, i, v in cs:
                ii = exact(i) if i.op == "seq" and i.a[0] == "tuple" else [i]
                if ii is None:
                    raise Unk("store index")
                # the round that writes this entry
                k = None
                for x, y in zip(ii, jx):
                    if x is K:
                        k = y
                    elif k is None and K in syms(x) and K not in syms(sub(x, K)):
                        k = sub(y, sub(x, K))
                if k is None:
                    raise Unk("store in a loop")
                m = {K: k}
                hit = [eq(subst(x, m), y) for x, y in zip(ii, jx)]
                rng = [] if any(x is K and self.same_dim(N, a.shape[p]) for p, x in enumerate(ii)) else [le(ZERO, k), lt(k, N)]
                conds = self.flatset([c for c in hit + rng if c is not TRUE] + [subst(c, m) for c in f])
                if conds is None:
                    continue
                sv = subst(v, m)
                r = self.solve(conds, sv, syms(jx_term(jx)))
                if r is None:
                    continue
                conds, sv, found = r
                groups.append((conds, sv, found, jx[len(ii):]))
            out, done = [], []
            for conds, sv, found, rest in groups:
                if any(set(d) <= set(conds) for d in done):
                    continue  # an earlier case takes all of these
                done.append(conds)
                vals = self.den(sv).at(list(rest)) if rest and self.isarr(sv) else self.scalar(sv)
                out += [(tuple(conds) + tuple(c), x) for c, x in vals]
            if any(not d for d in done):
                return out
            els = TRUE
            if done:
                els = self.negation(self.join("or", [self.join("and", d) for d in done]))
            if els is FALSE:
                return out
            return out + [((els,) + tuple(c) if els is not TRUE else tuple(c), x) for c, x in a.at(list(jx))]

        return A(a.shape, at)

    def same_dim(self, x, y):
        if x is y:
            return True
        try:
            if x.op == "len" and self.isarr(x.a[0]):
                x = self.den(x.a[0]).shape[0]
        except Unk:
            pass
        return x is y or self.dimkey(x) is self.dimkey(y)

    def dimkey(self, x):
        """products over consecutive ranges of the same list are the same number"""
        r = self.prods.get(x)
        return r if r is not None else x

    def den_fold(self, t):
        K, C, N, init, cs = t.a
        if len(cs) != 1 or cs[0][0] or cs[0][1].op != "store" or cs[0][1].a[0] is not C:
            raise Unk("loop")
        v = cs[0][1]
        a = self.den(init)
        ii = exact(v.a[1]) if v.a[1].op == "seq" and v.a[1].a[0] == "tuple" else [v.a[1]]
        if ii is None or C in syms(v.a[1]) or C in syms(v.a[2]):
            raise Unk("loop")
        m = maparr(K, N, init, [((), v.a[1], v.a[2])])
        return self.den(m)

    # ---- arithmetic
    def elementwise(self, args, f):
        ds = []
        for x in args:
            ds.append(self.den(x) if self.isarr(x) else None)
        if all(d is None for d in ds):
            raise Unk("no array among the operands")
        nd = max(d.nd for d in ds if d is not None)
        shape = [None] * nd
        for d in ds:
            if d is None:
                continue
            for k in range(d.nd):
                s = d.shape[k]
                p = nd - d.nd + k
                if shape[p] is None or shape[p] is ONE:
                    shape[p] = s

        def at(ix):
            res = [((), [])]
            for x, d in zip(args, ds):
                if d is None:
                    vs = self.scalar(x)
                else:
                    jx = ix[nd - d.nd:]
                    jx = [ZERO if d.shape[k] is ONE and shape[nd - d.nd + k] is not ONE else y for k, y in enumerate(jx)]
                    vs = d.at(jx)
                res = [(c1 + c2, l + [v]) for c1, l in res for c2, v in vs]
            return [(c, f(l)) for c, l in res]

        r = A(shape, at)
        return r

    def den_poly(self, t):
        atoms = []
        for m, c in t.a[0]:
            for a, p in m:
                if a not in atoms:
                    atoms.append(a)

        def f(vals):
            d = dict(zip(atoms, vals))
            r = ZERO
            for m, c in t.a[0]:
                x = const(c)
                for a, p in m:
                    x = mul(x, d[a] if p == 1 else power(d[a], const(p)))
                r = add(r, x)
            return r

        return self.elementwise(atoms, f)

    def transpose(self, a):
        if a.nd == 1:
            return a
        r = A(list(reversed(a.shape)), lambda ix: a.at(list(reversed(ix))))
        r.cols = a.tab
        return r

    # ---- calls
    SAME = ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.matrix", "numpy.real_if_close", "numpy.copy", "numpy.ascontiguousarray",
            "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.coo_matrix", "list", "tuple", "numpy.mat")
    SAMEM = (".toarray", ".todense", ".copy", ".tocsr", ".tolist", ".astype", ".tocsc")

    def den_call(self, t):
        n = callname(t)
        args, kw = list(t.a[1]), kwargs(t)
        if n is None:
            raise Unk("call")
        if n.startswith("."):
            recv = t.a[0].a[0]
            if n == ".matrix" and len(args) == 1:
                return self.den(args[0])
            if n == ".eye":
                p = [args[i] if i < len(args) else kw.get(k) for i, k in enumerate(("n", "m"))]
                if p[0] is None or p[1] is None:
                    raise Unk("eye")
                return self.eye(p[0], p[1])
            if n == ".astype":
                self.dtype(args[0] if args else kw.get("dtype"))
            if n in self.SAMEM:
                return self.den(recv)
            if n == ".transpose" and not args:
                return self.transpose(self.den(recv))
            if n in (".conj", ".conjugate"):
                a = self.den(recv)
                return A(a.shape, lambda ix: [(c, conj(v)) for c, v in a.at(ix)])
            if n == ".reshape" or n in (".ravel", ".flatten"):
                return self.reshape(self.den(recv), args if len(args) != 1 or args[0].op != "seq" else exact(args[0])) if n == ".reshape" else self.ravel(self.den(recv))
            raise Unk(n)
        b = n.split(".")[-1]
        if n.startswith("numpy.") and n.count(".") > 1:
            raise Unk(n)
        if n == "numpy.real_if_close" and (len(args) > 1 or kw):
            tol = args[1] if len(args) > 1 else kw.get("tol")
            if not is_const(tol):
                raise Unk("numpy.real_if_close with a tolerance that is not known")
            eff = cval(tol) * 2.3e-16 if cval(tol) > 1 else cval(tol)
            if eff > 1:                              # every imaginary part of a unitary is dropped
                return self.elementwise(args[:1], lambda l: self.fn("numpy.real", l[0]))
            if not 1 < cval(tol) <= 1e4:
                raise Unk("numpy.real_if_close with a wide tolerance")
        if n in ("numpy.array", "numpy.asarray") and ("dtype" in kw or len(args) > 1):
            self.dtype(kw.get("dtype", args[1] if len(args) > 1 else None))
        if n in self.SAME:
            return self.den(args[0])
        if not (n.startswith("numpy.") or n.startswith("scipy.") or n.startswith("itertools.") or n in ("range", "transpose")):
            raise Unk(n)
        if b in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like"):
            if b.endswith("_like"):
                sh = list(self.den(args[0]).shape)
            else:
                sh = shape_of_arg(args[0] if args else kw.get("shape"))
            v = ZERO if b.startswith("zeros") else ONE if b.startswith("ones") else (args[1] if len(args) > 1 else kw.get("fill_value")) if b == "full" else mk("top", "uninitialised")
            return A(sh, lambda ix: cases1(v))
        if b in ("eye", "identity"):
            r_ = args[0] if args else kw.get("N", kw.get("n", kw.get("m")))
            c_ = args[1] if len(args) > 1 else kw.get("M", kw.get("m", r_))
            k = kw.get("k", args[2] if len(args) > 2 else ZERO)
            return self.eye(r_, c_ if c_ is not NONE else r_, k)
        if b == "arange" or b == "range":
            narrow = None
            if "dtype" in kw or len(args) == 4:
                d = kw.get("dtype", args[3] if len(args) == 4 else None)
                narrow = NARROW.get(show(d).split(".")[-1].strip("')\"("))
                if not narrow and d is not NONE and show(d).split(".")[-1].strip("')\"(") not in ("float", "float64", "builtin(float", "double"):
                    self.dtype(d)
            if narrow and len(args) == 1:
                return A([args[0]], lambda ix: cases1(extcall(narrow, ix[0])))
            if narrow or set(kw) - {"dtype"}:
                raise Unk(n)
            if len(args) == 1:
                return A([args[0]], lambda ix: cases1(ix[0]))
            if len(args) == 2:
                return A([sub(args[1], args[0])], lambda ix: cases1(add(args[0], ix[0])))
            raise Unk(n)
        if b == "outer":
            x, y = self.ravel(self.den(args[0])), self.ravel(self.den(args[1]))
            return A([x.shape[0], y.shape[0]], lambda ix: both(mul, x.at([ix[0]]), y.at([ix[1]])))
        if b in ("exp", "cos", "sin", "sqrt", "conj", "conjugate", "real", "imag", "abs", "absolute"):
            return self.elementwise(args[:1], lambda l: self.fn(n, l[0]))
        if b in ("round", "around", "round_"):
            dec = args[1] if len(args) > 1 else kw.get("decimals", ZERO)
            return self.elementwise(args[:1], lambda l: l[0] if l[0] in (ZERO, ONE) else extcall("numpy.round", l[0], dec))
        if b in ("add", "subtract", "multiply", "divide", "true_divide"):
            f = {"add": add, "subtract": sub, "multiply": mul}.get(b, div)
            return self.elementwise(args[:2], lambda l: f(*l))
        if b == "power":
            return self.elementwise(args[:2], lambda l: self.pow(*l))
        if b == "mod" or b == "remainder":
            return self.elementwise(args[:2], lambda l: mod(*l))
        if b == "fill_diagonal" and len(args) == 2 and not kw:
            x, v = self.den(args[0]), args[1]
            if x.nd != 2 or self.isarr(v):
                raise Unk("fill_diagonal")
            return A(x.shape, lambda ix: self.ite(eq(ix[0], ix[1]), self.scalar(v), x.at(list(ix))))
        if b in ("diag", "diagflat", "diags"):
            v = self.den(args[0])
            if v.nd != 1 or len(args) > 1 and args[1] is not ZERO or kw.get("k", ZERO) is not ZERO:
                if v.nd == 2:
                    return A([v.shape[0]], lambda ix: v.at([ix[0], ix[0]]))
                raise Unk("diag")
            return A([v.shape[0], v.shape[0]], lambda ix: self.ite(eq(ix[0], ix[1]), v.at([ix[0]]), cases1(ZERO)))
        if b == "circulant":
            v = self.ravel(self.den(args[0]))
            return A([v.shape[0], v.shape[0]], lambda ix: v.at([mod(sub(ix[0], ix[1]), v.shape[0])]))
        if b in ("fliplr", "flipud", "flip"):
            v = self.den(args[0])
            ax = args[1] if len(args) > 1 else kw.get("axis", NONE)
            if b != "flip":
                ks = {0 if b == "flipud" else 1}
            elif ax is NONE:
                ks = set(range(v.nd))
            elif is_num(ax) and isinstance(cval(ax), int):
                ks = {cval(ax) % v.nd}
            else:
                raise Unk("axis")
            return A(v.shape, lambda ix: v.at([sub(sub(v.shape[k], ONE), x) if k in ks else x for k, x in enumerate(ix)]))
        if b == "roll":
            v = self.den(args[0])
            s = args[1] if len(args) > 1 else kw.get("shift")
            ax = args[2] if len(args) > 2 else kw.get("axis")
            if v.nd == 1:
                ax = ZERO
            if ax is None or not is_const(ax) or cval(ax) not in (0, 1, -1, -2):
                raise Unk("roll")
            k = cval(ax) % v.nd
            return A(v.shape, lambda ix: v.at([mod(sub(x, s), v.shape[k]) if p == k else x for p, x in enumerate(ix)]))
        if b in ("swapaxes", "transpose"):
            a = self.den(args[0])
            if b == "swapaxes" and {cval(x) if is_const(x) else None for x in args[1:3]} not in ({0, 1}, {-1, -2}):
                raise Unk("swapaxes")
            if a.nd != 2:
                raise Unk(b)
            return self.table(self.transpose(a))
        if b == "repeat":
            a = self.den(args[0])
            k = args[1] if len(args) > 1 else kw.get("repeats")
            if a.nd != 1 or k is None or self.isarr(k):
                raise Unk("repeat")
            return A([mul(a.shape[0], k)], lambda ix: a.at([idiv(ix[0], k)]))
        if b == "tile":
            a = self.den(args[0])
            k = args[1] if len(args) > 1 else kw.get("reps")
            if a.nd != 1 or k is None or self.isarr(k):
                raise Unk("tile")
            return A([mul(a.shape[0], k)], lambda ix: a.at([mod(ix[0], a.shape[0])]))
        if b in ("vstack", "row_stack", "stack"):
            return self.den(args[0])
        if b == "column_stack":
            return self.table(self.transpose(self.den(args[0])))
        if b == "flatnonzero":
            return self.positions(args[0])
        if b == "product" and n.startswith("itertools."):
            return self.product(args, kw)
        raise Unk(n)

    def dtype(self, d):
        """conversions that keep the values of the entries"""
        if d is None or show(d).split(".")[-1].strip("')\"(") not in ("complex", "complex128", "int", "int64", "cdouble", "complex_", "builtin(complex", "builtin(int"):
            raise Unk(f"conversion to {show(d)[:30] if d is not None else d}")

    def product(self, args, kw):
        if len(args) == 1 and args[0].op in ("call", "spread") or len(args) == 1:
            L = args[0]
            if L.op == "spread":
                L = L.a[0]
            elif callname(L) == "spread":
                L = L.a[1][0]
            else:
                raise Unk("product")
            m = simple_map(L) if L.op == "seq" else None
            if not m:
                raise Unk("product")
            K, N, e = m
            mm = simple_map(e) if e.op == "seq" else None
            if not mm or mm[2] is not mm[0]:
                raise Unk("product of other lists")
            k0 = fresh()
            q = subst(mm[1], {K: k0})
            Q = seq("list", [mapseg(k0, N, [((), (one(q),))])])
            return self.digits(Q)
        raise Unk("product")

    def digits(self, Q):
        """the table whose rows are all digit combinations in ascending order"""
        q = Q.a[0] if Q.op == "lowfirst" else Q
        r = A([extcall("numpy.prod", q), len_of(q)], lambda ix: cases1(self.digit(Q, ix[0], ix[1])), tab=Q)
        return r

    def digit(self, Q, r, j):
        if r.op == "rank" and r.a[0] is Q:
            # digits of a row found by its digits
            v = None
            for p, x in reversed(r.a[2]):
                if p is j:
                    return x
                if not is_num(sub(p, j)):
                    return mk("digit", Q, r, j)
            return self.digit(Q, r.a[1], j)
        return mk("digit", Q, r, j)

    def table(self, a):
        """recognise a table of mixed-radix digits"""
        if a.nd != 2 or a.tab is not None:
            return a
        r, j = fresh(), fresh()
        try:
            cs = a.at([r, j])
        except Unk:
            return a
        a.entry = (r, j, cs)
        if len(cs) != 1 or cs[0][0]:
            return a
        v = cs[0][1]
        Q = self.radix(v, r, j, a.shape[1]) or self.radix_le(v, r, j, a.shape[1])
        if Q is not None:
            d = self.digits(Q)
            self.prods[a.shape[0]] = d.shape[0]
            return d
        a.bad = v
        return a

    def radix(self, v, r, j, cols):
        q = n = None
        if v.op == "idiv" and v.a[0].op == "mod" and v.a[0].a[0] is r:
            n = v.a[1]
            q = div(v.a[0].a[1], n)
        elif v.op == "mod" and v.a[0].op == "idiv" and v.a[0].a[0] is r:
            n, q = v.a[0].a[1], v.a[1]
        if q is None or r in syms(q) or r in syms(n):
            return None
        if callname(n) not in ("numpy.prod", "math.prod", "numpy.product") or len(n.a[1]) != 1:
            return None
        m = simple_map(n.a[1][0]) if n.a[1][0].op == "seq" else None
        if not m:
            # prod(list[j+1:])
            s = n.a[1][0]
            if s.op == "slice" and s.a[3] is NONE and s.a[2] is NONE and s.a[1] is add(j, ONE):
                if q is item(s.a[0], j):
                    return self.norm_list(s.a[0])
            return None
        K, M, e = m
        if M is not sub(sub(cols, j), ONE):
            return None
        k = fresh()
        if subst(e, {K: k}) is not subst(q, {j: add(add(j, ONE), k)}):
            return None
        return seq("list", [mapseg(j, cols, [((), (one(q),))])])

    def radix_le(self, v, r, j, cols):
        """the same digits, counting up from the first position"""
        q = n = None
        if v.op == "idiv" and v.a[0].op == "mod" and v.a[0].a[0] is r:
            n = v.a[1]
            q = div(v.a[0].a[1], n)
        elif v.op == "mod" and v.a[0].op == "idiv" and v.a[0].a[0] is r:
            n, q = v.a[0].a[1], v.a[1]
        if q is None or r in syms(q) or r in syms(n) or q.op != "item":
            return None
        iv, one_ = self.interval(n), self.interval(q)
        if iv is None or one_ is None or iv[0] is not one_[0] or iv[2] is not one_[1] or j in syms(iv[1]):
            return None
        return mk("lowfirst", seq("list", [mapseg(j, cols, [((), (one(q),))])]))

    def norm_list(self, L):
        return L if L.op == "seq" else seq("list", [star(L)])

    def eye(self, n, m, k=ZERO):
        return A([n, m], lambda ix: self.ite(eq(sub(ix[1], ix[0]), k), cases1(ONE), cases1(ZERO)))

    def ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return [((c,) + x, v) for x, v in a] + [((nott(c),) + x, v) for x, v in b]

    def ravel(self, a):
        if a.nd == 1:
            return a
        if a.nd == 2 and a.shape[1] is ONE:
            return A([a.shape[0]], lambda ix: a.at([ix[0], ZERO]))
        if a.nd == 2 and a.shape[0] is ONE:
            return A([a.shape[1]], lambda ix: a.at([ZERO, ix[0]]))
        raise Unk("ravel")

    def reshape(self, a, dims):
        dims = [x for x in dims or ()]
        neg1 = [x for x in dims if is_const(x) and cval(x) == -1]
        if a.nd == 1 and len(dims) == 2:
            if dims[1] is ONE:
                return A([a.shape[0], ONE], lambda ix: a.at([ix[0]]))
            if dims[0] is ONE:
                return A([ONE, a.shape[0]], lambda ix: a.at([ix[1]]))
            if not neg1:
                return A(dims, lambda ix: a.at([add(mul(ix[0], dims[1]), ix[1])]))
        if len(dims) == 1:
            return self.ravel(a)
        if len(dims) == a.nd and all(x is y for x, y in zip(dims, a.shape)):
            return a
        raise Unk("reshape")


# ------------------------------------------------------------------ conditions
def cong(p, d):
    """canonical form of p == 0 (mod d)"""
    q = mod(p, d)
    if q.op == "mod":
        p = q.a[0]
    else:
        p = q
    if p is ZERO:
        return TRUE
    n = mod(neg(p), d)
    n = n.a[0] if n.op == "mod" else n
    k1 = min(p, n, key=lambda t: t.n)
    return mk("cong", k1, d)


def reduced(x, d, ranges, st=None):
    """x is known to lie in [0, d)"""
    if x.op == "mod" and x.a[1] is d or ranges.get(x) is d or is_num(x) and cval(x) == 0:
        return True
    return st is not None and decide(st, le(ZERO, x)) is True and decide(st, lt(x, d)) is True


def canon_eq(p, ranges, d, st=None):
    """p == 0 as a congruence when both sides of the equation lie in [0, d)"""
    P = TM._poly(p)
    pos, neg_ = [], []
    for m, c in P.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            pos.append(m[0][0])
        elif c == -1 and len(m) == 1 and m[0][1] == 1:
            neg_.append(m[0][0])
        elif m == () and isinstance(c, int):
            (pos if c > 0 else neg_).append(const(abs(c)))
        else:
            return None
    for l in (pos, neg_):
        o = neg_ if l is pos else pos
        # x mod d = d - 1 - (y mod d)
        ms = [x for x in l if x.op == "mod" and x.a[1] is d]
        if len(l) == 3 and len(ms) == 2 and ONE in l and o == [d]:
            return cong(add(add(ms[0].a[0], ms[1].a[0]), ONE), d)
    if len(pos) <= 1 and len(neg_) <= 1 and all(reduced(x, d, ranges, st) for x in pos + neg_):
        strip = lambda x: x.a[0] if x.op == "mod" and x.a[1] is d else x
        a = strip(pos[0]) if pos else ZERO
        b = strip(neg_[0]) if neg_ else ZERO
        return cong(sub(a, b), d)
    return None


# ------------------------------------------------------------------ scalars
def expo(e):
    """exponent of a root of unity: e / (2 pi i), without the multiples of 1"""
    d = {}
    for m, c in TM._poly(e).items():
        ms = dict(m)
        pi = [a for a in ms if a.op in ("attr", "ext") and show(a) in ("numpy.pi", "math.pi", "scipy.pi")]
        if len(pi) != 1 or ms[pi[0]] != 1:
            return None
        del ms[pi[0]]
        if not isinstance(c, complex) or c.real != 0:
            return None
        k = c.imag / 2
        if k != int(k * 2) / 2:
            return None
        from fractions import Fraction
        k = Fraction(int(k * 2), 2)
        m2 = tuple(sorted(ms.items(), key=lambda x: x[0].n))
        d[m2] = d.get(m2, 0) + k
    # an integer multiple of (x mod n)/n is the same angle as x/n
    ch = True
    while ch:
        ch = False
        for m, c in list(d.items()):
            for a, p in m:
                if a.op == "mod" and p == 1 and dict(m).get(a.a[1]) == -1 and c.denominator == 1:
                    rest = {x: y for x, y in m if x is not a and x is not a.a[1]}
                    if all(y > 0 for y in rest.values()):
                        del d[m]
                        new = mul(mul(a.a[0], power(a.a[1], const(-1))), TM._unpoly({tuple(sorted(rest.items(), key=lambda x: x[0].n)): c}))
                        for m2, c2 in TM._poly(new).items():
                            d[m2] = d.get(m2, 0) + Fraction(c2)
                        ch = True
                        break
            if ch:
                break
    out = {}
    for m, c in d.items():
        if c == 0:
            continue
        if c.denominator == 1 and all(p > 0 for a, p in m):
            continue  # whole turns
        out[m] = c
    return tuple(sorted(out.items(), key=lambda x: [(a.n, p) for a, p in x[0]]))


def phase(v):
    """value as {(modulus monomial, angle): coefficient}, or None"""
    out = {}
    for m, c in TM._poly(v).items():
        mod_, ang = [], ZERO
        for a, p in m:
            n = callname(a)
            if n == "numpy.exp":
                ang = add(ang, mul(a.a[1][0], const(p)))
            elif n in ("numpy.cos", "numpy.sin", "numpy.conj", "numpy.real", "numpy.imag", "numpy.round", "numpy.abs", "numpy.absolute") or a.op in ("top", "bin"):
                return None
            else:
                mod_.append((a, p))
        e = expo(ang)
        if e is None:
            return None
        k = (tuple(mod_), e)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c != 0}


def conj(v):
    """complex conjugate of a number"""
    r = ZERO
    for m, c in TM._poly(v).items():
        x = const(c.conjugate() if isinstance(c, complex) else c)
        for a, p in m:
            n = callname(a)
            if n == "numpy.exp":
                b = extcall("numpy.exp", conj(a.a[1][0]))
            elif n in ("numpy.conj", "numpy.conjugate"):
                b = a.a[1][0]
            elif a.op in ("sym", "item", "digit", "bv", "idx", "len", "mod", "idiv", "ext") or n in ("abs", "numpy.abs", "numpy.absolute", "numpy.prod", "numpy.real", "numpy.imag", "math.sqrt", "numpy.sqrt", "min", "max", "len"):
                b = a
            elif a.op == "poly":
                b = conj(a)
            else:
                b = extcall("numpy.conj", a)
            x = mul(x, power(b, const(p)))
        r = add(r, x)
    return r


def turns(x):
    """normal form of an angle given in turns"""
    return expo(mul(mul(x, const(2j)), mk("ext", "numpy.pi")))
