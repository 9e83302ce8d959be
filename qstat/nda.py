"""A final state as the output stage sees it: a column with symbolic amplitudes at known rows
and zeros elsewhere, and what array operations make of it.

`big` is such a column (or its flattened form) with a function applied to every entry, `nda` a
short array with explicit elements, `mask` the truth values of a comparison of a column."""
from scene import *
import engine as E

X = sym("amp?", "complex")
ABS = {"abs", "numpy.abs", "numpy.absolute", "numpy.fabs"}
CONJ = {"numpy.conj", "numpy.conjugate"}
NDARRAY = ("ext", "numpy.ndarray")
SPARSE = ("ext", "scipy.sparse._csr.csr_matrix")


def nda(xs):
    return mk("nda", tuple(xs))


class Final:
    """rows: row numbers with non-zero amplitude; radix: digit -> dimension"""

    def __init__(self, rows, amps, size, dims, sparse, radix):
        self.rows, self.amps, self.size, self.dims, self.sparse, self.radix = list(rows), list(amps), size, dims, sparse, radix
        self.value = mk("big", "spm" if sparse else "arr", 2, X)
        self.kept = len(self.rows)

    # ------------------------------------------------------------ entries
    def at(self, b, i):
        """entry i of a column"""
        for v, a in zip(self.rows, self.amps):
            if i is v or sub(i, v) is ZERO:
                return subst(b.a[2], {X: a})
        if is_num(i) and all(is_num(v) for v in self.rows):
            return subst(b.a[2], {X: ZERO})
        return mk("item", b, i)

    def dense(self, b):
        return mk("big", "arr", b.a[1], b.a[2])

    def flat(self, b):
        return mk("big", "arr", 1, b.a[2])

    def map(self, b, e):
        return mk("big", b.a[0], b.a[1], e)

    def scan(self, b):
        """row numbers of the non-zero entries"""
        e = b.a[2]
        if e.op == "attr" and e.a[0] is X and e.a[1] in ("real", "imag"):
            return self.rows[:-1]  # the last amplitude's part may be zero
        if e is X or self.shape(e) in ("abs", "sq", "conj"):
            return self.rows
        return None

    def shape(self, e):
        if e.op == "call" and callname(e) in ABS | {".conj"} and e.a[1] == (X,):
            return "abs"
        if e.op == "poly" and len(e.a[0]) == 1:
            (m, c), = e.a[0]
            if c == 1 and len(m) == 1 and m[0][0].op == "call" and callname(m[0][0]) in ABS and m[0][0].a[1] == (X,):
                return "sq"
        if e.op == "call" and callname(e) in CONJ:
            return "conj"
        return None

    def positive(self, t):
        """an amplitude's modulus, or a power of it: a free non-negative number"""
        for a in self.amps:
            if t is a or self.shape(subst(t, {a: X})) in ("abs", "sq"):
                return True
        return False

    # ------------------------------------------------------------ hooks
    def euclid(self, a, m):
        """quotient and remainder when the digits' ranges settle them"""
        pm = TM._poly(m)
        if len(pm) != 1 or is_num(m):
            return None
        (mm, mc), = pm.items()
        if mc != 1:
            return None
        q, r = {}, {}
        for mono, c in TM._poly(a).items():
            d = dict(mono)
            if all(d.get(x, 0) >= e for x, e in mm):
                left = {x: d[x] - dict(mm).get(x, 0) for x in d}
                q[tuple(sorted(((x, e) for x, e in left.items() if e), key=lambda y: y[0].n))] = c
            else:
                r[mono] = c
        q, r = TM._unpoly(q), TM._unpoly(r)
        if any(not isinstance(c, int) or c < 0 for c in TM._poly(r).values()):
            return None
        hi = subst(r, {x: sub(d, ONE) for x, d in self.radix.items()})
        gap = sub(sub(m, ONE), hi)
        gap = subst(gap, {d: add(d, const(2)) for d in self.dims if not is_num(d)})  # dimensions are at least 2
        if gap is ZERO or all(isinstance(c, int) and c >= 0 for c in TM._poly(gap).values()):
            return q, r
        return None

    def binop(self, P, st, op, x, y):
        if op in ("Mod", "FloorDiv") and x is ZERO and y.op in ("sym", "poly"):
            return [(st, ZERO)]
        if op in ("Mod", "FloorDiv") and (x.op in ("sym", "poly") or is_num(x)) and y.op in ("sym", "poly"):
            qr = self.euclid(x, y)
            if qr is not None:
                return [(st, qr[1 if op == "Mod" else 0])]
        if "nda" in (x.op, y.op):
            x, y = [nda(exact(P.snap(st, z))) if z.op not in ("nda", "big") and P.kindof(st, z) in ("list", "tuple") and P.snap(st, z).op == "seq" and exact(P.snap(st, z)) is not None else z for z in (x, y)]
        for b, o, left in ((x, y, True), (y, x, False)):
            if b.op in ("big", "nda") and (TM._numeric(o) or o.op in ("call", "attr", "poly", "sym", "item")) and o.op not in ("big", "nda"):
                f = lambda e: P.binop(op, e, o, st) if left else P.binop(op, o, e, st)
                if b.op == "big":
                    if b.a[0] == "spm":
                        return None
                    r = f(b.a[2])
                    return [(r[0][0], self.map(b, r[0][1]))] if len(r) == 1 else None
                return self.each(P, st, b, lambda s, e: P.binop(op, e, o, s) if left else P.binop(op, o, e, s))
        if x.op == "big" and y.op == "big" and x.a[:2] == y.a[:2] and x.a[0] == "arr":
            r = P.binop(op, x.a[2], y.a[2], st)
            return [(r[0][0], self.map(x, r[0][1]))] if len(r) == 1 else None
        if x.op == "nda" and y.op == "nda" and len(x.a[0]) == len(y.a[0]):
            ys = iter(y.a[0])
            return self.each(P, st, x, lambda s, e: P.binop(op, e, next(ys), s))
        return None

    def each(self, P, st, b, f):
        out = []
        for e in b.a[0]:
            r = f(st, e)
            if len(r) != 1:
                return None
            st = r[0][0]
            out.append(r[0][1])
        return [(st, nda(out))]

    def compare(self, P, st, op, x, y):
        if y.op == "big" or y.op == "nda":
            x, y = y, x
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if x.op == "big" and is_num(y):
            return [(st, mk("mask", x, op, y))]
        if x.op == "nda" and is_num(y):
            out = []
            for e in x.a[0]:
                r = P.compare(op, e, y, st)
                if len(r) != 1:
                    return None
                st = r[0][0]
                out.append(r[0][1])
            return [(st, nda(out))]
        for a, b, o in ((x, y, op), (y, x, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if is_num(b) and not isinstance(cval(b), complex) and (self.positive(a) or a in self.amps):
                c = cval(b)
                if o == "Eq" and c == 0:
                    return [(st, FALSE)]
                if o == "NotEq" and c == 0:
                    return [(st, TRUE)]
                if a in self.amps:
                    return None
                if o == "Gt" and c <= 0 or o == "GtE" and c <= 0:
                    return [(st, TRUE)]
                if o == "LtE" and c <= 0 or o == "Lt" and c <= 0:
                    return [(st, FALSE)]
                if 0 < c < 1:
                    # amplitudes may be larger or smaller
                    s2 = st.copy()
                    return [(st, TRUE), (s2, FALSE)]
        return None

    def selected(self, m):
        """rows where a mask is true"""
        b, op, c = m.a
        rows = self.scan(b)
        if rows is None or isinstance(cval(c), complex):
            return None
        if op == "NotEq" and cval(c) == 0:
            return rows
        if self.shape(b.a[2]) in ("abs", "sq"):
            if op == "Gt" and cval(c) == 0:
                return rows
            if op in ("Gt", "GtE") and 0 < cval(c) < 1:
                return rows[:-1]  # the last amplitude may be that small
        return None

    def exactrows(self, t):
        ex = exact(t) if t.op == "seq" else list(t.a[0]) if t.op == "nda" else None
        return ex

    def getitem(self, P, st, o, i):
        if o.op == "big":
            ix = i
            if i.op == "ref":
                ix = P.snap(st, i)
            two = o.a[1] == 2
            if ix.op == "mask":
                rows = self.selected(ix)
                if rows is None:
                    return None
                return [(st, nda([self.at(o, v) for v in rows]))]  # a boolean column index flattens
            col = None
            if ix.op == "seq" and ix.a[0] == "tuple":
                ex = exact(ix)
                if ex is None or len(ex) != 2 or not two:
                    return None
                ix, col = ex
                if ix.op == "ref":
                    ix = P.snap(st, ix)
                if col.op == "ref":
                    col = P.snap(st, col)
                if col.op in ("seq", "nda"):
                    cx = self.exactrows(col)
                    if cx is None or any(c is not ZERO for c in cx):
                        return None
                elif col.op == "sl":
                    if ix.op == "sl":
                        return None
                    col = None
                elif col is not ZERO and not (is_const(col) and cval(col) == -1):
                    return None
                if col is not None and ix.op == "mask":
                    return None
            if ix.op == "sl":
                if all(x is NONE for x in ix.a):
                    return [(st, self.flat(o) if two and col is not None else o)]
                return None
            if ix.op in ("seq", "nda") and not (ix.op == "seq" and ix.a[0] == "tuple"):
                vs = self.exactrows(ix)
                if vs is None:
                    return None
                xs = [self.at(o, v) for v in vs]
                if two and col is None:
                    xs = [nda([x]) for x in xs]
                return [(st, nda(xs))]
            if TM._numeric(ix) or ix.op in ("sym", "poly"):
                x = self.at(o, ix)
                return [(st, nda([x]) if two and col is None else x)]
            return None
        if o.op == "nda":
            ex = o.a[0]
            if i.op == "sl":
                a, b, c = i.a
                if all(x is NONE or is_num(x) and isinstance(cval(x), int) for x in i.a):
                    g = lambda x: None if x is NONE else cval(x)
                    return [(st, nda(ex[slice(g(a), g(b), g(c))]))]
                return None
            if is_num(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
                if -len(ex) <= cval(i) < len(ex):
                    return [(st, ex[cval(i)])]
                P.throw(st, mk("exc", "IndexError"))
                return []
            if i.op == "seq" and i.a[0] == "tuple":
                t = exact(i)
                if t and len(t) == 2 and all(x.op == "nda" for x in ex):
                    if t[0].op == "sl" and all(x is NONE for x in t[0].a) and is_num(t[1]):
                        try:
                            return [(st, nda([x.a[0][cval(t[1])] for x in ex]))]
                        except IndexError:
                            return None
                    if is_num(t[0]) and is_num(t[1]):
                        try:
                            return [(st, ex[cval(t[0])].a[0][cval(t[1])])]
                        except IndexError:
                            return None
        return None

    def attr(self, P, st, o, name):
        if o.op == "big":
            if name == "shape":
                return seq("tuple", [one(self.size)] + ([one(ONE)] if o.a[1] == 2 else []))
            if name == "size" and o.a[0] == "arr":
                return self.size
            if name == "ndim":
                return const(o.a[1])
            if o.a[0] == "arr":
                if name in ("real", "imag"):
                    return self.map(o, mk("attr", o.a[2], name))
                if name == "T" and o.a[1] == 1:
                    return o
            if name == "nnz" and o.a[0] == "spm":
                return None
        if o.op == "nda":
            if name in ("real", "imag") and not any(x.op == "nda" for x in o.a[0]):
                return nda([mk("attr", x, name) for x in o.a[0]])
            if name == "size" and not any(x.op == "nda" for x in o.a[0]):
                return const(len(o.a[0]))
            if name == "shape" and not any(x.op == "nda" for x in o.a[0]):
                return seq("tuple", [one(const(len(o.a[0])))])
            if name == "T" and o.a[0] and all(x.op == "nda" for x in o.a[0]) and len({len(x.a[0]) for x in o.a[0]}) == 1:
                return nda([nda(list(c)) for c in zip(*[x.a[0] for x in o.a[0]])])
            if name == "T" and not any(x.op == "nda" for x in o.a[0]):
                return o
        return None

    def iterable(self, P, st, v):
        if v.op == "nda":
            return seq("list", [one(x) for x in v.a[0]])
        if v.op == "big" and v.a[0] == "arr" and is_num(self.size):
            xs = [self.at(v, const(i)) for i in range(cval(self.size))]
            return seq("list", [one(nda([x]) if v.a[1] == 2 else x) for x in xs])
        return None

    # ------------------------------------------------------------ calls
    def call(self, P, st, f, args, kw):
        a = [P.snap(st, x) if x.op == "ref" and st.obj(x).kind in ("list", "arr", "tuple") else x for x in args]
        if f.op == "attr" and f.a[0].op in ("big", "nda", "mask"):
            r = self.method(P, st, f.a[0], f.a[1], a, kw)
            if r is None and f.a[0].op == "big" and f.a[0].a[0] == "arr" and f.a[1] in ("toarray", "todense", "tocoo", "tocsr", "getA"):
                P.throw(st, mk("exc", "AttributeError"))
                return []
            return None if r is None else [(st, r)]
        if f.op == "attr" and f.a[1] in ("conjugate", "conj") and not a and (f.a[0] in self.amps or f.a[0] is X):
            return [(st, extcall("numpy.conj", f.a[0]))]
        if f.op in ("builtin", "ext"):
            return self.function(P, st, f.a[0], a, kw)
        return None

    def method(self, P, st, o, n, a, kw):
        if o.op == "mask":
            if n == "nonzero" and not a:
                rows = self.selected(o)
                return None if rows is None else self.coords(o.a[0], rows)
            if n in ("ravel", "flatten", "squeeze") and not a:
                return mk("mask", self.flat(o.a[0]), o.a[1], o.a[2])
            return None
        if o.op == "big":
            sp = o.a[0] == "spm"
            if n in ("toarray", "todense", "getA") and sp and not a:
                return self.dense(o)
            if n in ("tocsr", "tocsc", "copy") and (sp or n == "copy"):
                return o
            if n == "nonzero" and not a:
                rows = self.scan(o)
                return None if rows is None else self.coords(o, rows)
            if sp:
                return None
            if n in ("ravel", "flatten", "squeeze") and not a and not kw:
                return self.flat(o)
            if n == "reshape" and len(a) == 1 and (is_num(a[0]) and cval(a[0]) == -1 or a[0] is self.size):
                return self.flat(o)
            if n in ("conj", "conjugate") and not a:
                return self.map(o, extcall("numpy.conj", o.a[2]))
            if n == "item" and len(a) == 2 and a[1] is ZERO or n == "item" and len(a) == 1:
                return self.at(o, a[0])
            return None
        if n in ("tolist", "copy", "ravel", "flatten", "squeeze") and not a:
            if any(x.op == "nda" for x in o.a[0]):
                return o if n == "copy" else nda([y for x in o.a[0] for y in (x.a[0] if x.op == "nda" else (x,))]) if n in ("ravel", "flatten") else None
            return o
        if n == "astype" and len(a) == 1 and a[0].op == "builtin" and a[0].a[0] == "int" and all(TM._numeric(x) and P.tag(st, x) == "int" for x in o.a[0]):
            return o
        if n in ("conj", "conjugate") and not a:
            return nda([extcall("numpy.conj", x) for x in o.a[0]])
        if n == "cumprod" and not a:
            return self.products(o)
        if n == "prod" and not a:
            return self.products(o).a[0][-1] if o.a[0] else ONE
        if n == "item" and not a and len(o.a[0]) == 1:
            return o.a[0][0]
        return None

    def products(self, x):
        out, acc = [], ONE
        for e in x.a[0]:
            acc = mul(acc, e)
            out.append(acc)
        return nda(out)

    def coords(self, b, rows):
        zs = [one(nda([ZERO] * len(rows)))] if b.a[1] == 2 else []
        return seq("tuple", [one(nda(rows))] + zs)

    def function(self, P, st, n, a, kw):
        if not a:
            return None
        x = a[0]
        if n in ("numpy.array", "numpy.asarray", "numpy.prod", "numpy.cumprod", "math.prod") and x.op == "seq" and exact(x) is not None and len(a) == 1 and not (set(kw) - {"dtype"}) and all(
                is_num(e) or e.op in ("sym", "poly") for e in exact(x)) and not any(e in self.amps for e in exact(x)):
            if n in ("numpy.array", "numpy.asarray"):
                return [(st, nda(exact(x)))]
            x = nda(exact(x))
        if n in ("numpy.prod", "numpy.cumprod", "math.prod") and x.op == "nda" and len(a) == 1:
            r = self.products(x)
            return [(st, r if n == "numpy.cumprod" else r.a[0][-1] if r.a[0] else ONE)]
        if n == "sorted" and len(a) == 1 and x.op in ("seq", "nda") and 2 <= len(self.exactrows(x) or ()) <= 3 and any(s in self.amps for e in self.exactrows(x) for s in syms(e)):
            # nothing is known about the order of amplitudes
            import itertools
            out = []
            for p in itertools.permutations(self.exactrows(x)):
                s2 = st.copy()
                out.append((s2, P.newlist(s2, seq("list", [one(e) for e in p]))))
            return out
        if x.op == "spread":
            return None
        if n == "hasattr" and x.op == "big" and len(a) == 2 and is_const(a[1]):
            nm = cval(a[1])
            if nm in ("toarray", "todense", "tocsr", "tocoo", "nnz", "getnnz", "format"):
                return [(st, const(x.a[0] == "spm"))]
            if nm in ("shape", "nonzero", "conj", "dot", "T", "ndim", "dtype", "data", "real", "imag"):
                return [(st, TRUE)]
        if n == "type" and len(a) == 1 and x.op == "big":
            return [(st, mk(*(SPARSE if x.a[0] == "spm" else NDARRAY)))]
        if n == "type" and len(a) == 1 and x.op == "nda":
            return [(st, mk(*NDARRAY))]
        if n == "str" and x.op == "ext" and x.a[0] in (SPARSE[1], NDARRAY[1]):
            return [(st, const(f"<class '{x.a[0]}'>"))]
        if n == "isinstance" and x.op in ("big", "nda") and len(a) == 2 and a[1].op == "ext":
            arr = x.op == "nda" or x.a[0] == "arr"
            c = a[1].a[0].split(".")[-1]
            if c == "ndarray":
                return [(st, const(arr))]
            if c in ("csr_matrix", "spmatrix") and a[1].a[0].startswith("scipy"):
                return [(st, const(not arr))]
        if n.split(".")[-1] in ("issparse", "isspmatrix") and x.op == "big":
            return [(st, const(x.a[0] == "spm"))]
        if n == "len" and len(a) == 1:
            if x.op == "nda":
                return [(st, const(len(x.a[0])))]
            if x.op == "big" and x.a[0] == "arr":
                return [(st, self.size)]
        base = n.split(".")[-1]
        if x.op == "mask":
            if n in ("numpy.nonzero", "numpy.where") and len(a) == 1:
                rows = self.selected(x)
                return None if rows is None else [(st, self.coords(x.a[0], rows))]
            if n == "numpy.flatnonzero" and len(a) == 1:
                rows = self.selected(x)
                return None if rows is None else [(st, nda(rows))]
            if n == "numpy.argwhere" and len(a) == 1:
                rows = self.selected(x)
                return None if rows is None else [(st, nda([nda([v] + [ZERO] * (x.a[0].a[1] - 1)) for v in rows]))]
            return None
        if n == "divmod" and len(a) == 2:
            qr = self.euclid(x, a[1])
            if qr is not None:
                return [(st, seq("tuple", [one(qr[0]), one(qr[1])]))]
            return None
        if n == "numpy.unravel_index" and len(a) == 2:
            ds = exact(a[1]) if a[1].op == "seq" else None
            if ds is None:
                return None

            def digits(v):
                out = []
                for d in reversed(ds):
                    q = self.euclid(v, d) if not is_num(v) or not is_num(d) else (const(cval(v) // cval(d)), const(cval(v) % cval(d)))
                    if v is ZERO:
                        q = (ZERO, ZERO)
                    if q is None:
                        return None
                    v = q[0]
                    out.append(q[1])
                return out[::-1]
            if x.op == "nda":
                rs = [digits(v) for v in x.a[0]]
                if any(r is None for r in rs):
                    return None
                return [(st, seq("tuple", [one(nda([r[k] for r in rs])) for k in range(len(ds))]))]
            r = digits(x)
            return None if r is None else [(st, seq("tuple", [one(y) for y in r]))]
        if x.op not in ("big", "nda"):
            if n in ("complex", "numpy.complex128") and len(a) == 1 and (x in self.amps or x is X):
                return [(st, x)]
            return None
        if x.op == "big" and x.a[0] == "spm":
            if n in ("numpy.asarray", "numpy.array"):
                return None
            if base in ("find",) and self.scan(x) is not None:
                return [(st, seq("tuple", [one(nda(self.rows)), one(nda([ZERO] * len(self.rows))), one(nda([self.at(x, v) for v in self.rows]))]))]
            if n == "abs" and len(a) == 1:
                return [(st, self.map(x, extcall("abs", x.a[2])))]
            return None
        if n in ("numpy.asarray", "numpy.array") and len(a) == 1 and not kw:
            return [(st, x)]
        if n == "numpy.squeeze" or n == "numpy.ravel":
            if x.op == "big" and len(a) == 1:
                return [(st, self.flat(x))]
            return None
        if n in ABS or n in CONJ or n in ("numpy.square", "numpy.real", "numpy.imag", "numpy.sqrt"):
            if len(a) != 1 or kw:
                return None
            g = {"numpy.square": lambda e: power(e, const(2)), "numpy.real": lambda e: mk("attr", e, "real"), "numpy.imag": lambda e: mk("attr", e, "imag")}.get(
                n, lambda e: extcall("abs" if n in ABS else n, e))
            if x.op == "big":
                return [(st, self.map(x, g(x.a[2])))]
            if any(e.op == "nda" for e in x.a[0]):
                return [(st, nda([nda([g(y) for y in e.a[0]]) for e in x.a[0]]))]
            return [(st, nda([g(e) for e in x.a[0]]))]
        if x.op == "big":
            if n in ("numpy.nonzero", "numpy.where") and len(a) == 1:
                rows = self.scan(x)
                return None if rows is None else [(st, self.coords(x, rows))]
            if n == "numpy.flatnonzero" and len(a) == 1:
                rows = self.scan(x)
                return None if rows is None else [(st, nda(rows))]
            if n == "numpy.argwhere" and len(a) == 1:
                rows = self.scan(x)
                return None if rows is None else [(st, nda([nda([v] + [ZERO] * (x.a[1] - 1)) for v in rows]))]
            if n == "enumerate" and is_num(self.size):
                return None
        return None


# ---------------------------------------------------------------- values
def cpoly(t, amps, d=0):
    """a value as (real part, imaginary part), polynomials in the real and imaginary parts of the
    amplitudes; None outside this language"""
    if d > 30:
        return None
    if t in amps:
        return sym("re:" + t.a[0], "float"), sym("im:" + t.a[0], "float")
    if is_num(t):
        v = cval(t)
        if isinstance(v, complex):
            return const(v.real), const(v.imag)
        return t, ZERO
    n = callname(t)
    if t.op == "attr" and t.a[1] in ("real", "imag"):
        z = cpoly(t.a[0], amps, d + 1)
        return None if z is None else (z[0] if t.a[1] == "real" else z[1], ZERO)
    if n in CONJ or n in (".conj", ".conjugate"):
        z = cpoly(t.a[1][0] if n in CONJ else t.a[0].a[0], amps, d + 1)
        return None if z is None else (z[0], neg(z[1]))
    if n in ("numpy.real", "numpy.imag"):
        z = cpoly(t.a[1][0], amps, d + 1)
        return None if z is None else (z[0] if n == "numpy.real" else z[1], ZERO)
    if n == "numpy.square":
        z = cpoly(t.a[1][0], amps, d + 1)
        return None if z is None else cmul(z, z)
    if n in ("float", "complex", "numpy.complex128", "numpy.float64") and len(t.a[1]) == 1:
        z = cpoly(t.a[1][0], amps, d + 1)
        if z is None or n in ("float", "numpy.float64") and z[1] is not ZERO:
            return None
        return z
    if n in ABS or n in ("pow", "numpy.power") or t.op == "poly":
        if n in ABS:
            z = cpoly(t.a[1][0], amps, d + 1)
            if z is None:
                return None
            return modulus(z), ZERO
        if n:
            if len(t.a[1]) != 2 or not is_num(t.a[1][1]):
                return None
            return cpow(t.a[1][0], cval(t.a[1][1]), amps, d)
        out = (ZERO, ZERO)
        for mono, c in t.a[0]:
            z = (const(c.real), const(c.imag)) if isinstance(c, complex) else (const(c), ZERO)
            for x, e in mono:
                w = cpow(x, e, amps, d)
                if w is None:
                    return None
                z = cmul(z, w)
            out = (add(out[0], z[0]), add(out[1], z[1]))
        return out
    return None


def modulus(z):
    """|z| as the square root of a polynomial, kept as a symbol whose square is known"""
    q = add(mul(z[0], z[0]), mul(z[1], z[1]))
    return mk("root", q)


def cpow(x, e, amps, d):
    z = cpoly(x, amps, d + 1)
    if z is None or not isinstance(e, int) or not 0 <= e <= 6:
        return None
    r = (ONE, ZERO)
    for _ in range(e):
        r = cmul(r, z)
    return r


def cmul(a, b):
    return rootless(sub(mul(a[0], b[0]), mul(a[1], b[1]))), rootless(add(mul(a[0], b[1]), mul(a[1], b[0])))


def rootless(p):
    """even powers of roots are polynomials"""
    out = ZERO
    for mono, c in TM._poly(p).items():
        m = const(c)
        for x, e in mono:
            if x.op == "root" and isinstance(e, int) and e >= 2:
                for _ in range(e // 2):
                    m = mul(m, x.a[0])
                e %= 2
            if e:
                m = mul(m, power(x, const(e)))
        out = add(out, m)
    return out
