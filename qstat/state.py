"""Abstract states: frames, heap, path facts, and the effect log."""
from terms import *
import terms as TM


DEADLINE = None


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("kind", "cls", "attrs", "content", "owner", "site")

    def __init__(self, kind, cls=None, attrs=None, content=None, owner="fresh", site=None):
        self.kind, self.cls, self.attrs, self.content = kind, cls, attrs or {}, content
        self.owner, self.site = owner, site

    def clone(self):
        return Obj(self.kind, self.cls, dict(self.attrs), self.content, self.owner, self.site)

    def same(self, o):
        return self is o or (
            self.kind == o.kind and self.cls is o.cls and self.content is o.content and self.attrs == o.attrs
        )


class Event:
    __slots__ = ("kind", "target", "a", "facts", "site", "loops", "val", "stack")

    def __init__(self, kind, target, a, facts, site, loops, stack):
        self.kind, self.target, self.a, self.facts = kind, target, a, facts
        self.site, self.loops, self.stack = site, loops, stack

    def __repr__(self):
        return f"<{self.kind} {self.target!r} {self.a!r} @{self.site}>"


class State:
    def __init__(self):
        self.frames, self.heap, self.over = {}, {}, {}
        self.own = set()
        self.cur = None
        self.facts = {}
        self.ev = None  # linked list (prev, event)
        self.noid, self.nk, self.nf = 0, 0, 0
        self.loops = ()

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap, s.over = dict(self.frames), dict(self.heap), dict(self.over)
        s.own = set()
        self.own = set()
        s.cur, s.facts, s.ev = self.cur, dict(self.facts), self.ev
        s.noid, s.nk, s.nf, s.loops = self.noid, self.nk, self.nf, self.loops
        return s

    # frames
    def frame(self, fid, write=False):
        f = self.frames[fid]
        if write and ("f", fid) not in self.own:
            f = dict(f)
            self.frames[fid] = f
            self.own.add(("f", fid))
        return f

    def setvar(self, fid, name, v):
        self.frame(fid, True)[name] = v

    # heap
    def alloc(self, obj):
        oid = self.noid
        self.noid += 1
        self.heap[oid] = obj
        self.own.add(("o", oid))
        return mk("ref", oid)

    def obj(self, t, write=False):
        oid = t.a[0]
        o = self.heap[oid]
        if write and ("o", oid) not in self.own:
            o = o.clone()
            self.heap[oid] = o
            self.own.add(("o", oid))
        return o

    def fact(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            for x in c.a:
                self.fact(x)
            return
        self.facts[c] = True

    def cont(self, t):
        """current elements of a container that is not a heap object"""
        v = self.over.get(("c", t))
        if v is not None:
            return v
        if t.op == "attr" and ("w", "c", t.a[1]) in self.over:
            return mk("top", "list rewritten in a loop", t)
        return t

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def same(self, o):
        if self.ev is not o.ev or self.cur != o.cur or self.loops != o.loops or self.noid != o.noid:
            return False
        if self.frames.keys() != o.frames.keys() or self.heap.keys() != o.heap.keys():
            return False
        if self.over != o.over:
            return False
        for k, f in self.frames.items():
            if f is not o.frames[k] and f != o.frames[k]:
                return False
        for k, x in self.heap.items():
            if not x.same(o.heap[k]):
                return False
        return True


# ------------------------------------------------------------------ deciding
def _facts_le(st, extra_atoms):
    """upper-bound facts p <= 0 known in the state"""
    out, foralls = [], []
    for f in st.facts:
        if f.op == "le0":
            out.append(f.a[0])
        elif f.op == "eq0":
            out.append(f.a[0])
            out.append(neg(f.a[0]))
        elif f.op == "forall":
            for c in f.a[2]:
                if c.op in ("le0", "eq0"):
                    for z, inst in _instances(c, f.a[0], extra_atoms):
                        foralls.append((z, f.a[1], inst))
    for z, n, inst in foralls:
        # the instance holds only inside the range
        side = out + implied_le(z) + implied_le(n)
        if prove_le(neg(z), side) and prove_le(add(sub(z, n), ONE), side):
            out.append(inst.a[0])
            if inst.op == "eq0":
                out.append(neg(inst.a[0]))
    ne = {f.a[0].a[0] for f in st.facts if f.op == "not" and f.a[0].op == "eq0"}
    if ne:
        out = [add(q, ONE) if (q in ne or neg(q) in ne) else q for q in out]
    return out


def _instances(c, bv, atoms):
    pats = [x for x in walk(c) if x.op == "item" and (x.a[1] is bv or x.a[1].op == "poly" and bv in syms(x.a[1]))]
    done = set()
    for p in pats:
        off = sub(p.a[1], bv)
        if bv in syms(off):
            continue
        for a in atoms:
            if a.op == "item" and a.a[0] is p.a[0]:
                z = sub(a.a[1], off)
                if z not in done:
                    done.add(z)
                    yield z, subst(c, {bv: z})


def _atoms(t):
    return [x for x in walk(t)]


def implied_le(p):
    """facts that hold for every value of the atoms of p"""
    out = []
    for x in walk(p):
        if x.op == "len":
            out.append(neg(x))
        elif x.op == "mod":
            out.append(neg(x))
    return out


def prove_le(p, facts, depth=4):
    d = TM._poly(p)
    if not d:
        return True
    if list(d) == [()]:
        v = d[()]
        return not isinstance(v, complex) and v <= 0
    if depth == 0:
        return False
    pos = [m for m, c in d.items() if m != ()]
    # eliminate the first non-constant monomial using a fact
    for m in pos[:3]:
        c = d[m]
        for q in facts:
            qd = TM._poly(q)
            if m in qd and not isinstance(c, complex) and not isinstance(qd[m], complex) and c * qd[m] > 0:
                k = c / qd[m] if not isinstance(c, int) or c % qd[m] else c // qd[m]
                r = sub(p, mul(const(k), q))
                if len(TM._poly(r)) <= len(d) + 1 and prove_le(r, facts, depth - 1):
                    return True
        break
    return False


def _cutlens(st, c):
    """len(X[a:b]) = b - a where the facts give 0 <= a <= b <= len(X)"""
    for x in walk(c):
        if x.op == "len" and x.a[0].op == "slice" and x.a[0].a[3] is NONE and not any(
            y.op in ("bv", "bc", "carry") for y in syms(x)
        ):
            X, lo, hi = x.a[0].a[:3]
            lo = ZERO if lo is NONE else lo
            n = len_of(X)
            hi = n if hi is NONE else hi
            if is_num(lo) and cval(lo) < 0 or is_num(hi) and cval(hi) < 0:
                continue
            fs = [f.a[0] for f in st.facts if f.op == "le0"]
            fs = fs + [y for f in fs for y in implied_le(f)] + implied_le(lo) + implied_le(hi) + implied_le(n)
            if prove_le(neg(lo), fs) and prove_le(sub(lo, hi), fs) and prove_le(sub(hi, n), fs):
                return subst(c, {x: sub(hi, lo)})
    return c


def _combinations(x):
    """number of combinations of ranges, as the product of their lengths"""
    if x.op != "len" or x.a[0].op != "call" or x.a[0].a[0] is not mk("ext", "itertools.product") or x.a[0].a[2] or not x.a[0].a[1]:
        return None

    def count(q):
        if q.op == "seq" and len(q.a[1]) == 1 and q.a[1][0].op == "map" and len(q.a[1][0].a[2]) == 1:
            bv, n, ((fs, body),) = q.a[1][0].a
            if not fs and len(body) == 1 and body[0].op == "one":
                return n
        return None
    args = x.a[0].a[1]
    if len(args) == 1 and args[0].op == "spread":
        q = args[0].a[0]
        if q.op != "seq" or len(q.a[1]) != 1 or q.a[1][0].op != "map" or len(q.a[1][0].a[2]) != 1:
            return None
        bv, n, ((fs, body),) = q.a[1][0].a
        if fs or len(body) != 1 or body[0].op != "one":
            return None
        m = count(body[0].a[0])
        if m is None:
            return None
        K = fresh()
        L = seq("list", [mapseg(K, n, [((), (one(subst(m, {bv: K})),))])])
    else:
        ns = [count(q) for q in args]
        if None in ns:
            return None
        L = seq("list", [one(n) for n in ns])
    return mk("call", mk("ext", "numpy.prod"), (L,), ())


def decide(st, c, prog=None):
    if is_const(c):
        return bool(cval(c))
    if c in st.facts:
        return True
    n = nott(c)
    if n in st.facts:
        return False
    if c.op == "not":
        r = decide(st, c.a[0], prog)
        return None if r is None else not r
    if c.op == "and":
        rs = [decide(st, x, prog) for x in c.a]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if c.op == "or":
        rs = [decide(st, x, prog) for x in c.a]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if c.op == "eq0":
        for x in _atoms(c.a[0]):
            y = _combinations(x)
            if y is not None:
                c2 = subst(c, {x: y})
                r = decide(st, c2, prog) if c2 is not c else None
                if r is not None:
                    return r
    if c.op in ("le0", "eq0"):
        c2 = _cutlens(st, c)
        if c2 is not c:
            return decide(st, c2, prog)
    if c.op == "le0":
        fs = _facts_le(st, _atoms(c.a[0])) + implied_le(c.a[0])
        fs += [y for f in fs for y in implied_le(f)]
        if prove_le(c.a[0], fs):
            return True
        if prove_le(add(neg(c.a[0]), ONE), fs):
            return False
        # p <= 0 known and p != 0 known
        return None
    if c.op == "eq0":
        p = c.a[0]
        if TM._has_float(TM._poly(p)):
            return None
        fs = _facts_le(st, _atoms(p)) + implied_le(p)
        fs += [y for f in fs for y in implied_le(f)]
        if prove_le(add(p, ONE), fs) or prove_le(add(neg(p), ONE), fs):
            return False
        if prove_le(p, fs) and prove_le(neg(p), fs):
            return True
        return None
    if c.op == "truth":
        if mk_eq_none(c.a[0]) in st.facts:
            return False
    if c.op == "eq":
        for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            if y is NONE and (mk("truth", x) in st.facts):
                return False
            if y is NONE:
                # an integer test on x succeeded: x is a number
                for f in st.facts:
                    if f.op in ("le0", "eq0") and x in syms(f) and x.op == "sym":
                        return False
            if is_const(y):
                for f in st.facts:
                    if f.op == "eq" and x in f.a and f is not c:
                        z = f.a[0] if f.a[1] is x else f.a[1]
                        if (is_const(z) or z.op in ("enum", "cls")) and z is not y:
                            return False
            if y.op in ("enum", "cls"):
                for f in st.facts:
                    if f.op == "eq" and x in f.a and f is not c:
                        z = f.a[0] if f.a[1] is x else f.a[1]
                        if (is_const(z) or z.op in ("enum", "cls")) and z is not y:
                            return False
    if prog is not None:
        return prog.decide_type(st, c)
    return None


def mk_eq_none(t):
    return eq(t, NONE)
