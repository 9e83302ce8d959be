"""Counter-instances. An undecided comparison between derived entries of a matrix and the ones wanted can
still be refuted: an assignment of the parameters under which every condition of the derivation's path
holds and the two expressions have different values. Only derived expressions are evaluated."""
import cmath, itertools, math
from fractions import Fraction
from terms import *
import terms as TM


class NoValue(Exception):
    pass


FUNS = {
    "min": min, "max": max, "abs": abs, "sum": sum, "sorted": lambda x: sorted(x), "len": len, "int": int, "float": float, "list": list, "tuple": tuple,
    "numpy.prod": math.prod, "math.prod": math.prod, "numpy.product": math.prod, "numpy.abs": abs, "numpy.exp": cmath.exp, "cmath.exp": cmath.exp,
    "numpy.sqrt": cmath.sqrt, "math.sqrt": math.sqrt, "numpy.cos": cmath.cos, "numpy.sin": cmath.sin, "math.cos": math.cos, "math.sin": math.sin,
    "numpy.real": lambda x: complex(x).real, "numpy.imag": lambda x: complex(x).imag, "numpy.conj": lambda x: complex(x).conjugate(), "numpy.conjugate": lambda x: complex(x).conjugate(),
    "math.exp": math.exp, "set": lambda x: list(dict.fromkeys(x)), "reversed": lambda x: list(reversed(x)), "math.ceil": math.ceil, "math.floor": math.floor, "numpy.sort": sorted,
    "numpy.floor": lambda x: math.floor(x), "math.gcd": math.gcd, "bool": bool, "any": any, "all": all, "pow": pow, "numpy.power": lambda a, b: complex(a) ** b if isinstance(a, complex) else a ** b,
}
EXTS = {"numpy.pi": math.pi, "math.pi": math.pi, "math.tau": 2 * math.pi, "math.e": math.e, "numpy.e": math.e, "cmath.pi": math.pi, "scipy.pi": math.pi}


class Narrow(int):
    """an element of an array of narrow integers; products of such elements wrap around"""

    def __new__(cls, x, bits, signed):
        r = int.__new__(cls, wrap(x, bits, signed))
        r.kind = (bits, signed)
        return r


def wrap(x, bits, signed):
    x %= 1 << bits
    return x - (1 << bits) if signed and x >> (bits - 1) else x


for _b in (8, 16, 32):
    for _s in (True, False):
        FUNS[f"numpy.{'' if _s else 'u'}int{_b}"] = lambda x, b=_b, s=_s: Narrow(x, b, s)


class Eval:
    def __init__(self, env):
        self.memo = dict(env)

    def v(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.ev(t)
        self.memo[t] = r
        return r

    def bound(self, K, k, t):
        """value of t with the bound variable K at k"""
        return Eval({**{x: y for x, y in self.memo.items() if x.op in ("sym", "bv")}, K: k}).v(t)

    def segs(self, gs):
        out = []
        for g in gs:
            if g.op == "one":
                out.append(self.v(g.a[0]))
            elif g.op == "star":
                x = self.v(g.a[0])
                if not isinstance(x, (list, tuple)):
                    raise NoValue(g)
                out += x
            elif g.op == "map":
                K, N, cases = g.a
                n = self.v(N)
                if not isinstance(n, int) or n > 5000:
                    raise NoValue(g)
                for k in range(n):
                    e = Eval({**{x: y for x, y in self.memo.items() if x.op in ("sym", "bv")}, K: k})
                    for fs, gs2 in cases:
                        if all(e.v(f) for f in fs):
                            out += e.segs(gs2)
                            break
            else:
                raise NoValue(g)
        return out

    def ev(self, t):
        o, a = t.op, t.a
        if o == "const":
            v = a[1]
            return v
        if o == "poly":
            s = 0
            for m, c in a[0]:
                p, small = c, None
                for x, e in m:
                    w = self.v(x)
                    if isinstance(w, (list, tuple, str)) or w is None:
                        raise NoValue(t)
                    if isinstance(w, bool):
                        w = int(w)
                    if isinstance(w, Narrow):
                        if small is not None and small.kind != w.kind or len(a[0]) > 1 or not isinstance(e, int) or e < 1:
                            raise NoValue(t)
                        small = Narrow((1 if small is None else int(small)) * int(w) ** e, *w.kind)
                        continue
                    if isinstance(p, Fraction) and isinstance(w, complex):
                        p = float(p)
                    if isinstance(w, Fraction) and isinstance(p, complex):
                        w = float(w)
                    p = p * (w if e == 1 else w ** e)
                if small is not None:
                    p = p * int(small) if not isinstance(p, int) or p != 1 else small
                if isinstance(p, Fraction) and isinstance(s, complex):
                    p = float(p)
                if isinstance(s, Fraction) and isinstance(p, complex):
                    s = float(s)
                s = s + p if len(a[0]) > 1 else p
            return int(s) if isinstance(s, Fraction) and s.denominator == 1 else s
        if o == "seq":
            return self.segs(a[1])
        if o == "item":
            L, i = self.v(a[0]), self.v(a[1])
            if not isinstance(L, (list, tuple)) or not isinstance(i, int) or not -len(L) <= i < len(L):
                raise NoValue(t)
            return L[i]
        if o == "slice":
            L = self.v(a[0])
            ix = [None if x is NONE else self.v(x) for x in a[1:]]
            if not isinstance(L, (list, tuple)) or any(x is not None and not isinstance(x, int) for x in ix):
                raise NoValue(t)
            return list(L[slice(*ix)])
        if o == "rev":
            return list(reversed(self.v(a[0])))
        if o == "len":
            if a[0].op == "setof":
                return len(set(self.v(a[0].a[0])))
            L = self.v(a[0])
            if not isinstance(L, (list, tuple)):
                raise NoValue(t)
            return len(L)
        if o in ("mod", "idiv"):
            x, y = self.v(a[0]), self.v(a[1])
            if isinstance(x, complex) or isinstance(y, complex) or not y:
                raise NoValue(t)
            return x % y if o == "mod" else x // y
        if o == "le0":
            x = self.v(a[0])
            if isinstance(x, (complex, str, list)):
                raise NoValue(t)
            return x <= 0
        if o == "eq0":
            x = self.v(a[0])
            return abs(x) < 1e-9 if isinstance(x, (complex, float)) else x == 0
        if o == "eq":
            return self.v(a[0]) == self.v(a[1])
        if o == "not":
            return not self.v(a[0])
        if o == "and":
            return all(self.v(x) for x in a)
        if o == "or":
            return any(self.v(x) for x in a)
        if o == "truth":
            return bool(self.v(a[0]))
        if o == "in":
            return self.v(a[0]) in self.v(a[1])
        if o == "forall":
            K, N, cs = a
            return all(self.bound(K, k, c) for k in range(self.v(N)) for c in cs)
        if o == "digit":
            return self.digits(a[0], self.v(a[1]))[self.index(a[0], a[2])]
        if o == "rank":
            d = self.digits(a[0], self.v(a[1]))
            for p, x in a[2]:
                d[self.index(a[0], p)] = self.v(x)
            q = self.base(a[0])
            r = 0
            low = a[0].op == "lowfirst"
            for y, b in reversed(list(zip(d, q))) if low else zip(d, q):
                if not isinstance(y, int) or not 0 <= y < b:
                    raise NoValue(t)
                r = r * b + y
            return r
        if o == "bin" and a[0] == "**":
            x, y = self.v(a[1]), self.v(a[2])
            try:
                return x ** y
            except Exception:
                raise NoValue(t)
        if o == "call":
            f = a[0]
            if f.op == "ext" and f.a[0] in FUNS and not a[2]:
                xs = [self.v(x) for x in a[1]]
                try:
                    return FUNS[f.a[0]](*xs)
                except Exception:
                    raise NoValue(t)
            raise NoValue(t)
        if o == "ext" and a[0] in EXTS:
            return EXTS[a[0]]
        raise NoValue(t)

    def base(self, q):
        b = self.v(q.a[0] if q.op == "lowfirst" else q)
        if not isinstance(b, (list, tuple)) or not all(isinstance(x, int) and x > 0 for x in b):
            raise NoValue(q)
        return b

    def index(self, q, p):
        i = self.v(p)
        n = len(self.base(q))
        if not isinstance(i, int) or not -n <= i < n:
            raise NoValue(p)
        return i

    def digits(self, q, r):
        b = self.base(q)
        if not isinstance(r, int) or not 0 <= r < math.prod(b):
            raise NoValue(q)
        out = []
        for x in b if q.op == "lowfirst" else reversed(b):
            out.append(r % x)
            r //= x
        return out if q.op == "lowfirst" else out[::-1]


def holds(e, facts, given):
    """all conditions hold; a given one that says nothing about the parameters is assumed"""
    for f in facts:
        try:
            if not e.v(f):
                return False
        except NoValue:
            if f not in given:
                return None
    return True


def entry(e, cases):
    """value of the entry; NoValue when no case applies"""
    for cs, v in cases:
        ok = True
        for c in cs:
            if not e.v(c):
                ok = False
                break
        if ok:
            return e.v(v)
    raise NoValue("no case")


def counter(facts, base, a, cases, row, col, envs, spec):
    """(assignment, row, column, derived, wanted) with derived != wanted, or None;
    spec(env) -> (size, f) where f(i, j) is the wanted entry"""
    for env in envs:
        e = Eval(env)
        try:
            if holds(e, facts, base) is not True:
                continue
            n, f = spec(env)
            sh = [e.v(x) for x in a.shape]
        except (NoValue, ZeroDivisionError, OverflowError):
            continue
        if sh != [n, n]:
            return env, None, None, sh, [n, n]
        cells = [(i, j) for j in range(n) for i in range(n)] if n <= 12 else [(i, j) for j in range(n) for i in {j, *f(None, j)}]
        for i, j in cells:
            e2 = Eval({**env, row: i, col: j})
            try:
                x = entry(e2, cases)
                y = f(i, j)
                if isinstance(x, (list, tuple, str)) or x is None:
                    break
                if abs(complex(x) - complex(y)) > 1e-6:
                    return env, i, j, x, y
            except (NoValue, ZeroDivisionError, OverflowError, TypeError):
                break
    return None
