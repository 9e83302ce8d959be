"""Three-valued comparison of value terms under the facts of an abstract state.

True  - the two terms denote the same value on every execution of the path
False - they are in normal form, built only from inputs and operations with
        known meaning, and their normal forms differ
None  - not decided (reported as UNKNOWN, never as a violation)
"""
from terms import *
import terms as TM
from state import decide, Unsupported

KNOWN_CALLS = {"abs", "min", "max", "numpy.prod", "numpy.abs", "round", "math.prod", "len", ".conjugate"}
CLEAN = {"const", "sym", "idx", "bv", "item", "attr", "len", "poly", "mod", "idiv", "enum", "cls", "func", "seq", "one",
         "star", "map", "rep", "obj", "le0", "eq0", "eq", "not", "lt0", "isinst", "typeis", "truth", "and", "or", "ext", "fstr", "kv", "builtin"}


def clean(t):
    for x in walk(t):
        if x.op == "item" and x.a[0].op == "seq":
            return False
        if x.op in CLEAN:
            continue
        if x.op == "call" and callname(x) in KNOWN_CALLS:
            continue
        return False
    return True


def meet(vs):
    """False if any False, None if any None, else True"""
    vs = list(vs)
    if any(v is False for v in vs):
        return False
    if any(v is None for v in vs):
        return None
    return True


def is_seq(t):
    if t.op in ("rev", "slice", "store"):
        return is_seq(t.a[0])
    if t.op == "maparr":
        return is_seq(t.a[2])
    return t.op == "seq" or (
        t.op == "sym" and isinstance(t.a[1], tuple) and t.a[1] and t.a[1][0] in ("list", "tuple"))


def parted(t):
    for x in walk(t):
        if x.op == "item" and x.a[0].op == "seq" and any(g.op != "one" for g in x.a[0].a[1]) and not any(y.op in ("bv", "bc") for y in syms(x)):
            return x
    return None


def extrema(t):
    for x in walk(t):
        if x.op == "call" and callname(x) in ("min", "max") and not any(y.op in ("bv", "bc") for y in syms(x)):
            a = x.a[1]
            if len(a) == 1:
                a = exact(a[0])
            if a and len(a) == 2:
                return x, a
    return None


class Cmp:
    def __init__(self, P):
        self.P = P
        self.why = None
        self.depth = 0

    def same(self, st, a, b, path=""):
        r = self.same_(st, a, b, path)
        if r is False and self.depth == 0 and doubtful(st):
            return None
        return r

    def same_(self, st, a, b, path=""):
        P = self.P
        if a is b:
            return True
        self.depth += 1
        try:
            if self.depth > 30:
                return None
            # resolve two-argument extrema by their order
            for t in (a, b):
                e = extrema(t)
                if e and self.depth < 12:
                    x, (p, q) = e
                    vs = []
                    for s2, v in P.branch(st.copy(), le(p, q)):
                        w = (p if v else q) if callname(x) == "min" else (q if v else p)
                        vs.append(self.same(s2, subst(a, {x: w}), subst(b, {x: w}), path))
                    return meet(vs)
            # an element of a list in several parts: one case per part
            for t in (a, b):
                x = parted(t)
                if x is not None and self.depth < 12:
                    vs = []
                    for s2, v, _ in self.nth(st, x.a[0], x.a[1]):
                        if not feasible(P, s2):
                            continue
                        vs.append(None if v is None or v is x else self.same(s2, subst(a, {x: v}), subst(b, {x: v}), path))
                    return meet(vs)
            return self._same(st, a, b, path)
        finally:
            self.depth -= 1

    def no(self, path, a, b):
        self.why = f"{path or 'value'}: {show(a)[:160]}  /=  {show(b)[:160]}"
        return False

    def _same(self, st, a, b, path):
        P = self.P
        if a.op == "obj" and b.op == "obj":
            if a.a[0] is not b.a[0]:
                return self.no(path + ".class", a.a[0], b.a[0])
            da, db = dict(a.a[1]), dict(b.a[1])
            if set(da) != set(db):
                return None
            return meet(self.same(st, da[k], db[k], f"{path}.{k}") for k in sorted(da))
        if a.op == "obj" and b.op in ("const", "seq", "poly") or b.op == "obj" and a.op in ("const", "seq", "poly"):
            return self.no(path, a, b)
        if is_seq(a) and is_seq(b):
            return self.seqs(st, a, b, path)
        if a.op == b.op == "call" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]) and [k for k, _ in a.a[2]] == [k for k, _ in b.a[2]]:
            vs = [self.same(st, x, y, path) for x, y in zip(a.a[1], b.a[1])] + [
                self.same(st, x[1], y[1], path) for x, y in zip(a.a[2], b.a[2])]
            if meet(vs) is True:
                return True
        if a.op == b.op and (a.op in ("item", "slice", "mod", "idiv", "attr", "fstr", "kv", "truth") or a.op == "len" and not is_seq(a.a[0])):
            ca, cb = list(children(a)), list(children(b))
            if len(ca) == len(cb) and (a.op != "attr" or a.a[1] == b.a[1]):
                if meet(self.same(st, x, y, path) for x, y in zip(ca, cb)) is True:
                    return True
        r = decide(st, eq(a, b), P)
        if r is not None:
            return True if r else self.no(path, a, b)
        if clean(a) and clean(b):
            return self.no(path, a, b)
        return None

    # -------------------------------------------------------------- sequences
    def segs(self, t):
        if t.op == "seq":
            out = []
            for s in t.a[1]:
                if s.op == "star" and s.a[0].op == "seq":
                    out += self.segs(s.a[0])
                else:
                    out.append(s)
            return out
        return [star(t)]

    def seqs(self, st, a, b, path=""):
        P = self.P
        ea, eb = exact(a), exact(b)
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return self.no(path + ".length", const(len(ea)), const(len(eb)))
            return meet(self.same(st, x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(ea, eb)))
        la, lb = len_of(a), len_of(b)
        v = self.same(st, la, lb, path + ".length")
        if v is not True:
            return v
        k = sym(f"pos{self.depth}", "int")
        s0 = st.copy()
        s0.fact(le0(neg(k)))
        s0.fact(lt(k, la))
        vs = []
        for s1, x, ka in self.nth(s0, a, k):
            for s2, y, kb in self.nth(s1, b, ka):
                if kb is not ka and x is not None:
                    x = subst(x, {k: kb})
                if x is None or y is None:
                    vs.append(None)
                else:
                    vs.append(self.same(s2, x, y, f"{path}[k]"))
        return meet(vs)

    def nth(self, st, c, k):
        """element number k (a term) of a segmented sequence: [(state, term or None, position)];
        inside a one-element segment the position is known exactly"""
        P = self.P
        if c.op == "rev":
            return [(s, v, k) for s, v, _ in self.nth(st, c.a[0], sub(sub(len_of(c.a[0]), ONE), k))]
        if c.op != "seq":
            return [(st, P.item(st, c, k), k)]
        out = []
        cur = st
        off = ZERO
        sg = self.segs(c)
        for n, g in enumerate(sg):
            ln = len_of(seq("list", [g]))
            end = add(off, ln)
            last = n == len(sg) - 1
            nxt = None
            for s, v in ([(cur, True)] if last else P.branch(cur.copy(), lt(k, end))):
                if v:
                    pos = sub(k, off)
                    if g.op == "one":
                        out.append((s, g.a[0], off))
                    elif g.op == "star":
                        if g.a[0].op in ("seq", "rev"):
                            out += [(s2, v2, k) for s2, v2, _ in self.nth(s, g.a[0], pos)]
                        else:
                            out.append((s, P.item(s, g.a[0], pos), k))
                    elif g.op == "rep" and exact(g.a[0]) and len(exact(g.a[0])) == 1:
                        out.append((s, exact(g.a[0])[0], k))
                    elif g.op == "map":
                        K, N, cases = g.a
                        if all(len(x) == 1 and x[0].op == "one" for f, x in cases):
                            rest = [s]
                            for f, x in cases:
                                nr = []
                                for s2 in rest:
                                    for s3, ok in P.branch(s2, mk("and", *[subst(y, {K: pos}) for y in f]) if len(f) != 1 else subst(f[0], {K: pos})) if f else [(s2, True)]:
                                        if ok:
                                            out.append((s3, subst(x[0].a[0], {K: pos}), k))
                                        else:
                                            nr.append(s3)
                                rest = nr
                        else:
                            out.append((s, None, k))
                    else:
                        out.append((s, None, k))
                else:
                    nxt = s
            if nxt is None:
                break
            cur, off = nxt, end
        return out


def doubtful(st):
    """conditions of the path that depend on functions of unknown meaning and share
    intermediate values with other conditions may contradict each other unnoticed"""
    seen = {}
    bad = []
    for f in getattr(st, "facts", st):
        subs = {x for x in walk(f) if x.op in ("seq", "call", "top", "fold", "maparr", "lookup", "slice", "store") and not is_const(x)}
        for x in subs:
            seen[x] = seen.get(x, 0) + 1
        if any(x.op == "top" for x in subs):
            return True
        if any(x.op == "fold" and any(y.op == "idx" for y in syms(x.a[2])) for x in subs):
            return True  # how often a loop ran, told only by what it accumulated
        for x in subs:
            if x.op == "lookup" or x.op == "call" and callname(x) not in KNOWN_CALLS:
                bad.append(x)
    for b in bad:
        if any(seen.get(y, 0) > 1 for y in walk(b) if y in seen):
            return True
    return False


def feasible(P, st):
    """False when the facts of the path contradict each other (as far as the fact base can tell)"""
    for f in list(st.facts):
        if f.op in ("forall", "raised", "unpacked"):
            continue
        if nott(f) in st.facts:
            return False
        s2 = st.copy()
        del s2.facts[f]
        if decide(s2, f, P) is False:
            return False
    return True


def settled(marked):
    """marked: (state, changed?, writes) per outcome.  A change that is still there in every outcome
    that passes through the same write needs only the conditions up to that write to be consistent;
    returns, per outcome, the facts that have to hold together for the change to be real."""
    spots = {}
    for s, ch, ws in marked:
        for e in ws:
            spots.setdefault((e.site, e.kind), []).append(ch)
    out = []
    for s, ch, ws in marked:
        best = s
        for e in ws:
            if all(spots[(e.site, e.kind)]) and not doubtful(e.facts):
                best = e.facts
                break
        out.append(best)
    return out
