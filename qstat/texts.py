"""A domain of texts: sequences of known characters and of the decimal digits of
symbolic natural numbers, with the string methods and regular expressions on it.

Tokens: ("c", ch) a known character; ("D", n) the decimal digits of n, at least
one; ("d", n) the digits of n where n is at most nine; ("h", n) and ("t", n) the
first digit and the remaining digits of n where n is at least ten."""
import re
try:
    import re._parser as sp
    from re import _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc
from terms import *
import engine as E


class Amb(Exception):
    """the digits of a symbolic number would decide"""


class Split(Exception):
    def __init__(self, n):
        self.n = n


DIGITS = set("0123456789")


def tokens(t, few=None):
    """tokens of a text term, or None; few(n): True when n <= 9, False when n >= 10, None unknown"""
    out = []
    for p in (t.a if t.op == "fstr" else (t,)):
        if is_const(p) and p.a[0] == "str":
            out += [("c", ch) for ch in cval(p)]
        elif p.op == "str" and len(p.a) == 1 and p.a[0].op in ("sym", "idx"):
            f = few(p.a[0]) if few else None
            if f is None:
                out.append(("D", p.a[0]))
            elif f:
                out.append(("d", p.a[0]))
            else:
                out += [("h", p.a[0]), ("t", p.a[0])]
        elif p.op in ("strhead", "strtail"):
            out.append((p.op[3], p.a[0]))
        else:
            return None
    return out


def term(toks):
    parts, i = [], 0
    while i < len(toks):
        k, v = toks[i]
        if k == "c":
            parts.append(const(v))
        elif k in ("D", "d"):
            parts.append(mk("str", v))
        elif k == "h" and i + 1 < len(toks) and toks[i + 1] == ("t", v):
            parts.append(mk("str", v))
            i += 1
        else:
            parts.append(mk("strhead" if k == "h" else "strtail", v))
        i += 1
    return E.fstr(parts)


def few(P, st):
    def f(n):
        r = E.decide(st, le(n, const(9)), P)
        return r
    return f


def istext(t):
    return is_const(t) and t.a[0] == "str" or t.op in ("fstr", "str", "strhead", "strtail")


def symbolic(t):
    """a text with at least one symbolic number in it"""
    return not is_const(t) and istext(t) and tokens(t) is not None


# ------------------------------------------------------- regular expressions
class Rx:
    def __init__(self, toks, flags):
        self.s, self.fl = toks, flags

    def single(self, node, flags):
        """predicate of a one-character item, or None"""
        op, av = node
        ic = flags & re.I
        if op is sc.LITERAL:
            return lambda ch: ord(ch) == av or ic and ch.lower() == chr(av).lower()
        if op is sc.NOT_LITERAL:
            return lambda ch: not (ord(ch) == av or ic and ch.lower() == chr(av).lower())
        if op is sc.ANY:
            return (lambda ch: True) if flags & re.S else (lambda ch: ch != "\n")
        if op is sc.IN:
            neg = av and av[0][0] is sc.NEGATE
            items = av[1:] if neg else av

            def one_(ch):
                for o, a in items:
                    if o is sc.LITERAL and ord(ch) == a or o is sc.RANGE and a[0] <= ord(ch) <= a[1]:
                        return True
                    if o is sc.CATEGORY and cat(a, ch):
                        return True
                return False

            def pred(ch):
                r = one_(ch) or bool(ic) and (one_(ch.lower()) or one_(ch.upper()))
                return r != bool(neg)
            return pred
        return None

    def digits(self, pred):
        v = {bool(pred(d)) for d in DIGITS}
        return v.pop() if len(v) == 1 else None

    def step(self, pred, pos):
        """position after one character, or None"""
        i, part = pos
        if i >= len(self.s):
            return None
        k, v = self.s[i]
        if k == "c":
            return (i + 1, 0) if pred(v) else None
        d = self.digits(pred)
        if d is False:
            return None
        if d is None:
            raise Amb()
        if part or k == "t":
            raise Amb()
        if k == "D":
            raise Split(v)
        return (i + 1, 0)

    def seq(self, nodes, pos, caps, flags, cont):
        """cont(pos, caps) for the first way to match; result of cont or None"""
        if not nodes:
            return cont(pos, caps)
        node, rest = nodes[0], nodes[1:]
        op, av = node
        p = self.single(node, flags)
        if p is not None:
            q = self.step(p, pos)
            return None if q is None else self.seq(rest, q, caps, flags, cont)
        nxt = lambda q, c: self.seq(rest, q, c, flags, cont)
        if op is sc.SUBPATTERN:
            g, add, sub_, body = av
            f2 = (flags | add) & ~sub_
            return self.seq(list(body), pos, caps, f2, lambda q, c: nxt(q, c if g is None else {**c, g: (pos, q)}))
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), pos, caps, flags, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            body = list(body)
            p = self.single(body[0], flags) if len(body) == 1 else None
            if p is not None:
                return self.repeat(p, lo, None if hi is sc.MAXREPEAT else hi, op is sc.MAX_REPEAT, pos, caps, nxt)
            return self.general(body, lo, None if hi is sc.MAXREPEAT else hi, op is sc.MAX_REPEAT, pos, caps, flags, nxt, 0)
        if op is sc.AT:
            return nxt(pos, caps) if self.at(av, pos, flags) else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, body = av
            if d < 0:
                w = body.getwidth()
                if w[0] != w[1]:
                    raise Amb()
                i = pos[0] - w[0]
                if pos[1] or i < 0 or any(k in "Dt" for k, v in self.s[i:pos[0]]):
                    if i < 0:
                        r = None
                    else:
                        raise Amb()
                else:
                    r = self.seq(list(body), (i, 0), caps, flags, lambda q, c: True if q == pos else None)
            else:
                r = self.seq(list(body), pos, caps, flags, lambda q, c: True)
            return nxt(pos, caps) if (r is not None) == (op is sc.ASSERT) else None
        raise Amb()

    def repeat(self, p, lo, hi, greedy, pos, caps, nxt):
        ways, n = [(pos, 0)], 0
        while hi is None or n < hi:
            i, part = ways[-1][0]
            if i >= len(self.s):
                break
            k, v = self.s[i]
            if k in ("D", "t"):
                d = self.digits(p)
                if d is None:
                    raise Amb()
                if not d:
                    break
                if hi is not None:
                    if k == "D":
                        raise Split(v)
                    raise Amb()
                # all its digits; giving some back leaves a part of it
                ways.append(((i, 1), n + 1 if n + 1 >= lo else -1))
                n += 1
                if n < lo:
                    if k == "D":
                        raise Split(v)
                    raise Amb()
                ways.append(((i + 1, 0), n))
                continue
            q = self.step(p, (i, part))
            if q is None:
                break
            n += 1
            ways.append((q, n))
        for q, n in (reversed(ways) if greedy else ways):
            if n >= lo or n == -1:
                if q[1]:
                    r = nxt(q, caps)
                    if r is not None:
                        raise Amb()
                    continue
                r = nxt(q, caps)
                if r is not None:
                    return r
        return None

    def general(self, body, lo, hi, greedy, pos, caps, flags, nxt, n):
        more = lambda: self.seq(body, pos, caps, flags, lambda q, c: None if q == pos else self.general(body, lo, hi, greedy, q, c, flags, nxt, n + 1)) if hi is None or n < hi else None
        stop = lambda: nxt(pos, caps) if n >= lo else None
        for f in ((more, stop) if greedy else (stop, more)):
            r = f()
            if r is not None:
                return r
        return None

    def word(self, i):
        if not 0 <= i < len(self.s):
            return False
        k, v = self.s[i]
        return k != "c" or v.isalnum() or v == "_"

    def at(self, what, pos, flags):
        i, part = pos
        if part:
            if what in (sc.AT_BOUNDARY, sc.AT_BEGINNING, sc.AT_BEGINNING_STRING, sc.AT_END, sc.AT_END_STRING):
                return False
            if what is sc.AT_NON_BOUNDARY:
                return True
            raise Amb()
        n = len(self.s)
        nl = lambda j: self.s[j] == ("c", "\n")
        if what is sc.AT_BEGINNING_STRING:
            return i == 0
        if what is sc.AT_BEGINNING:
            return i == 0 or bool(flags & re.M) and nl(i - 1)
        if what is sc.AT_END_STRING:
            return i == n
        if what is sc.AT_END:
            return i == n or i == n - 1 and nl(i) or bool(flags & re.M) and nl(i)
        if what is sc.AT_BOUNDARY:
            return self.word(i - 1) != self.word(i)
        if what is sc.AT_NON_BOUNDARY:
            return self.word(i - 1) == self.word(i)
        raise Amb()

    def match(self, nodes, pos, flags, full=False):
        return self.seq(nodes, pos, {}, flags, lambda q, c: (q, c) if not full or q == (len(self.s), 0) else None)


def cat(a, ch):
    n = str(a)
    if n.endswith("NOT_DIGIT"):
        return not ch.isdigit()
    if n.endswith("DIGIT"):
        return ch.isdigit()
    if n.endswith("NOT_SPACE"):
        return not ch.isspace()
    if n.endswith("SPACE"):
        return ch.isspace()
    if n.endswith("NOT_WORD"):
        return not (ch.isalnum() or ch == "_")
    if n.endswith("WORD"):
        return ch.isalnum() or ch == "_"
    raise Amb()


def one_match(m, n):
    return m.start(), m.end(), {g: ((m.start(g), 0), (m.end(g), 0)) for g in range(1, n + 1) if m.start(g) >= 0}


def matches(pat, toks, flags, count=0):
    """all matches left to right: [(start index, end index, captures)], number of groups"""
    tree = sp.parse(pat, flags)
    flags = tree.state.flags
    nodes = list(tree)
    rx = Rx(toks, flags) if not isinstance(toks, str) else None
    out, i = [], 0
    if isinstance(toks, str):
        for m in re.compile(pat, flags).finditer(toks):
            out.append(one_match(m, tree.state.groups - 1))
            if count and len(out) == count:
                break
        return out, tree.state.groups - 1, tree.state.groupdict
    while i <= len(toks):
        r = rx.match(nodes, (i, 0), flags)
        if r is not None:
            q, caps = r
            if q[1] or any(x[1] for c in caps.values() for x in c):
                raise Amb()
            if q[0] == i:
                # an empty match: also between the digits of a number
                if any(k in "Dt" for k, v in toks):
                    raise Amb()
            out.append((i, q[0], caps))
            if count and len(out) == count:
                break
            i = q[0] if q[0] > i else i + 1
            continue
        if i < len(toks) and toks[i][0] in ("D", "t"):
            if rx.match(nodes, (i, 1), flags) is not None:
                raise Amb()
        i += 1
    return out, tree.state.groups - 1, tree.state.groupdict


def flagval(t):
    """value of a flags argument"""
    if t is None or t is NONE:
        return 0
    if is_num(t):
        return int(cval(t))
    if t.op == "ext":
        v = getattr(re, t.a[0].split(".")[-1], None)
        if isinstance(v, re.RegexFlag):
            return int(v)
    if t.op == "bin" and t.a[0] in ("|", "BitOr"):
        return flagval(t.a[1]) | flagval(t.a[2])
    if t.op == "poly":
        # re.I + re.M is the same as re.I | re.M
        raise Amb()
    raise Amb()


def forking(P, st, go):
    """outcomes of go(state), with a case split where the number of digits of a symbolic number decides"""
    todo, out, n = [st], [], 0
    while todo:
        s = todo.pop(0)
        n += 1
        if n > 24:
            return None
        try:
            r = go(s)
            if r is None:
                return None
            out += r
        except Split as e:
            todo += [s2 for s2, v in P.branch(s, le(e.n, const(9)))]
        except Amb:
            return None
    return out


def cut(toks, i, j):
    return const(toks[i:j]) if isinstance(toks, str) else term(toks[i:j])


def lst(P, st, xs, kind="list"):
    c = seq(kind, [one(x) for x in xs])
    return P.newlist(st, c) if kind == "list" else c


def groups(toks, n, m, whole=True):
    i, j, caps = m
    gs = [cut(toks, caps[g][0][0], caps[g][1][0]) if g in caps else None for g in range(1, n + 1)]
    return gs


RE = ("sub", "subn", "findall", "split", "match", "search", "fullmatch", "finditer")


def rematch(P, st, name, pat, text, flags, a, kw):
    """re.<name>(pat, ..., text)"""
    if not (is_const(pat) and pat.a[0] == "str") or not istext(text):
        return None

    def go(s):
        toks = cval(text) if is_const(text) else tokens(text, few(P, s))
        if toks is None:
            return None
        fl = flagval(flags)
        p = cval(pat)
        if name in ("match", "fullmatch", "search"):
            if name == "search":
                ms, n, names = matches(p, toks, fl, 1)
            elif isinstance(toks, str):
                tree = sp.parse(p, fl)
                n, names = tree.state.groups - 1, tree.state.groupdict
                m = getattr(re.compile(p, fl), name)(toks)
                ms = [one_match(m, n)] if m else []
            else:
                tree = sp.parse(p, fl)
                r = Rx(toks, tree.state.flags).match(list(tree), (0, 0), tree.state.flags, name == "fullmatch")
                n, names = tree.state.groups - 1, tree.state.groupdict
                if r is not None and (r[0][1] or any(x[1] for c in r[1].values() for x in c)):
                    raise Amb()
                ms = [(0, r[0][0], r[1])] if r is not None else []
            if not ms:
                return [(s, NONE)]
            gs = [cut(toks, ms[0][0], ms[0][1])] + [g if g is not None else NONE for g in groups(toks, n, ms[0])]
            return [(s, mk("rematch", tuple(gs), tuple(sorted(names.items())), const(ms[0][0])))]
        if name == "findall" or name == "finditer":
            ms, n, names = matches(p, toks, fl)
            if name == "finditer":
                return [(s, lst(P, s, [mk("rematch", (cut(toks, m[0], m[1]),) + tuple(g if g is not None else NONE for g in groups(toks, n, m)), tuple(sorted(names.items())), const(m[0])) for m in ms]))]
            res = []
            for m in ms:
                gs = [g if g is not None else const("") for g in groups(toks, n, m)]
                res.append(cut(toks, m[0], m[1]) if n == 0 else gs[0] if n == 1 else seq("tuple", [one(g) for g in gs]))
            return [(s, lst(P, s, res))]
        cnt = a.get("count", a.get("maxsplit", ZERO))
        if cnt.op == "ext" and cnt.a[0].startswith("re.") and isinstance(getattr(re, cnt.a[0][3:], None), re.RegexFlag):
            cnt = const(int(getattr(re, cnt.a[0][3:])))
        if not is_num(cnt):
            return None
        ms, n, names = matches(p, toks, fl, int(cval(cnt)))
        if name == "split":
            res, i = [], 0
            for m in ms:
                res.append(cut(toks, i, m[0]))
                res += [g if g is not None else NONE for g in groups(toks, n, m)]
                i = m[1]
            res.append(cut(toks, i, len(toks)))
            return [(s, lst(P, s, res))]
        rep = a["repl"]
        cur = [(s, [])]
        i = 0
        for m in ms:
            gs = [cut(toks, m[0], m[1])] + groups(toks, n, m)
            nx = []
            for s1, parts in cur:
                parts = parts + [cut(toks, i, m[0])]
                if is_const(rep) and rep.a[0] == "str":
                    nx.append((s1, parts + template(cval(rep), gs, names)))
                elif istext(rep):
                    if any(k == "c" and v == "\\" for k, v in tokens(rep) or [("c", "\\")]):
                        return None
                    nx.append((s1, parts + [rep]))
                else:
                    mt = mk("rematch", tuple(g if g is not None else NONE for g in gs), tuple(sorted(names.items())), const(m[0]))
                    for s2, v in P.call(s1, rep, [mt], {}):
                        v = P.snap(s2, v)
                        if not istext(v):
                            return None
                        nx.append((s2, parts + [v]))
            cur = nx
            i = m[1]
        out = []
        for s1, parts in cur:
            t = E.fstr(parts + [cut(toks, i, len(toks))])
            out.append((s1, t if name == "sub" else seq("tuple", [one(t), one(const(len(ms)))])))
        return out

    return forking(P, st, go)


def template(rep, gs, names):
    out = []
    for m in re.finditer(r"\\(\d{1,2})|\\g<(\w+)>|\\(.)|([^\\]+)", rep, re.S):
        d, g, e, lit = m.groups()
        if lit is not None:
            out.append(const(lit))
        elif e is not None:
            k = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(e)
            if k is None:
                raise Amb()
            out.append(const(k))
        else:
            k = d or g
            k = int(k) if k.isdigit() else names[k]
            if k >= len(gs):
                raise Amb()
            out.append(gs[k] if gs[k] is not None else const(""))
    return out


def ext(P, st, f, a, kw):
    """calls of the re module; None when not understood"""
    n = f.a[0].split(".")
    if n[0] != "re" or len(n) != 2:
        return None
    n = n[1]
    A = [P.snap(st, x) if x.op != "func" else x for x in a]
    K = {k: P.snap(st, x) if x.op != "func" else x for k, x in kw.items()}
    if n == "escape" and A and is_const(A[0]):
        return [(st, const(re.escape(cval(A[0]))))]
    if n == "compile" and A:
        return [(st, mk("repattern", A[0], A[1] if len(A) > 1 else K.get("flags", NONE)))]
    sig = {"sub": ["pattern", "repl", "string", "count", "flags"], "subn": ["pattern", "repl", "string", "count", "flags"], "split": ["pattern", "string", "maxsplit", "flags"]}.get(n, ["pattern", "string", "flags"])
    if n not in RE:
        return None
    d = dict(zip(sig, A))
    d.update(K)
    if set(d) - set(sig) or "pattern" not in d or "string" not in d:
        return None
    pat, fl = d["pattern"], d.get("flags", NONE)
    if pat.op == "repattern":
        pat, fl = pat.a
    return rematch(P, st, n, pat, d["string"], fl, d, K)


def pattern_method(P, st, o, n, a, kw):
    sig = {"sub": ["repl", "string", "count"], "subn": ["repl", "string", "count"], "split": ["string", "maxsplit"]}.get(n, ["string"])
    if n not in RE:
        return None
    A = [P.snap(st, x) if x.op != "func" else x for x in a]
    d = dict(zip(sig, A))
    d.update({k: P.snap(st, x) for k, x in kw.items()})
    if set(d) - set(sig) or "string" not in d:
        return None
    return rematch(P, st, n, o.a[0], d["string"], o.a[1], d, kw)


def match_method(P, st, o, n, a, kw):
    gs, names, start = o.a
    idx = dict(names)

    def g(x):
        if is_num(x):
            return gs[cval(x)] if cval(x) < len(gs) else None
        if is_const(x) and cval(x) in idx:
            return gs[idx[cval(x)]]
        return None
    if n in ("group", "__getitem__"):
        v = [g(x) for x in a] or [gs[0]]
        if any(x is None for x in v):
            return None
        return [(st, v[0] if len(v) == 1 else seq("tuple", [one(x) for x in v]))]
    if n == "groups" and not kw:
        return [(st, seq("tuple", [one(x if x is not NONE or not a else a[0]) for x in gs[1:]]))]
    if n == "groupdict" and not a and not kw:
        return [(st, st.alloc(E.Obj("dict", content=seq("dict", [one(mk("kv", const(k), gs[i])) for k, i in names]), site=P.site())))]
    return None


# ------------------------------------------------------------ string methods
def strmeth(P, st, s, name, A, kw):
    """methods of a text with symbolic numbers; None when not understood"""
    K = dict(kw)

    def go(s1):
        toks = tokens(s, few(P, s1))
        if toks is None:
            return None
        ch = lambda i: toks[i][1] if toks[i][0] == "c" else "0"
        if name in ("upper", "lower", "title", "capitalize", "casefold", "swapcase") and not A:
            if name in ("title", "capitalize"):
                return None
            return [(s1, term([(k, getattr(v, name)()) if k == "c" else (k, v) for k, v in toks]))]
        if name in ("strip", "lstrip", "rstrip"):
            if A and A[0] is not NONE:
                if not is_const(A[0]):
                    return None
                cs = set(cval(A[0]))
                if cs & DIGITS:
                    return None
                f = lambda c: c in cs
            else:
                f = str.isspace
            i, j = 0, len(toks)
            if name != "rstrip":
                while i < j and toks[i][0] == "c" and f(toks[i][1]):
                    i += 1
            if name != "lstrip":
                while j > i and toks[j - 1][0] == "c" and f(toks[j - 1][1]):
                    j -= 1
            return [(s1, term(toks[i:j]))]
        if name in ("split", "rsplit"):
            sep = A[0] if A else K.get("sep", NONE)
            mx = A[1] if len(A) > 1 else K.get("maxsplit", const(-1))
            if not is_num(mx) or name == "rsplit" and cval(mx) != -1:
                return None
            mx = cval(mx)
            out, cur, i = [], [], 0
            if sep is NONE:
                # runs of white space
                while i < len(toks):
                    k, v = toks[i]
                    if k == "c" and v.isspace():
                        if cur:
                            out.append(cur)
                            cur = []
                    elif mx >= 0 and len(out) >= mx and not cur:
                        rest = toks[i:]
                        while rest and rest[-1][0] == "c" and rest[-1][1].isspace():
                            rest.pop()
                        out.append(rest)
                        return [(s1, lst(P, s1, [term(x) for x in out]))]
                    else:
                        cur.append(toks[i])
                    i += 1
                if cur:
                    out.append(cur)
                return [(s1, lst(P, s1, [term(x) for x in out]))]
            if not is_const(sep) or not cval(sep) or set(cval(sep)) & DIGITS:
                return None
            ps = pieces(toks, cval(sep), mx)
            return [(s1, lst(P, s1, [term(x) for x in ps]))]
        if name == "splitlines" and not A and not kw:
            ps, cur = [], []
            i = 0
            while i < len(toks):
                if toks[i][0] == "c" and toks[i][1] in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029":
                    if toks[i][1] == "\r" and i + 1 < len(toks) and toks[i + 1] == ("c", "\n"):
                        i += 1
                    ps.append(cur)
                    cur = []
                else:
                    cur.append(toks[i])
                i += 1
            if cur:
                ps.append(cur)
            return [(s1, lst(P, s1, [term(x) for x in ps]))]
        if name in ("partition", "rpartition") and A and is_const(A[0]) and not set(cval(A[0])) & DIGITS:
            ps = pieces(toks, cval(A[0]), 1 if name == "partition" else -1)
            if len(ps) == 1:
                r = [s, const(""), const("")]
                return [(s1, seq("tuple", [one(x) for x in (r if name == "partition" else r[1:] + r[:1])]))]
            if name == "rpartition":
                n = len(toks) - len(ps[-1]) - len(cval(A[0]))
                return [(s1, seq("tuple", [one(term(toks[:n])), one(A[0]), one(term(ps[-1]))]))]
            return [(s1, seq("tuple", [one(term(ps[0])), one(A[0]), one(term(ps[1]))]))]
        if name == "replace" and len(A) == 2 and all(istext(x) for x in A) and is_const(A[0]) and cval(A[0]) and not set(cval(A[0])) & DIGITS:
            out = []
            for i, p in enumerate(pieces(toks, cval(A[0]), -1)):
                if i:
                    out.append(A[1])
                out.append(term(p))
            return [(s1, E.fstr(out))]
        if name in ("startswith", "endswith") and len(A) == 1:
            c = A[0]
            opts = [cval(c)] if is_const(c) else [cval(x) for x in exact(c) or [] if is_const(x)] if c.op == "seq" else None
            if opts is None or c.op == "seq" and len(opts) != len(exact(c) or [0] * 99):
                return None
            res = False
            for o in opts:
                ts = toks if name == "startswith" else toks[::-1]
                os_ = o if name == "startswith" else o[::-1]
                ok = True
                for i, x in enumerate(os_):
                    if i >= len(ts):
                        ok = False
                        break
                    k, v = ts[i]
                    if k == "c":
                        if v != x:
                            ok = False
                            break
                    elif x in DIGITS:
                        raise Amb()
                    else:
                        ok = False
                        break
                res = res or ok
            return [(s1, const(res))]
        if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isspace", "isalnum", "isupper", "islower") and not A:
            if name in ("isupper", "islower"):
                return None
            return [(s1, const(bool(toks) and all(getattr(ch(i), name)() for i in range(len(toks)))))]
        if name in ("removeprefix", "removesuffix") and A and is_const(A[0]) and not set(cval(A[0])) & DIGITS:
            x = [("c", y) for y in cval(A[0])]
            if name == "removeprefix":
                return [(s1, term(toks[len(x):] if toks[:len(x)] == x else toks))]
            return [(s1, term(toks[:len(toks) - len(x)] if x and toks[-len(x):] == x else toks))]
        if name in ("find", "index", "count") and len(A) == 1 and is_const(A[0]) and not set(cval(A[0])) & DIGITS and cval(A[0]):
            ps = pieces(toks, cval(A[0]), -1)
            if name == "count":
                return [(s1, const(len(ps) - 1))]
            if len(ps) == 1:
                return [(s1, const(-1))] if name == "find" else None
            if any(k in "Dt" for k, v in ps[0]):
                return None
            return [(s1, const(len(ps[0])))]
        return None

    return forking(P, st, go)


def pieces(toks, sep, mx):
    out, cur, i = [], [], 0
    S = [("c", x) for x in sep]
    while i < len(toks):
        if (mx < 0 or len(out) < mx) and toks[i:i + len(S)] == S:
            out.append(cur)
            cur = []
            i += len(S)
        else:
            cur.append(toks[i])
            i += 1
    return out + [cur]


def contains(P, st, x, y):
    """x in y, for a known x without digits"""
    if is_const(x) and x.a[0] == "str" and y.op == "fstr" and any(is_const(z) and isinstance(cval(z), str) and cval(x) in cval(z) for z in y.a):
        return TRUE
    if not (is_const(x) and x.a[0] == "str") or not symbolic(y):
        return None
    if set(cval(x)) & DIGITS:
        return None
    return const(cval(x) == "" or len(pieces(tokens(y), cval(x), -1)) > 1)


def equals(x, y):
    """equality of two texts, as a condition; None when not understood"""
    for p, q in ((x, y), (y, x)):
        if is_const(q) and q.a[0] == "str" and symbolic(p):
            toks = tokens(p)
            if any(k not in ("c", "D") for k, v in toks):
                return None
            rx, ns, last = "", [], None
            for k, v in toks:
                if k == "c":
                    rx += re.escape(v)
                else:
                    if last == "D":
                        return None
                    rx += r"(0|[1-9]\d*)"
                    ns.append(v)
                last = k
            # a number next to a known digit has no unique reading
            for (k, v), (k2, v2) in zip(toks, toks[1:]):
                if {k, k2} == {"c", "D"} and (v in DIGITS if k == "c" else v2 in DIGITS):
                    return None
            m = re.fullmatch(rx, cval(q), re.S)
            if m is None:
                return FALSE
            cs = [eq(n, const(int(g))) for n, g in zip(ns, m.groups())]
            cs = [c for c in cs if c is not TRUE]
            if FALSE in cs:
                return FALSE
            return TRUE if not cs else cs[0] if len(cs) == 1 else mk("and", *cs)
    if symbolic(x) and symbolic(y):
        a, b = tokens(x), tokens(y)
        if a == b:
            return TRUE
        if len(a) == len(b) and all(k == k2 and (k == "D" or v == v2) for (k, v), (k2, v2) in zip(a, b)):
            cs = [eq(v, v2) for (k, v), (k2, v2) in zip(a, b) if k == "D" and v is not v2]
            return cs[0] if len(cs) == 1 else mk("and", *cs)
        # different characters outside the numbers
        f = lambda ts: [v for k, v in ts if k == "c" and v not in DIGITS]
        if f(a) != f(b):
            return FALSE
    return None


def toint(P, st, x):
    """int(text): ("ok", value) / ("raise",) / None"""
    toks = tokens(x)
    if toks is None:
        return None
    while toks and toks[0][0] == "c" and toks[0][1].isspace():
        toks = toks[1:]
    while toks and toks[-1][0] == "c" and toks[-1][1].isspace():
        toks = toks[:-1]
    neg_ = bool(toks) and toks[0] == ("c", "-")
    if toks and toks[0][0] == "c" and toks[0][1] in "+-":
        toks = toks[1:]
    if not toks or any(k == "c" and not v.isdigit() and v != "_" for k, v in toks):
        return ("raise",)
    if len(toks) == 1 and toks[0][0] in "Dd":
        return ("ok", neg(toks[0][1]) if neg_ else toks[0][1])
    if all(k == "c" for k, v in toks):
        return ("ok", const(int("".join(v for k, v in toks)) * (-1 if neg_ else 1)))
    if len(toks) == 1:
        v = mk("call", mk("ext", "digits." + ("first" if toks[0][0] == "h" else "rest")), (toks[0][1],), ())
        return ("ok", neg(v) if neg_ else v)
    return ("ok", mk("call", mk("ext", "int"), (x,), ()))


def index(P, st, s, i):
    """s[i] / s[a:b]; None when not understood"""
    def go(s1):
        toks = tokens(s, few(P, s1))
        if toks is None:
            return None
        n = len(toks)

        def at(k, dflt):
            if k is NONE:
                return dflt
            if not is_num(k):
                raise Amb()
            k = cval(k)
            span = toks[:k] if k >= 0 else toks[k:]
            if any(x[0] in "Dt" for x in span):
                for x in span:
                    if x[0] == "D":
                        raise Split(x[1])
                raise Amb()
            if k < -n or k > n:
                return 0 if k < 0 else n
            return k if k >= 0 else n + k
        if i.op == "sl":
            if i.a[2] is not NONE:
                return None
            a, b = at(i.a[0], 0), at(i.a[1], n)
            return [(s1, term(toks[a:b]) if a < b else const(""))]
        if not is_num(i):
            return None
        k = cval(i)
        span = toks[:k + 1] if k >= 0 else toks[k:]
        if any(x[0] in "Dt" for x in span):
            for x in span:
                if x[0] == "D":
                    raise Split(x[1])
            raise Amb()
        if k >= n or k < -n:
            P.throw(s1, mk("exc", "IndexError"))
            return []
        return [(s1, term([toks[k]]))]
    return forking(P, st, go)
