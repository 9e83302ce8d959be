"""Models of builtins, container/string methods and library calls."""
from terms import *
import math
import terms as TM
from state import *
import engine as E
import texts

EXCS = set(E.EXC_BASES)
# library functions that change an argument
MUTATING_EXT = {"random.shuffle": 0, "numpy.random.shuffle": 0, "numpy.put": 0, "numpy.place": 0, "numpy.fill_diagonal": 0, "numpy.copyto": 0,
                "heapq.heapify": 0, "heapq.heappush": 0, "heapq.heappop": 0, "bisect.insort": 0, "operator.setitem": 0, "operator.delitem": 0,
                "operator.iadd": 0}


def snaps(P, st, args, kw):
    a = []
    for x in args:
        if x.op == "spread":
            a.append(mk("spread", P.snap(st, x.a[0])))
        else:
            a.append(P.snap(st, x))
    return a, {k: P.snap(st, v) for k, v in kw.items()}


def call(P, st, f, args, kw, node):
    op = f.op
    if P.nd is not None:
        r = P.nd.call(P, st, f, list(args), dict(kw))
        if r is not None:
            return r
    if P.stubs and op in ("builtin", "ext") and "ext:" + f.a[0] in P.stubs:
        return P.stubs["ext:" + f.a[0]](P, st, list(args), dict(kw))
    if op == "builtin":
        n = f.a[0]
        fn = globals().get("b_" + n)
        if n == "SystemExit":
            return [(st, mk("exc", n, mk("status", args[0] if args else NONE)))]
        if n in EXCS:
            return [(st, mk("exc", n))]
        if n in ("exit", "quit"):
            P.throw(st, mk("exc", "SystemExit", mk("status", args[0] if args else NONE)))
            return []
        if fn is not None:
            r = fn(P, st, list(args), dict(kw))
            if r is not None:
                return r
        return opaque(P, st, f, args, kw, n)
    if op == "bmeth":
        return method(P, st, f.a[0], f.a[1], list(args), dict(kw))
    if op == "bstatic":
        return bstatic(P, st, f, list(args), dict(kw))
    if op == "ext":
        return ext(P, st, f, list(args), dict(kw))
    if op == "ref" and st.obj(f).kind == "inst":
        m = P.clsattr(st, st.obj(f).cls, "__call__")
        if m is not None:
            return P.call(st, m, [f] + list(args), kw, node)
    cs = P.classes_of(st, f) if op in ("sym", "attr", "item", "obj") else None
    if cs and len(cs) == 1:
        m = P.clsattr(st, cs[0], "__call__")
        if m is not None:
            return P.call(st, m, [f] + list(args), kw, node)
    if op == "attr" and f.a[1] in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem", "fill", "resize", "itemset", "put"):
        # possible mutation of a value of unknown type
        P.emit(st, "maybe-mutate", f.a[0], f.a[1], *[P.snap(st, a) for a in args])
    return opaque(P, st, f, args, kw, None)


def opaque(P, st, f, args, kw, name):
    a, k = snaps(P, st, args, kw)
    t = E.TM.call(f if f.op != "builtin" else mk("ext", f.a[0]), a, tuple(k.items()))
    P.emit(st, "ext", t, f, tuple(args))
    return [(st, t)]


# ---------------------------------------------------------------- builtins
def b_len(P, st, a, kw):
    x = a[0]
    if x.op == "ref" and st.obj(x).kind == "inst":
        m = P.clsattr(st, st.obj(x).cls, "__len__")
        if m is not None:
            return P.call(st, m, [x], {})
    if x.op == "ref" and st.obj(x).kind == "arr":
        c = st.obj(x).content
        return [(st, arrlen(c))]
    if x.op == "ref" and st.obj(x).kind == "set":
        ex = exact(st.obj(x).content)
        if ex is not None and all(is_const(e) for e in ex):
            return [(st, const(len({cval(e) for e in ex})))]
        if ex is not None and len(ex) <= 4:
            # number of different elements
            cur = [(st, [])]
            for e in ex:
                nx = []
                for s, l in cur:
                    live = [s]
                    for d in l:
                        nl = []
                        for s2 in live:
                            for s3, v in P.branch(s2, P.equal(s2, e, d)):
                                (nx.append((s3, l)) if v else nl.append(s3))
                        live = nl
                    nx += [(s2, l + [e]) for s2 in live]
                cur = nx
            return [(s, const(len(l))) for s, l in cur]
        return [(st, mk("len", mk("setof", P.snap(st, st.obj(x).content))))]
    if x.op == "call":
        return [(st, arrlen(x))]
    if x.op in ("fstr", "str"):
        toks = texts.tokens(x, texts.few(P, st))
        if toks is not None:
            s, n = st.copy(), ZERO
            for k, v in toks:
                if k in "Dt":
                    c = mk("call", mk("ext", "digits.count"), (v if k == "D" else mk("strtail", v),), ())
                    s.fact(le(ONE, c))
                    n = add(n, c)
                else:
                    n = add(n, ONE)
            return [(s, n)]
    return [(st, P.length(st, x))]


def arrlen(c):
    if c.op == "call" and callname(c) in ("numpy.zeros", "numpy.ones", "numpy.eye", "numpy.arange", "numpy.empty") and c.a[1]:
        sh = c.a[1][0]
        if sh.op == "seq":
            ex = exact(sh)
            return ex[0] if ex else mk("len", c)
        if callname(c) != "numpy.arange" or len(c.a[1]) == 1:
            return sh
    if c.op in ("store", "maparr"):
        return arrlen(c.a[0] if c.op == "store" else c.a[2])
    if c.op == "call" and callname(c) == "numpy.array" and c.a[1] and c.a[1][0].op == "seq":
        return len_of(c.a[1][0])
    return len_of(c)


def b_range(P, st, a, kw):
    a = [P.num(st, x) for x in a]
    lo, hi, step = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, step = a
    K = fresh()
    if step is ONE:
        n, e = sub(hi, lo), add(lo, K)
    elif step is const(-1):
        n, e = sub(lo, hi), sub(lo, K)
    else:
        n, e = mk("rangelen", lo, hi, step), add(lo, mul(K, step))
    if is_num(n) and isinstance(cval(n), int) and cval(n) <= TM.MANY:
        return [(st, seq("range", [one(subst(e, {K: const(i)})) for i in range(cval(n))]))]
    return [(st, seq("range", [mapseg(K, n, [((), (one(e),))])]))]


def b_enumerate(P, st, a, kw):
    c = P.iterable(st, a[0])
    start = kw.get("start", a[1] if len(a) > 1 else ZERO)
    pr = lambda i, x: one(seq("tuple", [one(i), one(x)]))
    segs = []
    off = start
    for g in P.segments(st, c):
        if g[0] == "one":
            segs.append(pr(off, g[1]))
            off = add(off, ONE)
        elif g[0] == "sym":
            K = fresh()
            segs.append(mapseg(K, g[1], [((), (pr(add(off, K), g[2](K)),))]))
            off = add(off, g[1])
        else:
            K = fresh()
            c2 = P.snap(st, c)
            n = len_of(c2)
            return [(st, seq("list", [mapseg(K, n, [((), (pr(add(start, K), item(c2, K)),))])]))]
    return [(st, seq("list", segs))]


def b_zip(P, st, a, kw):
    cs = [P.iterable(st, x) for x in a]
    strict = kw.get("strict")
    strict = strict is not None and strict is not FALSE
    ends = [(st, 0)]
    for i in range(1, len(cs)):
        nx = []
        for s, m in ends:
            p, q = len_of(cs[m]), len_of(cs[i])
            if decide(s, eq(p, q), P) is True:
                nx.append((s, m))
                continue
            if strict:
                for s2, same in P.branch(s, eq(p, q)):
                    if same:
                        nx.append((s2, m))
                    else:
                        P.throw(s2, mk("exc", "ValueError"))
                continue
            for s2, v in P.branch(s, le(p, q)):
                nx.append((s2, m if v else i))
        ends = nx
    out = []
    for s, m in ends:
        n = len_of(cs[m])
        xs = [c if c.op != "seq" or decide(s, eq(len_of(c), n), P) is True else slice_of(c, NONE, n, NONE) for c in cs]
        out += zip_(P, s, xs, m)
    return out


def zip_(P, st, cs, shortest=0):
    exs = [exact(c) for c in cs]
    if all(e is not None for e in exs):
        return [(st, seq("list", [one(seq("tuple", [one(x) for x in t])) for t in zip(*exs)]))]
    segl = None
    try:
        segl = [P.segments(st, c) for c in cs]
    except Unsupported:
        pass
    if segl and all(len(s) == len(segl[0]) for s in segl):
        ok = True
        out = []
        for gs in zip(*segl):
            if all(g[0] == "one" for g in gs):
                out.append(one(seq("tuple", [one(g[1]) for g in gs])))
            elif all(g[0] == "sym" for g in gs) and (len(segl[0]) == 1 or len({g[1] for g in gs}) == 1):
                K = fresh()
                n = gs[shortest if len(segl[0]) == 1 else 0][1]
                out.append(mapseg(K, n, [((), (one(seq("tuple", [one(g[2](K)) for g in gs])),))]))
            else:
                ok = False
                break
        if ok:
            return [(st, seq("list", out))]
    K = fresh()
    n = len_of(cs[shortest])
    return [(st, seq("list", [mapseg(K, n, [((), (one(seq("tuple", [one(item(c, K)) for c in cs])),))])]))]


def b_reversed(P, st, a, kw):
    return [(st, mkseq("list", rev(P.iterable(st, a[0]))))]


def mkseq(kind, c):
    if c.op == "seq":
        return mk("seq", kind, c.a[1])
    return seq(kind, [star(c)])


def b_list(P, st, a, kw):
    if not a:
        return [(st, P.newlist(st, seq("list", [])))]
    if a[0].op == "ref" and st.obj(a[0]).kind == "set":
        P.emit(st, "setiter", a[0])
    if a[0].op == "cls" and not P.is_enum(a[0].a[0]):
        return None
    return [(st, P.newlist(st, P.iterable(st, a[0])))]


def b_tuple(P, st, a, kw):
    if not a:
        return [(st, seq("tuple", []))]
    if a[0].op == "ref" and st.obj(a[0]).kind == "set":
        P.emit(st, "setiter", a[0])
    return [(st, mkseq("tuple", P.iterable(st, a[0])))]


def b_set(P, st, a, kw):
    c = P.iterable(st, a[0]) if a else seq("set", [])
    c = mkseq("set", c)
    if c.op == "seq":
        c = mk("seq", "set", tuple(P.distinct(st, list(c.a[1]))))
    return [(st, st.alloc(Obj("set", content=c, site=P.site())))]


b_frozenset = b_set


def b_dict(P, st, a, kw):
    segs = []
    if a:
        x = a[0]
        c = P.content(st, x)
        if c.op == "seq" and c.a[0] == "dict":
            segs = list(c.a[1])
        else:
            c = P.iterable(st, x)
            if c.op == "seq":
                segs = [E._mapone(g, lambda p: mk("kv", *exact(p)) if exact(p) is not None and len(exact(p)) == 2 else mk("kv", item(p, ZERO), item(p, ONE))) if g.op != "star" else g for g in c.a[1]]
            else:
                segs = [star(c)]
    for k, v in kw.items():
        segs.append(one(mk("kv", const(k), v)))
    return [(st, st.alloc(Obj("dict", content=seq("dict", P.dedupe(st, segs)), site=P.site())))]


def b_int(P, st, a, kw):
    if not a:
        return [(st, ZERO)]
    x = P.num(st, a[0])
    if x.op == "const":
        try:
            return [(st, const(int(cval(x))))]
        except Exception:
            P.throw(st, mk("exc", "ValueError"))
            return []
    if len(a) == 1 and P.tag(st, x) == "int":
        return [(st, x)]
    if len(a) == 1 and texts.symbolic(x):
        r = texts.toint(P, st, x)
        if r is not None and r[0] == "ok":
            return [(st, r[1])]
        if r is not None:
            P.throw(st, mk("exc", "ValueError"))
            return []
    return None


def b_float(P, st, a, kw):
    x = P.num(st, a[0]) if a else ZERO
    if P.tag(st, x) == "int":
        return [(st, x)]
    return None


def b_str(P, st, a, kw):
    if not a:
        return [(st, const(""))]
    return [(st, P.tostr(st, a[0]))]


def b_bool(P, st, a, kw):
    return [(s, const(v)) for s, v in P.branch(st, P.truth(st, a[0]))] if a else [(st, FALSE)]


def b_abs(P, st, a, kw):
    x = P.num(st, a[0])
    if is_num(x):
        return [(st, const(abs(cval(x))))]
    if P.tag(st, x) == "int" and not any(y.op in ("bv", "bc") for y in syms(x)):
        return [(s, x if v else neg(x)) for s, v in P.branch(st, le(ZERO, x))]
    return [(st, extcall("abs", x))]


def _minmax(P, st, a, kw, name):
    if kw:
        return None
    c = P.iterable(st, a[0]) if len(a) == 1 else seq("list", [one(P.num(st, x)) for x in a])
    if c.op == "const":
        return None
    ex = exact(c) if c.op == "seq" else None
    if ex and all(is_num(x) and not isinstance(cval(x), complex) for x in ex):
        return [(st, const((min if name == "min" else max)(cval(x) for x in ex)))]
    if ex is not None and ex and len(ex) <= 3:
        cur = [(st, ex[0])]
        for x in ex[1:]:
            nx = []
            for s, m in cur:
                cnd = le(m, x) if name == "min" else le(x, m)
                for s2, v in P.branch(s, cnd):
                    nx.append((s2, m if v else x))
            cur = nx
        return cur
    out = []
    for s, empty in P.branch(st, le0(len_of(c))) if c.op == "seq" else [(st, False)]:
        if empty:
            P.throw(s, mk("exc", "ValueError"))
        else:
            out += _minmax1(P, s, c, name)
    return out


def _minmax1(P, st, c, name):
    m = simple_map(c) if c.op == "seq" else None
    if m:
        bv, N, e = m
        d = sub(e, bv)
        if bv not in syms(d):
            return [(st, d if name == "min" else add(d, sub(N, ONE)))]
    S = P.snap(st, c)
    S = seq("list", S.a[1] if S.op == "seq" else [star(S)])
    # an extremum does not depend on order or repetition
    S = mk("seq", "list", tuple(sorted(set(S.a[1]), key=lambda g: g.n)))
    arg = S.a[1][0].a[0] if len(S.a[1]) == 1 and S.a[1][0].op == "star" else S
    t = extcall(name, arg)
    # bounds of the extremum
    o = extcall("max" if name == "min" else "min", arg)
    if S.op == "seq":
        for g in S.a[1]:
            if g.op == "one":
                st.fact(le(t, g.a[0]) if name == "min" else le(g.a[0], t))
            elif g.op == "star":
                K = fresh()
                x = item(g.a[0], K)
                st.fact(forall(K, len_of(g.a[0]), [le(t, x) if name == "min" else le(x, t)]))
    st.fact(le(t, o) if name == "min" else le(o, t))
    # facts about every element hold for the extremum
    for f in list(st.facts):
        pass
    if S.op == "seq":
        _extremum_facts(P, st, S, t)
    return [(st, t)]


def _extremum_facts(P, st, S, t):
    """conditions known for every element of S hold for its extremum"""
    cands = set()
    for f in st.facts:
        if f.op == "forall":
            for c in f.a[2]:
                if c.op == "le0":
                    for x in walk(c):
                        if x.op == "item" and x.a[1] is f.a[0] and x.a[0].op in ("sym", "attr", "item"):
                            cands.add((subst_any(c, x, mk("sym", "?elt", "int")), x.a[0]))
    hole = mk("sym", "?elt", "int")
    for c, src in cands:
        if any(y.op == "bv" for y in syms(c)):
            continue
        okk = True
        for g in S.a[1]:
            if g.op == "star" and g.a[0] is src:
                continue
            if g.op == "one":
                if decide(st, subst(c, {hole: g.a[0]}), P):
                    continue
            okk = False
        if okk:
            st.fact(subst(c, {hole: t}))


def subst_any(t, old, new):
    if t is old:
        return new

    def go(x):
        if x is old:
            return new
        return rebuild(x, go)

    return go(t)


def b_min(P, st, a, kw):
    return _minmax(P, st, a, kw, "min")


def b_max(P, st, a, kw):
    return _minmax(P, st, a, kw, "max")


def b_sum(P, st, a, kw):
    c = P.iterable(st, a[0])
    ex = exact(c) if c.op == "seq" else None
    if ex is not None:
        r = a[1] if len(a) > 1 else ZERO
        for x in ex:
            r = add(r, P.num(st, x))
        return [(st, r)]
    return [(st, extcall("sum", P.snap(st, c)))]


def _anyall(P, st, a, isall):
    c = P.iterable(st, a[0])
    ex = exact(c) if P.loading else None
    if ex is not None:
        ts = [P.truth(st, e) for e in ex]
        if any(decide(st, t, P) is None for t in ts):
            # module level: keep the condition symbolic, both values stay possible
            return [(st, mk("and" if isall else "or", *ts))]

    def body(s, e):
        res = []
        for s2, v in P.branch(s, P.truth(s, e)):
            if v == isall:
                res.append(("next", s2, NONE))
            else:
                res.append(("return", s2, const(not isall)))
        return res

    out = []
    for k, s, v in P.iterate(st, c, body):
        if k == "return":
            out.append((s, v))
        elif k == "raise":
            P.sink.append((s, v))
        else:
            out.append((s, const(isall)))
    return out


def b_any(P, st, a, kw):
    return _anyall(P, st, a, False)


def b_all(P, st, a, kw):
    return _anyall(P, st, a, True)


def b_isinstance(P, st, a, kw):
    x, c = a
    cs = [c]
    if c.op in ("seq",):
        cs = exact(c) or []
    elif c.op == "ref":
        cs = exact(st.obj(c).content) or []
    elif c.op == "bin" and c.a[0] == "BitOr":
        cs = [c.a[1], c.a[2]]
    out = []
    cur = st
    conds = []
    for k in cs:
        t = mk("isinst", x, k)
        r = decide(cur, t, P)
        if r is None and x.op == "exc" and k.op in ("builtin", "cls"):
            r = P.exc_matches(st, x, k)
        if r is True:
            return [(st, TRUE)]
        if r is None:
            conds.append(t)
    if not conds:
        return [(st, FALSE)]
    return [(st, conds[0] if len(conds) == 1 else mk("or", *conds))]


def b_issubclass(P, st, a, kw):
    x, c = a
    cs = exact(c) if c.op == "seq" else [c]
    if x.op == "cls":
        return [(st, const(any(P.issub(x.a[0], k) for k in cs)))]
    return None


def b_type(P, st, a, kw):
    if len(a) != 1:
        return None
    x = a[0]
    g = P.tag(st, x)
    if x.op == "ref":
        o = st.obj(x)
        if o.kind == "inst":
            return [(st, mk("cls", o.cls))]
        if o.kind in ("list", "dict", "set"):
            return [(st, mk("builtin", o.kind))]
        if o.kind == "arr":
            return [(st, mk("typeof", o.content))]
    if isinstance(g, str) and g in ("int", "str", "bool", "float", "complex"):
        return [(st, mk("builtin", g))]
    if isinstance(g, tuple) and g[0] in ("list", "tuple", "dict", "set", "range"):
        return [(st, mk("builtin", g[0]))]
    cs = P.classes_of(st, x)
    if cs and len(cs) == 1:
        return [(st, mk("cls", cs[0]))]
    if g == "none":
        return [(st, mk("typeof", x))]
    return [(st, mk("typeof", x))]


def b_hasattr(P, st, a, kw):
    x, n = a
    g = P.tag(st, x)
    nm = cval(n) if is_const(n) else None
    if nm in ("__iter__", "__len__", "__getitem__"):
        if isinstance(g, tuple) and g[0] in ("list", "tuple", "set", "dict", "range"):
            return [(st, TRUE)]
        if g in ("int", "float", "bool", "none", "complex"):
            return [(st, FALSE)]
        if g == "str":
            return [(st, TRUE)]
        cs = P.classes_of(st, x)
        if cs:
            rs = {P.clsattr(st, c, nm) is not None for c in cs}
            if len(rs) == 1:
                return [(st, const(rs.pop()))]
    if x.op == "ref" and st.obj(x).kind == "inst":
        return [(st, const(nm in st.obj(x).attrs or P.clsattr(st, st.obj(x).cls, nm) is not None))]
    cs = P.classes_of(st, x)
    if cs and nm:
        rs = {P.clsattr(st, c, nm) is not None or (P.known_attrs(c) is None or nm in P.known_attrs(c)) for c in cs}
        if rs == {False}:
            return [(st, FALSE)]
    return [(st, mk("hasattr", x, n))]


def b_getattr(P, st, a, kw):
    if not is_const(a[1]):
        return None
    nm = cval(a[1])
    if len(a) > 2:
        x = a[0]
        if x.op == "ref" and st.obj(x).kind == "inst":
            if nm not in st.obj(x).attrs and P.clsattr(st, st.obj(x).cls, nm) is None:
                return [(st, a[2])]
    return P.getattr(st, a[0], nm)


def b_setattr(P, st, a, kw):
    if not is_const(a[1]):
        P.emit(st, "attr", a[0], "*", a[2])
        return [(st, NONE)]
    return [(s, NONE) for s in P.setattr(st, a[0], cval(a[1]), a[2])]


def b_delattr(P, st, a, kw):
    P.emit(st, "attr", a[0], cval(a[1]) if is_const(a[1]) else "*", None)
    return [(st, NONE)]


def b_sorted(P, st, a, kw):
    if "key" in kw or "reverse" in kw:
        r = sort_known(P, st, a[0], kw.get("key"), kw.get("reverse", FALSE))
        if r is not None:
            return r
        c = P.snap(st, P.iterable(st, a[0]))
        k = kw.get("key")
        kt = NONE
        if k is not None:
            kt = keyfn(P, st, k)
        t = extcall("sorted", c, key=kt, reverse=kw.get("reverse", FALSE))
        return [(st, P.newlist(st, t))]
    c = P.iterable(st, a[0])
    ex = exact(c)
    if ex and all(is_const(e) or e.op == "seq" for e in ex):
        r = sort_known(P, st, a[0], None, FALSE)
        if r is not None:
            return r
    S = P.snap(st, c)
    if S.op == "seq":
        S = mk("seq", "list", S.a[1])
        m = simple_map(S)
        if m and m[0] not in syms(sub(m[2], m[0])):
            return [(st, P.newlist(st, S))]
        ex = exact(S)
        if ex is not None and len(ex) == 2:
            out = []
            for s2, v in P.branch(st, le(ex[0], ex[1])):
                out.append((s2, P.newlist(s2, seq("list", [one(ex[0]), one(ex[1])] if v else [one(ex[1]), one(ex[0])]))))
            return out
    return [(st, P.newlist(st, extcall("sorted", S)))]


def sort_known(P, st, x, key, rev):
    """sort a known number of elements whose keys are all constants"""
    ex = exact(P.iterable(st, x))
    if ex is None or not is_const(rev):
        return None
    cur = [(st, [])]
    for e in ex:
        nx = []
        for s, ks in cur:
            for s2, v in ([(s, e)] if key is None or key is NONE else P.call(s, key, [e], {})):
                nx.append((s2, ks + [P.snap(s2, v)]))
        cur = nx
    out = []
    for s, ks in cur:
        # tuples that differ in constant first components
        if ks and all(k.op == "seq" and exact(k) for k in ks) and len({exact(k)[0] for k in ks}) == len(ks):
            ks = [exact(k)[0] for k in ks]
        vs = [cval(k) if is_const(k) else tuple(cval(y) for y in exact(k)) if k.op == "seq" and exact(k) is not None and all(is_const(y) for y in exact(k)) else None for k in ks]
        if any(v is None for v in vs):
            return None
        try:
            order = sorted(range(len(ex)), key=lambda i: vs[i], reverse=bool(cval(rev)))
        except TypeError:
            P.throw(s, mk("exc", "TypeError"))
            continue
        out.append((s, P.newlist(s, seq("list", [one(ex[i]) for i in order]))))
    return out


def keyfn(P, st, k):
    """canonical form of a key function"""
    x = fresh("idx", "key")
    n = P.count
    s = st.copy()
    saved, P.sink = P.sink, []
    try:
        r = P.call(s, k, [x], {})
    finally:
        P.sink = saved
    if len(r) == 1:
        body = P.snap(r[0][0], r[0][1])
        (bv,), b = TM._close([x], body)
        return mk("lam", bv, b)
    return k


def parts_of(c):
    return list(c.a[1]) if c.op == "seq" else [mk("star", c)]


def b_map(P, st, a, kw):
    f = a[0]
    acc = st.alloc(Obj("gen", content=seq("list", []), site=P.site()))
    if len(a) > 2:
        return [r for s, z in b_zip(P, st, a[1:], {}) for r in b_map(P, s, [f, z], {"star": True})]
    cs = P.iterable(st, a[1])

    def body(s, e):
        res = []
        xs = exact(e) if kw.get("star") else [e]
        for s2, v in P.call(s, f, xs, {}):
            P.set_quiet(s2, acc, seq("list", parts_of(P.content(s2, acc)) + [one(v)]))
            res.append(("next", s2, NONE))
        return res

    out = []
    for k, s, v in P.iterate(st, cs, body):
        if k == "raise":
            P.sink.append((s, v))
        else:
            out.append((s, acc))
    return out


def b_filter(P, st, a, kw):
    f = a[0]
    acc = st.alloc(Obj("gen", content=seq("list", []), site=P.site()))
    cs = P.iterable(st, a[1])

    def body(s, e):
        res = []
        for s2, v in ([(s, e)] if f is NONE else P.call(s, f, [e], {})):
            for s3, t in P.branch(s2, P.truth(s2, v)):
                if t:
                    P.set_quiet(s3, acc, seq("list", parts_of(P.content(s3, acc)) + [one(e)]))
                res.append(("next", s3, NONE))
        return res

    out = []
    for k, s, v in P.iterate(st, cs, body):
        if k == "raise":
            P.sink.append((s, v))
        else:
            out.append((s, acc))
    return out


def b_iter(P, st, a, kw):
    if len(a) != 1:
        return None
    return [(st, st.alloc(Obj("iter", attrs={"pos": ZERO, "src": a[0]}, site=P.site())))]


def b_next(P, st, a, kw):
    it = a[0]
    if it.op != "ref" or st.obj(it).kind not in ("iter", "gen"):
        return None
    o = st.obj(it)
    if o.kind == "gen":
        # first element of a lazily filtered sequence
        c = o.content
        out = []

        def body(s, e):
            return [("return", s, e)]

        for k, s, v in P.iterate(st, c, body):
            if k == "return":
                out.append((s, v))
            elif k == "raise":
                P.sink.append((s, v))
            elif len(a) > 1:
                out.append((s, a[1]))
            else:
                P.throw(s, mk("exc", "StopIteration"))
        return out
    pos = o.attrs["pos"]
    src = P.iterable(st, o.attrs["src"])
    out = []
    n = len_of(P.snap(st, src)) if src.op == "seq" else len_of(src)
    for s, v in P.branch(st, lt(pos, n)):
        if v:
            x = P.item(s, P.snap_shallow(s, src), pos)
            s.obj(it, True).attrs["pos"] = add(pos, ONE)
            out.append((s, x))
        elif len(a) > 1:
            out.append((s, a[1]))
        else:
            P.throw(s, mk("exc", "StopIteration"))
    return out


def b_print(P, st, a, kw):
    vals = []
    for x in a:
        if x.op == "ref" and st.obj(x).kind == "inst":
            m = P.clsattr(st, st.obj(x).cls, "__str__")
            if m is not None:
                r = P.call(st, m, [x], {})
                if len(r) == 1:
                    st = r[0][0]
                    vals.append(P.snap(st, r[0][1]))
                    continue
                out = []
                for s, v in r:
                    P.emit(s, "print", P.snap(s, v))
                    out.append((s, NONE))
                return out
        vals.append(P.snap(st, x))
    P.emit(st, "print", seq("tuple", [one(v) for v in vals]))
    return [(st, NONE)]


def b_id(P, st, a, kw):
    P.emit(st, "nondet", const("id"))
    return [(st, mk("call", mk("ext", "id"), (P.snap(st, a[0]),), ()))]


def b_hash(P, st, a, kw):
    P.emit(st, "nondet", const("hash"))
    return [(st, mk("call", mk("ext", "hash"), (P.snap(st, a[0]),), ()))]


def b_round(P, st, a, kw):
    x = P.num(st, a[0])
    if P.tag(st, x) == "int":
        return [(st, x)]
    return None


def b_pow(P, st, a, kw):
    if len(a) == 2:
        return [(st, power(P.num(st, a[0]), P.num(st, a[1])))]
    return None


def b_divmod(P, st, a, kw):
    x, y = P.num(st, a[0]), P.num(st, a[1])
    return [(st, seq("tuple", [one(idiv(x, y)), one(mod(x, y))]))]


def b_callable(P, st, a, kw):
    return [(st, const(a[0].op in ("cls", "func", "bound", "builtin")))] if a[0].op not in ("sym", "attr", "item") else None


def b_repr(P, st, a, kw):
    x = a[0]
    if is_const(x):
        return [(st, const(repr(cval(x))))]
    return None


# ---------------------------------------------------------------- methods
def method(P, st, o, name, a, kw):
    if o.op in ("rematch", "repattern"):
        r = (texts.match_method if o.op == "rematch" else texts.pattern_method)(P, st, o, name, a, kw)
        if r is not None:
            return r
    k = P.kindof(st, o)
    if k == "list":
        fn = globals().get("l_" + name)
        if fn:
            r = fn(P, st, o, a, kw)
            if r is not None:
                return r
    if k == "dict":
        fn = globals().get("d_" + name)
        if fn:
            r = fn(P, st, o, a, kw)
            if r is not None:
                return r
    if k == "set":
        fn = globals().get("set_" + name)
        if fn:
            r = fn(P, st, o, a, kw)
            if r is not None:
                return r
    if k in ("tuple", "range") and name in ("index", "count"):
        return globals()["l_" + name](P, st, o, a, kw)
    if k == "arr":
        c = st.obj(o).content
        if name == "copy":
            return [(st, st.alloc(Obj("arr", content=c, site=P.site())))]
        if name in ("fill", "sort", "resize", "itemset", "put", "partition", "setfield"):
            P.set_content(st, o, mk("call", mk("attr", c, name), tuple(P.snap(st, x) for x in a), ()), name)
            return [(st, NONE)]
        aa, kk = snaps(P, st, a, kw)
        t = TM.call(mk("attr", c, name), aa, tuple(kk.items()))
        P.emit(st, "ext", t, mk("attr", c, name), tuple(a))
        return [(st, t)]
    # strings
    s = P.snap(st, o)
    g = P.tag(st, s)
    if g == "str" or s.op == "fstr":
        r = strmeth(P, st, s, name, a, kw)
        if r is not None:
            return r
    if k in ("list", "dict", "set"):
        P.emit(st, "maybe-mutate", o, name)
    aa, kk = snaps(P, st, a, kw)
    t = TM.call(mk("attr", s, name), aa, tuple(kk.items()))
    P.emit(st, "ext", t, mk("attr", s, name), tuple(a))
    return [(st, t)]


def lcont(P, st, o):
    c = P.content(st, o)
    if c.op != "seq":
        c = seq("list", [star(c)])
    return c


def l_append(P, st, o, a, kw):
    c = lcont(P, st, o)
    P.set_content(st, o, seq(c.a[0], list(c.a[1]) + [one(a[0])]), "append", a[0])
    return [(st, NONE)]


def l_extend(P, st, o, a, kw):
    c = lcont(P, st, o)
    P.set_content(st, o, seq(c.a[0], list(c.a[1]) + [star(P.iterable(st, a[0]))]), "extend", a[0])
    return [(st, NONE)]


def l_insert(P, st, o, a, kw):
    c = lcont(P, st, o)
    i = a[0]
    n = len_of(P.snap_shallow(st, c))
    if i is ZERO:
        nc = seq(c.a[0], [one(a[1])] + list(c.a[1]))
    elif decide(st, eq(i, n), P) or decide(st, le(n, i), P):
        nc = seq(c.a[0], list(c.a[1]) + [one(a[1])])
    else:
        base = P.snap_shallow(st, c)
        l, r = P.slice(st, base, NONE, i, NONE), P.slice(st, base, i, NONE, NONE)
        nc = seq(c.a[0], [star(l), one(a[1]), star(r)])
    P.set_content(st, o, nc, "insert", i, a[1])
    return [(st, NONE)]


def l_pop(P, st, o, a, kw):
    i = P.num(st, a[0]) if a else const(-1)
    return P.pop_at(st, o, i)


def l_remove(P, st, o, a, kw):
    P.set_content(st, o, mk("removed", P.snap(st, P.content(st, o)), P.snap(st, a[0])), "remove", a[0])
    return [(st, NONE)]


def l_clear(P, st, o, a, kw):
    P.set_content(st, o, seq(P.kindof(st, o), []), "clear")
    return [(st, NONE)]


d_clear = l_clear
set_clear = l_clear


def l_reverse(P, st, o, a, kw):
    c = P.iterable(st, o)
    P.set_content(st, o, mkseq("list", rev(c)), "reverse")
    return [(st, NONE)]


def l_sort(P, st, o, a, kw):
    r = b_sorted(P, st, [o], kw)
    out = []
    for s, v in r:
        P.set_content(s, o, P.content(s, v), "sort")
        out.append((s, NONE))
    return out


def l_copy(P, st, o, a, kw):
    return [(st, P.newlist(st, P.iterable(st, o)))]


def l_index(P, st, o, a, kw):
    c = P.iterable(st, o)
    x = a[0]
    ex = exact(c) if c.op == "seq" else None
    if ex is not None:
        for i, y in enumerate(ex):
            if y is x and all(P.equal(st, x, z) is FALSE for z in ex[:i]):
                return [(st, const(i))]
    if c.op == "seq":
        # the position of an object with identity
        if x.op == "ref":
            off = ZERO
            for g in c.a[1]:
                if g.op == "one" and g.a[0] is x:
                    return [(st, off)]
                if g.op == "one" and g.a[0].op not in ("ref", "obj"):
                    break
                off = add(off, len_of(seq("list", [g])))
    if x.op == "item" and x.a[0] is c and len(a) == 1:
        # index of an element found by scanning the same list (elements compare by identity)
        g = P.tag(st, x)
        if isinstance(g, tuple) and g[0] in ("inst", "union"):
            return [(st, x.a[1])]
    S = P.snap(st, c)
    X = P.snap(st, x)
    return [(st, TM.call(mk("attr", mk("seq", "list", S.a[1]) if S.op == "seq" else S, "index"), [X]))]


def l_count(P, st, o, a, kw):
    S = P.snap(st, P.iterable(st, o))
    return [(st, TM.call(mk("attr", mk("seq", "list", S.a[1]) if S.op == "seq" else S, "count"), [P.snap(st, a[0])]))]


def d_get(P, st, o, a, kw):
    out = []
    d = a[1] if len(a) > 1 else kw.get("default", NONE)
    for s, v in P.dict_get(st, o, P.snap(st, a[0])):
        if v is not None and v.op == "lookup":
            v = mk("lookup", v.a[0], v.a[1], P.snap(s, d))
        out.append((s, d if v is None else v))
    return out


def d_keys(P, st, o, a, kw):
    return [(st, mkseq("list", P.dict_keys(st, o)))]


def d_values(P, st, o, a, kw):
    c = P.content(st, o)
    if c.op == "seq":
        return [(st, seq("list", [E._mapone(g, lambda e: e.a[1] if e.op == "kv" else item(e, ONE)) for g in c.a[1]]))]


def d_items(P, st, o, a, kw):
    c = P.content(st, o)
    if c.op == "seq":
        return [(st, seq("list", [E._mapone(g, lambda e: seq("tuple", [one(e.a[0]), one(e.a[1])]) if e.op == "kv" else e) for g in c.a[1]]))]


def d_pop(P, st, o, a, kw):
    if len(a) > 1:
        out = []
        for s, v in P.dict_get(st, o, P.snap(st, a[0])):
            if v is None:
                out.append((s, a[1]))
            else:
                out += P.pop_at(s, o, a[0])
        return out
    return P.pop_at(st, o, a[0])


def d_update(P, st, o, a, kw):
    cur = [st]
    if a and st.obj(o).attrs.get("default") is ZERO and P.kindof(st, a[0]) != "dict":
        return [(s, NONE) for s in counted(P, st, o, a[0])]
    if a:
        c = P.content(st, a[0])
        if c.op == "seq" and all(g.op == "one" and g.a[0].op == "kv" for g in c.a[1]):
            for g in c.a[1]:
                cur = [s2 for s in cur for s2 in P.dict_set(s, o, g.a[0].a[0], g.a[0].a[1])]
        else:
            cc = P.content(st, o)
            P.set_content(st, o, seq("dict", list(cc.a[1]) + [star(c)]) if cc.op == "seq" else mk("upd", cc, c), "update")
    for k, v in kw.items():
        cur = [s2 for s in cur for s2 in P.dict_set(s, o, const(k), v)]
    return [(s, NONE) for s in cur]


def d_setdefault(P, st, o, a, kw):
    out = []
    d = a[1] if len(a) > 1 else NONE
    for s, v in P.dict_get(st, o, P.snap(st, a[0])):
        if v is None:
            for s2 in P.dict_set(s, o, P.snap(s, a[0]), d):
                out.append((s2, d))
        else:
            out.append((s, v))
    return out


def d_copy(P, st, o, a, kw):
    return [(st, st.alloc(Obj("dict", attrs=dict(st.obj(o).attrs), content=P.content(st, o), site=P.site())))]


def d_most_common(P, st, o, a, kw):
    c = P.content(st, o)
    if st.obj(o).attrs.get("default") is not ZERO:
        return None
    if not a and c.op == "seq" and all(g.op == "one" and g.a[0].op == "kv" and is_num(g.a[0].a[1]) for g in c.a[1]):
        l = sorted(c.a[1], key=lambda g: -cval(g.a[0].a[1]))
        return [(st, seq("list", [one(seq("tuple", [one(g.a[0].a[0]), one(g.a[0].a[1])])) for g in l]))]
    return [(st, mk("call", mk("attr", P.snap(st, o), "most_common"), tuple(P.snap(st, x) for x in a), ()))]


def d_total(P, st, o, a, kw):
    return b_sum(P, st, [d_values(P, st, o, [], {})[0][1]], {})


def counted(P, st, o, x):
    """add the elements of x to the counter o"""
    c = P.iterable(st, x)
    if c.op == "seq" and all(g.op == "one" for g in c.a[1]) and len(c.a[1]) <= 200:
        cur = [st]
        for g in c.a[1]:
            nx = []
            for s in cur:
                k = P.snap(s, g.a[0])
                for s2, v in P.dict_get(s, o, k):
                    nx += P.dict_set(s2, o, k, add(ZERO if v is None else v, ONE))
            cur = nx
        return cur
    P.set_content(st, o, mk("call", mk("ext", "collections.Counter"), (P.snap(st, c),), ()), "update")
    return [st]


def set_add(P, st, o, a, kw):
    c = P.content(st, o)
    P.set_content(st, o, seq("set", P.distinct(st, list(c.a[1]) + [one(a[0])])) if c.op == "seq" else mk("upd", c, a[0]), "add", a[0])
    return [(st, NONE)]


def set_discard(P, st, o, a, kw):
    P.set_content(st, o, mk("removed", P.content(st, o), a[0]), "discard", a[0])
    return [(st, NONE)]


set_remove = set_discard


def set_copy(P, st, o, a, kw):
    return [(st, st.alloc(Obj("set", content=P.content(st, o), site=P.site())))]


PURE_STR = ("rfind", "rindex", "rsplit", "isnumeric", "isdecimal", "isidentifier", "expandtabs", "upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "isdigit", "casefold", "title", "capitalize",
            "swapcase", "isalpha", "isalnum", "isspace", "zfill", "find", "count", "index", "partition", "rpartition", "center", "ljust", "rjust", "removeprefix", "removesuffix")


def strmeth(P, st, s, name, a, kw):
    A = [P.snap(st, x) for x in a]
    if is_const(s) and all(is_const(x) for x in A) and not kw and (name in PURE_STR or name in ("split", "splitlines")):
        try:
            v = getattr(cval(s), name)(*[cval(x) for x in A])
        except Exception:
            return None
        if isinstance(v, (str, int, bool)):
            return [(st, const(v))]
        if isinstance(v, list):
            return [(st, P.newlist(st, seq("list", [one(const(x)) for x in v])))]
        if isinstance(v, tuple):
            return [(st, seq("tuple", [one(const(x)) for x in v]))]
    if name in ("ljust", "rjust", "center") and len(A) in (1, 2) and not kw and E.istext_(s) and TM._numeric(A[0]):
        c = A[1] if len(A) > 1 else const(" ")
        if is_const(c) and isinstance(cval(c), str) and len(cval(c)) == 1:
            n = sub(A[0], len_of(s))             # none when negative
            f = lambda k: mk("fill", cval(c), k)
            if name == "center":
                return [(st, E.fstr([f(mk("bin", "left half", n)), s, f(mk("bin", "right half", n))]))]
            return [(st, E.fstr([s, f(n)] if name == "ljust" else [f(n), s]))]
    if name == "join":
        c = P.snap(st, P.iterable(st, a[0]))
        ex = exact(c) if c.op == "seq" else None
        if ex is not None and is_const(s):
            parts = []
            for i, x in enumerate(ex):
                if i and cval(s):
                    parts.append(s)
                parts.append(x)
            return [(st, E.fstr(parts))]
        return [(st, TM.call(mk("attr", s, "join"), [mk("seq", "list", c.a[1]) if c.op == "seq" else c]))]
    if name == "format" and is_const(s):
        import string

        try:
            out = []
            auto = 0
            for lit, fld, spec, conv in string.Formatter().parse(cval(s)):
                out.append(const(lit))
                if fld is None:
                    continue
                if spec or conv:
                    return None
                if fld == "":
                    v = A[auto]
                    auto += 1
                elif fld.isdigit():
                    v = A[int(fld)]
                elif fld in kw:
                    v = P.snap(st, kw[fld])
                else:
                    return None
                out.append(P.tostr(st, v))
            return [(st, E.fstr(out))]
        except (IndexError, ValueError):
            return None
    if texts.istext(s):
        r = texts.strmeth(P, st, s, name, A, {k: P.snap(st, v) for k, v in kw.items()})
        if r is not None:
            return r
    if name in ("split", "splitlines"):
        t = TM.call(mk("attr", s, name), A, tuple((k, P.snap(st, v)) for k, v in kw.items()))
        return [(st, P.newlist(st, t))]
    return None


def bstatic(P, st, f, a, kw):
    """str.strip(x), list.append(l, x), dict.fromkeys(...)"""
    cls, name = f.a
    if cls in ("str", "list", "dict", "set", "tuple") and a and name not in ("fromkeys", "maketrans"):
        if cls == "str" and not (P.tag(st, a[0]) == "str"):
            return opaque(P, st, mk("attr", P.snap(st, a[0]), name), a[1:], kw, None)
        return method(P, st, a[0], name, a[1:], kw)
    if cls == "dict" and name == "fromkeys":
        c = P.iterable(st, a[0])
        v = a[1] if len(a) > 1 else NONE
        ex = exact(c)
        if ex is None:
            return [(st, extcall("dict.fromkeys", P.snap(st, a[0]), *a[1:]))]
        if len(ex) > 1:
            if len(ex) > 4:
                return [(st, extcall("dict.fromkeys", P.snap(st, a[0]), *a[1:]))]
            work = [(st, [])]
            for e in ex:
                nx = []
                for s, ks in work:
                    rest = [s]
                    for q in ks:
                        r2 = []
                        for s2 in rest:
                            for s3, same in P.branch(s2, eq(e, q)):
                                if same:
                                    nx.append((s3, ks))
                                else:
                                    r2.append(s3)
                        rest = r2
                    nx += [(s2, ks + [e]) for s2 in rest]
                work = nx
            return [(s, s.alloc(Obj("dict", content=seq("dict", [one(mk("kv", q, v)) for q in ks]), site=P.site()))) for s, ks in work]
        segs = [E._mapone(g, lambda e: mk("kv", e, v)) if g.op != "star" else g for g in (c.a[1] if c.op == "seq" else (star(c),))]
        return [(st, st.alloc(Obj("dict", content=seq("dict", segs), site=P.site())))]
    return opaque(P, st, mk("ext", f"{cls}.{name}"), a, kw, None)


# ---------------------------------------------------------------- library
def ext(P, st, f, a, kw):
    n = f.a[0]
    if n.startswith("re."):
        r = texts.ext(P, st, f, a, kw)
        if r is not None:
            return r
    if P.absent and n in ("importlib.import_module", "importlib.util.find_spec", "__import__") and a and is_const(a[0]) and isinstance(cval(a[0]), str) and cval(a[0]).split(".")[0] in P.absent:
        if n.endswith("find_spec"):
            return [(st, NONE)]
        P.throw(st, mk("exc", "ModuleNotFoundError"))
        return []
    if n == "numpy.fill_diagonal" and len(a) == 2 and not kw:
        P.set_content(st, a[0], extcall(n, P.snap(st, a[0]), P.snap(st, a[1])), "ext:" + n)
        return [(st, NONE)]
    if n in MUTATING_EXT and len(a) > MUTATING_EXT[n]:
        P.emit(st, "content", a[MUTATING_EXT[n]], "ext:" + n)
    if n in ("functools.reduce",):
        return reduce_(P, st, a, kw)
    if n == "functools.partial":
        return [(st, mk("partial", a[0], tuple(a[1:]), tuple(kw.items())))]
    if n in ("copy.copy", "copy.deepcopy"):
        return copy_(P, st, a[0], n == "copy.deepcopy")
    if n == "itertools.chain":
        return [(st, seq("list", [star(P.iterable(st, x)) for x in a]))]
    if n == "sys.exit":
        P.throw(st, mk("exc", "SystemExit", mk("status", a[0] if a else NONE)))
        return []
    if n == "itertools.islice" and not kw:
        lo, hi = (ZERO, a[1]) if len(a) == 2 else (a[1] if len(a) > 1 and a[1] is not NONE else ZERO, a[2] if len(a) > 2 else NONE)
        step = a[3] if len(a) > 3 else ONE
        st, it = P.cursor(st, a[0])
        if it is not None:
            o = st.obj(it)
            xs = exact(P.snap(st, P.iterable_quiet(st, o.attrs["src"])))
            p = cval(o.attrs["pos"])
            if is_num(lo) and (hi is NONE or is_num(hi)) and step is ONE:
                q = len(xs) if hi is NONE else min(len(xs), p + cval(hi))
                st.obj(it, True).attrs["pos"] = const(q)
                return [(st, seq("list", [one(x) for x in xs[p + cval(lo):q]]))]
            return opaque(P, st, f, a, kw, n)
        c = P.iterable(st, a[0])
        if c.op == "seq":
            return [(st, slice_of(c, lo if lo is not ZERO else NONE, hi, step if step is not ONE else NONE))]
    if n == "itertools.zip_longest":
        cs = [exact(P.iterable(st, x)) for x in a]
        if all(c is not None for c in cs):
            fill = kw.get("fillvalue", NONE)
            m = max(map(len, cs), default=0)
            return [(st, seq("list", [one(seq("tuple", [one(c[i] if i < len(c) else fill) for c in cs])) for i in range(m)]))]
    if n in ("itertools.takewhile", "itertools.dropwhile", "itertools.filterfalse"):
        xs = exact(P.iterable(st, a[1]))
        if xs is not None:
            live, out = [(st, [], True)], []
            for x in xs:
                nx = []
                for s, acc, on in live:
                    if n == "itertools.filterfalse" or on:
                        for s2, r in P.call(s, a[0], [x], {}):
                            for s3, v in P.branch(s2, P.truth(s2, r)):
                                if n == "itertools.filterfalse":
                                    nx.append((s3, acc if v else acc + [x], True))
                                elif n == "itertools.takewhile":
                                    nx.append((s3, acc + [x] if v else acc, v))
                                else:
                                    nx.append((s3, acc if v else acc + [x], v))
                    else:
                        nx.append((s, acc if n == "itertools.takewhile" else acc + [x], False))
                live = nx
            return [(s, seq("list", [one(x) for x in acc])) for s, acc, on in live]
    if n == "itertools.chain.from_iterable":
        acc = []
        c = P.iterable(st, a[0])
        if c.op == "seq":
            segs = []
            for g in c.a[1]:
                if g.op == "one":
                    segs.append(star(P.iterable(st, g.a[0])))
                elif g.op == "map":
                    K = fresh()
                    bv, N, cases = g.a
                    if all(len(x) == 1 and x[0].op == "one" for ff, x in cases):
                        segs.append(mapseg(K, N, [(tuple(subst(y, {bv: K}) for y in ff), tuple(star(P.iterable(st, subst(x[0].a[0], {bv: K}))) for _ in (0,))) for ff, x in cases]))
                    else:
                        return opaque(P, st, f, a, kw, n)
                else:
                    return opaque(P, st, f, a, kw, n)
            return [(st, seq("list", segs))]
    if n in ("operator.mul", "operator.add", "operator.sub", "operator.mod", "operator.floordiv", "operator.truediv"):
        return P.binop({"mul": "Mult", "add": "Add", "sub": "Sub", "mod": "Mod", "floordiv": "FloorDiv", "truediv": "Div"}[n.split(".")[1]], a[0], a[1], st)
    if n in ("operator.eq", "operator.ne", "operator.lt", "operator.le", "operator.gt", "operator.ge", "numpy.equal", "numpy.mod", "numpy.remainder", "numpy.add", "numpy.multiply", "numpy.subtract"):
        m = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "equal": "Eq"}
        k = n.split(".")[1]
        if k in m:
            return P.compare(m[k], a[0], a[1], st)
        return P.binop({"mod": "Mod", "remainder": "Mod", "add": "Add", "multiply": "Mult", "subtract": "Sub"}[k], a[0], a[1], st)
    if n == "operator.itemgetter" and len(a) == 1:
        return [(st, mk("getter", "item", a[0]))]
    if n == "operator.attrgetter" and len(a) == 1:
        return [(st, mk("getter", "attr", a[0]))]
    if n in ("math.sqrt", "numpy.sqrt"):
        return [(st, power(P.num(st, a[0]), const(0.5)))]
    if n in ("numpy.square",):
        return [(st, power(P.num(st, a[0]), const(2)))]
    if n == "numpy.power":
        return [(st, power(P.num(st, a[0]), P.num(st, a[1])))]
    if n in ("math.ceil", "math.floor") and is_num(P.num(st, a[0])) and not isinstance(cval(P.num(st, a[0])), complex):
        return [(st, const(getattr(math, n[5:])(cval(P.num(st, a[0])))))]
    if n == "math.ceil" and P.tag(st, P.num(st, a[0])) == "int":
        return [(st, a[0])]
    if n == "numpy.abs":
        return [(st, extcall("abs", P.snap(st, a[0])))]
    if n == "collections.Counter" or n == "collections.defaultdict" or n == "collections.OrderedDict":
        if n == "collections.OrderedDict":
            return b_dict(P, st, a, kw)
        if n == "collections.defaultdict":
            r = b_dict(P, st, a[1:], kw)
            for s, o in r:
                s.obj(o, True).attrs["default"] = a[0] if a else NONE
            return r
        if not a or P.kindof(st, a[0]) == "dict":
            r = b_dict(P, st, a, kw)
            for s, o in r:
                s.obj(o, True).attrs["default"] = ZERO
            return r
        c = P.iterable(st, a[0])
        if c.op == "seq" and all(g.op == "one" for g in c.a[1]):
            o = st.alloc(Obj("dict", attrs={"default": ZERO}, content=seq("dict", []), site=P.site()))
            return [(s, o) for s in counted(P, st, o, c)]
    if n == "numpy.array" and a and not kw:
        c = a[0]
        if c.op == "ref" and st.obj(c).kind == "arr":
            return [(st, st.alloc(Obj("arr", content=st.obj(c).content, site=P.site())))]
    if n in ("numpy.eye", "numpy.zeros") and kw:
        kw = dict(kw)
        if n == "numpy.eye":
            for k in ("N",):
                if k in kw:
                    a = [kw.pop(k)] + a
            if "M" in kw and P.snap(st, kw["M"]) is P.snap(st, a[0]):
                kw.pop("M")
        if n == "numpy.zeros" and "shape" in kw:
            a = [kw.pop("shape")] + a
        kw.pop("dtype", None)
    elif n == "numpy.eye" and len(a) == 2 and a[1] is a[0]:
        a = a[:1]
    A, K = snaps(P, st, a, kw)
    t = TM.call(f, A, tuple(K.items()))
    P.emit(st, "ext", t, f, tuple(a))
    if n in E.ARR_FRESH:
        return [(st, st.alloc(Obj("arr", content=t, site=P.site())))]
    return [(st, t)]


def reduce_(P, st, a, kw):
    f = a[0]
    c = P.iterable(st, a[1])
    fid = f"f{st.nf}"
    st.nf += 1
    caller = st.cur
    st.frames[fid] = {"__parent__": caller, "__mod__": None}
    st.own.add(("f", fid))
    init = a[2] if len(a) > 2 else None
    rest = c
    if init is None:
        init = P.item(st, c, ZERO)
        rest = P.slice(st, c, ONE, NONE, NONE)
    st.frames[fid]["acc"] = init

    def body(s, e):
        res = []
        for s2, v in P.call(s, f, [s.frames[fid]["acc"], e], {}):
            s2.setvar(fid, "acc", v)
            res.append(("next", s2, NONE))
        return res

    out = []
    for k, s, v in P.iterate(st, rest, body):
        if k == "raise":
            s.frames.pop(fid, None)
            P.sink.append((s, v))
        else:
            r = s.frames[fid]["acc"]
            s.frames.pop(fid, None)
            out.append((s, r))
    return out


def copy_(P, st, x, deep, seen=None):
    if x.op != "ref":
        k = P.kindof(st, x)
        if k == "list":
            return [(st, P.newlist(st, P.iterable(st, x)))]
        return [(st, x)]
    m = {}

    def go(t):
        if t.op != "ref":
            return t
        if t in m:
            return m[t]
        o = st.obj(t)
        n = st.alloc(Obj(o.kind, cls=o.cls, attrs=dict(o.attrs), content=o.content, site=P.site()))
        m[t] = n
        if deep:
            no = st.obj(n, True)
            no.attrs = {k: rec(v) for k, v in no.attrs.items()}
            if no.content is not None:
                no.content = rec(no.content)
        return n

    def rec(t):
        if t.op == "ref":
            return go(t)
        if any(s.op == "ref" for s in syms(t)):
            return rebuild(t, rec)
        return t

    return [(st, go(x))]
