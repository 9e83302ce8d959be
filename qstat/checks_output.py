"""C19, C20: what is reported of a final state."""
import itertools
from nda import *
from compare import doubtful

OUT = "qudiet.core.output"
VALUE = "the reported value is the state's amplitude or its squared modulus"
STATES = "every state with a non-zero amplitude is reported once, digits in register order"


def scene(n, patterns, sparse, dims=None):
    """a final state of n registers with one non-zero amplitude per pattern; a pattern says per
    register whether the digit is zero"""
    P = program(load=(OUT,))
    for c in ("Output", "OutputType", "OutputMethod"):
        if OUT + "." + c not in P.classes:
            raise Anchor(OUT + "." + c)
    st = P.start()
    P.nd, ds, digits, amps = final(P, st, n, patterns, sparse, dims)
    return P, st, ds, digits, amps


def final(P, st, n, patterns, sparse, dims, tag=""):
    if dims is None:
        ds = [sym(f"d{i}", "int") for i in range(n)]
        for d in ds:
            st.fact(le(const(2), d))
    else:
        ds = [const(d) for d in dims]
    rows, digits, radix = [], [], {}
    for j, p in enumerate(patterns):
        v, dg = ZERO, []
        for i in range(n):
            v = mul(v, ds[i])
            if dims is not None:
                a = const(p[i])
            elif p[i]:
                a = sym(f"a{j}{i}", "int")
                st.fact(lt(ZERO, a))
                st.fact(lt(a, ds[i]))
                radix[a] = ds[i]
            else:
                a = ZERO
            dg.append(a)
            v = add(v, a)
            if v is not ZERO and not is_num(v):
                st.fact(lt(ZERO, v))
        rows.append(v)
        digits.append(dg)
    size = ONE
    for d in ds:
        size = mul(size, d)
    if not is_num(size):
        for v in rows:
            st.fact(lt(v, size))
    amps = [sym(f"amp{tag}{j}", "complex") for j in range(len(rows))]
    for a in amps:
        st.fact(nott(eq(a, ZERO)))
    for a, b in itertools.combinations(rows, 2):
        if eq(a, b) is not FALSE:
            st.fact(nott(eq(a, b)))
    return Final(rows, amps, size, ds, sparse, radix), ds, digits, amps


def enum(P, cls, name):
    v = P.classes[OUT + "." + cls].attrs.get(name)
    if v is None or v.op != "enum":
        raise Anchor(f"{cls}.{name}")
    return v


def content(P, st, v):
    """[(state, value)] of a report, None when not understood"""
    c = P.snap(st, v)
    ex = exact(c) if c.op == "seq" and c.a[0] in ("list", "tuple") else None
    if ex is None:
        return None
    out = []
    for d in ex:
        d = P.snap(st, d) if d.op == "ref" else d
        if d.op != "seq" or d.a[0] != "dict":
            return None
        kv = exact(d)
        if kv is None or any(x.op != "kv" for x in kv):
            return None
        if len(kv) != 1:
            return None
        out.append((kv[0].a[0], kv[0].a[1]))
    return out


def known(t, syms_):
    """a polynomial in the given symbols"""
    return all(x.op in ("const", "sym", "poly") for x in walk(t) if x.op != "num") and all(s in syms_ for s in syms(t))


def atoms(t, ok):
    """text of a state as a list of characters and digits"""
    out = []
    for x in (t.a if t.op == "fstr" else (t,)):
        if is_const(x) and x.a[0] == "str":
            out += list(cval(x))
        elif x.op == "str" and known(x.a[0], ok):
            out.append(x.a[0])
        else:
            return None
    return out


def label(t, style, ok):
    """the digits a state is reported with; None when not understood, False when it is no such form"""
    if style == "print":
        xs = atoms(t, ok)
        if xs is None:
            return None
        if len(xs) < 2 or xs[0] != "|" or xs[-1] != ">":
            return False
        return [const(int(x)) if isinstance(x, str) and x.isdigit() else x for x in xs[1:-1]]
    if t.op == "const" and t.a[0] == "tuple":
        return [const(x) for x in cval(t)]
    if t.op != "seq" or t.a[0] != "tuple":
        return False if t.op in ("fstr", "const") else None
    ex = exact(t)
    if ex is None or not all(known(x, ok) for x in ex):
        return None
    return ex


def value(t, method, amp, amps):
    """is t the value asked for"""
    for x in walk(t):
        if callname(x) in ("round", "numpy.round", "numpy.around", "int"):
            if callname(x) == "int" or len(x.a[1]) < 2 or is_num(x.a[1][1]) and cval(x.a[1][1]) < 12:
                return False, f"the value is rounded: {show(t)}"
        if x.op == "item" and x.a[0].op == "big" and not any(y.op == "top" for y in walk(x)):
            return False, f"the value is read at index {show(x.a[1])}"
    z = cpoly(t, amps)
    if z is None:
        return None, f"value not understood: {show(t)[:120]}"
    re, im = sym("re:" + amp.a[0], "float"), sym("im:" + amp.a[0], "float")
    want = (re, im) if method == "amplitude" else (add(mul(re, re), mul(im, im)), ZERO)
    z = rootless(z[0]), rootless(z[1])
    if sub(z[0], want[0]) is ZERO and sub(z[1], want[1]) is ZERO:
        return True, ""
    return False, f"{show(t)[:120]} is reported"


def unsure(s):
    """the path depends on arithmetic that was not worked out"""
    return any(x.op in ("idiv", "mod") for f in s.facts for x in walk(f)) or doubtful(s)


def judge(ck, P, s, v, style, method, digits, amps, ds, where, prop, sole):
    doubt = not sole and unsure(s)
    got = content(P, s, v)
    ok = set(ds) | {a for d in digits for a in d}
    if got is None:
        ck.ob(STATES if prop == "C20" else VALUE, None, where, f"report not understood: {show(P.snap(s, v))[:200]}")
        return
    labels = [label(k, style, ok) for k, _ in got]
    if any(l is None for l in labels):
        ck.ob(STATES if prop == "C20" else VALUE, None, where, "a state's name is not understood: " + "; ".join(show(k)[:80] for (k, _), l in zip(got, labels) if l is None))
        return
    want = [tuple(d) for d in digits]
    if style == "print":                      # a level of several digits is printed digit by digit
        want = [tuple(y for x in d for y in ([const(int(z)) for z in str(cval(x))] if is_const(x) else [x])) for d in want]
    have = [tuple(l) if l is not False else None for l in labels]

    def name(d):
        return "not a basis state's name" if d is None else " ".join(x if isinstance(x, str) else show(x) for x in d)
    if prop == "C20":
        extra = [k for k in have if k not in want]
        lost = [d for d in want if d not in have]
        twice = [d for d in want if have.count(d) > 1]
        why = "; ".join(filter(None, [
            "missing: " + ", ".join(map(name, lost)) if lost else "",
            "reported instead or in addition: " + ", ".join(f"{name(k)} ({show(got[have.index(k)][0])[:60]})" for k in extra) if extra else "",
            "reported more than once: " + ", ".join(map(name, twice)) if twice else ""]))
        ck.ob(STATES, True if not why else None if doubt else False, where, why)
        return
    for (k, x), d in zip(got, have):
        if d not in want or have.count(d) != 1:
            # which state that is belongs to the other property; the value must still be somebody's
            rs = [value(x, method, a, amps) for a in amps]
            if not any(r[0] is True for r in rs) and rs:
                ck.ob(VALUE, None if doubt or any(r[0] is None for r in rs) else False, where, rs[0][1])
            continue
        r, why = value(x, method, amps[want.index(d)], amps)
        ck.ob(VALUE, None if r is False and doubt else r, where, f"for state {name(d)}: {why}")


def patterns(n, tier):
    for p in itertools.product((0, 1), repeat=n):
        yield [p]
    yield []
    z, g = (0,) * n, (1,) * n
    yield [z, g]
    if n > 1:
        yield [(0,) + g[1:], g]
        yield [g[:-1] + (0,), (0,) * (n - 1) + (1,)]
    if tier == "thorough":
        for p, q in itertools.combinations(itertools.product((0, 1), repeat=n), 2):
            yield [p, q]


FIXED = [((2,), [(0,), (1,)]), ((3,), [(1,), (2,)]), ((2, 3), [(0, 2), (1, 0)]), ((3, 2), [(0, 1), (2, 1)]), ((2, 3, 4), [(1, 2, 3), (0, 0, 3)]), ((2, 4, 3), [(1, 3, 2), (1, 0, 0), (0, 0, 0)]),
         ((12,), [(11,), (3,), (10,)]), ((2, 13), [(1, 12), (0, 9)]), ((11, 3, 2), [(10, 2, 1), (0, 0, 1)])]


def every(dims, step=1, skip=0):
    return list(itertools.product(*[range(d) for d in dims]))[skip::step]


# all states of a space, every second or third one, and few states of spaces of many registers
LARGE = [((3, 4), every((3, 4))), ((5, 2, 7), every((5, 2, 7), 2, 1)), ((2,) * 7, every((2,) * 7, 3)), ((10, 9), every((10, 9))), ((3, 2, 2, 3), every((3, 2, 2, 3))),
         ((2,) * 14, [(1, 0) * 7, (0,) * 13 + (1,), (1,) * 14]), ((3,) * 11, [(2, 1, 0) * 3 + (2, 1), (0,) * 11]), ((10, 7, 9, 8, 6), [(9, 6, 8, 7, 5), (9, 0, 0, 0, 0), (0, 6, 0, 7, 5)]), ((7,), every((7,))), ((2,) * 20, [(0, 1) * 10, (1,) * 20])]


def report(ck, prop):
    n = 4 if ck.tier == "thorough" else 3
    work = [(None, k, p) for k in range(1, n + 1) for p in patterns(k, ck.tier)]
    work += [(d, len(d), p) for d, p in FIXED]
    rule = VALUE if prop == "C19" else STATES
    kinds = [("print", "probability"), ("print", "amplitude"), ("state", "probability"), ("state", "amplitude")]
    jobs = []
    for dims, k, pats in work:
        for sparse in (False, True):
            for style, method in kinds:
                where = f"{'sparse' if sparse else 'dense'}, {style}, {method}"
                jobs.append((rule, where, one_run, prop, dims, k, pats, sparse, style, method, where))
    jobs += again(prop, rule)
    for dims, given, pats in CIRCUITS:
        for own in (None, ("print", "probability"), ("state", "amplitude"), ("state", "probability")):
            for sparse in (False, True):
                where = f"run of a circuit with {'its default output' if own is None else 'output ' + ', '.join(own)}"
                jobs.append((rule, where, circuit, prop, dims, given, pats, own, sparse, where))
    ck.parallel(jobs)
    if any(o[1] is False for o in ck.obs):
        return  # wrong for small states already
    jobs = []
    for dims, pats in LARGE:
        for sparse in (False, True):
            for style, method in (kinds[0], kinds[3]):
                where = f"many states or registers, {'sparse' if sparse else 'dense'}, {style}, {method}"
                jobs.append((rule, where, one_run, prop, dims, len(dims), pats, sparse, style, method, where))
    with many(200):
        ck.parallel(jobs)


CIRCUITS = [((2, 3), None, [(1, 2), (0, 1)]), ((4, 2, 3), None, [(3, 0, 2), (0, 1, 1)]), ((3, 3), (2, 3), [(2, 1), (0, 2)]), ((2, 2, 2), (3, 2), [(1, 1, 0), (0, 0, 1)]), ((3,), (1, 3), [(2,)])]
EXEC = "qudiet.core.operator_flow.OperatorFlow.exec"


def circuit(ck, prop, dims, given, pats, own, sparse, where):
    """the output stage a circuit uses is the one it was given, or prints amplitudes over its registers"""
    P, st, ds, digits, amps = scene(len(dims), pats, sparse, dims)
    nd, P.nd = P.nd, None
    ran = []

    def go(P, s, args, kw):
        ran.append(1)
        P.nd = nd
        return [(s, nd.value)]
    P.stubs[EXEC] = go
    regs = st.alloc(Obj("list", content=seq("list", [one(d) for d in ds]), owner="client")) if given is None else seq("tuple", [one(const(x)) for x in given])
    kw = {}
    starts = [(st, kw)]
    if own is not None:
        outs, _ = fcall(P, st, mk("cls", OUT + ".Output"), [seq("list", [one(d) for d in ds]), enum(P, "OutputType", own[0]), enum(P, "OutputMethod", own[1])])
        starts = [(s, {"output": o}) for s, o in outs]
    style, method_ = own or ("print", "amplitude")
    for s, kw in starts:
        circuits, _ = fcall(P, s, mk("cls", QC), [regs], kw)
        for s1, qc in circuits:
            measured, _ = method(P, s1, qc, "measure_all")
            for s2, _ in measured:
                P.nd = None
                try:
                    res, bad = method(P, s2, qc, "run")
                finally:
                    P.nd = None
                if not ran:
                    ck.ob(VALUE if prop == "C19" else STATES, None, where, "the evaluation of the layers was not found")
                for s3, v in res:
                    judge(ck, P, s3, v, style, method_, digits, amps, ds, where, prop, len(res) == 1 and not bad)
                    ck.count("runs")
    ck.used(P)


AGAIN = [((2, 3), [(1, 2), (0, 1)], (3, 2), [(2, 1), (0, 1)]), ((3, 2, 2), [(2, 0, 1)], (3, 2, 2), [(2, 0, 1), (1, 1, 0)]), ((2, 2), [(1, 1)], (4,), [(3,), (0,)])]


def again(prop, rule):
    """a report does not depend on reports made before it"""
    jobs = []
    for d1, p1, d2, p2 in AGAIN:
        for style in ("print", "state"):
            for method in ("probability", "amplitude"):
                for same in (False, True):
                    if same and d1 != d2:
                        continue
                    where = f"after another report, {style}, {method}"
                    jobs.append((rule, where, second, prop, d1, p1, d2, p2, style, method, same, where))
    return jobs


def second(ck, prop, d1, p1, d2, p2, style, method, same, where):
    P, st, ds, digits, amps = scene(len(d1), p1, False, d1)
    args = lambda ds: [seq("list", [one(d) for d in ds]), enum(P, "OutputType", style), enum(P, "OutputMethod", method)]
    outs, _ = fcall(P, st, mk("cls", OUT + ".Output"), args(ds))
    for s, o in outs:
        first, _ = fcall(P, s, o, [P.nd.value])
        for s2, _ in first:
            nd, ds2, digits2, amps2 = final(P, s2, len(d2), p2, True, d2, "b")
            P.nd, kept = nd, P.nd
            if same:
                objs = [(s2, o)]
            else:
                objs, _ = fcall(P, s2, mk("cls", OUT + ".Output"), args(ds2))
            for s3, o2 in objs:
                res, bad = fcall(P, s3, o2, [P.nd.value])
                for s4, v in res:
                    judge(ck, P, s4, v, style, method, digits2, amps2, ds2, where, prop, len(res) == 1 and not bad)
                for s4, e in bad:
                    if prop == "C20":
                        ck.ob(STATES, None if (res or len(bad) > 1) and unsure(s4) else False, where, f"a second report raises {show(e)}")
            P.nd = kept
    ck.used(P)


def one_run(ck, prop, dims, k, pats, sparse, style, method, where):
    P, st, ds, digits, amps = scene(k, pats, sparse, dims)
    outs, bad = fcall(P, st, mk("cls", OUT + ".Output"), [seq("list", [one(d) for d in ds]), enum(P, "OutputType", style), enum(P, "OutputMethod", method)])
    for s, o in outs:
        res, bad = fcall(P, s, o, [P.nd.value])
        for s2, v in res:
            judge(ck, P, s2, v, style, method, digits, amps, ds, where, prop, len(res) == 1 and not bad)
        for s2, e in bad:
            if prop == "C20":
                ck.ob(STATES, None if (res or len(bad) > 1) and unsure(s2) else False, where, f"reporting a state with {len(pats)} non-zero amplitudes raises {show(e)}")
        ck.count("reports")
    ck.used(P)


def c19(ck):
    """Final states with symbolic amplitudes at symbolic positions (mixed-radix numbers of symbolic
    digits over symbolic dimensions) are passed through the output stage, sparse and dense, for both
    types and methods; each reported value is compared, as a polynomial in the real and imaginary
    parts of the amplitudes, with the amplitude or its squared modulus of the state it is reported with."""
    report(ck, "C19")


def c20(ck):
    """Final states with symbolic amplitudes at symbolic positions (mixed-radix numbers of symbolic
    digits over symbolic dimensions) are passed through the output stage, sparse and dense, for both
    types and methods; the reported states are compared with the digits the positions were made of."""
    report(ck, "C20")
