"""C24, C25: what the summary and the drawing of a circuit say."""
import re
from small import *

INFO = "QuantumCircuit.get_circuit_info"
CENSUS = "every added gate is counted exactly once under its kind"
TOTAL = "the total is the number of gates added"
ABSENT = "kinds that do not occur are not listed"


# ---------------------------------------------------------------- census
def table(t):
    """{text: term} of a dictionary with constant keys"""
    if t.op != "seq":
        return None
    out = {}
    for g in t.a[1]:
        if g.op != "one" or g.a[0].op != "kv" or not is_const(g.a[0].a[0]):
            return None
        out[cval(g.a[0].a[0])] = g.a[0].a[1]
    return out


def info(sm, s, qc):
    """[(state, {kind: count} or None, total or None, term)]"""
    outs, bad = method(sm.P, s, qc, "get_circuit_info")
    res = []
    for s2, v in outs:
        if not feasible(sm.P, s2):
            continue
        t = sm.P.deep(s2, v)
        d = table(t)
        det = table(d["details"]) if d and "details" in d else None
        res.append((s2, det, d.get("gate_count") if d else None, t))
    return res, [(s2, e) for s2, e in bad if feasible(sm.P, s2)]


def kindname(op):
    return "gate" if op.meth == "gate" else op.meth


def judge_census(ck, names, got, ops, label, sole):
    s, det, total, t = got
    w = INFO
    ck.count("circuits")
    if det is None or total is None:
        ck.ob(CENSUS, None, w, f"{label}: {show(t)[:80]}")
        return
    st = None if sole else s
    want = {}
    for op in ops:
        n = names.get(kindname(op))
        if n is None:
            ck.ob(CENSUS, None, w, f"{label}: no name for {kindname(op)}")
            return
        want[n] = want.get(n, 0) + 1
    for n in sorted(set(want) | set(det), key=str):
        if n not in det:
            ck.ob(CENSUS, False, w, f"{label}: {n} is not listed", st=st)
        elif n not in want:
            zero = is_num(det[n]) and num(det[n]) == 0
            ck.ob(ABSENT, False if is_num(det[n]) else None, w, f"{label}: lists {n} {'with 0' if zero else show(det[n])[:40]}", st=st)
        else:
            v = det[n]
            ck.ob(CENSUS, (num(v) == want[n]) if is_num(v) else None, w, f"{label}: {n} is counted {show(v)[:40]} times instead of {want[n]}", st=st)
    ck.ob(TOTAL, (num(total) == len(ops)) if is_num(total) else None, w, f"{label}: total {show(total)[:40]} instead of {len(ops)}", st=st)


def num(t):
    return cval(t)


def c24(ck):
    deep = ck.tier == "thorough"
    plans = [(3, 4 if deep else 3, 0), (3, 4 if deep else 3, 1), (2, 4 if deep else 3, 0), (1, 4 if deep else 3, 0), (4, 3 if deep else 2, 0), (4, 3, 1),
             (3, 2, ALL), (2, 3, ALL), (4, 2 if deep else 1, ALL)]
    ck.parallel([(CENSUS, INFO, small_census) + p for p in plans] + [(CENSUS, INFO, long_census, i) for i in range(len(LONG) + len(SAME))] + [(CENSUS, INFO, two_censuses), (CENSUS, INFO, any_census)])


def long_census(ck, which):
    TM.MANY = 100
    try:
        long_count(ck, which)
    finally:
        TM.MANY = 16


def long_count(ck, which):
    dims, p, ops = (LONG + SAME)[which]
    sm = Small(len(dims), dims=dims, levels=[0] * len(dims))
    names = names_of(ck, Small(3))
    for s, qc in sm.begin()[0]:
        for i, op in enumerate(ops):
            r = sm.do(s, qc, op)[0]
            if len(r) != 1:
                ck.ob(CENSUS, None, INFO, f"{len(dims)} registers, {i + 1} operations: several outcomes")
                return
            s = r[0][0]
            if i % 8 == 7 or i + 1 == len(ops):
                res, bad = info(sm, s.copy(), qc)
                for got in res:
                    judge_census(ck, names, got, ops[:i + 1], f"{len(dims)} registers, {i + 1} operations", len(res) == 1)
                if not res:
                    ck.ob(CENSUS, False if bad else None, INFO, f"{len(dims)} registers, {i + 1} operations: no summary")
    ck.used(sm.P)



ALL = "all"


def census_ops(n, which=0):
    if which is ALL:
        return placements(n) + [TOF([a], b) for a in range(n) for b in range(n) if a != b]
    if n == 1:
        return [H(0), X(0), Z(0), U(0)]
    if n == 2:
        return [H(0), X(1), Z(0), CX(0, 1), U(0), UL(0, 1), TOF([1], 0)]
    if which == 0:
        return [H(0), X(n - 1), Z(0), CX(0, n - 1), U(0), UL(*range(n)), TOF([0, 1], 2), H(1), O(2), X1(0)]
    A = [CX(0, 1), H(2), X(2), UL(0, 1), Z(1)]
    return A + ([TOF([2, 0], 1), UL(1, 2), X(3)] if n > 3 else [CX(2, 1), X(0), U(1)])


def small_census(ck, n, depth, which):
    sm = Small(n)
    names = dict(names_of(ck, Small(3))) if n == 2 else {}
    for s, qc in sm.begin()[0]:
        for op in placements(n) + [TOF([a], b) for a in range(n) for b in range(n) if a != b]:
            for s1, _ in sm.do(s, qc, op)[0]:
                for _, det, total, t in info(sm, s1, qc)[0]:
                    if det is not None and len(det) == 1:
                        k = next(iter(det))
                        names.setdefault(kindname(op), k)
                        ck.ob("each kind has a name of its own", names[kindname(op)] == k and all(v != k for o, v in names.items() if o != kindname(op)), INFO, f"{op} is listed as {k}", st=s1)
                    elif det is not None:
                        ck.ob(CENSUS, False, INFO, f"{n} registers: one gate, {op}, is listed as {sorted(map(str, det)) or 'nothing'}", st=s1)

    def visit(s, qc, ops, sole):
        if s is None:
            return
        label = f"{n} registers: " + (" ".join(op.name for op in ops) or "no gate")
        res, bad = info(sm, s.copy(), qc)
        for got in res:
            judge_census(ck, names, got, ops, label, sole and len(res) == 1)
        if not res:
            ck.ob(CENSUS, False if bad and sole else None, INFO, f"{label}: no summary", st=None if sole else s)
        if len(ops) <= 2 or len(ops) == depth and ops[0].name == ops[1].name:
            after_measure(ck, sm, names, s, qc, ops, label)
    for s, qc in sm.begin()[0]:
        programs(sm, census_ops(n, which), depth, visit, s, qc)
        if which is not ALL:
            interleaved(ck, sm, names, s, qc, n, which)
    ck.used(sm.P)


def two_censuses(ck):
    """two circuits, one summary each"""
    sm = Small(3)
    for s, q1 in sm.begin()[0]:
        for s2, q2 in sm.begin(s)[0]:
            todo = [(s2, [], [])]
            for i, op in enumerate(census_ops(3)):
                todo = [(s4, a + [op] * (q is q1), b + [op] * (q is q2)) for s3, a, b in todo for q in (q1, q2)[i % 2:i % 2 + 1] for s4, _ in sm.do(s3, q, op)[0]]
            for s3, a, b in todo:
                for q, ops in ((q1, a), (q2, b), (q1, a)):
                    res, _ = info(sm, s3, q)
                    for got in res:
                        judge_census(ck, names_of(ck, sm), got, ops, "two circuits", len(res) == 1)
                        s3 = got[0]


_names = {}


def names_of(ck, sm):
    if not _names:
        for s, qc in sm.begin()[0]:
            for op in census_ops(3):
                for s1, _ in sm.do(s, qc, op)[0]:
                    for _, det, total, t in info(sm, s1, qc)[0]:
                        if det is not None and len(det) == 1:
                            _names.setdefault(kindname(op), next(iter(det)))
    return _names


def after_measure(ck, sm, names, s, qc, ops, label):
    for s1, _ in method(sm.P, s.copy(), qc, "measure_all")[0]:
        res, _ = info(sm, s1, qc)
        for got in res:
            judge_census(ck, names, got, ops, label + ", measured", len(res) == 1)
        for s2, _ in method(sm.P, s1.copy(), qc, "run")[0]:
            res, _ = info(sm, s2, qc)
            for got in res:
                judge_census(ck, names, got, ops, label + ", run", len(res) == 1)


def interleaved(ck, sm, names, s, qc, n, which):
    """the summary is asked for after every step"""
    A = census_ops(n, which)
    for seq_ in (A, A[::-1], A + A, [A[0]] * 6, [A[i // 2] for i in range(2 * len(A))]):
        done, s1 = [], s
        for op in seq_:
            r = sm.do(s1, qc, op)[0]
            if len(r) != 1:
                break
            s1 = r[0][0]
            done.append(op)
            res, bad = info(sm, s1, qc)
            for got in res:
                judge_census(ck, names, got, done, f"{n} registers, after each of {len(done)} gates", len(res) == 1)
            if len(res) != 1:
                break
            s1 = res[0][0]


# ---------------------------------------------------------------- any circuit
KINDS = ("h", "x", "z", "cx", "toffoli", "gate", "i", "m")


def class_of(k):
    return {"gate": "client_.UserGate", "init": "qudiet.core.init_states.InitState"}.get(k) or SG + GATES[k]


def holds(P, c, f):
    """truth of a condition on an element of class c; None: not only about its class"""
    if f.op == "not":
        r = holds(P, c, f.a[0])
        return None if r is None else not r
    if f.op in ("and", "or"):
        rs = [holds(P, c, x) for x in f.a]
        if None in rs:
            return None
        return all(rs) if f.op == "and" else any(rs)
    if f.op == "isinst":
        k = f.a[1]
        return k in P.mro(c) if isinstance(k, str) else (k.a[0] in P.mro(c) if k.op == "cls" else None)
    if f.op == "typeis":
        k = f.a[1]
        return k == c if isinstance(k, str) else None
    return None


def increments(P, t, layers, steps=0):
    """{class: increment} per gate position of a counter that runs over all positions of all layers"""
    if t.op != "fold":
        return None
    bv, bc, N, init, cases = t.a
    if not (is_num(init) and cval(init) == 0) or N is not len_of(layers) or len(cases) != 1 or cases[0][0]:
        return None
    inner = cases[0][1]
    if inner.op != "fold":
        return None
    jv, jc, M, init2, cases2 = inner.a
    if init2 is not bc or not (M.op == "len" and bv in syms(M)):
        return None
    out = {}
    for k in KINDS:
        c = class_of(k)
        hit = []
        for fs, v in cases2:
            rs = [holds(P, c, f) for f in fs]
            if False in rs:
                continue
            if None in rs:
                return None
            hit.append(sub(v, jc))
        if len(hit) != 1 or not is_num(hit[0]):
            return None
        out[k] = cval(hit[0])
    return out


def any_census(ck):
    P = program()
    C = Circuit(P)
    P.opaque_getter = {"unitary"}
    w = INFO + ", any circuit"
    outs = [(s, P.deep(s, v)) for s, v in method(P, C.start(), C.qc, "get_circuit_info")[0]]
    terms, tabs = {}, []
    for s, t in outs:
        d = table(t)
        det = table(d["details"]) if d and "details" in d else None
        if det is None or "gate_count" not in d:
            ck.ob(CENSUS, None, w, "the summary is not a plain dictionary")
            return
        tabs.append((s, det, d["gate_count"]))
        for k, v in det.items():
            if terms.setdefault(k, v) is not v:
                ck.ob(CENSUS, None, w, f"{k} depends on what else is in the circuit")
                return
    own = {}
    for k, v in terms.items():
        ck.count("counters")
        inc = increments(P, v, C.hist)
        if inc is None:
            cut = cut_off(v, C)
            ck.ob(CENSUS, False if cut else None, w, f"{k}: only layers up to number {cut} are looked at" if cut else f"{k}: {show(v)[:80]}")
            return
        hits = [c for c, x in inc.items() if x == 1]
        ck.ob(CENSUS, len(hits) == 1 and all(x == 0 for c, x in inc.items() if c not in hits) and hits[0] in ("h", "x", "z", "cx", "toffoli", "gate"), w, f"{k} grows by {', '.join(f'{x} for {c}' for c, x in inc.items() if x)}")
        for h in hits:
            ck.ob(CENSUS, h not in own, w, f"{h} is counted as {k} and as {own.get(h)}")
            own[h] = k
    for c in ("h", "x", "z", "cx", "toffoli", "gate"):
        ck.ob(CENSUS, c in own, w, f"{c} gates are not counted")
    for s, det, total in tabs:
        ck.ob(TOTAL, True if total is addall(det.values()) else None, w, "the total is not the sum of the counts")
        for k, v in terms.items():
            z = eq(v, ZERO)
            ok = True if (k in det and nott(z) in s.facts) or (k not in det and z in s.facts) else None
            if ok is None and free(C, s, list(terms.values())):
                # the counters are independent of each other: zero and positive values are possible
                s2 = s.copy()
                s2.fact(z if k in det else le(ONE, v))
                ok = False if consistent(P, s2, list(terms.values())) else None
            ck.ob(ABSENT, ok, w, f"{k} is {'listed with 0' if k in det else 'not listed although it occurs'}")
    ck.used(P)


def cut_off(t, C):
    """the number of layers a counter stops after, if it certainly does"""
    if t.op != "fold" or not is_num(t.a[3]):
        return None
    N = t.a[2]
    if N.op == "len" and N.a[0].op == "slice" and C.hist in set(walk(N.a[0].a[0])) and N.a[0].a[0].op == "seq":
        hi = N.a[0].a[2]
        if is_num(hi) and cval(hi) > 0 and N.a[0].a[3] in (NONE, ONE):
            return cval(hi)
    return None


def free(C, s, ts):
    """the path depends on the counters only, each compared with numbers"""
    for f in s.facts:
        if f in C.s0.facts:
            continue
        g = f.a[0] if f.op == "not" else f
        if g.op not in ("eq0", "le0", "lt0"):
            return False
        used = [t for t in ts if t in walk(g)]
        if len(used) != 1 or not simple_bound(g.a[0], used[0]):
            return False
    return True


def simple_bound(p, t):
    return any(is_num(x) for x in (sub(p, t), add(p, t)))


def consistent(P, s, ts):
    """some value from 0 to 1000 of each counter meets the conditions on it"""
    for t in ts:
        ok = set(range(0, 1001))
        for f in s.facts:
            g = f.a[0] if f.op == "not" else f
            if g.op in ("eq0", "le0", "lt0") and t in walk(g) and simple_bound(g.a[0], t):
                p = g.a[0]
                sg, c = (1, cval(sub(p, t))) if is_num(sub(p, t)) else (-1, cval(add(p, t)))
                tst = {"eq0": lambda v: v == 0, "le0": lambda v: v <= 0, "lt0": lambda v: v < 0}[g.op]
                ok = {x for x in ok if tst(sg * x + c) != (f.op == "not")}
        if not ok:
            return False
    return True


def addall(vs):
    r = ZERO
    for v in vs:
        r = add(r, v)
    return r


# ---------------------------------------------------------------- drawing
STR, DRAW = "QuantumCircuit.__str__", "QuantumCircuit.draw"
ROWS = "one row per register with its dimension and initial level"
MARKS = "every gate appears once on exactly the registers it acts on"
COLS = "every gate stands in its layer's column"
WORKS = "every circuit that can be built can be drawn"


def rows_of(t):
    """lines of a text as lists of characters and embedded numbers (terms); None: not a text of that form"""
    parts = t.a if t.op == "fstr" else [t]
    out = [[]]
    for x in parts:
        if is_const(x) and isinstance(cval(x), str):
            for ch in cval(x):
                if ch == "\n":
                    out.append([])
                else:
                    out[-1].append(ch)
        elif x.op == "fstr":
            sub_ = rows_of(x)
            if sub_ is None:
                return None
            out[-1] += sub_[0]
            out += sub_[1:]
        elif x.op == "str":
            out[-1].append(x.a[0])
        elif x.op == "fill" and x.a[0] in ("-", " "):
            out[-1].append(x.a[0])   # as many as it takes
        elif TM._numeric(x) and not any(y.op == "fold" for y in walk(x)):
            out[-1].append(x)
        else:
            return None
    return out


def number(row, i):
    """(term, next position) of a number in a row"""
    if i < len(row) and not isinstance(row[i], str):
        return row[i], i + 1
    j = i
    if j < len(row) and row[j] == "-":
        j += 1
    while j < len(row) and isinstance(row[j], str) and row[j].isdigit():
        j += 1
    txt = "".join(x for x in row[i:j])
    if not txt.strip("-"):
        return None, i
    return const(int(txt)), j


def read_row(row):
    """((dimension, level), [(label, value or None, first column, last column)])"""
    if not row or row[0] != "(":
        return None, None
    d, i = number(row, 1)
    if d is None or row[i:i + 2] != [")", "|"]:
        return None, None
    s, i = number(row, i + 2)
    if s is None or i >= len(row) or row[i] != ">":
        return None, None
    i += 1
    cells = []
    while i < len(row):
        c = row[i]
        if c in ("-", " "):
            i += 1
            continue
        if c == "X" and row[i + 1:i + 2] == ["("]:
            v, j = number(row, i + 2)
            if v is not None and j < len(row) and row[j] == ")":
                cells.append(("X", v, i, j))
                i = j + 1
                continue
        cells.append((c if isinstance(c, str) else "?", None, i, i))
        i += 1
    return (d, s), cells


def mark(op, r):
    """what register r shows of an operation"""
    if op.meth == "x":
        return ("X", op.kw.get("plus", ONE))
    if op.meth in ("h", "z"):
        return (op.meth.upper(), None)
    if op.meth == "gate":
        return ("G", None)
    if r == op.acts[-1]:
        return ("X", op.kw.get("plus", ONE))
    return ("*", None) if r in op.acts else ("|", None)


def block(op):
    return range(min(op.acts), max(op.acts) + 1)


def judge_drawing(ck, sm, s, t, ops, measured, w, label, sole, layers=None):
    st = None if sole else s
    ck.count("drawings")
    rows = rows_of(t)
    if rows is None:
        obj = [x for x in (t.a if t.op == "fstr" else [t]) if x.op == "obj"]
        ck.ob(MARKS, False if obj else None, w, f"{label}: " + (f"prints a {show(obj[0])[:40]} object" if obj else show(t)[:80]), st=st)
        return
    reg = [r for r in rows if r and r[0] == "("]
    if len(reg) != sm.n:
        ck.ob(ROWS, False if reg else None, w, f"{label}: {len(reg)} rows for {sm.n} registers", st=st)
        return
    cells = []
    for i, r in enumerate(reg):
        head, cs = read_row(r)
        if head is None:
            txt = "".join(r) if all(isinstance(c, str) for c in r) else None
            lost = txt is not None and is_const(sm.ds[i]) and is_const(sm.ss[i]) and any(str(cval(x)) not in re.findall("[0-9]+", txt) for x in (sm.ds[i], sm.ss[i]))
            ck.ob(ROWS, False if lost else None, w, f"{label}: row {i} is not understood" + (f": {txt[:20]}" if lost else ""), st=st)
            return
        for what, have, want in (("dimension", head[0], sm.ds[i]), ("initial level", head[1], sm.ss[i])):
            ck.ob(ROWS, True if have is want else sm.cmp.same(s, have, want), w, f"{label}: row {i} shows {show(have)} as its {what} instead of {show(want)}", st=st)
        want = [mark(op, i) for op in ops if i in block(op)] + [("M", None)] * measured
        have = [c[:2] for c in cs]
        ok = len(want) == len(have) and all(a[0] == b[0] and (a[1] is b[1] or (a[1] is not None and b[1] is not None and sm.cmp.same(s, a[1], b[1]))) for a, b in zip(have, want))
        ck.ob(MARKS, ok, w, f"{label}: row {i} shows {' '.join(map(cell, have)) or 'nothing'} instead of {' '.join(map(cell, want)) or 'nothing'}", st=st)
        if not ok:
            return
        cells.append(cs)
    if layers is None:
        return
    if any(x.op == "fill" for x in walk(t)):
        ck.ob(COLS, None, w, f"{label}: the widths of the columns are not known")
        return
    # columns: marks of one layer share a column, those of later layers stand further right
    hull = {}
    for i, cs in enumerate(cells):
        if len(cs) != len(layers[i]):
            ck.ob(COLS, None, w, f"{label}: layers of register {i} are not understood")
            return
        for c, L in zip(cs, layers[i]):
            hull.setdefault(L, []).append((c[2], c[3], i))
    for L, iv in hull.items():
        lo, hi = max(a for a, b, i in iv), min(b for a, b, i in iv)
        ck.ob(COLS, lo <= hi, w, f"{label}: marks of layer {L} do not stand in one column", st=st)
    Ls = sorted(hull)
    for a, b in zip(Ls, Ls[1:]):
        ck.ob(COLS, max(y for x, y, i in hull[a]) < min(x for x, y, i in hull[b]), w, f"{label}: layers {a} and {b} overlap", st=st)


def cell(c):
    return c[0] + (f"({show(c[1])})" if c[1] is not None else "")


LAYERS = '''
def layers_of(qc):
    return [[(g.acting_on, isinstance(g, IGate), isinstance(g, InitState) or isinstance(g, Measurement)) for g in m.peek_list()] for m in qc.op_flow.peek()]
def busy(qc):
    return [[None if isinstance(g, IGate) or isinstance(g, InitState) else (g.acting_on if not isinstance(g, Toffoli) else g._acting_on) for g in m.peek_list()] for m in qc.op_flow.peek()]
def drawn(qc):
    qc.draw()
'''


def layers_on(sm, s, qc):
    """for each register the numbers of the layers in which it is not idle; None: not known"""
    outs, bad = sm.call(s.copy(), "busy", [qc])
    if len(outs) != 1:
        return None
    t = sm.P.deep(*outs[0])
    if exact(t) is None:
        return None
    per = [[] for _ in range(sm.n)]
    for L, row in enumerate(exact(t)):
        ex = exact(row)
        if ex is None:
            return None
        for x in ex:
            if x is NONE:
                continue
            rs = flat(x)
            if rs is None or not rs:
                return None
            for r in range(min(rs), max(rs) + 1):
                per[r].append(L)
    return per


def flat(x):
    if is_num(x):
        return [cval(x)]
    ex = exact(x)
    if ex is None:
        return None
    out = []
    for y in ex:
        f = flat(y)
        if f is None:
            return None
        out += f
    return out


def printed(s):
    """texts printed on this path, first to last; None: not known"""
    out, ev = [], s.ev
    while ev:
        ev, e = ev
        if e.kind == "print":
            out.append(e.target)
    return out[::-1]


def texts_of(sm, s, qc, via):
    """[(state, text)] of a drawing"""
    s = s.copy()
    s.ev = None
    if via == "str":
        outs, bad = method(sm.P, s, qc, "__str__")
        return [(s2, sm.P.deep(s2, v)) for s2, v in outs if feasible(sm.P, s2)], bad
    outs, bad = method(sm.P, s, qc, "draw")
    res = []
    for s2, v in outs:
        if not feasible(sm.P, s2):
            continue
        ps = printed(s2)
        parts = []
        for p in ps:
            for x in (exact(p) if p.op == "seq" else [p]) or [mk("top", "printed", p)]:
                parts += [sm.P.deep(s2, x), const("\n")]
        res.append((s2, mk("fstr", *parts)))
    return res, bad


def draw_ops(n, which=0, p=None):
    if which is ALL:
        return placements(n, p)
    if n == 1:
        return [H(0), X(0, p), Z(0), U(0)]
    if n == 2:
        return [H(1), X(0, p), CX(0, 1, p), CX(1, 0, p), UL(0, 1), U(1)]
    if which == 0:
        return [H(2), X(2, p), CX(0, 2, p), CX(1, 0, p), TOF([0, 1], 2, p), TOF([2, 0], 1, p), U(1), UL(0, 1), Z(2)]
    return [Z(0), X1(0), X(1, p), O(2), UL(*range(n)), CX(n - 1, 0, p), TOF([n - 1, 1], 0, p), CX(0, 1, p)]


def c25(ck):
    deep = ck.tier == "thorough"
    plans = [(3, 2 if not deep else 3, 0, None, None), (3, 2, 1, None, None), (1, 3, 0, None, None), (2, 2 if not deep else 3, 0, None, None), (4, 2, 1, None, None),
             (3, 3, 0, 2, [2, 3, 4]), (3, 2, 0, 0, [3, 3, 3]), (3, 3, 1, 9, [9, 2, 2]), (2, 3, 0, -1, [2, 2]), (4, 2, 1, 1, [3, 2, 4, 5]), (1, 3, 0, 1, [2]), (5, 1, 1, 3, [2] * 5)]
    plans += [(3, 2, ALL, 1, [3, 2, 4]), (2, 3 if deep else 2, ALL, None, None), (4, 2 if deep else 1, ALL, 1, [2, 3, 2, 4])]
    ck.parallel([(MARKS, STR, drawings) + p for p in plans] + [(MARKS, STR, long_drawings, i) for i in range(len(LONG))]
                + [(FIGURE, MPL, figures, n, d, x) for n, d, x in ((1, 2, None), (2, 2, None), (3, 1, None), (3, 1, [3, 2, 4]), (3, 2 if deep else 1, [2] * 3), (4, 1, None), (5, 1, [2, 3, 2, 4, 2]))]
                + [(FIGURE, MPL, long_figures, i, w) for i in range(len(LONG)) for w in (55, 320) if w > 99 or i < 3])


FIGURE = "drawing a circuit as a figure does not fail"
MPL = "draw_circuit_mpl"


class Plot:
    """the plotting library with texts of a known size: every label is a fixed number of pixels wide"""

    def __init__(self, wide):
        self.wide = wide

    def iterable(self, P, st, v):
        return None

    def binop(self, P, st, op, x, y):
        return None

    compare = binop

    def extent(self, o):
        return o.op == "call" and callname(o) == ".get_window_extent"

    def getitem(self, P, st, o, i):
        return [(st, const(100))] if o.op == "ext" and o.a[0] == "matplotlib.pyplot.rcParams" and is_const(i) and cval(i) == "figure.dpi" else None

    def attr(self, P, st, o, name):
        return const(self.wide) if name == "width" and self.extent(o) else None

    def call(self, P, st, f, args, kw):
        if f.op == "attr" and f.a[1] == "get_points" and self.extent(f.a[0]):
            row = lambda x, y: seq("list", [one(const(x)), one(const(y))])
            return [(st, seq("list", [one(row(20, 30)), one(row(20 + self.wide, 50))]))]
        return None


def long_figures(ck, which, wide):
    """circuits that need several figures"""
    dims, p, ops = LONG[which]
    n = len(dims)
    TM.MANY = 100
    try:
        sm = Small(n, states=False, dims=dims, levels=[(7 * i) % d for i, d in enumerate(dims)])
        for s, qc in sm.begin()[0]:
            for op in (ops * 60)[:60 if n < 6 else 24]:
                r = sm.do(s, qc, op)[0]
                if len(r) != 1:
                    ck.ob(FIGURE, None, MPL, f"{n} registers: several outcomes")
                    return
                s = r[0][0]
            sm.P.nd = Plot(wide)
            outs, bad = method(sm.P, s.copy(), qc, "draw", [const("mpl")])
            bad = [x for x in bad if feasible(sm.P, x[0])]
            ck.count("figures")
            if not outs and not bad:
                ck.ob(FIGURE, None, MPL, f"{n} registers, a long circuit: no outcome")
            for s2, e in bad:
                ck.ob(FIGURE, False, MPL, f"{n} registers, a long circuit, {len(outs) + len(bad)} outcomes: raises {show(e)[:60]}", st=s2)
            if outs and not bad:
                ck.ob(FIGURE, True, MPL)
        ck.used(sm.P)
    finally:
        TM.MANY = 16


def figures(ck, n, depth, dims):
    """circuits of every shape, open and measured, are drawn through the plotting library, whose calls are opaque"""
    sm = Small(n, dims=dims, levels=[d - 1 for d in dims] if dims else None)

    def figure(s, qc, label, sole):
        outs, bad = method(sm.P, s.copy(), qc, "draw", [const("mpl")])
        bad = [x for x in bad if feasible(sm.P, x[0])]
        ck.count("figures")
        if not bad:
            ck.ob(FIGURE, True if outs else None, MPL, f"{label}: no outcome")
        for s2, e in bad:
            ck.ob(FIGURE, False if not outs and sole else None if e.op == "top" else False, MPL, f"{label}: raises {show(e)[:60]}", st=None if not outs and sole else s2)

    def visit(s, qc, ops, sole):
        if s is None:
            return
        label = f"{n} registers: " + (" ".join(op.name for op in ops) or "no gate")
        figure(s, qc, label, sole)
        if len(ops) < 2:
            for s1, _ in method(sm.P, s.copy(), qc, "measure_all")[0]:
                figure(s1, qc, label + ", measured", sole)
    one = [TOF([a], b, 1) for a in range(n) for b in range(n) if a != b] + [U(i) for i in range(n)] + [UL(i) for i in range(n)]
    for s, qc in sm.begin()[0]:
        programs(sm, placements(n, 1) + one, depth, visit, s, qc)
    ck.used(sm.P)


def wide(n, p):
    return [H(n - 1), CX(n - 1, 0, p), X(n // 2, p), TOF([0, n - 1], n // 2, p), UL(n - 3, n - 2, n - 1), CX(1, n - 2, p), U(n - 2), Z(0)]


# long and wide circuits: (dimensions, amount, operations)
LONG = [([2], 1, [H(0)] * 70),
        ([3, 2], 2, [op for i in range(14) for op in (CX(0, 1, 2), H(1), Z(0), X(0, 2))]),
        ([2, 3, 4], 1, [op for i in range(6) for op in (H(0), H(1), H(2), TOF([2, 0], 1, 1), CX(1, 0, 1), U(1), UL(1, 2), X(2, 1), CX(2, 1, 1))]),
        ([2] * 12, 1, wide(12, 1)),
        ([9, 8, 7, 6, 5, 4, 3, 2] * 2, 9, wide(16, 9)),
        ([3] * 30, 1, wide(30, 1)),
        ([2] * 6, 1, [TOF([0, 1, 2, 3], 5, 1), TOF([5, 2, 3, 1, 0], 4, 1), TOF([0], 3, 1), UL(0, 1, 2, 3, 4, 5), TOF([4], 0, 1), TOF([2, 0, 5], 3, 1), UL(1, 2, 3, 4)]),
        ([200, 3, 100], 150, [X(2, 150), TOF([0], 1, 150), CX(1, 0, 150), H(1), Z(0), CX(2, 1, 99), UL(0, 1), U(2)]),
        ([12, 10, 11], 11, [H(0), TOF([2, 0], 1, 11), CX(2, 0, 1), X(1, 10), TOF([1], 2, 2), UL(1, 2), Z(0)])]


SAME = [([2, 3, 2], 1, [op] * 17) for op in (H(1), Z(0), U(2), UL(0, 1), UL(0, 1, 2), X(1, 1), CX(0, 2, 1), TOF([0, 2], 1, 1), TOF([0], 1, 1))]


def long_drawings(ck, which):
    TM.MANY = 100
    try:
        long_drawing(ck, which)
    finally:
        TM.MANY = 16


def long_drawing(ck, which):
    dims, p, ops = LONG[which]
    n = len(dims)
    sm = Small(n, states=False, extra=LAYERS, dims=dims, levels=[(7 * i + (d // 2 if d > 9 else 0)) % d for i, d in enumerate(dims)])
    for s, qc in sm.begin()[0]:
        for i, op in enumerate(ops):
            r = sm.do(s, qc, op)[0]
            if len(r) != 1:
                ck.ob(MARKS, None, STR, f"{n} registers, {i + 1} operations: several outcomes")
                return
            s = r[0][0]
            if n > 3 or i + 1 == len(ops) or i % 16 == 9:
                look(ck, sm, s, qc, ops[:i + 1], 0, f"{n} registers, {i + 1} operations", True, dims)
        for s1, _ in method(sm.P, s.copy(), qc, "measure_all")[0]:
            look(ck, sm, s1, qc, ops, 1, f"{n} registers, {len(ops)} operations, measured", True, dims)
    ck.used(sm.P)


def drawings(ck, n, depth, which, p, dims):
    sm = Small(n, states=dims is None, extra=LAYERS, dims=dims, levels=[d - 1 for d in dims] if dims else None)

    def visit(s, qc, ops, sole):
        if s is None:
            return
        label = f"{n} registers: " + (" ".join(op.name for op in ops) or "no gate")
        look(ck, sm, s, qc, ops, 0, label, sole, dims)
        if len(ops) < 2 or len(ops) == depth:
            for s1, _ in method(sm.P, s.copy(), qc, "measure_all")[0]:
                look(ck, sm, s1, qc, ops, 1, label + ", measured", sole, dims)
                if len(ops) <= 2 and dims:
                    for s2, _ in method(sm.P, s1.copy(), qc, "run")[0]:
                        look(ck, sm, s2, qc, ops, 1, label + ", run", sole, dims)
    for s, qc in sm.begin()[0]:
        programs(sm, draw_ops(n, which, p), depth, visit, s, qc)
    ck.used(sm.P)


def look(ck, sm, s, qc, ops, measured, label, sole, dims):
    layers = layers_on(sm, s, qc) if dims else None
    if dims and layers is None:
        ck.ob(COLS, None, STR, f"{label}: the layers are not understood")
    for via in ("str",) + (("draw",) if len(ops) < 2 else ()):
        w = STR if via == "str" else DRAW
        res, bad = texts_of(sm, s, qc, via)
        if not res:
            ck.ob(WORKS, False if bad and sole else None, w, f"{label}: cannot be drawn ({show(bad[0][1])[:60] if bad else 'no outcome'})", st=None if sole else s)
        for s2, e in bad:
            if res and feasible(sm.P, s2):
                ck.ob(WORKS, False, w, f"{label}: {show(e)[:60]}", st=s2)
        for s2, t in res:
            judge_drawing(ck, sm, s2, t, ops, measured, w, label, sole and len(res) == 1, layers)
