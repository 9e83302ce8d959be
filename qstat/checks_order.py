"""C05 and C06 on circuits of a known shape: what the evaluation of a circuit applies to which registers, in what order."""
from small import *
import checks_build as B
import checks_state as S

ORDER = "every register sees its gates in the order they were added"
SHAPE = "every layer covers every register exactly once, in order"
W = "QuantumCircuit.run"


def pairs(n):
    """operations whose registers overlap, enclose or avoid each other"""
    p, q = None, None
    out = [H(0), Z(n - 1), X(1), X(n - 1), U(0), CX(0, n - 1), CX(n - 1, 0), CX(0, 1), CX(n - 1, n - 2), TOF([0, 1], n - 1), TOF([n - 1, n - 2], 0), UL(0, 1), UL(n - 2, n - 1)]
    return out + ([CX(1, 2), TOF([2, 0], 1)] if n > 3 else [])


def run_all(ck, n, depth, first, A, rules, states=True):
    sm = Small(n, states=states)

    def visit(s, qc, ops, sole):
        if s is None:
            for s2, e in qc:
                if rules.get("order"):
                    ck.ob(rules["order"], None, W, f"{' '.join(o.name for o in ops)} raises {show(e)[:60]}")
            return
        if len(ops) < (2 if depth > 1 else 1) and depth:
            return
        res, errs = sm.finish(s, qc)
        for s2, t, v in res:
            sm.judge(ck, s2, t, ops, W, rules, v=v)
        if not res and rules.get("order"):
            ck.ob(rules["order"], None, W, f"{' '.join(o.name for o in ops)} does not run")
    for s, qc in sm.begin()[0]:
        if first is None:
            programs(sm, A, depth, visit, s, qc)
        else:
            for s2, v in sm.do(s, qc, first)[0]:
                programs(sm, A, depth, visit, s2, qc, (first,))
    ck.used(sm.P)


def sequence(ck, n, ops, rules):
    sm = Small(n, states=True)
    for s, qc in sm.begin()[0]:
        cur = [s]
        for op in ops:
            cur = [s3 for s2 in cur for s3, v in sm.do(s2, qc, op)[0]]
        for s2 in cur:
            for s3, t, v in sm.finish(s2, qc)[0]:
                sm.judge(ck, s3, t, ops, W, rules, v=v)
    ck.used(sm.P)


def amounts(*fs):
    """the operations with amounts that tell them apart"""
    return [f(k + 1) for k, f in enumerate(fs)]


LONG = [
    (3, lambda: [X(0, 1), X(0, 2), X(0, 3), H(0), Z(0), X(0, 4)]),
    (3, lambda: [X(0, 1), H(1), CX(0, 2, 1), X(1, 2), X(0, 3), CX(2, 0, 2), Z(1), H(2)]),
    (4, lambda: [CX(0, 1, 1), X(2, 1), X(3, 2), CX(2, 3, 2), X(0, 3), H(1), TOF([0, 1], 3, 1), X(2, 4), Z(0), X(3, 5)]),
    (5, lambda: [CX(1, 3, 1), X(0, 1), X(4, 2), X(2, 3), H(1), H(3), CX(4, 0, 2), X(1, 4), TOF([1, 3], 2, 2), Z(4), Z(0), X(4, 5), X(0, 6)]),
    (6, lambda: [H(5), H(0), X(2, 1), CX(2, 4, 1), X(3, 1), X(5, 2), X(0, 3), CX(4, 2, 2), UL(0, 1), X(5, 4), Z(3), CX(0, 5, 3), X(2, 5)]),
    (7, lambda: [X(6, 1), CX(0, 1, 1), X(4, 2), CX(5, 6, 2), X(2, 3), Z(3), H(4), CX(6, 3, 3), X(0, 4), X(1, 5)]),
]


def mixed(n, length, seed):
    """a fixed mixture of operations on n registers, with amounts that tell them apart"""
    x, out = seed * 7919 + n, []

    def draw(k):
        nonlocal x
        x = (x * 1103515245 + 12345) % 2 ** 31
        return (x >> 8) % k
    for i in range(length):
        k, a = draw(9), draw(n)
        b = (a + 1 + draw(n - 1)) % n
        c = [r for r in range(n) if r not in (a, b)]
        if k < 3:
            out.append((H, Z, U)[k](a) if k else X(a, i + 1))
        elif k < 4:
            out.append(X(a, i + 1))
        elif k < 7 or not c:
            out.append(CX(a, b, i + 1))
        elif k == 7:
            out.append(TOF([a, c[draw(len(c))]], b, i + 1))
        else:
            lo = draw(n - 1)
            out.append(UL(*range(lo, lo + 2 + draw(n - lo - 1))))
        if k < 4 and (x >> 20) % 3 == 0:
            out[-1] = own(out[-1])
    return out


def known(ck, rules, name):
    jobs = [(name, W, run_all, 4, 1, None, placements(4), rules)]
    deep = ck.tier == "thorough"
    for n in (2, 3, 4) if not deep else (2, 3, 4, 5):
        A = placements(n) if n < (5 if deep else 4) else pairs(n)
        for f in A:
            jobs.append((name, W, run_all, n, 2, f, A, rules))
    for n, ops in LONG:
        jobs.append((name, W, sequence, n, ops(), rules))
    for n in (2, 3, 3, 4, 5):
        for k in range(12 if not deep else 60):
            jobs.append((name, W, sequence, n, mixed(n, 6 + k % 5, 100 * len(jobs) + k), rules))
    if deep:
        for f in pairs(3):
            jobs.append((name, W, run_all, 3, 3, f, pairs(3), rules))
    ck.parallel(jobs)


def c05(ck):
    """Each operation is applied to a circuit of unknown length and contents (symbolic layers, registers and dimensions) and the
    layers afterwards are compared with those before; the product that running evaluates is the ordered product of the
    layers. Circuits of two to seven registers and up to thirteen operations, with symbolic dimensions and levels, are evaluated to
    one expression of backend operations, from which the sequence of gates on each register is read back."""
    B.c05(ck)
    known(ck, {"order": ORDER, "shape": None}, ORDER)


def c06(ck):
    """The layer an operation adds to a circuit of unknown length and contents is compared register by register with the one a
    reference client makes. Layers of circuits of two to seven registers with symbolic dimensions are read back from
    the expression that running evaluates."""
    S.c06(ck)
    known(ck, {"order": None, "shape": SHAPE}, SHAPE)
