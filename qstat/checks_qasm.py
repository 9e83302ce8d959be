"""C21 C22 C23 (and the parser's part of C12): QASM texts whose numbers are symbolic,
parsed by abstract interpretation; the circuit class is replaced by a recorder of
the calls that are made on it."""
import re as _re
from scene import *
import engine as E
import texts

OPNAMES = ("h", "x", "z", "cx", "toffoli", "gate", "measure_all")
RECORDER = "class Recorder:\n    def __init__(self, *args, **kwargs):\n        self.log = [('new', args, kwargs)]\n" + "".join(
    f"    def {n}(self, *args, **kwargs):\n        self.log.append(('{n}', args, kwargs))\n" for n in OPNAMES)
# a file on disk: its contents read whole, in pieces or line by line
FILES = """class File:
    def __init__(self, text):
        self.text = text
        self.pos = 0
    def __enter__(self):
        return self
    def read(self, n=-1):
        if n is None or n < 0:
            r = self.text[self.pos:]
        else:
            r = self.text[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r
    def readlines(self, hint=-1):
        if hint is not None and hint > 0:
            out = []
            for x in self.read().splitlines(True):
                out.append(x)
                hint = hint - len(x)
                if hint <= 0:
                    break
            return out
        return self.read().splitlines(True)
    def readline(self):
        r = self.text[self.pos:].splitlines(True)
        r = r[0] if r else ""
        self.pos = self.pos + len(r)
        return r
    def __iter__(self):
        return iter(self.text[self.pos:].splitlines(True))
    def close(self):
        return None
    def seek(self, n):
        self.pos = n
class Path:
    def __init__(self, text):
        self.text = text
    def read_text(self, *args, **kwargs):
        return self.text
    def open(self, *args, **kwargs):
        return File(self.text)
"""
PARSER = "qudiet.qasm.qasm_parser"
REC = "rec_.Recorder"


def setup():
    P = program({"rec_": RECORDER + FILES}, load=("rec_", PARSER))
    st = P.start()
    cls = mk("cls", QC)
    sigs = setup_sigs(P, st)
    for f, fr in list(st.frames.items()):
        for k, v in list(fr.items()):
            if v is cls:
                st.setvar(f, k, mk("cls", REC))
    f = st.frames["m:" + PARSER].get("circuit_from_qasm")
    if f is None:
        raise Anchor(PARSER + ".circuit_from_qasm")
    return P, st, f, sigs


def setup_sigs(P, st):
    sigs = {}
    for n in ("__init__",) + OPNAMES:
        f = P.clsattr(st, QC, n)
        if f is None or f.op != "func":
            if n in ("gate", "__init__"):
                continue
            raise Anchor(f"{QC}.{n}")
        fn = P.funcs[f.a[1]]
        ps = [x.arg for x in fn.args.posonlyargs + fn.args.args][1:]
        dv = dict(zip(ps[len(ps) - len(fn.defaults):], fn.defaults)) if fn.defaults else {}
        for k, v in zip(fn.args.kwonlyargs, fn.kwdefaults):
            if v is not None:
                dv[k.arg] = v
        sigs[n] = (ps, dv)
    sigs["new"] = sigs.pop("__init__", ([], {}))
    return sigs


def text(P, st, s):
    """a text with {name} for the digits of a symbolic natural number"""
    parts = []
    for i, x in enumerate(_re.split(r"\{(\w+)\}", s)):
        if i % 2:
            n = sym(x, "int")
            st.fact(le(ZERO, n))
            parts.append(mk("str", n))
        else:
            parts.append(const(x))
    return E.fstr(parts)


def V(n):
    return const(n) if isinstance(n, int) else sym(n, "int")


class Odd(Exception):
    pass


def bind(P, s, sigs, name, args, kw):
    ps, dv = sigs[name]
    pos = exact(args)
    if pos is None:
        raise Odd("arguments")
    d = dict(dv)
    if len(pos) > len(ps):
        raise Odd("too many arguments")
    d.update(zip(ps, pos))
    for g in kw.a[1]:
        if g.op != "one" or g.a[0].op != "kv":
            raise Odd("keyword arguments")
        k, v = g.a[0].a
        if cval(k) not in ps and cval(k) not in dv:
            raise Odd(f"argument {cval(k)}")
        d[cval(k)] = v
    return d


def calls(P, s, v, sigs):
    """calls recorded on the returned circuit: [(name, bound arguments)]"""
    if v.op != "ref" or s.obj(v).cls != REC:
        raise Odd(f"returns {show(P.deep(s, v))[:60]}")
    log = exact(P.deep(s, s.obj(v).attrs["log"]))
    if log is None:
        raise Odd("calls in a loop")
    out = []
    for e in log:
        n, a, k = exact(e)
        out.append((cval(n), bind(P, s, sigs, cval(n), a, k)))
    return out


def same(P, s, got, want):
    """True / False / None: two values built from symbolic numbers are equal on this path"""
    if isinstance(want, (list, tuple)):
        l = exact(got) if got.op == "seq" else None
        if l is None:
            return False if is_num(got) or got.op in ("sym", "poly") else None
        if len(l) != len(want):
            return False
        vs = [same(P, s, x, y) for x, y in zip(l, want)]
        return False if False in vs else None if None in vs else True
    w = V(want) if not isinstance(want, T) else want
    if got is w:
        return True
    if got.op == "seq" or is_const(got) and not isinstance(cval(got), (int, float)):
        return False
    c = eq(got, w)
    r = decide(s, c, P)
    if r is not None:
        return r
    if all(x.op in ("sym", "const", "poly") or x.op == "call" and callname(x) in ("digits.first", "digits.rest") or x.op == "ext" for y in (got, w) for x in walk(y)):
        s2 = s.copy()
        s2.fact(nott(c))
        if feasible(P, s2):
            return False
    return None


def plain(s):
    """conditions of the path that are not about the sizes of the symbolic numbers"""
    return [f for f in s.facts if not all(
        x.op in ("sym", "const", "poly", "eq0", "le0", "lt0", "not", "eq", "and", "or", "strtail") or x.op == "call" and callname(x) == "digits.count"
        or x.op == "ext" and x.a[0] == "digits.count" for x in walk(f))]


def run(P, st, f, sigs, t, kw=None):
    s = st.copy()
    s.ev = None
    outs, bad = fcall(P, s, f, [t], kw or {})
    return [(s2, v) for s2, v in outs if feasible(P, s2)], bad


HEAD = "# a circuit\n.qudit 5\n\nqudit x0 (3)\nqudit x1 (4)\nqudit x2 (3)\nqudit x3 (5)\nqudit x4 (6)\n\n"


def prog(lines, head=HEAD, begin=".begin", end=".end\n"):
    return head + begin + "\n" + "".join(l + "\n" for l in lines) + end


# line -> gate call that it stands for (registers and amounts: names of symbolic numbers or numbers)
def X(a, p=1): return ("x", {"qreg": a, "plus": p})
def H(a): return ("h", {"qreg": a})
def Z(a): return ("z", {"qreg": a})
def CX(a, b, p=1): return ("cx", {"acting_on": (a, b), "plus": p})
def TOF(*r): return ("toffoli", {"acting_on": (r[:-1], r[-1]), "plus": 1})


LINES = [
    ("X x{a}", X("a")), ("x x{a}", X("a")), ("X x{a} {p}", X("a", "p")), ("X x13", X(13)), ("X x4 12", X(4, 12)), ("X x{a} -1", X("a", -1)),
    ("X x{a} 180", X("a", 180)), ("X x{a} 0", X("a", 0)),
    ("RX x{a} 180", X("a")), ("rx x{a} 180", X("a")), ("RX x3 180", X(3)),
    ("H x{a}", H("a")), ("h x{a}", H("a")), ("H x12", H(12)), ("H  x{a}", H("a")),
    ("Z x{a}", Z("a")), ("z x{a}", Z("a")), ("Z x10", Z(10)),
    ("CX x{a} x{b}", CX("a", "b")), ("cx x{a} x{b}", CX("a", "b")), ("CX x{a}, x{b}", CX("a", "b")), ("CX x{a} x{b} {p}", CX("a", "b", "p")),
    ("CX x12 x3 14", CX(12, 3, 14)), ("CX x{a} x{b} -2", CX("a", "b", -2)), ("CX x{a} x{b} 0", CX("a", "b", 0)),
    ("CNOT x{a} x{b}", CX("a", "b")), ("CNOT x{a}, x{b}", CX("a", "b")), ("cnot x10 x{b}", CX(10, "b")), ("CNOT x{a}, x{b}, {p}", CX("a", "b", "p")), ("CNOT x{a} x{b} {p}", CX("a", "b", "p")),
    ("Toffoli x{a} x{b} x{c}", TOF("a", "b", "c")), ("TOFFOLI x{a} x{b} x{c}", TOF("a", "b", "c")), ("toffoli x{a}, x{b}, x{c}", TOF("a", "b", "c")),
    ("X x{a} 1250", X("a", 1250)), ("X x1024 10007", X(1024, 10007)), ("CX x3 x2 -144", CX(3, 2, -144)), ("H x104", H(104)), ("Z x123", Z(123)), ("X x217 3", X(217, 3)), ("CX x100 x{b} 103", CX(100, "b", 103)), ("CNOT x{a} x211", CX("a", 211)), ("Toffoli x120 x{b} x112", TOF(120, "b", 112)),
    ("Toffoli x12 x10 x{c}", TOF(12, 10, "c")), ("Toffoli x{a},x{b},x{c}", TOF("a", "b", "c")), ("Toffoli x2 x1 x0", TOF(2, 1, 0)), ("Toffoli x2 x12 x0", TOF(2, 12, 0)), ("Toffoli x1 x0 x10", TOF(1, 0, 10)), ("Toffoli x30 x3 x13", TOF(30, 3, 13)),
]
REFUSED = ["Y x{a}", "S x{a}", "T x{a}", "RX x{a} 90", "RX x{a} 270", "RX x{a} 1180", "RX x{a}", "RX x180", "RX x3 1180", "RX x3 180 90", "RX x3 0180", "RZ x{a} 180", "RY x{a} 180", "CZ x{a} x{b}", "CNOTZ x{a} x{b}", "CXX x{a} x{b}", "SWAP x{a} x{b}",
           "XX x{a}", "HH x{a}", "ZZ x{a} x{b}", "ID x{a}", "measure x{a}", "CCX x{a} x{b} x{c}", "Hadamard x{a}", "NOT x{a}", "Tof x{a} x{b} x{c}", "TOFFOLIX x{a} x{b} x{c}", "x{a} X", "X180 x{a}",
           "H x{a} H x{b}", "H x{a}; X x{b}", "X x{a} X x{b}", "Z x{a} x{b}", "X x{a} x{b}", "CX x{a} x{b} x{c}", "CX x1 x2 1 2", "CNOT x1 x2 1 2", "CNOT x{a} x{b} {p} {q}", "CX x{a} x{b} {p} {q}", "X x{a} {p} {q}", "X x1 2 x3", "H x1 x2", "Z x1 x2", "Toffoli x1 x2", "Toffoli x0 x1 x2 x3", "qudit x{a} (3)", "barrier", "U x{a} {p}",
           "X0", "H1", "Y", "X", "H", "Z", "CX", "RX", "Toffoli", "?", "-", "1", "x0", "x{a}", "--", "end", "qubit", "*", "@H x{a}", "H,", "//", "// X x{a}", "% H", "X{a}", "I x{a}", "h0 x{a}", ". X x{a}", "CX x{a}", "measure", "-X x{a}"]


def variants(lines):
    """texts that mean the same as the plain one"""
    yield "plain", prog(lines)
    yield "indented", prog(["  " + l for l in lines], begin="  .begin", end="  .end\n")
    yield "tabs", prog(["\t" + l.replace(" ", "\t") for l in lines], begin="\t.begin", end="\t.end\n")
    yield "blank lines", prog([y for l in lines for y in ("", l, "   ", "")])
    yield "trailing blanks", prog([l + "  " for l in lines])
    yield "comments", prog([y for i, l in enumerate(lines) for y in ("# X x0", l + " # 3 X x1", "   # .end", "#H x2")])
    yield "comments at the line", prog([l + "# 180" for l in lines])
    yield "many comments", prog([y for i in range(len(lines)) for y in ["# note"] * 8 + [lines[i]]] + ["# X x0"])
    yield "no newline at the end", prog(lines, end=".end")
    yield "text after the end", prog(lines, end=".end\n\n# done\n")
    yield "comments in the declarations", prog(lines, head=HEAD.replace("(4)\n", "(4) # qudit x7 (9)\n# qudit x9 (2)\n"))


def c21(ck):
    """a text with symbolic numbers is parsed by abstract interpretation; the gate calls made must be those of its lines, in order, and one measurement at the end"""
    P, st, f, sigs = setup()
    w = "circuit_from_qasm"
    rule = "every instruction line becomes its gate"
    cases = []
    for l, c in LINES:
        cases.append((l, [(l, c)]))
        cases.append((l + " twice", [(l, c), (l, c)]))
        cases.append((l + " between other gates", [("H x{e}", H("e")), (l, c), ("X x{e} {q}", X("e", "q")), (l, c), ("H x{e}", H("e"))]))
    some = [x for x in LINES if x[0] in ("X x{a}", "RX x3 180", "H x{a}", "Z x{a}", "CX x{a} x{b} {p}", "CNOT x{a} x{b}", "Toffoli x2 x1 x0", "X x{a} {p}", "H x12")]
    cases.append(("all instructions", some))
    cases.append(("all instructions reversed", some[::-1]))
    cases.append(("all instructions twice", some + some))
    cases.append(("two hundred lines", (some * 40)[:200]))
    for x in some:
        for y in some:
            cases.append((f"{x[0]} and {y[0]}", [x, y]))
    for name, body in cases:
        ck.guard(rule, f"{w}: {name}", accepted, ck, P, st, f, sigs, prog([l for l, c in body]), [c for l, c in body], w, name, False)
    rule = "layout and comments do not matter"
    for name, t in variants([l for l, c in some]):
        ck.guard(rule, f"{w}: {name}", accepted, ck, P, st, f, sigs, t, [c for l, c in some], w, name, False, rule)
    ck.guard("a text without instructions", w, accepted, ck, P, st, f, sigs, prog([]), [], w, "no instruction", False)
    rule = "what is not understood is an error"
    for l in REFUSED:
        for name, body in ((l, [l]), (l + " among others", ["H x{e}", l, "X x{e}"])):
            ck.guard(rule, f"{w}: {name}", refused, ck, P, st, f, sigs, prog(body), w, name, rule)
    ck.guard("the whole file is parsed", "parse_qasm", files, ck, P, st, w)
    two = prog(["H x{a}"]) + ".begin\nX x{b}\n.end\n"
    ck.guard("a second block of instructions is not dropped", w, accepted, ck, P, st, f, sigs, two, [H("a"), X("b")], w, "second block", False, "a second block of instructions is not dropped")
    ck.used(P)
    ck.assumptions.append("an instruction text is well formed: numbers are written in decimal without leading zeros")


def files(ck, P, st, w):
    """parse_qasm: every instruction of the file, however long it is"""
    rule = "the whole file is parsed"
    pf = st.frames["m:" + PARSER].get("parse_qasm")
    if pf is None:
        raise Anchor(PARSER + ".parse_qasm")
    sig = setup_sigs(P, st)
    filler = "# " + "note " * 14000 + "\n"
    lines = [("H x1", H(1)), (filler + "X x0 2", X(0, 2)), ("  " + filler + "CX x2 x3 4", CX(2, 3, 4)), ("Z x4", Z(4))]
    for name, t in (("short", prog([l[-12:].split("\n")[-1] for l, c in lines])), ("long", prog([l for l, c in lines])), ("no newline at the end", prog([l for l, c in lines], end=".end")),
                    ("blank lines first", "\n\n" + prog([l for l, c in lines]))):
        P.stubs["ext:open"] = P.stubs["ext:io.open"] = P.stubs["ext:codecs.open"] = lambda P, s, a, k: P.instantiate(s, mk("cls", "rec_.File"), [const(t)], {})
        P.stubs["ext:pathlib.Path"] = lambda P, s, a, k: P.instantiate(s, mk("cls", "rec_.Path"), [const(t)], {})
        try:
            s0 = st.copy()
            outs, bad = run(P, s0, pf, sig, sym("filename", "str"))
        finally:
            P.stubs.clear()
        ck.count("texts")
        if not outs:
            ck.ob(rule, bool(bad) or None, f"parse_qasm: {name}", "no outcome")
        for s, v in outs:
            try:
                got = [n for n, d in calls(P, s, v, sig)]
            except Odd as e:
                ck.ob(rule, None, f"parse_qasm: {name}", str(e))
                continue
            exp = ["new"] + [c[0] for l, c in lines] + ["measure_all"]
            ck.ob(rule, got == exp or (None if plain(s) else False), f"parse_qasm: {name}", f"the calls are {' '.join(got)}, not {' '.join(exp)}")


def accepted(ck, P, st, f, sigs, t, want, w, name, args, rule="every instruction line becomes its gate"):
    s0 = st.copy()
    tt = text(P, s0, t)
    outs, bad = run(P, s0, f, sigs, tt)
    ck.count("texts")
    if not outs and not bad:
        ck.ob(rule, None, f"{w}: {name}", "no outcome")
    if not outs:
        ck.count("texts_refused")
        ck.ob(rule, True, f"{w}: {name}")
    for s, v in outs:
        ck.count("parses")
        try:
            cs = calls(P, s, v, sigs)
        except Odd as e:
            ck.ob(rule, None, f"{w}: {name}", str(e))
            continue
        if not args:
            got = [n for n, d in cs]
            exp = ["new"] + [n for n, d in want] + ["measure_all"]
            ok = got == exp
            ck.ob(rule, ok or (None if plain(s) else False), f"{w}: {name}", f"the calls are {' '.join(got)}, not {' '.join(exp)}")
        else:
            gs = [(n, d) for n, d in cs if n not in ("new", "measure_all")]
            if [n for n, d in gs] != [n for n, d in want]:
                ck.ob(rule, None, f"{w}: {name}", "other gates (see C21)")
                continue
            for (n, d), (_, e) in zip(gs, want):
                for k, x in e.items():
                    g = d.get(k, dict(d).get({"acting_on": "qreg", "qreg": "acting_on"}.get(k)))
                    ok = None if g is None else same(P, s, g, x)
                    ck.count("operands")
                    ck.ob(rule, ok if ok is not False or not plain(s) else None, f"{w}: {name}", f"{n}: {k} is {show(g)[:60] if g is not None else '?'}, not {x}")
                for k, x in d.items():
                    if k not in e and k not in ("qreg", "acting_on") and x is not NONE:
                        ck.ob(rule, None, f"{w}: {name}", f"{n}: {k} is {show(x)[:60]}")


def refused(ck, P, st, f, sigs, t, w, name, rule):
    s0 = st.copy()
    tt = text(P, s0, t)
    outs, bad = run(P, s0, f, sigs, tt)
    ck.count("texts")
    if not outs:
        ck.ob(rule, bool(bad) or None, f"{w}: {name}", "no outcome")
    for s, v in outs:
        try:
            got = " ".join(n for n, d in calls(P, s, v, sigs))
        except Odd as e:
            ck.ob(rule, None, f"{w}: {name}", str(e))
            continue
        ck.ob(rule, None if plain(s) else False, f"{w}: {name}", f"accepted with the calls {got}")


def c22(ck):
    """the arguments of the gate calls made for a line are the numbers written in it, in their roles"""
    P, st, f, sigs = setup()
    w = "circuit_from_qasm"
    rule = "operands reach the parameters they stand for"
    for l, c in LINES:
        ck.guard(rule, f"{w}: {l}", accepted, ck, P, st, f, sigs, prog([l]), [c], w, l, True, rule)
        body = [("X x{e} {q}", X("e", "q")), (l, c), ("CX x{e} x{g} {q}", CX("e", "g", "q")), ("H x{e}", H("e"))]
        ck.guard(rule, f"{w}: {l}", accepted, ck, P, st, f, sigs, prog([y for y, _ in body]), [y for _, y in body], w, l + " among others", True, rule)
    some = [x for x in LINES if x[0] in ("X x{a}", "RX x3 180", "H x{a}", "Z x{a}", "CX x{a} x{b} {p}", "CNOT x{a} x{b}", "Toffoli x2 x1 x0", "X x{a} {p}", "H x12")]
    for name, t in variants([l for l, c in some]):
        ck.guard(rule, f"{w}: {name}", accepted, ck, P, st, f, sigs, t, [c for l, c in some], w, name, True, rule)
    rule = "an angle or a surplus number is not an amount"
    for l in ("RX x{a} 90", "RX x{a} 1180", "RX x{a} 0", "H x{a} {p}", "Z x{a} {p}"):
        ck.guard(rule, f"{w}: {l}", angle, ck, P, st, f, sigs, l, w, rule)
    ck.used(P)
    ck.assumptions.append("an instruction text is well formed: numbers are written in decimal without leading zeros")


def angle(ck, P, st, f, sigs, l, w, rule):
    """refused, or a gate without an amount"""
    s0 = st.copy()
    tt = text(P, s0, prog([l]))
    outs, bad = run(P, s0, f, sigs, tt)
    ck.count("texts")
    if not outs:
        ck.ob(rule, bool(bad) or None, f"{w}: {l}", "no outcome")
    for s, v in outs:
        try:
            gs = [(n, d) for n, d in calls(P, s, v, sigs) if n not in ("new", "measure_all")]
        except Odd as e:
            ck.ob(rule, None, f"{w}: {l}", str(e))
            continue
        ok = all(n in ("h", "z") and d.get("qreg") is not None and same(P, s, d["qreg"], "a") for n, d in gs) and len(gs) == 1
        ck.ob(rule, ok or (None if plain(s) else False), f"{w}: {l}", "; ".join(f"{n}({', '.join(k + '=' + show(x)[:30] for k, x in d.items())})" for n, d in gs))


# ----------------------------------------------------------------------- C23
DECLS = {
    "three kinds": [("qudit x0 ({d})", "d"), ("qubit x1", 2), ("qutrit x2", 3), ("qudit x3 ({g})", "g")],
    "one register": [("qudit x0 ({d})", "d")],
    "reverse order": [("qudit x2 ({d})", "d", 2), ("qubit x1", 2, 1), ("qudit x0 ({g})", "g", 0)],
    "mixed order": [("qutrit x1", 3, 1), ("qudit x3 ({d})", "d", 3), ("qubit x0", 2, 0), ("qudit x2 ({g})", "g", 2)],
    "twelve registers": [(f"qudit x{i} ({{d{i}}})", f"d{i}", i) for i in range(12)],
    "twelve registers in reverse": [(f"qudit x{i} ({{d{i}}})", f"d{i}", i) for i in reversed(range(12))],
    "twelve registers, kinds mixed": [((f"qubit x{i}", 2, i), (f"qutrit x{i}", 3, i), (f"qudit x{i} ({{d{i}}})", f"d{i}", i))[i % 3] for i in (10, 3, 7, 11, 0, 1, 9, 2, 8, 6, 4, 5)],
    "forty qubits": [(f"qubit x{i}", 2, i) for i in range(40)],
    "forty qutrits": [(f"qutrit x{i}", 3, i) for i in range(40)],
    "large numbers": [("qudit x0 (12)", 12), ("qudit x1 (3)", 3), ("qudit x2 (10)", 10)],
    "larger numbers": [("qudit x0 (128)", 128), ("qudit x1 (1024)", 1024), ("qubit x2", 2), ("qudit x3 (10007)", 10007)],
    "a hundred and four registers": [(f"qudit x{i} ({i % 7 + 2})", i % 7 + 2, i) for i in (*range(50, 104), *range(50))],
    "blanks": [("qudit x0  ({d})", "d"), ("  qubit x1  ", 2), ("\tqudit x2({g})", "g"), ("qutrit x3\t", 3)],
}
TOFS = {
    "no Toffoli": [],
    "a Toffoli": ["Toffoli x{a} x{b} x{c}"],
    "a Toffoli among others": ["H x{e}", "X x{a} {p}", "Toffoli x{a} x{b} x{c}", "CX x{e} x{a} {p}"],
    "two Toffolis": ["Toffoli x{a} x{b} x{c}", "H x{a}", "Toffoli x{c} x{b} x{a}", "Toffoli x{a} x{b} x{c}"],
    "commas": ["Toffoli x{a}, x{b}, x{c}"],
    "no blanks": ["Toffoli x{a},x{b},x{c}"],
    "capitals": ["TOFFOLI x{a} x{b} x{c}"],
    "small letters": ["toffoli x{a} x{b} x{c}"],
    "in a comment": ["# Toffoli x0 x1 x2", "H x{a} # Toffoli x0 x1 x2"],
    "no blanks at the end": ["  Toffoli x{a} x{b} x{c}  "],
    "literal": ["Toffoli x0 x2 x1"],
    "literals": ["Toffoli x0 x2 x1", "Toffoli x2 x1 x0", "Toffoli x1 x2 x0"],
    "other two-register gates": ["CX x{a} x{b}", "CNOT x{a}, x{b}"],
}


def c23(ck):
    """the dimensions a parsed circuit is made with, element by element, for symbolic declared dimensions and symbolic Toffoli operands"""
    P, st, f, sigs = setup()
    w = "circuit_from_qasm"
    for dn, ds in DECLS.items():
        for tn in (TOFS if dn in ("three kinds", "reverse order", "mixed order") else ("no Toffoli", "a Toffoli", "literal")):
            ck.guard("registers get their declared dimensions", f"{w}: {dn}, {tn}", dims, ck, P, st, f, sigs, w, dn, tn)
    for k, (a, b) in {"comments": ("\n", " # qudit x9 (9)\n"), "comment lines": ("\n", "\n# qubit x7\n#qudit x8 (4)\n")}.items():
        ck.guard("registers get their declared dimensions", f"{w}: {k}", dims, ck, P, st, f, sigs, w, "three kinds", "a Toffoli", (a, b), k)
    ck.used(P)
    ck.assumptions.append("the registers x0 to x(n-1) are each declared once; numbers are written in decimal without leading zeros")


def dims(ck, P, st, f, sigs, w, dn, tn, repl=None, extra=""):
    ds, tf = DECLS[dn], TOFS[tn]
    where = f"{w}: {dn}, {extra or tn}"
    n = len(ds)
    mids, lits = [], []
    for l in tf:
        m = _re.match(r"\s*toffoli\s+x\{?\w+\}?[\s,]+x(\{?\w+\}?)", l, _re.I)
        if m:
            g = m.group(1)
            mids.append(V(g[1:-1]) if g[0] == "{" else const(int(g)))
    if any(is_const(m) and cval(m) >= n for m in mids):
        return
    want = [None] * n
    for i, d in enumerate(ds):
        want[d[2] if len(d) > 2 else i] = V(d[1])
    decl = "".join(d[0] + "\n" for d in ds)
    if repl:
        decl = decl.replace(*repl)
    head = f"# registers\n.qudit {n}\n\n{decl}\n"
    s0 = st.copy()
    tt = text(P, s0, prog(tf, head=head))
    outs, bad = run(P, s0, f, sigs, tt)
    ck.count("texts")
    rule = "registers get their declared dimensions"
    if not outs:
        ck.count("texts_refused")
        ck.ob(rule, bool(bad) or None, where, "no outcome")
    for s, v in outs:
        try:
            cs = calls(P, s, v, sigs)
        except Odd as e:
            ck.ob(rule, None, where, str(e))
            continue
        if not cs or cs[0][0] != "new" or "qregs" not in cs[0][1]:
            ck.ob(rule, None, where, "no dimensions")
            continue
        l = exact(P.deep(s, cs[0][1]["qregs"])) if P.deep(s, cs[0][1]["qregs"]).op == "seq" else None
        if l is None:
            ck.ob(rule, None, where, f"dimensions {show(P.deep(s, cs[0][1]['qregs']))[:80]}")
            continue
        if len(l) != n:
            ck.ob(rule, None if plain(s) else False, where, f"{len(l)} registers, {n} declared")
            continue
        # the cases which register each intermediate control is
        cur = [s.copy()]
        for m in dict.fromkeys(mids):
            for i in range(n):
                cur = [s3 for s2 in cur for s3, _ in P.branch(s2, eq(m, const(i)))]
        for s2 in cur:
            if not feasible(P, s2):
                continue
            for i in range(n):
                up = any(decide(s2, eq(m, const(i)), P) is True for m in mids)
                x = add(want[i], ONE) if up else want[i]
                ok = same(P, s2, l[i], x)
                ck.count("dimensions")
                ck.ob(rule if not up else "an intermediate control of a Toffoli is enlarged by one", ok if ok is not False or not plain(s2) else None, where, f"x{i} has dimension {show(l[i])[:60]}, not {show(x)[:40]}")


# ------------------------------------------------------- the parser's part of C12
def backend(ck):
    P, st, f, sigs = setup()
    rule = "a parsed circuit uses the selected backend"
    B = sym("backend")
    dflt = st.frames["m:qudiet.core.quantum_circuit"].get("DefaultBackend")
    s00 = st.copy()
    s00.fact(nott(eq(B, NONE)))
    s00.fact(mk("truth", B))
    some = [l for l, c in LINES if c[0] != "toffoli"]
    wide = "# wide\n.qudit 41\n" + "".join(f"qudit x{i} ({i % 5 + 2})\n" for i in range(41)) + "\n"
    texts = [("a few gates", prog([l for l, c in LINES[:3]])), ("no gates", prog([])), ("Toffoli", prog(["H x{a}", "Toffoli x2 x1 x0", "CX x{a} x{b}"])), ("two Toffolis", prog(["Toffoli x2 x1 x0", "Toffoli x{a} x4 x{c}"])),
             ("many gates", prog(some)), ("41 registers", prog(["H x{a}", "CX x40 x{b} 2"], head=wide)), ("long text", prog(["# " + "note " * 3000, "H x1"] + ["X x{a}"] * 60)),
             ("qubits", prog(["H x0", "CNOT x0 x1"], head="# qubits\n.qubit 2\n\nqubit x0\nqubit x1\n\n")), ("qutrits", prog(["Z x0"], head="# qutrits\n.qutrit 2\n\nqutrit x0\nqutrit x1\n\n"))]
    for tname, body in texts:
        for name, kw, want in (("selected", {"backend": B}, B), ("none selected", {}, None), ("None", {"backend": NONE}, None)):
            s0 = s00.copy()
            tt = text(P, s0, body)
            w = f"circuit_from_qasm, {tname}: {name}"
            outs, bad = run(P, s0, f, sigs, tt, kw)
            if not outs:
                ck.ob(rule, None, w, "no outcome")
            for s, v in outs:
                try:
                    g = calls(P, s, v, sigs)[0][1].get("backend", NONE)
                except (Odd, IndexError) as e:
                    ck.ob(rule, None, w, str(e))
                    continue
                ck.count("parses")
                if want is not None:
                    ok = g is B or (False if g is NONE or g.op == "cls" else None)
                else:
                    ok = True if g is NONE or g is dflt else (False if g.op == "cls" and dflt is not None and dflt.op == "cls" else None)
                ck.ob(rule, ok if ok is not False or plain(s) else None, w, f"the circuit is made with backend {show(g)[:60]}")
    s0 = s00
    # parse_qasm hands both on
    pf = st.frames["m:" + PARSER].get("parse_qasm")
    if pf is None:
        raise Anchor(PARSER + ".parse_qasm")
    rec = []

    def stub(P, s, args, kw):
        d = dict(zip(("data", "backend"), args))
        d.update({("data" if k not in ("backend",) else k): v for k, v in kw.items()})
        rec.append((s, d))
        return [(s, mk("sym", "parsed", None))]
    fn = P.funcs[f.a[1]]
    P.stubs[(fn.mod or "") + "." + fn.qual] = stub
    try:
        for name, kw in (("selected", {"backend": B}), ("none selected", {})):
            rec.clear()
            s1 = s0.copy()
            fcall(P, s1, pf, [sym("filename", "str")], kw)
            if not rec:
                ck.ob(rule, None, f"parse_qasm: {name}", "circuit_from_qasm is not called")
            for s, d in rec:
                g = d.get("backend", NONE)
                ok = (g is B or (False if g is NONE or g.op == "cls" else None)) if kw else (g is NONE or g is dflt or (False if g.op == "cls" else None))
                ck.ob(rule, ok, f"parse_qasm: {name}", f"parses with backend {show(g)[:60]}")
    finally:
        P.stubs.clear()
    ck.used(P)
