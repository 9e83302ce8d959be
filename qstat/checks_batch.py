"""C27: the batch runner."""
from world import *
from checks_gpu import CommandLine
from compare import doubtful

ALLRUN = "every file is run once whatever happens to the others"
REPORTED = "an error in a file is reported for that file"
OWN = "each recorded result belongs to the file it names"
RUNNER = "experimental.py"
MOD = "top_.experimental"
CIRC = '''
class Circuit:
    def __init__(self, name):
        self.name = name
    def run(self):
        return outcome("run", self.name)
    def get_circuit_config(self):
        return outcome("config", self.name)
class Args:
    pass
def outcome(what, name):
    return (what, name)
'''
KINDS = ("Exception", "ValueError", "IndexError", "KeyError", "TypeError", "AssertionError", "NotImplementedError", "ZeroDivisionError", "AttributeError", "RuntimeError", "FileNotFoundError", "UnicodeDecodeError", "ModuleNotFoundError",
         "RecursionError", "OverflowError", "StopIteration", "NameError")
STAGES = ("parse", "run")


class Line(CommandLine):
    def __init__(self, at):
        self.at = at

    def call(self, P, st, f, args, kw):
        if f.op == "attr" and f.a[1] in ("parse_args", "parse_known_args"):
            o = st.alloc(Obj("inst", cls="circ_.Args", attrs=dict(self.at)))
            return [(st, o if f.a[1] == "parse_args" else seq("tuple", [one(o), one(seq("list", []))]))]
        return None


class Batch:
    """the runner on a machine with these files, each failing at a stage or not at all"""

    def __init__(self, files, fate, args, also=()):
        self.files, self.fate = files, fate
        self.P = P = Program([(os.path.join(REPO, "src", "qudiet"), "src.qudiet"), (REPO, "top_")], {"world_": WORLD, "circ_": CIRC})
        P.roots.append((os.path.join(REPO, "src", "qudiet"), "qudiet"))
        P.reporoot = REPO
        P.lazy, P.implicit = True, False
        self.w = World(P, {**{f: [const("program of " + f)] for f in files}, **{f: [const("something older")] for f in also}})
        P.load("world_")
        P.load("circ_")
        P.nd = Line(args)
        P.load(MOD)
        fr = P.base.frames.get("m:" + MOD, {})
        if MOD in P.failed or "main" not in fr:
            raise Anchor(RUNNER + " main()")
        S = P.stubs
        for m in ("src.qudiet", "qudiet"):
            S[m + ".qasm.qasm_parser.parse_qasm"] = self.parse
            S[m + ".qasm.qasm_parser.circuit_from_qasm"] = self.parse_text
        S["circ_.outcome"] = self.outcome
        for n in ("pickle.dump", "json.dump", "pickle.dumps", "json.dumps"):
            S["ext:" + n] = self.dump(n)
        S["ext:pickle.load"] = lambda P, s, a, k: self.loaded(P, s, a[0])
        S["ext:pickle.loads"] = lambda P, s, a, k: self.loaded(P, s, a[0])

    def fails(self, P, s, what, name):
        k = self.fate.get(name)
        if k and k[0] == what:
            P.emit(s, "fault", const(name))
            P.throw(s, mk("exc", k[1], mk("message", const(f"what is wrong with {name}"))))
            return True
        return False

    def parse(self, P, s, a, k):
        x = self.w.name(s, a[0] if a else k.get("filename", NONE))
        if x is None:
            P.emit(s, "parse", NONE)
            return [(s, mk("top", "circuit"))]
        x = self.w.full(x)
        P.emit(s, "parse", const(x))
        if self.fails(P, s, "parse", x):
            return []
        return P.instantiate(s, mk("cls", "circ_.Circuit"), [const(x)], {})

    def parse_text(self, P, s, a, k):
        t = P.snap(s, a[0])
        x = cval(t)[len("program of "):] if is_const(t) and isinstance(cval(t), str) and cval(t).startswith("program of ") else None
        return self.parse(P, s, [const(x) if x is not None else NONE], {})

    def outcome(self, P, s, a, k):
        what, x = cval(a[0]), cval(a[1])
        P.emit(s, what, a[1])
        if self.fails(P, s, what, x):
            return []
        return [(s, mk("call", mk("ext", what + " of"), (a[1],), ()))]

    def dump(self, n):
        def f(P, s, a, k):
            v = P.deep(s, a[0])
            if n.endswith("s"):
                return [(s, mk("call", mk("ext", n), (v,), ()))]
            o = s.obj(a[1]) if a[1].op == "ref" else None
            name = o.attrs.get("name") if o is not None and o.kind == "inst" else None
            P.emit(s, "record", name or NONE, v)
            x = self.source(v)
            if x and self.fails(P, s, "dump", x[0]):
                return []
            return [(s, NONE)]
        return f

    def loaded(self, P, s, x):
        n = None
        if x.op == "ref" and s.obj(x).kind == "inst":
            n = s.obj(x).attrs.get("name")
        elif is_const(P.snap(s, x)):
            t = cval(P.snap(s, x))
            n = const(t[len("program of "):]) if isinstance(t, str) and t.startswith("program of ") else None
        if n is None or not is_const(n):
            return [(s, mk("top", "loaded"))]
        full = const(self.w.full(cval(n)))
        return [(s, mk("call", mk("ext", "run of"), (full,), ()))]

    @staticmethod
    def source(v):
        """files whose results a value contains"""
        return sorted({cval(x.a[1][0]) for x in walk(v) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("run of", "config of")})

    @staticmethod
    def results(v):
        return sorted({cval(x.a[1][0]) for x in walk(v) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "run of"})

    def main(self):
        st = self.P.start()
        st.ev = None
        outs, bad = fcall(self.P, st, st.frames["m:" + MOD]["main"], [])
        return [(s, v) for s, v in outs if feasible(self.P, s)], [(s, e) for s, e in bad if feasible(self.P, s)]


def says(e, x):
    """an output event that names file x"""
    if e.kind == "print":
        t = e.target
    elif e.kind == "ext" and e.a:
        f = e.a[0]
        n = f.a[1] if f.op == "attr" else f.a[0]
        if not isinstance(n, str) or n.split(".")[-1] not in ("print", "log", "warn", "warning", "error", "exception", "info", "write", "rule", "out", "critical", "print_exception", "showwarning", "append"):
            return False
        t = e.target
    else:
        return False
    base = os.path.basename(x)
    return any(is_const(c) and isinstance(cval(c), str) and (x in cval(c) or base in cval(c)) for c in walk(t))


def judge(ck, files, fate, args, label, also=()):
    b = Batch(files, fate, args, also)
    ck.count("batches")
    w = RUNNER + " main"
    outs, bad = b.main()
    one_ = len(outs) + len(bad) == 1
    for s, e in bad:
        ck.ob(ALLRUN, False, w, f"{label}: the run ends in {show(e)[:60]}", st=None if one_ else s)
    if not outs and not bad:
        ck.ob(ALLRUN, None, w, f"{label}: no outcome")
    for s, _ in outs:
        st = None if one_ else s
        ev = trace(s)
        odd = any(e.kind == "parse" and e.target is NONE for e in ev)
        for x in files:
            n = sum(1 for e in ev if e.kind == "parse" and e.target is const(x))
            ck.ob(ALLRUN, (True if n == 1 else False) if not odd else None, w, f"{label}: {x} is parsed {n} times", st=st)
            if fate.get(x, ("",))[0] != "parse":
                n = sum(1 for e in ev if e.kind == "run" and e.target is const(x))
                ck.ob(ALLRUN, (True if n == 1 else False) if not odd else None, w, f"{label}: {x} is run {n} times", st=st)
        for i, e in enumerate(ev):
            if e.kind == "fault":
                x = cval(e.target)
                end = next((j for j in range(i + 1, len(ev)) if ev[j].kind == "parse"), len(ev))
                ok = any(says(y, x) for y in ev[i + 1:end]) or any(says(y, x) for y in ev[end:] if True and not any(z.kind == "parse" for z in ev[ev.index(y):]))
                ck.ob(REPORTED, ok, w, f"{label}: nothing is said about {x}", st=st)
        recorded = {}
        for e in ev:
            if e.kind == "record" or e.kind == "ext" and e.a and e.a[0].op == "ext" and e.a[0].a[0] == "note_.write":
                name, v = (e.target, e.a[0]) if e.kind == "record" else (e.a[1][0], e.target)
                src = b.source(v)
                if not src:
                    continue
                if not is_const(name):
                    ck.ob(OWN, None, w, f"{label}: a result is recorded in {show(name)[:40]}")
                    continue
                p = b.w.full(cval(name))
                stem = os.path.splitext(src[0])[0]
                ck.ob(OWN, len(src) == 1 and p.startswith(stem) and p not in b.files, w, f"{label}: {p} holds what belongs to {', '.join(src)}", st=st)
                ck.ob(OWN, recorded.get(p, src[0]) == src[0], w, f"{label}: {p} is used for {recorded.get(p)} and for {src[0]}", st=st)
                recorded[p] = src[0]
            elif (e.kind == "print" or e.kind == "ext" and e.a and e.a[0].op == "attr"):
                src = b.results(e.target)
                if src:
                    ck.ob(OWN, len(src) == 1 and (says(e, src[0])), w, f"{label}: what is printed for {', '.join(src)} does not name it", st=st)
                    for y in files:
                        if y not in src and os.path.basename(y) != os.path.basename(src[0]):
                            ck.ob(OWN, not says(e, y), w, f"{label}: the result of {src[0]} is printed for {y}", st=st)
        for x in files:
            if fate.get(x, ("",))[0] not in ("parse", "run", "config", "dump"):
                ck.ob(OWN, x in recorded.values(), w, f"{label}: the result of {x} is not recorded", st=st)
            elif fate[x][0] in ("parse", "run"):
                ck.ob(OWN, x not in [v for v in recorded.values()], w, f"{label}: a result is recorded for {x}, which failed", st=st)
    ck.used(b.P)


def replay(ck, files, args, label):
    """the runner showing saved results: each is shown once, under the name of its file"""
    b = Batch(files, {}, args)
    ck.count("batches")
    w = RUNNER + " main"
    outs, bad = b.main()
    one_ = len(outs) + len(bad) == 1
    for s, e in bad:
        ck.ob(ALLRUN, False, w, f"{label}: the run ends in {show(e)[:60]}", st=None if one_ else s)
    for s, _ in outs:
        st = None if one_ else s
        ev = [e for e in trace(s) if e.kind == "print" or e.kind == "ext" and e.a and e.a[0].op == "attr"]
        shown = []
        named = None
        for e in ev:
            names = [x for x in files if says(e, x)]
            full = [x for x in names if any(is_const(c) and isinstance(cval(c), str) and x in cval(c) for c in walk(e.target))]
            src = b.results(e.target)
            if names and len(names) < max(2, len(files)):
                named = full or names
            for x in src:
                shown.append(x)
                ck.ob(OWN, named is not None and x in named, w, f"{label}: the result of {x} is shown under {named}", st=st)
        odd = any(t.op == "top" for e in ev for t in walk(e.target))
        for x in files:
            ck.ob(ALLRUN, True if shown.count(x) == 1 else (None if odd else False), w, f"{label}: the result of {x} is shown {shown.count(x)} times", st=st)
    ck.used(b.P)


def loads(ck, cases):
    TM.MANY = 64
    try:
        for c in cases:
            replay(ck, *c)
    finally:
        TM.MANY = 16


def line(mode="txt", path="t", backend="sparse", verbose=0, terminal=False):
    return {"backend": const(backend), "mode": const(mode), "path": const(path), "verbose": const(verbose), "terminal": const(terminal)}


def c27(ck):
    """The batch runner is evaluated on known directories with parsing, running and recording replaced by
    recorders that fail for chosen files in chosen ways: on every path main() returns, every file is parsed
    and run exactly once, a failing file is named in an output before the next one starts, and every result
    recorded or printed is the one of the file that names it."""
    if not os.path.isfile(os.path.join(REPO, RUNNER)):
        raise Anchor(RUNNER)
    jobs = []
    F = ["/w/t/a.txt", "/w/t/b.txt", "/w/t/sub/a.txt", "/w/t/sub/deep/x.y.txt", "/w/t/z-1.txt"]
    jobs.append((ALLRUN, RUNNER, several, [(F, {}, line(), "no failure"), (F, {}, line(verbose=2, terminal=True), "no failure, verbose, terminal"), (F, {}, line(path="t/"), "no failure, t/"),
                                           ([], {}, line(), "no files"), (F[:1], {}, line(), "one file"), ([f[:-3] + "qasm" for f in F], {}, line("qasm"), "qasm files"),
                                           (["/w/" + f for f in ("a.txt", "b.txt")], {}, line(path="./"), "current directory"), (F, {}, line(backend="numpy"), "numpy"),
                                           (F, {}, line(), "results of an earlier run exist", [f[:-4] + x for f in F for x in ("-sparse.pkl", ".pkl")]),
                                           (F, {F[0]: ("run", "ValueError")}, line(), "results of an earlier run exist, a file fails", [f[:-4] + x for f in F for x in ("-sparse.pkl", ".pkl")])]))
    for stage in ("parse", "run", "config", "dump"):
        for t in (False, True):
            cs = [(F, {x: (stage, "ValueError")}, line(verbose=int(t), terminal=t), f"{stage} of {x[5:]} fails") for x in F]
            cs += [(F, {x: (stage, "ValueError") for x in F}, line(terminal=t), f"{stage} always fails"), (F, {x: (stage, "IndexError") for x in F[1:3]}, line(terminal=t), f"{stage} fails twice"),
                   (F, {x: (stage, "ValueError") for x in F if x != F[2]}, line(terminal=t), f"{stage} fails for all but one"),
                   ([f[:-3] + "qasm" for f in F], {F[1][:-3] + "qasm": (stage, "ValueError")}, line("qasm", terminal=t), f"{stage} of a qasm file fails")]
            jobs.append((ALLRUN, RUNNER, several, cs))
            cs = [(F, {x: (stage, "ValueError")}, line(verbose=2, terminal=t), f"{stage} of {x[5:]} fails, verbose") for x in F[1:3]]
            cs += [(F, {F[0]: (stage, "KeyError"), F[3]: (stage, "ValueError")}, line(verbose=1, terminal=t, backend="numpy"), f"{stage} fails twice, verbose")]
            jobs.append((ALLRUN, RUNNER, several, cs))
    for m in ("pkl", "pickle"):
        G = [f[:-3] + m for f in F]
        jobs.append((OWN, RUNNER, loads, [(G, line(m), "saved results"), (G, line(m, verbose=1, terminal=True), "saved results, verbose"), ([], line(m), "no saved result"), (G[:1], line(m), "one saved result")]))
    for stage in STAGES:
        jobs.append((ALLRUN, RUNNER, several, [(F[:3], {F[1]: (stage, k)}, line(), f"{stage} raises {k}") for k in KINDS]))
    jobs.append((ALLRUN, RUNNER, several, [(F, {a: ("parse", "ValueError"), b: ("run", "KeyError")}, line(), f"{a[5:]} and {b[5:]} fail") for a in F for b in F if a != b]))
    many = [f"/w/t/f{i:02d}.txt" for i in range(24)]
    jobs.append((ALLRUN, RUNNER, several, [(many, {many[i]: (STAGES[i % 2], "ValueError") for i in range(0, 24, k)}, line(), f"24 files, every {k}th fails") for k in (1, 2, 3, 7)]))
    ck.parallel(jobs)


def several(ck, cases):
    TM.MANY = 64
    try:
        for c in cases:
            judge(ck, *c)
    finally:
        TM.MANY = 16
