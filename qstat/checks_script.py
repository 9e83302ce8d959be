"""C26: the licence header script."""
import terms as TM
from world import *
from compare import doubtful

SCRIPT = "scripts/license-headers.py"
READS = "checking opens files for reading only"
STATUS = "checking reports a missing header through its exit status"
ONLY = "only the mode that was asked to insert headers writes files"
NAME = "license_headers_"


def path():
    for p in (os.path.join(REPO, SCRIPT), os.path.join(REPO, "scripts", "license_headers.py")):
        if os.path.isfile(p):
            return p
    raise Anchor(SCRIPT)


def script(files):
    P = Program([(os.path.join(REPO, "src", "qudiet"), "qudiet")], {"world_": WORLD, NAME: open(path(), encoding="utf-8").read()})
    P.reporoot = REPO
    P.lazy = True
    w = World(P, files)
    P.load("world_")
    P.load(NAME)
    if NAME in P.failed or "main" not in P.base.frames.get("m:" + NAME, {}):
        raise Anchor(SCRIPT + " main()")
    return P, w


def run(P, argv):
    """[(state, exit status term)]: how main() ends with these arguments"""
    st = P.start()
    st.ev = None
    av = seq("list", [x if x.op in ("star", "map", "one") else one(x) for x in argv])
    P.extattrs["sys.argv"] = av
    outs, bad = fcall(P, st, st.frames["m:" + NAME]["main"], [])
    res = []
    for s, v in outs:
        if feasible(P, s):
            res.append((s, ZERO))
    for s, e in bad:
        if feasible(P, s):
            res.append((s, status(e)))
    return res


def status(e):
    """exit status of a program that ends in this exception"""
    if e.op == "exc" and e.a[0] == "SystemExit":
        v = e.a[1].a[0] if len(e.a) > 1 else NONE
        if v is NONE or v is FALSE or (is_const(v) and isinstance(cval(v), int) and cval(v) & 255 == 0):
            return ZERO  # a process ends with the value modulo 256
        if is_const(v) or v.op == "fstr":
            return ONE
        return v
    return ONE


def ends(P, files, mode, paths):
    """(state, status) of a run whose course is known, or None"""
    r = run(P, [const("license-headers.py"), const(mode)] + [const(p) for p in paths])
    if len(r) != 1:
        return None
    return r[0]


def fixed_file(P, s):
    """{path: text written} by a fixing run"""
    out = {}
    for e in trace(s):
        if e.kind == "open" and is_const(mode_of(e)) and "w" in cval(mode_of(e)):
            out[cval(e.target)] = []
        if e.kind == "ext" and e.a and e.a[0].op == "ext" and e.a[0].a[0] == "note_.write":
            out.setdefault(cval(e.a[1][0]), []).append(e.a[1][1])
    return out


def lines_of(t):
    """lines (with their line ends) of a text whose line ends are all known; None otherwise"""
    out, cur = [], []
    for x in (t.a if t.op == "fstr" else [t]):
        if not (is_const(x) and isinstance(cval(x), str)):
            cur.append(x)
            continue
        for piece in cval(x).splitlines(True):
            cur.append(const(piece))
            if piece.endswith("\n"):
                out.append(cur)
                cur = []
    if cur:
        out.append(cur)
    return [c[0] if len(c) == 1 else mk("fstr", *c) for c in out]


BODY = const("import os\n")
SHEBANG, CODING = const("#!/usr/bin/env python\n"), const("# -*- coding: utf-8 -*-\n")


def blank(t):
    return is_const(t) and not cval(t).strip()


def c26(ck):
    """The licence header script is evaluated on a model of the file system in which opening, writing,
    renaming and removing are events: with unknown paths of unknown contents and an unknown mode no path in any other mode than the fixing one has a changing event; on known trees of files -
    without a header, with the one the fixing mode inserts (year unknown), with any one of its lines
    missing or another, ending at any of its lines - the exit status tells whether a header is missing."""
    path()
    ck.parallel([(READS, "main, any files", anything), (STATUS, "main", contents), (STATUS, "main", trees), (ONLY, "main", only)])


def anything(ck):
    """unknown paths, unknown contents"""
    P, w = script({})
    for name, mode in (("check", const("check")), ("unknown mode", sym("mode", "str")), ("fix", const("fix"))):
        for argv in ([const("p"), mode, sym("path", "str")],):
            try:
                r = run(P, argv)
            except Unsupported as e:
                ck.ob(READS, None, f"main, {name}", f"not analysable: {e}")
                continue
            for s, v in r:
                ck.count("paths")
                if name == "fix" or (name != "check" and eq(mode, const("fix")) in s.facts):
                    continue
                ws = writes(s)
                sure = [x for x, c in ws if c]
                ck.ob(READS if name == "check" else ONLY, True if not ws else False if sure else None, f"main, {name}", (sure or [x for x, c in ws] or [""])[0], st=None if clear(s) else s)
    ck.used(P)


def clear(s):
    """the conditions of the path are about the files only, whose number and contents are free"""
    return not any(x.op in ("top", "fold") for f in s.facts for x in walk(f))


def header(P, w):
    """lines the fixing mode puts into a file that has none"""
    w.files = {"/w/a.py": [BODY]}
    r = ends(P, w.files, "fix", ["a.py"])
    if r is None:
        return None
    t = fixed_file(P, r[0]).get("/w/a.py")
    if not t:
        return None
    parts = []
    for x in t:
        x = P.deep(r[0], x)
        parts += list(x.a) if x.op == "fstr" else [x]
    L = lines_of(mk("fstr", *parts) if len(parts) > 1 else parts[0])
    if not L or L[-1] is not BODY:
        return None
    return L[:-1]


def expect(ck, P, w, files, paths, missing, label):
    w.files = dict(files)
    ck.count("trees")
    r = ends(P, files, "check", paths)
    if r is None:
        ck.ob(STATUS, None, "main", f"{label}: several outcomes")
        return
    s, v = r
    ws = writes(s)
    sure = [x for x, c in ws if c]
    ck.ob(READS, True if not ws else False if sure else None, "main", f"{label}: {(sure or [x for x, c in ws] or [''])[0]}", st=s)
    ok = None if not is_const(v) else (v is not ZERO) == missing
    ck.ob(STATUS, ok, "main", f"{label}: exits with {show(v)[:40]} although {'a header is missing' if missing else 'no header is missing'}", st=s)


def contents(ck):
    P, w = script({})
    H = header(P, w)
    if H is None:
        ck.ob(STATUS, None, "main", "what the fixing mode inserts is not understood")
        return
    a = "/w/a.py"
    full = H + [BODY]
    expect(ck, P, w, {a: full}, ["a.py"], False, "complete header")
    expect(ck, P, w, {a: [BODY]}, ["a.py"], True, "no header")
    expect(ck, P, w, {a: [BODY] + H}, ["a.py"], True, "header after the code")
    expect(ck, P, w, {a: [SHEBANG, BODY]}, ["a.py"], True, "interpreter line, no header")
    expect(ck, P, w, {a: [const('"""about"""\n'), BODY]}, ["a.py"], True, "docstring, no header")
    expect(ck, P, w, {a: []}, ["a.py"], True, "empty file")
    other = const("# something else\n")
    for i, l in enumerate(H):
        if blank(l):
            continue
        # a repeated line may be missing without a difference when its neighbour is equal
        if not (i + 1 < len(H) and H[i + 1] is l) and not (i and H[i - 1] is l):
            expect(ck, P, w, {a: H[:i] + H[i + 1:] + [BODY]}, ["a.py"], True, f"header without line {i + 1}")
        expect(ck, P, w, {a: H[:i] + [other] + H[i + 1:] + [BODY]}, ["a.py"], True, f"header with another line {i + 1}")
        expect(ck, P, w, {a: H[:i] + [BODY]}, ["a.py"], True, f"header cut before line {i + 1}, then code")
        expect(ck, P, w, {a: H[:i]}, ["a.py"], True, f"file ends before line {i + 1} of the header")
    for what, ls in (("carriage returns", ["import os\r\n", "x = 1\r\n"]), ("tabs", ["if x:\n", "\ty = 1\n"]), ("no line end", ["x = 1"]), ("byte order mark", ["\ufeffx = 1\n"]), ("blank lines", ["\n", "  \n", "x = 1\n"]),
                     ("another licence", ["# Copyright (c) 2019 Somebody\n", "# SPDX-License-Identifier: MIT\n", "x = 1\n"])):
        expect(ck, P, w, {a: [const(l) for l in ls]}, ["a.py"], True, f"no header, {what}")
    # what the fixing mode made passes the check
    for before in ([BODY], [SHEBANG, BODY], [CODING, BODY], [SHEBANG, CODING, BODY], [BODY, BODY, const("\n"), BODY], [const("\n"), BODY], []):
        w.files = {a: before}
        r = ends(P, w.files, "fix", ["a.py"])
        t = fixed_file(P, r[0]).get(a) if r else None
        if not t:
            ck.ob(STATUS, None if r is None or doubtful(r[0]) else False, "main", f"fixing a file of {len(before)} lines without header inserts none")
            continue
        parts = []
        for x in t:
            x = P.deep(r[0], x)
            parts += list(x.a) if x.op == "fstr" else [x]
        L = lines_of(mk("fstr", *parts) if len(parts) > 1 else parts[0])
        expect(ck, P, w, {a: L}, ["a.py"], False, f"a file of {len(before)} lines after fixing")
    ck.used(P)


def trees(ck):
    P, w = script({})
    H = header(P, w)
    if H is None:
        ck.ob(STATUS, None, "main", "what the fixing mode inserts is not understood")
        return
    good, bad = H + [BODY], [BODY]
    G = {"/w/p/a.py": good, "/w/p/b.py": good, "/w/p/q/c.py": good, "/w/p/q/r/d.py": good, "/w/p/q/e.pyi": good, "/w/p/notes.txt": bad, "/w/p/q/data.csv": bad, "/w/z.py": good}
    expect(ck, P, w, G, ["p"], False, "tree, nothing missing")
    expect(ck, P, w, G, ["p", "z.py"], False, "tree and file, nothing missing")
    expect(ck, P, w, G, ["p/a.py", "p/b.py", "z.py"], False, "three files, nothing missing")
    expect(ck, P, w, G, ["p/notes.txt"], False, "a file that is no Python file")
    for f in G:
        if f.endswith((".py", ".pyi")):
            B = {**G, f: bad}
            inp = f.startswith("/w/p/")
            expect(ck, P, w, B, ["p"], inp, f"tree, missing in {f[3:]}")
            expect(ck, P, w, B, ["p", "z.py"], True, f"tree and file, missing in {f[3:]}")
            expect(ck, P, w, B, ["z.py", "p"], True, f"file and tree, missing in {f[3:]}")
            expect(ck, P, w, B, [f[3:]], True, f"one file, missing in {f[3:]}")
            expect(ck, P, w, B, [f], True, f"one file, absolute, missing in {f[3:]}")
    fs = ["p/a.py", "p/b.py", "z.py"]
    for i in range(3):
        expect(ck, P, w, {**G, "/w/" + fs[i]: bad}, fs, True, f"three files, missing in number {i + 1}")
        expect(ck, P, w, {**{k: (bad if k.endswith((".py", ".pyi")) else v) for k, v in G.items()}, "/w/" + fs[i]: good}, fs, True, f"three files, missing in all but number {i + 1}")
    B = {k: bad for k in G}
    for ps in (["p"], ["p", "z.py"], ["z.py"], ["p/q"], ["p/q/r"], ["p/a.py", "p/b.py"]):
        expect(ck, P, w, B, ps, True, f"missing everywhere, {' '.join(ps)}")
    many = {f"/w/m/f{i}.py": bad for i in range(12)}
    expect(ck, P, w, many, ["m"], True, "twelve files, missing in all")
    expect(ck, P, w, {k: good for k in many}, ["m"], False, "twelve files, nothing missing")
    TM.MANY = 600
    try:
        for n in (128, 255, 256, 512):
            expect(ck, P, w, {f"/w/m/f{i}.py": bad for i in range(n)}, ["m"], True, f"{n} files, missing in all")
    finally:
        TM.MANY = 16
    ck.used(P)


def only(ck):
    """the fixing mode writes exactly the files without header"""
    P, w = script({})
    H = header(P, w)
    if H is None:
        ck.ob(ONLY, None, "main", "what the fixing mode inserts is not understood")
        return
    good, bad = H + [BODY], [BODY]
    for mode in ("fix", "check", "Fix", "fix-check", "", "checkfix", "dry-run", "--fix", "write"):
        w.files = {"/w/p/a.py": bad, "/w/p/b.py": good, "/w/c.py": bad}
        for s, v in run(P, [const("p"), const(mode), const("p"), const("c.py")]):
            ws = writes(s)
            sure = [x for x, c in ws if c]
            if mode != "fix":
                ck.ob(ONLY, True if not ws else False if sure else None, "main", f"mode {mode!r}: {(sure or [x for x, c in ws] or [''])[0]}", st=s)
    ck.used(P)
