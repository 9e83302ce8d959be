"""A file system of known files for the analysed scripts, and what they do to it: every opening, writing
or removal of a file is an event of the path."""
from scene import *
import terms as TM

WORLD = '''
import note_
class File:
    def __init__(self, path, mode, lines):
        self.name = path
        self.mode = mode
        self._lines = lines
        self._it = iter(lines)
    def __enter__(self):
        return self
    def __exit__(self, *args):
        return False
    def close(self):
        return None
    def flush(self):
        return None
    def __iter__(self):
        return self._it
    def __next__(self):
        return next(self._it)
    def read(self, n=-1):
        return "".join(self._it)
    def readlines(self, hint=-1):
        return list(self._it)
    def readline(self):
        return next(self._it, "")
    def seek(self, n, whence=0):
        self._it = iter(self._lines)
        return n
    def truncate(self, n=None):
        note_.truncate(self.name)
        return 0
    def write(self, text):
        note_.write(self.name, text)
        return len(text)
    def writelines(self, lines):
        for x in lines:
            note_.write(self.name, x)
'''
# functions that change the file system or run other programs
WRITERS = ("os.remove", "os.unlink", "os.rename", "os.renames", "os.replace", "os.truncate", "os.rmdir", "os.removedirs", "os.link", "os.symlink", "os.utime", "os.chmod", "os.chown", "os.mkdir", "os.makedirs",
           "os.system", "os.popen", "os.write", "os.ftruncate", "shutil.", "subprocess.", "tempfile.", "fileinput.", "note_.write", "note_.truncate")
READERS = ("os.path.", "os.getcwd", "os.walk", "os.listdir", "os.scandir", "os.stat", "os.sep", "os.fspath", "os.access", "glob.", "fnmatch.", "datetime.", "time.", "re.", "sys.", "itertools.", "functools.", "operator.", "textwrap.", "difflib.",
           "collections.", "typing.", "string.", "hashlib.", "io.StringIO", "print", "argparse.", "logging.", "warnings.", "json.dumps", "tokenize.", "linecache.", "builtins.", "math.", "copy.", "traceback.")
ABS = "/w"


class World:
    def __init__(self, P, files, year=True):
        """files: {absolute path: lines (terms) or None for unknown contents}"""
        self.P, self.files = P, dict(files)
        S = P.stubs
        for n in ("open", "io.open", "codecs.open", "builtins.open"):
            S["ext:" + n] = self.open
        S["ext:os.path.isfile"] = self.isfile
        S["ext:os.path.isdir"] = self.isdir
        S["ext:os.path.exists"] = self.exists
        S["ext:os.walk"] = self.walk
        S["ext:os.listdir"] = self.listdir
        S["ext:os.path.join"] = self.join
        S["ext:os.path.abspath"] = S["ext:os.path.realpath"] = S["ext:os.path.normpath"] = self.abspath
        S["ext:os.path.relpath"] = self.relpath
        S["ext:os.path.splitext"] = self.splitext
        S["ext:os.path.basename"] = lambda P, s, a, k: self.text(s, a[0], lambda x: os.path.basename(x))
        S["ext:os.path.dirname"] = lambda P, s, a, k: self.text(s, a[0], lambda x: os.path.dirname(x))
        S["ext:os.getcwd"] = lambda P, s, a, k: [(s, const(ABS))]
        S["ext:os.fspath"] = lambda P, s, a, k: [(s, a[0])]
        S["ext:glob.glob"] = S["ext:glob.iglob"] = self.glob

    def name(self, s, t):
        t = self.P.snap(s, t)
        return cval(t) if is_const(t) and isinstance(cval(t), str) else None

    def text(self, s, t, f):
        x = self.name(s, t)
        return [(s, const(f(x)) if x is not None else mk("call", mk("ext", "os.path"), (t,), ()))]

    def opaque(self, n, a):
        return mk("call", mk("ext", n), tuple(a), ())

    def dirs(self):
        out = set()
        for f in self.files:
            d = os.path.dirname(f)
            while len(d) > 1:
                out.add(d)
                d = os.path.dirname(d)
        return out

    def full(self, p):
        return os.path.normpath(os.path.join(ABS, p))

    def open(self, P, s, a, k):
        mode = k.get("mode", a[1] if len(a) > 1 else const("r"))
        p = self.name(s, a[0])
        P.emit(s, "open", a[0], mode)
        if p is None:
            return [(s, self.opaque("open", a))]
        lines = self.files.get(self.full(p), ())
        if p is not None and self.full(p) not in self.files and mode is const("r"):
            P.throw(s, mk("exc", "FileNotFoundError"))
            return []
        L = mk("call", mk("ext", "lines of"), (a[0],), ()) if lines is None else seq("list", [one(x) for x in lines])
        return P.instantiate(s, mk("cls", "world_.File"), [a[0], mode, L], {})

    def isfile(self, P, s, a, k):
        p = self.name(s, a[0])
        return [(s, self.opaque("os.path.isfile", a) if p is None else TRUE if self.full(p) in self.files else FALSE)]

    def isdir(self, P, s, a, k):
        p = self.name(s, a[0])
        return [(s, self.opaque("os.path.isdir", a) if p is None else TRUE if self.full(p) in self.dirs() else FALSE)]

    def exists(self, P, s, a, k):
        p = self.name(s, a[0])
        return [(s, self.opaque("os.path.exists", a) if p is None else TRUE if self.full(p) in self.dirs() | set(self.files) else FALSE)]

    def walk(self, P, s, a, k):
        p = self.name(s, a[0])
        if p is None or k.get("topdown", TRUE) is not TRUE or len(a) > 1:
            return [(s, self.opaque("os.walk", a))]
        p = self.full(p)
        ds, out = self.dirs(), []

        def go(d):
            sub_ = sorted(x for x in ds if os.path.dirname(x) == d)
            fs = sorted(x for x in self.files if os.path.dirname(x) == d)
            names = lambda xs: seq("list", [one(const(os.path.basename(x))) for x in xs])
            out.append(one(seq("tuple", [one(const(d)), one(names(sub_)), one(names(fs))])))
            for x in sub_:
                go(x)
        if p in ds:
            go(p)
        return [(s, seq("list", out))]

    def listdir(self, P, s, a, k):
        p = self.name(s, a[0]) if a else ABS
        if p is None:
            return [(s, self.opaque("os.listdir", a))]
        p = self.full(p)
        return [(s, seq("list", [one(const(os.path.basename(x))) for x in sorted(self.dirs() | set(self.files)) if os.path.dirname(x) == p]))]

    def glob(self, P, s, a, k):
        import glob
        import re
        p = self.name(s, a[0])
        if p is None:
            return [(s, self.opaque("glob.glob", a))]
        rec = k.get("recursive", FALSE) is TRUE
        rx = ""
        parts = p.split("/")
        for i, x in enumerate(parts):
            last = i == len(parts) - 1
            if x == "**" and rec:
                rx += ".*" if last else "(?:[^/]+/)*"
            else:
                rx += "".join("[^/]*" if c == "*" else "[^/]" if c == "?" else re.escape(c) for c in x) + ("" if last else "/")
        names = [f for f in self.files] + [f[len(ABS) + 1:] for f in self.files if f.startswith(ABS + "/")] + ["./" + f[len(ABS) + 1:] for f in self.files if f.startswith(ABS + "/")]
        rx = rx.replace("/+", "/")
        hit = [f for f in names if re.fullmatch(re.sub("/+", "/", rx), f) and not any(x.startswith(".") and x not in (".", "..") for x in f.split("/"))]
        return [(s, seq("list", [one(const(f)) for f in sorted(set(hit))]))]

    def join(self, P, s, a, k):
        ps = [self.name(s, x) for x in a]
        if None in ps:
            return [(s, self.opaque("os.path.join", a))]
        return [(s, const(os.path.join(*ps)))]

    def abspath(self, P, s, a, k):
        p = self.name(s, a[0])
        return [(s, self.opaque("os.path.abspath", a) if p is None else const(self.full(p)))]

    def relpath(self, P, s, a, k):
        p = self.name(s, a[0])
        return [(s, self.opaque("os.path.relpath", a) if p is None else const(os.path.relpath(self.full(p), ABS)))]

    def splitext(self, P, s, a, k):
        p = self.name(s, a[0])
        if p is None:
            return [(s, seq("tuple", [one(self.opaque("os.path.root", a)), one(self.opaque("os.path.ext", a))]))]
        return [(s, seq("tuple", [one(const(x)) for x in os.path.splitext(p)]))]


def trace(s):
    out, ev = [], s.ev
    while ev:
        ev, e = ev
        out.append(e)
    return out[::-1]


PATHWRITERS = ("write_text", "write_bytes", "unlink", "rename", "replace", "touch", "rmdir", "mkdir", "symlink_to", "hardlink_to", "chmod", "write", "writelines", "truncate")


def mode_of(e):
    return e.a[0] if e.a else NONE


def root(t):
    while t.op in ("attr", "call", "binop"):
        t = t.a[0]
    return t


def writes(s):
    """[(what, certain)] file system changes on this path: what is done, and whether that is beyond doubt"""
    out = []
    for e in trace(s):
        if e.kind == "open":
            m = mode_of(e)
            if is_const(m) and isinstance(cval(m), str):
                if set(cval(m)) & set("wax+"):
                    out.append((f"opens {show(e.target)[:60]} with mode {cval(m)!r}", True))
            else:
                out.append((f"opens {show(e.target)[:60]} with mode {show(m)[:40]}", False))
        elif e.kind == "ext" and e.a:
            f = e.a[0]
            if f.op in ("ext", "builtin"):
                n = f.a[0]
                if any(n == w or (w.endswith(".") and n.startswith(w)) for w in WRITERS):
                    out.append((f"calls {n}", True))
                elif not any(n == w or (w.endswith(".") and n.startswith(w)) for w in READERS) and f.op == "ext" and not n.startswith("pathlib."):
                    out.append((f"calls {n}", False))
            elif f.op == "attr":
                r = root(f)
                path = r.op == "ext" and r.a[0].startswith("pathlib.")
                if f.a[1] in PATHWRITERS and path:
                    out.append((f"calls {f.a[1]} on a path", True))
                elif f.a[1] == "open" and path:
                    args = e.a[1] if len(e.a) > 1 else ()
                    m = args[0] if args else const("r")
                    if not (is_const(m) and not set(str(cval(m))) & set("wax+")):
                        out.append(("opens a path for writing", is_const(m)))
                elif f.a[1] in PATHWRITERS + ("open",) and r.op == "ext" and r.a[0] not in ("re", "sys", "os"):
                    out.append((f"calls {f.a[1]}", False))
    return out
