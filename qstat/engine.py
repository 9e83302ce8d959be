"""Abstract interpreter over the syntax trees of the package.

Values are terms (see terms.py), states are partitioned by path conditions and
re-joined where the partitions agree, loops are summarised (scalar evolution,
index-set splitting, peeling), calls inside the package are inlined and calls
out of it are uninterpreted.  Nothing of the analysed code is executed.
"""
import ast
import os
import builtins as _bi
from terms import *
import terms as TM
import terms as TM
import state, time
from state import *

MAXSTATES = 6000


def b(name):
    return mk("builtin", name)


class Func:
    __slots__ = ("node", "mod", "cls", "defaults", "kwdefaults", "parent", "name", "qual", "captures", "isgen", "globs", "decos", "args")


class Cls:
    __slots__ = ("cid", "name", "mod", "bases", "attrs", "node", "order")


EXC_BASES = {
    "StopIteration": "Exception", "ValueError": "Exception", "TypeError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OSError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "Exception": "BaseException", "BaseException": None,
    "NameError": "Exception", "UnboundLocalError": "NameError", "RecursionError": "RuntimeError", "UnicodeDecodeError": "ValueError",
    "FileNotFoundError": "OSError", "OverflowError": "ArithmeticError", "Warning": "Exception", "UserWarning": "Warning",
}

ARR_FRESH = {
    "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.eye", "numpy.identity", "numpy.array", "numpy.full", "numpy.arange", "numpy.copy",
    "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like",
}
EXT_ALIAS = {"numpy.product": "numpy.prod", "math.prod": "numpy.prod", "numpy.asarray": "numpy.array", "numpy.absolute": "numpy.abs",
             "numpy.alltrue": "numpy.all", "numpy.identity": "numpy.eye"}


class Program:
    loadbias = None  # how conditions at import time that are not known are taken

    def __init__(self, roots, extra=None):
        self.roots = roots  # [(directory, prefix)]
        self.extra = extra or {}  # module name -> source of analysis-side client code
        self.mods = {}
        self.funcs = []
        self.classes = {}
        self.base = State()
        self.sink = []
        self.stack = []  # names of active functions
        self.line = 0
        self.file = "?"
        self.opaque_attr = set()
        self.opaque_getter = set()
        self.stubs = {}
        self.implicit = True  # statements with handlers may also fail in ways that are not modelled
        self.lazy = False  # generators are used up by iterating over them
        self.setrev = False  # iterate over sets in another order
        self.extattrs = {}  # library attributes with a known value
        self.absent = set()  # top-level libraries that are not installed
        self.failed = {}  # module -> exception its import ends in
        self.nd = None  # handler of array-like values with known entries
        self.attrtags = {}
        self.count = 0
        self.maxdepth = 28
        self.fcache = {}
        self.visited = {}  # qualname of analysed functions -> number of activations
        self.paths = 0
        self.ids = {}
        self.nsites = 0
        self.loading = 0
        self.wire_trace = None
        self.risky = None

    # ------------------------------------------------------------ modules
    def find(self, name):
        if name in self.extra:
            return "<client>", self.extra[name], False
        for root, prefix in self.roots:
            if name == prefix or name.startswith(prefix + "."):
                rel = name[len(prefix):].lstrip(".").replace(".", "/")
                p = os.path.join(root, rel)
                for q, pk in ((os.path.join(p, "__init__.py"), True), (p + ".py", False)):
                    if os.path.isfile(q):
                        return q, open(q, encoding="utf-8").read(), pk
        return None

    def load(self, name, st=None):
        st = st or self.base
        if name in self.mods and ("m:" + name in st.frames or name in self.failed):
            return mk("module", name)
        f = self.find(name)
        if f is None:
            return None
        parts = name.split(".")
        if len(parts) > 1:
            self.load(".".join(parts[:-1]), st)
        path, src, pk = f
        tree = ast.parse(src, path)
        mangle(tree)
        self.mods[name] = (path, tree, pk)
        fid = "m:" + name
        st.frames[fid] = {"__name__": const(name), "__parent__": None, "__mod__": name}
        st.own.add(("f", fid))
        saved = (st.cur, self.stack, self.file, self.sink, self.line)
        st.cur, self.stack, self.file, self.sink = fid, ["<module %s>" % name], path, []
        self.loading += 1
        try:
            for s in tree.body:
                outs = self.stmt(s, st)
                live = [o for o in outs if o[0] == "next"]
                if not live:
                    raised = [o[2] for o in outs if o[0] == "raise"]
                    if raised:
                        self.failed[name] = raised[-1]
                    break
                st2 = live[0][1]
                if st2 is not st:
                    self.adopt(st, st2)
        finally:
            self.loading -= 1
            st.cur, self.stack, self.file, self.sink, self.line = saved
        if len(parts) > 1 and "m:" + ".".join(parts[:-1]) in st.frames:
            st.frame("m:" + ".".join(parts[:-1]), True)[parts[-1]] = mk("module", name)
        return mk("module", name)

    def adopt(self, st, s2):
        for a in ("frames", "heap", "over", "own", "facts", "ev", "noid", "nk", "nf"):
            setattr(st, a, getattr(s2, a))
        st.own = set()
        s2.own = set()

    def start(self):
        """a fresh state after import; everything allocated so far is static"""
        st = self.base.copy()
        for o in st.heap.values():
            o.owner = "static"
        st.ev = None
        st.cur = "client"
        if "client" not in st.frames:
            st.frames["client"] = {"__parent__": None, "__mod__": None}
        return st

    # ------------------------------------------------------------ effects
    def site(self):
        f = self.file
        for root, prefix in self.roots:
            r = os.path.dirname(root.rstrip("/"))
            if f.startswith(root):
                f = os.path.relpath(f, self.reporoot)
                break
        return f"{f}:{self.line} in {self.stack[-1] if self.stack else '?'}"

    reporoot = "/repo"

    def emit(self, st, kind, target, *a):
        e = Event(kind, target, a, tuple(st.facts), self.site(), st.loops, tuple(self.stack))
        st.ev = (st.ev, e)

    # ------------------------------------------------------------ branching
    def branch(self, st, c):
        r = decide(st, c, self)
        if r is not None:
            if r:
                st.fact(c) if c.op in ("isinst",) else None
            return [(st, r)]
        if c.op == "and":
            out = []
            cur = [st]
            for x in c.a:
                nxt = []
                for s in cur:
                    for s2, v in self.branch(s, x):
                        (nxt.append(s2) if v else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        if c.op == "or":
            return [(s, not v) for s, v in self.branch(st, mk("and", *[nott(x) for x in c.a]))]
        if c.op == "not" and c.a[0].op in ("and", "or"):
            return [(s, not v) for s, v in self.branch(st, c.a[0])]
        if self.loading and self.loadbias is not None:
            r = self.loadbias(c)
            if r is not None:
                return [(st, r)]
        self.paths += 1
        self.count += 1
        if state.DEADLINE and time.time() > state.DEADLINE:
            raise Unsupported("time budget of this step used up")
        if self.count > MAXSTATES:
            raise Unsupported("too many path partitions")
        s2 = st.copy()
        st.fact(c)
        s2.fact(nott(c))
        return [(st, True), (s2, False)]

    def decide_type(self, st, c):
        if c.op == "isinst":
            return self.dec_isinst(st, c.a[0], c.a[1])
        if c.op == "typeis":
            return self.dec_typeis(st, c.a[0], c.a[1])
        if c.op == "truth":
            t = c.a[0]
            g = self.tag(st, t)
            if g is not None and g not in ("any", "bool") and not (isinstance(g, tuple) and g[0] in ("opt", "list", "tuple", "union")):
                if isinstance(g, tuple) and g[0] == "inst":
                    return True
        if c.op == "eq" and NONE in c.a:
            t = c.a[0] if c.a[1] is NONE else c.a[1]
            g = self.tag(st, t)
            if isinstance(g, tuple) and g[0] == "opt":
                return None
            if g not in (None, "any"):
                return False
            if t.op == "call" or (t.op == "attr" and t.a[1] == "unitary") or t.op in ("mod", "idiv", "poly", "fold", "map", "obj"):
                return False
        return None

    def tag(self, st, t):
        """static type of a value: 'int', 'str', ('list', e), ('tuple', ..), ('inst', cid), ('opt', x), 'any', None"""
        op = t.op
        if op in ("sym", "idx"):
            return t.a[1] if op == "sym" else "int"
        if op == "const":
            return {"NoneType": "none"}.get(t.a[0], t.a[0])
        if op in ("poly", "len", "mod", "idiv", "bv"):
            return "int"
        if op == "seq":
            return (t.a[0] if t.a[0] in ("tuple", "set", "range", "dict") else "list",)
        if op == "ref":
            o = st.obj(t)
            if o.kind == "inst":
                return ("inst", o.cls)
            return (o.kind,)
        if op == "obj":
            return ("inst", t.a[0].a[0])
        if op in ("fstr", "fill", "strhead", "strtail", "str"):
            return "str"
        if op in ("cls",):
            return "cls"
        if op in ("func", "bound", "builtin", "ext", "module"):
            return "func"
        if op == "enum":
            return ("inst", t.a[0])
        if op == "item":
            g = self.tag(st, t.a[0])
            if isinstance(g, tuple) and g[0] == "opt":
                g = g[1]
            if isinstance(g, tuple) and g[0] == "list" and len(g) > 1:
                return g[1]
            if isinstance(g, tuple) and g[0] == "tuple" and len(g) > 1 and is_const(t.a[1]):
                i = cval(t.a[1])
                if isinstance(i, int) and -len(g[1]) <= i < len(g[1]):
                    return g[1][i]
            if g == "str":
                return "str"
            if t.a[0].op == "seq":
                tags = set()
                for s in t.a[0].a[1]:
                    if s.op == "one":
                        tags.add(self.tag(st, s.a[0]))
                    elif s.op == "star":
                        tags.add(self.tag(st, item(s.a[0], t.a[1])))
                    elif s.op == "map":
                        for f, g2 in s.a[2]:
                            for x in g2:
                                tags.add(self.tag(st, x.a[0]) if x.op == "one" else None)
                if len(tags) == 1:
                    return tags.pop()
                if tags and all(isinstance(x, tuple) and x[0] in ("inst", "union") for x in tags):
                    cs = set()
                    for x in tags:
                        cs |= set(x[1]) if x[0] == "union" else {x[1]}
                    return ("union", tuple(sorted(cs)))
            return None
        if op == "slice" or op == "rev":
            return self.tag(st, t.a[0])
        if op == "attr":
            for cid in self.classes_of(st, t.a[0]) or ():
                for c in self.mro(cid):
                    g = self.attrtags.get((c, t.a[1]))
                    if g is not None:
                        return g
            return None
        if op in ("le0", "eq0", "eq", "not", "isinst", "in", "typeis", "and", "or", "truth", "lt0", "hasattr"):
            return "bool"
        if op == "call":
            n = callname(t)
            if n in (".split", "re.findall", "re.split", "sorted", ".splitlines"):
                return ("list", "str" if n != "sorted" else None)
            if n in ("re.sub", ".strip", ".lower", ".upper", ".read", "str", ".join", ".replace", ".rstrip", ".lstrip", ".casefold"):
                return "str"
            if n in ("int", "numpy.prod", "min", "max", ".index", "sum"):
                return "int"
            if n == "numpy.arange":
                return None
        if op == "fold":
            return self.tag(st, t.a[3]) if is_num(t.a[3]) else None
        if op == "bin":
            return None
        return None

    def classes_of(self, st, t):
        """possible package classes of a value, or None"""
        g = self.tag(st, t)
        if isinstance(g, tuple) and g[0] == "opt":
            g = g[1]
        if isinstance(g, tuple) and g[0] == "inst":
            return [g[1]]
        if isinstance(g, tuple) and g[0] == "union":
            out = []
            for c in g[1]:
                r = True
                for f in st.facts:
                    if f.op == "isinst" and f.a[0] is t and not self.issub(c, f.a[1]):
                        r = False
                    if f.op == "not" and f.a[0].op == "isinst" and f.a[0].a[0] is t and self.issub(c, f.a[0].a[1]):
                        r = False
                if r:
                    out.append(c)
            return out
        return None

    def mro(self, cid):
        out = []

        def go(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if c in self.classes:
                for bt in self.classes[c].bases:
                    if bt.op == "cls":
                        go(bt.a[0])
                    elif bt.op in ("ext", "builtin"):
                        go("!" + bt.a[0])

        go(cid)
        return out

    def issub(self, cid, target):
        """target: cls/builtin/ext term"""
        m = self.mro(cid)
        if target.op == "cls":
            return target.a[0] in m
        if target.op in ("ext", "builtin"):
            return ("!" + target.a[0]) in m or target.a[0] == "object"
        return False

    TYPES = {"int": ("int", "bool"), "bool": ("bool",), "str": ("str",), "float": ("float", "Fraction"), "complex": ("complex",)}

    def dec_isinst(self, st, t, ct):
        if t.op == "item" and t.a[0].op == "seq":
            # an element of a sequence whose elements all agree
            rs = set()
            for s in t.a[0].a[1]:
                if s.op == "one":
                    rs.add(self.dec_isinst(st, s.a[0], ct))
                elif s.op == "star":
                    rs.add(self.dec_isinst(st, item(s.a[0], t.a[1]), ct))
                else:
                    rs.add(None)
            if len(rs) == 1:
                r = rs.pop()
                if r is not None:
                    return r
        g = self.tag(st, t)
        if g is None or g == "any" or (isinstance(g, tuple) and g[0] == "opt"):
            if ct.op == "cls" and t.op in ("call", "poly", "mod"):
                return None
            return None
        cs = self.classes_of(st, t)
        if cs is not None:
            rs = {self.issub(c, ct) for c in cs}
            return rs.pop() if len(rs) == 1 else None
        if ct.op == "cls":
            return False
        if ct.op == "builtin":
            n = ct.a[0]
            if isinstance(g, tuple):
                k = g[0]
                if n == k:
                    return True
                if n == "object":
                    return True
                return False
            if n in self.TYPES:
                return g in self.TYPES[n]
            if n == "object":
                return True
            return False
        if ct.op == "ext":
            nm = ct.a[0].split(".")[-1]
            if isinstance(g, tuple):
                if nm in ("Iterable", "Collection", "Container", "Sized"):
                    return g[0] in ("list", "tuple", "set", "dict", "range")
                if nm in ("Sequence",):
                    return g[0] in ("list", "tuple", "range")
                if nm in ("list", "List"):
                    return g[0] == "list"
                if nm == "ndarray" and g[0] != "arr":
                    return False
            else:
                if nm in ("Integral", "Number", "Real"):
                    return g in ("int", "bool")
                if nm in ("integer",):
                    return None
                if nm in ("Iterable", "Sequence", "ndarray"):
                    return g == "str" and nm != "ndarray"
        return None

    def dec_typeis(self, st, t, ct):
        g = self.tag(st, t)
        if g is None or g == "any" or (isinstance(g, tuple) and g[0] in ("opt",)):
            return None
        cs = self.classes_of(st, t)
        if cs is not None:
            rs = {ct.op == "cls" and c == ct.a[0] for c in cs}
            return rs.pop() if len(rs) == 1 else None
        if ct.op == "builtin":
            if isinstance(g, tuple):
                return g[0] == ct.a[0]
            return g == ct.a[0]
        return False

    # ------------------------------------------------------------ contents
    def content(self, st, t):
        """current elements of a container value"""
        if t.op == "ref":
            o = st.obj(t)
            if o.content is not None:
                return o.content
            return t
        return st.cont(t)

    def set_content(self, st, t, c, opname, *a):
        self.emit(st, "content", t, opname, *a)
        if t.op == "ref":
            st.obj(t, True).content = c
        else:
            st.over[("c", t)] = c

    def newlist(self, st, c, kind="list"):
        if c.op == "seq" and c.a[0] != kind:
            c = mk("seq", kind, c.a[1])
        elif c.op != "seq":
            c = seq(kind, [star(c)])
        return st.alloc(Obj(kind, content=c, site=self.site()))

    def kindof(self, st, t):
        if t.op == "ref":
            return st.obj(t).kind
        if t.op == "seq":
            return t.a[0]
        g = self.tag(st, t)
        if isinstance(g, tuple) and g[0] in ("list", "tuple", "set", "dict", "range"):
            return g[0]
        return None

    def snap(self, st, t, d=0):
        """value of t as a term without heap references to containers"""
        if t.op == "ref":
            o = st.obj(t)
            if o.kind == "inst" or o.kind == "iter":
                return t
            if d > 12:
                return top("deep")
            return self.snap(st, o.content, d + 1) if o.content is not None else t
        if t.op in ("seq", "one", "star", "map"):
            if not any(s.op == "ref" for s in syms(t)):
                return st.cont(t)
            return rebuild(t, lambda x: self.snap(st, x, d + 1))
        if any(s.op == "ref" for s in syms(t)):
            return rebuild(t, lambda x: self.snap(st, x, d + 1))
        return st.cont(t)

    def freeze(self, st, t, lo, d=0, seen=()):
        """replace references to objects numbered >= lo by value terms"""
        if d > 14:
            return top("deep")
        if t.op == "ref":
            if t.a[0] < lo or t in seen:
                return t
            o = st.obj(t)
            if o.kind == "inst":
                at = tuple(sorted((k, self.freeze(st, v, lo, d + 1, seen + (t,))) for k, v in o.attrs.items()))
                return mk("obj", mk("cls", o.cls), at)
            if o.kind == "iter":
                return t
            return self.freeze(st, o.content, lo, d + 1, seen + (t,))
        if not any(s.op == "ref" and s.a[0] >= lo for s in syms(t)):
            return t
        return rebuild(t, lambda x: self.freeze(st, x, lo, d + 1, seen))

    def deep(self, st, t):
        return self.freeze(st, t, 0)

    # ------------------------------------------------------------ truth
    def truth(self, st, t):
        op = t.op
        if op == "const":
            return const(bool(cval(t)))
        if op in ("le0", "eq0", "eq", "not", "isinst", "typeis", "in", "and", "or", "truth", "lt0", "hasattr", "all", "any"):
            return t
        if op == "ref":
            o = st.obj(t)
            if o.kind == "inst":
                return TRUE
            if o.kind == "arr":
                return mk("truth", o.content)
            if o.kind == "iter":
                return TRUE
            return nott(le0(self.length(st, t)))
        if op == "fstr":
            return TRUE if any(is_const(x) and cval(x) for x in t.a) else mk("truth", t)
        if op in ("seq", "rev"):
            return nott(le0(len_of(t)))
        if op in ("cls", "func", "bound", "builtin", "ext", "module", "enum", "obj", "rematch", "repattern", "strhead", "strtail"):
            return TRUE
        if op == "str" and texts.symbolic(t):
            return TRUE
        g = self.tag(st, t)
        if g in ("int", "float", "complex"):
            return nott(eq(t, ZERO))
        if isinstance(g, tuple) and g[0] in ("list", "tuple", "dict", "set", "range"):
            return nott(le0(self.length(st, t)))
        if isinstance(g, tuple) and g[0] in ("inst", "union"):
            return TRUE
        return mk("truth", t)

    def length(self, st, t):
        c = self.content(st, t)
        if c.op == "seq" and c.a[0] == "dict":
            return len_of(c)
        return len_of(self.snap_shallow(st, c))

    def snap_shallow(self, st, c):
        if c.op == "seq" and any(s.op == "star" and s.a[0].op == "ref" for s in c.a[1]):
            return seq(c.a[0], [star(self.snap_shallow(st, self.content(st, s.a[0]))) if s.op == "star" else s for s in c.a[1]])
        return c

    # ------------------------------------------------------------ merging
    def merge(self, outs):
        res = []
        for k, st, v in outs:
            for i, (k2, s2, v2) in enumerate(res):
                if k == k2 and v is v2 and st.same(s2):
                    nf = {f: True for f in s2.facts if f in st.facts}
                    s2.facts = nf
                    break
            else:
                res.append((k, st, v))
        return res

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        cur = [st]
        outs = []
        for s in body:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    if o[0] == "next":
                        nxt.append(o)
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            cur = [o[1] for o in nxt]
            if not cur:
                break
        return outs + [("next", c, NONE) for c in cur]

    def stmt(self, s, st):
        self.line = s.lineno
        saved = self.sink
        self.sink = []
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.site()}")
        try:
            outs = m(s, st)
            outs = list(outs) + [("raise", s2, e) for s2, e in self.sink]
        finally:
            self.sink = saved
        return outs

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, NONE)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            out = []
            for s2, v in self.ev(s.value.value, st) if s.value.value else [(st, NONE)]:
                y = s2.frame(s2.cur)["__yield__"]
                c = self.content(s2, y)
                if isinstance(s.value, ast.YieldFrom):
                    seg = star(self.iterable(s2, v))
                else:
                    seg = one(v)
                self.set_quiet(s2, y, seq("list", (list(c.a[1]) if c.op == "seq" else [star(c)]) + [seg]))
                out.append(("next", s2, NONE))
            return out
        return [("next", s2, NONE) for s2, v in self.ev(s.value, st)]

    def set_quiet(self, st, t, c):
        if t.op == "ref":
            st.obj(t, True).content = c
        else:
            st.over[("c", t)] = c

    def s_Pass(self, s, st):
        return [("next", st, NONE)]

    def s_Return(self, s, st):
        if s.value is None:
            return [("return", st, NONE)]
        return [("return", s2, v) for s2, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [("break", st, NONE)]

    def s_Continue(self, s, st):
        return [("continue", st, NONE)]

    def s_Global(self, s, st):
        st.frame(st.cur, True)["__globals__"] = st.frame(st.cur).get("__globals__", ()) + tuple(s.names)
        return [("next", st, NONE)]

    def s_Nonlocal(self, s, st):
        st.frame(st.cur, True)["__nonlocals__"] = st.frame(st.cur).get("__nonlocals__", ()) + tuple(s.names)
        return [("next", st, NONE)]

    def s_Assign(self, s, st):
        out = []
        for s2, v in self.ev(s.value, st):
            self.line = s.lineno
            cur = [s2]
            for t in s.targets:
                cur = [s4 for s3 in cur for s4 in self.assign(t, v, s3)]
            out += [("next", s3, NONE) for s3 in cur]
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, NONE)]
        return [("next", s3, NONE) for s2, v in self.ev(s.value, st) for s3 in self.assign(s.target, v, s2)]

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for s2, (cur, v) in [(x, y) for x, y in self.evs([load, s.value], st)]:
            self.line = s.lineno
            if isinstance(s.op, ast.Add) and self.kindof(s2, cur) == "list":
                c = self.content(s2, cur)
                c = c if c.op == "seq" else seq("list", [star(c)])
                self.set_content(s2, cur, seq("list", list(c.a[1]) + [star(self.iterable(s2, v))]), "extend", v)
                if isinstance(s.target, ast.Name):
                    out.append(("next", s2, NONE))
                else:
                    out += [("next", s3, NONE) for s3 in self.assign(s.target, cur, s2, quiet=True)]
                continue
            for s3, r in self.binop(type(s.op).__name__, cur, v, s2, inplace=True):
                if cur.op == "ref" and s3.obj(cur).kind == "arr":
                    self.set_content(s3, cur, self.snap(s3, r), "aug")
                    out.append(("next", s3, NONE))
                    continue
                if cur.op == "ref" and s3.obj(cur).kind in ("set", "dict") and r.op == "ref":
                    self.set_content(s3, cur, self.content(s3, r), "aug")
                    out.append(("next", s3, NONE))
                    continue
                if cur.op in ("call", "attr", "item", "sym") and self.tag(s3, cur) in (None, "any", "arr"):
                    self.emit(s3, "aug", cur, r)
                out += [("next", s4, NONE) for s4 in self.assign(s.target, r, s3)]
        return out

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    c.frame(c.cur, True).pop(t.id, None)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for s2, (o, i) in self.evs([t.value, t.slice], c):
                        nxt += [s3 for s3, _ in self.pop_at(s2, o, i, "del")]
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, c):
                        self.emit(s2, "attr", o, t.attr, None)
                        if o.op == "ref":
                            s2.obj(o, True).attrs.pop(t.attr, None)
                        nxt.append(s2)
                else:
                    raise Unsupported("del")
            cur = nxt
        return [("next", c, NONE) for c in cur]

    def s_If(self, s, st):
        outs = []
        for s2, v in self.cond(s.test, st):
            outs += self.block(s.body if v else s.orelse, s2)
        nx = [o for o in outs if o[0] == "next"]
        if len(nx) > 1:
            outs = [o for o in outs if o[0] != "next"] + self.merge(nx)
        return outs

    def s_Match(self, s, st):
        outs = []
        for s0, v in self.ev(s.subject, st):
            cur = [s0]
            for c in s.cases:
                nxt = []
                for s1 in cur:
                    for s2, ok in self.matches(c.pattern, v, s1):
                        for s3, ok2 in (self.cond(c.guard, s2) if ok and c.guard is not None else [(s2, ok)]):
                            if ok2:
                                outs += self.block(c.body, s3)
                            else:
                                nxt.append(s3)
                cur = nxt
            outs += [("next", s1, NONE) for s1 in cur]
        nx = [o for o in outs if o[0] == "next"]
        if len(nx) > 1:
            outs = [o for o in outs if o[0] != "next"] + self.merge(nx)
        return outs

    def matches(self, p, v, st):
        """[(state, matched)] of a match pattern"""
        if isinstance(p, ast.MatchValue):
            return [r for s, w in self.ev(p.value, st) for r in self.branch(s, self.equal(s, v, w))]
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, self.equal(st, v, const(p.value), True))
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.matches(q, v, s):
                        if ok:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.matches(p.pattern, v, st)
            if p.name is not None:
                for s, ok in res:
                    if ok:
                        self.bind(s, p.name, v)
            return res
        if isinstance(p, ast.MatchClass) and not p.patterns:
            out = []
            for s, c in self.ev(p.cls, st):
                import pylib
                for s2, t in pylib.b_isinstance(self, s, [v, c], {}):
                    for s3, ok in self.branch(s2, self.truth(s2, t)):
                        cur = [(s3, ok)]
                        for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                            cur = [r for s4, o in cur for r in ([(s4, False)] if not o else [y for s5, x in self.getattr(s4, v, k) for y in self.matches(q, x, s5)])]
                        out += cur
            return out
        if isinstance(p, ast.MatchSequence):
            k = self.kindof(st, v)
            if k not in ("list", "tuple"):
                if is_const(v) or self.tag(st, v) in ("int", "str"):
                    return [(st, False)]
                raise Unsupported("pattern of a sequence")
            c = self.iterable(st, v)
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns) - len(stars)
            ln = self.length(st, v)
            out = []
            for s, ok in self.branch(st, le(const(n), ln) if stars else eq(ln, const(n))):
                cur = [(s, ok)]
                for i, q in enumerate(p.patterns):
                    nx = []
                    for s1, o in cur:
                        if not o:
                            nx.append((s1, False))
                        elif isinstance(q, ast.MatchStar):
                            if q.name is not None:
                                after = n - i
                                self.bind(s1, q.name, self.newlist(s1, slice_of(c, const(i), const(-after) if after else NONE, NONE)))
                            nx.append((s1, True))
                        else:
                            j = const(i - len(p.patterns)) if stars and i > stars[0] else const(i)
                            for s2, x in self.getitem(s1, v, j):
                                nx += self.matches(q, x, s2)
                    cur = nx
                out += cur
            return out
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_Assert(self, s, st):
        outs = []
        for s2, v in self.cond(s.test, st):
            if v:
                outs.append(("next", s2, NONE))
            else:
                self.line = s.lineno
                self.throw(s2, mk("exc", "AssertionError"))
        return outs

    def throw(self, st, exc):
        self.emit(st, "raise", exc)
        self.sink.append((st, exc))

    def s_Raise(self, s, st):
        if s.exc is None:
            e = st.frame(st.cur).get("__exc__", mk("exc", "Exception"))
            self.throw(st, e)
            return []
        for s2, v in self.ev(s.exc, st):
            self.line = s.lineno
            if v.op == "builtin":
                v = mk("exc", v.a[0])
            self.throw(s2, v)
        return []

    def exc_matches(self, st, exc, ht):
        if ht is None:
            return True
        if ht.op == "seq":
            rs = [self.exc_matches(st, exc, x) for x in exact(ht) or []]
            return True if True in rs else (None if None in rs else False)
        if ht.op == "ref":
            return self.exc_matches(st, exc, st.obj(ht).content)
        if exc.op == "exc":
            names = [exc.a[0]]
        elif exc.op == "ref" and st.obj(exc).kind == "inst":
            names = self.mro(st.obj(exc).cls)
            if ht.op == "cls":
                return ht.a[0] in names
            names = [n[1:] for n in names if n.startswith("!")]
        else:
            return None
        h = ht.a[0] if ht.op in ("builtin", "ext") else None
        for n in names:
            while n is not None:
                if n == h:
                    return True
                n = EXC_BASES.get(n)
        return False

    def s_Try(self, s, st):
        entry = st.copy() if s.handlers and not self.loading and self.implicit else None
        outs = self.block(s.body, st)
        res = []
        nx = [o for o in outs if o[0] == "next"]
        for o in outs:
            if o[0] == "next":
                res += self.block(s.orelse, o[1]) if s.orelse else [o]
            elif o[0] == "raise" and s.handlers:
                res += self.handle(s, o[1], o[2])
            else:
                res.append(o)
        # exceptions raised by operations that are not modelled
        if entry is not None:
            for h in s.handlers:
                names = _names(h.type)
                if names == ["StopIteration"]:
                    continue
                e2 = entry.copy()
                self.line = h.lineno
                e2.fact(mk("raised", const(f"{self.site()}"), const(",".join(names) or "*")))
                self.emit(e2, "implicit-exc", const(",".join(names) or "*"))
                res += self.run_handler(h, e2, mk("exc", names[0] if names else "Exception"))
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.block(s.finalbody, o[1]):
                    if f[0] == "next":
                        fin.append((o[0], f[1], o[2]))
                    else:
                        fin.append(f)
            res = fin
        return res

    def handle(self, s, st, exc):
        for h in s.handlers:
            if h.type is None:
                return self.run_handler(h, st, exc)
            vals = self.ev(h.type, st)
            ht = vals[0][1]
            m = self.exc_matches(st, exc, ht)
            if m:
                return self.run_handler(h, st, exc)
            if m is None:
                s2 = st.copy()
                return self.run_handler(h, s2, exc) + [("raise", st, exc)]
        return [("raise", st, exc)]

    def run_handler(self, h, st, exc):
        self.emit(st, "handle", exc, const(",".join(_names(h.type))))
        if h.name:
            st.setvar(st.cur, h.name, exc)
        old = st.frame(st.cur).get("__exc__")
        st.setvar(st.cur, "__exc__", exc)
        outs = self.block(h.body, st)
        return outs

    def s_With(self, s, st):
        cur = [st]
        for it in s.items:
            nxt = []
            for c in cur:
                for s2, v in self.ev(it.context_expr, c):
                    if it.optional_vars is not None:
                        if v.op == "ref" and s2.obj(v).kind == "inst" and self.clsattr(s2, s2.obj(v).cls, "__enter__") is not None:
                            for s3, w in self.call(s2, self.clsattr(s2, s2.obj(v).cls, "__enter__"), [v], {}):
                                nxt += self.assign(it.optional_vars, w, s3)
                            continue
                        w = v if callname(v) == "open" else mk("call", mk("attr", v, "__enter__"), (), ())
                        nxt += self.assign(it.optional_vars, w, s2)
                    else:
                        nxt.append(s2)
            cur = nxt
        return [o for c in cur for o in self.block(s.body, c)]

    def s_Import(self, s, st):
        for a in s.names:
            top_ = a.name.split(".")[0]
            if top_ in self.absent:
                self.throw(st, mk("exc", "ModuleNotFoundError"))
                return []
            m = self.load(a.name, st) or None
            if self.broken(st, a.name):
                return []
            if m is not None:
                v = m if a.asname else (self.load(top_, st) or m)
            else:
                v = mk("ext", a.name if a.asname else top_)
            self.bind(st, a.asname or top_, v)
        return [("next", st, NONE)]

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            mod = st.frame(st.cur).get("__mod__") or self.modof(st)
            path, tree, pk = self.mods[mod]
            parts = mod.split(".")
            parts = parts[: len(parts) - s.level + (1 if pk else 0)]
            base = ".".join(parts + ([s.module] if s.module else []))
        if not s.level and base.split(".")[0] in self.absent:
            self.throw(st, mk("exc", "ModuleNotFoundError"))
            return []
        m = self.load(base, st)
        if self.broken(st, base):
            return []
        for a in s.names:
            if a.name == "*":
                if m is not None:
                    for k, v in list(st.frames["m:" + base].items()):
                        if not k.startswith("_"):
                            self.bind(st, k, v)
                continue
            if m is not None:
                v = st.frames["m:" + base].get(a.name)
                if v is None:
                    v = self.load(base + "." + a.name, st)
                    if self.broken(st, base + "." + a.name):
                        return []
                if v is None:
                    v = mk("ext", base + "." + a.name)
            else:
                v = self.ext(base + "." + a.name)
            self.bind(st, a.asname or a.name, v)
        return [("next", st, NONE)]

    def broken(self, st, name):
        """the import of a module that is known to raise"""
        if self.absent:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                if ".".join(parts[:i]) in self.failed:
                    self.throw(st, self.failed[".".join(parts[:i])])
                    return True
        return False

    def ext(self, name):
        for x, y in (("np.", "numpy."),):
            if name.startswith(x):
                name = y + name[len(x):]
        name = EXT_ALIAS.get(name, name)
        if name == "cupyx.scipy.sparse" or name == "scipy.sparse":
            pass
        return mk("ext", name)

    def modof(self, st):
        fid = st.cur
        while fid is not None:
            f = st.frame(fid)
            if f.get("__mod__"):
                return f["__mod__"]
            fid = f["__parent__"]
        return None

    def bind(self, st, name, v):
        f = st.frame(st.cur)
        if name in f.get("__globals__", ()):
            mod = self.modof(st)
            self.emit(st, "global", mk("module", mod), name, v)
            st.setvar("m:" + mod, name, v)
            return
        if name in f.get("__nonlocals__", ()):
            fid = f["__parent__"]
            while fid is not None:
                if name in st.frame(fid):
                    st.setvar(fid, name, v)
                    return
                fid = st.frame(fid)["__parent__"]
        st.setvar(st.cur, name, v)

    def s_FunctionDef(self, s, st):
        out = []
        for s2, f in self.mkfunc(s, st, s.name):
            for d in reversed(s.decorator_list):
                f = self.decorate(s2, d, f)
            self.bind(s2, s.name, f)
            out.append(("next", s2, NONE))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, st, d, f):
        v = self.ev(d, st)[0][1] if not (isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter")) else None
        if v is None:
            pr = self.ev(d.value, st)[0][1]
            if pr.op == "property":
                if d.attr == "setter":
                    return mk("property", pr.a[0], f)
                return pr
            return f
        if v.op == "builtin" and v.a[0] == "property":
            return mk("property", f, None)
        if v.op == "builtin" and v.a[0] in ("staticmethod", "classmethod"):
            return mk(v.a[0], f)
        nm = _dec_name(v)
        if nm.split(".")[-1] in ("lru_cache", "cache"):
            return mk("memo", f)
        if nm.split(".")[-1] == "cached_property":
            return mk("cachedprop", f)
        if nm.split(".")[-1] in ("abstractmethod", "wraps", "contextmanager", "overload", "final", "override"):
            return f
        if v.op in ("func", "bound"):
            r = self.call(st, v, [f], {})
            if len(r) == 1:
                self.adopt(st, r[0][0]) if r[0][0] is not st else None
                return r[0][1]
        return mk("deco", v, f)

    def mkfunc(self, node, st, name):
        a = node.args
        res = []
        ds = list(a.defaults)
        ks = [k for k in a.kw_defaults]
        for s2, vs in self.evs(ds + [k for k in ks if k is not None], st):
            fn = Func()
            fn.node, fn.name = node, name
            fn.mod = self.modof(s2)
            cur = s2.frame(s2.cur)
            fn.cls = cur.get("__class__")
            fn.defaults = vs[: len(ds)]
            it = iter(vs[len(ds):])
            fn.kwdefaults = [next(it) if k is not None else None for k in ks]
            fn.parent = cur["__parent__"] if cur.get("__isclass__") else s2.cur
            q = cur.get("__qual__")
            fn.qual = (q + "." if q else "") + name
            fn.captures = any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp)) for x in ast.walk(node) if x is not node)
            fn.isgen = _isgen(node)
            fn.args = a
            self.funcs.append(fn)
            key = (id(node), fn.parent, tuple(fn.defaults))
            if key in self.fcache:
                fid = self.fcache[key]
                self.funcs.pop()
            else:
                fid = len(self.funcs) - 1
                self.fcache[key] = fid
            res.append((s2, mk("func", fn.qual, fid)))
        return res

    def s_ClassDef(self, s, st):
        bases = []
        for bx in s.bases:
            bases.append(self.ev(bx, st)[0][1])
        mod = self.modof(st)
        q = st.frame(st.cur).get("__qual__")
        cid = f"{mod}.{(q + '.') if q else ''}{s.name}"
        c = Cls()
        c.cid, c.name, c.mod, c.bases, c.node, c.attrs, c.order = cid, s.name, mod, bases, s, {}, []
        self.classes[cid] = c
        fid = "c:" + cid
        parent = st.cur
        st.frames[fid] = {"__parent__": parent, "__class__": cid, "__isclass__": True, "__qual__": (q + "." if q else "") + s.name, "__mod__": mod}
        st.own.add(("f", fid))
        saved = st.cur
        st.cur = fid
        outs = self.block(s.body, st)
        st2 = outs[0][1]
        if st2 is not st:
            self.adopt(st, st2)
        st.cur = saved
        enum = any(x.op == "ext" and x.a[0].split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum") for x in bases) or any(
            x.op == "cls" and self.is_enum(x.a[0]) for x in bases
        )
        for k, v in st.frames[fid].items():
            if k.startswith("__") and k.endswith("__") and k in ("__parent__", "__class__", "__isclass__", "__qual__", "__mod__"):
                continue
            if enum and not k.startswith("_") and v.op not in ("func", "property"):
                c.attrs[k] = mk("enum", cid, k, v)
                c.order.append(k)
            else:
                c.attrs[k] = v
                c.order.append(k)
        if self.loading:
            for v in c.attrs.values():
                if v.op == "ref":
                    st.obj(v).owner = "static"
        v = mk("cls", cid)
        for d in s.decorator_list:
            dv = self.ev(d, st)[0][1]
            if dv.op == "ext" and dv.a[0].split(".")[-1] == "total_ordering":
                continue
            nm = _dec_name(dv)
            if nm.split(".")[-1] == "dataclass":
                raise Unsupported("dataclass")
        self.bind(st, s.name, v)
        return [("next", st, NONE)]

    def is_enum(self, cid):
        return any(x.startswith("!") and x.split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum") for x in self.mro(cid))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, quiet=False):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = None
            if is_const(v) and not isinstance(cval(v), (str, bytes, tuple)):
                self.throw(st, mk("exc", "TypeError"))
                return []
            c = self.iterable(st, v)
            ex = exact(c)
            if ex is not None:
                if not stars and len(ex) != n:
                    self.throw(st, mk("exc", "ValueError"))
                    return []
                if stars:
                    i = stars[0]
                    k = len(ex) - (n - 1)
                    vals = ex[:i] + [self.newlist(st, seq("list", [one(x) for x in ex[i:i + k]]))] + ex[i + k:]
                else:
                    vals = ex
            else:
                if stars:
                    i = stars[0]
                    vals = [item(c, const(j)) for j in range(i)]
                    after = n - 1 - i
                    vals.append(self.newlist(st, slice_of(c, const(i), const(-after) if after else NONE, NONE)))
                    vals += [item(c, const(-j)) for j in range(after, 0, -1)]
                else:
                    vals = [item(c, const(j)) for j in range(n)]
                    st.fact(mk("unpacked", c, const(n)))
            cur = [st]
            for e, x in zip(t.elts, vals):
                e = e.value if isinstance(e, ast.Starred) else e
                cur = [s3 for s2 in cur for s3 in self.assign(e, x, s2)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, st):
                out += self.setattr(s2, o, t.attr, v, quiet)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, (o, i) in self.evs([t.value, t.slice], st):
                # arrays held by plain terms become heap objects when first written
                if o.op not in ("ref", "sym", "attr", "item", "seq") and isinstance(t.value, ast.Name):
                    o2 = s2.alloc(Obj("arr", content=o, site=self.site()))
                    self.bind(s2, t.value.id, o2)
                    o = o2
                out += self.setitem(s2, o, i, v, quiet)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise Unsupported(f"assignment target {type(t).__name__}")

    def setattr(self, st, o, name, v, quiet=False):
        if o.op == "ref":
            ob = st.obj(o)
            if ob.kind == "inst":
                p = self.clsattr(st, ob.cls, name)
                if p is not None and p.op == "property" and p.a[1] is not None:
                    return [s2 for s2, _ in self.call(st, p.a[1], [o, v], {})]
                if not quiet:
                    self.emit(st, "attr", o, name, v)
                st.obj(o, True).attrs[name] = v
                return [st]
            self.emit(st, "attr", o, name, v)
            return [st]
        if o.op == "cls":
            self.emit(st, "clsattr", o, name, v)
            st.over[("k", o, name)] = v
            return [st]
        if o.op == "module":
            self.emit(st, "global", o, name, v)
            st.setvar("m:" + o.a[0], name, v)
            return [st]
        cs = self.classes_of(st, o)
        if cs:
            p = self.clsattr(st, cs[0], name)
            if p is not None and p.op == "property" and p.a[1] is not None:
                return [s2 for s2, _ in self.call(st, p.a[1], [o, v], {})]
        self.emit(st, "attr", o, name, v, tuple(cs or ()))
        st.over[("a", o, name)] = v
        return [st]

    def setitem(self, st, o, i, v, quiet=False):
        if i.op == "ref":
            i = self.snap(st, i)
        k = self.kindof(st, o)
        c = self.content(st, o)
        if k == "dict":
            return self.dict_set(st, o, i, v)
        if k == "arr" or k is None or k == "list" or True:
            if i.op == "sl" and k == "list" and i.a[2] is NONE:
                pre = self.slice(st, c, NONE, i.a[0] if i.a[0] is not NONE else ZERO, NONE)
                post = self.slice(st, c, i.a[1], NONE, NONE) if i.a[1] is not NONE else seq("list", [])
                mid = self.iterable(st, v)
                whole = i.a[0] is not NONE and i.a[1] is not NONE
                if pre.op == "seq" and post.op == "seq" and (not whole or decide(st, le(i.a[0], i.a[1]), self)):
                    self.set_content(st, o, seq("list", list(pre.a[1]) + [star(mid)] + list(post.a[1])), "setitem", i, mid)
                    return [st]
            val = v if k == "list" and i.op != "sl" else self.snap(st, v)
            nc = self.store(st, c, i, val, k)
            self.set_content(st, o, nc, "setitem", i, val)
        return [st]

    def store(self, st, c, i, v, k):
        if c.op == "seq":
            segs = list(c.a[1])
            if is_const(i) and isinstance(cval(i), int):
                j = cval(i)
                if j < 0 and -j <= len(segs) and all(x.op == "one" for x in segs[j:]):
                    segs[j] = one(v)
                    return seq(c.a[0], segs)
                if 0 <= j < len(segs) and all(x.op == "one" for x in segs[: j + 1]):
                    segs[j] = one(v)
                    return seq(c.a[0], segs)
            # position of a `one` segment
            off = ZERO
            for n, g in enumerate(segs):
                if g.op == "one" and decide(st, eq(off, i), self):
                    segs[n] = one(v)
                    return seq(c.a[0], segs)
                off = add(off, len_of(seq("list", [g])))
            # split a map segment at i
            off = ZERO
            for n, g in enumerate(segs):
                ln = len_of(seq("list", [g]))
                if g.op == "map" and decide(st, le(off, i), self) and decide(st, lt(i, add(off, ln)), self):
                    K, N, cases = g.a
                    if all(not f and len(x) == 1 and x[0].op == "one" for f, x in cases):
                        e = cases[0][1][0].a[0]
                        r = sub(i, off)
                        k1, k2 = fresh(), fresh()
                        a1 = mapseg(k1, r, [((), (one(subst(e, {K: k1})),))])
                        rest = sub(sub(N, r), ONE)
                        a2 = mapseg(k2, rest, [((), (one(subst(e, {K: add(add(r, ONE), k2)})),))])
                        new = ([a1] if not decide(st, eq(r, ZERO), self) else []) + [one(v)] + ([a2] if not decide(st, eq(rest, ZERO), self) else [])
                        segs[n:n + 1] = new
                        return seq(c.a[0], segs)
                off = add(off, ln)
        if c.op == "store" and c.a[1] is i:
            return mk("store", c.a[0], i, v)
        return mk("store", c, i, v)

    # dicts ------------------------------------------------------------
    def keyeq(self, st, a, b):
        if texts.istext(a) and texts.istext(b):
            r = texts.equals(a, b)
            if r is not None:
                return r
        return eq(a, b)

    def dict_set(self, st, o, k, v):
        c = self.content(st, o)
        if c.op != "seq":
            self.set_content(st, o, mk("store", c, k, v), "setitem", k, v)
            return [st]
        segs = list(c.a[1])
        for n, g in enumerate(segs):
            if g.op == "one" and g.a[0].op == "kv":
                r = decide(st, self.keyeq(st, g.a[0].a[0], k), self)
                if r:
                    segs[n] = one(mk("kv", g.a[0].a[0], v))
                    self.set_content(st, o, seq("dict", segs), "setitem", k, v)
                    return [st]
        segs.append(one(mk("kv", k, v)))
        self.set_content(st, o, seq("dict", segs), "setitem", k, v)
        return [st]

    def dict_get(self, st, o, k):
        """[(state, value or None)]"""
        c = self.content(st, o)
        if c.op != "seq":
            return [(st, item(c, k))]
        segs = list(c.a[1])
        unknown = []
        for g in reversed(segs):
            if g.op == "one" and g.a[0].op == "kv":
                r = decide(st, self.keyeq(st, g.a[0].a[0], k), self)
                if r:
                    if unknown:
                        break
                    return [(st, g.a[0].a[1])]
                if r is None:
                    unknown.append(g)
            else:
                unknown.append(g)
        if not unknown:
            return [(st, None)]
        if len(unknown) <= 12 and all(g.op == "one" and g.a[0].op == "kv" for g in segs):
            # look the key up entry by entry
            out = []
            cur = st
            for g in reversed(segs):
                nxt = None
                for s2, v in self.branch(cur, self.keyeq(cur, g.a[0].a[0], k)):
                    if v:
                        out.append((s2, g.a[0].a[1]))
                    else:
                        nxt = s2
                if nxt is None:
                    return out
                cur = nxt
            out.append((cur, None))
            return out
        return [(st, mk("lookup", c, k))]

    # ------------------------------------------------------------ loops
    def iterable(self, st, v):
        """elements of v as a sequence term"""
        if self.nd is not None:
            r = self.nd.iterable(self, st, v)
            if r is not None:
                return r
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "set" and self.setrev:
                return self.reversed_set(st, self.snap_shallow(st, o.content))
            if o.kind in ("list", "tuple", "set", "range", "gen"):
                return self.snap_shallow(st, o.content)
            if o.kind == "dict":
                return self.dict_keys(st, v)
            if o.kind == "iter":
                pos = o.attrs["pos"]
                src = self.iterable(st, o.attrs["src"])
                if exact(src) is not None:
                    st.obj(v, True).attrs["pos"] = len_of(src)  # used up
                return slice_of(src, pos if pos is not ZERO else NONE, NONE, NONE)
            if o.kind == "arr":
                return o.content
            if o.kind == "inst":
                m = self.clsattr(st, o.cls, "__iter__")
                if m is not None:
                    r = self.call(st, m, [v], {})
                    if len(r) == 1 and r[0][0] is st:
                        return self.iterable(st, r[0][1])
                raise Unsupported("iteration over an object")
            return v
        if v.op == "cls" and self.is_enum(v.a[0]):
            return seq("list", [one(self.classes[v.a[0]].attrs[k]) for k in self.classes[v.a[0]].order])
        if v.op == "const" and v.a[0] == "str":
            return v
        c = st.cont(v)
        return self.snap_shallow(st, c) if c.op == "seq" else c

    def reversed_set(self, st, c):
        """the elements of a set in another order, where the order is not fixed by their values"""
        xs = exact(c) if c.op == "seq" else None
        if not xs or all(self.tag(st, x) in ("int", "bool", "float", "complex") for x in xs):
            return c
        return mk("seq", c.a[0], tuple(reversed(c.a[1])))

    def dict_keys(self, st, v):
        c = self.content(st, v)
        if c.op == "seq":
            return seq("list", [_mapone(g, lambda e: e.a[0] if e.op == "kv" else item(e, ZERO)) for g in c.a[1]])
        return mk("keys", c)

    def segments(self, st, c):
        """iteration space: [(N, f)] with N None for a single element"""
        ex = exact(c)
        if c.op == "const" and c.a[0] == "str" and ex is None:
            return [("sym", len_of(c), lambda K: item(c, K), None)]
        if ex is not None:
            return [("one", x) for x in ex]
        if c.op == "seq":
            out = []
            for g in c.a[1]:
                if g.op == "one":
                    out.append(("one", g.a[0]))
                elif g.op == "star":
                    out += self.segments(st, self.iterable(st, g.a[0]))
                elif g.op == "map":
                    bv, N, cases = g.a
                    if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == "one":
                        e = cases[0][1][0].a[0]
                        out.append(("sym", N, (lambda K, e=e, bv=bv: subst(e, {bv: K})), None))
                    else:
                        out.append(("cases", N, bv, cases))
                else:
                    raise Unsupported("iteration space")
            return out
        if c.op == "rev" and c.a[0].op != "seq":
            return [("sym", len_of(c), lambda K: item(c, K), None)]
        if c.op == "call" and callname(c) in ("itertools.product",):
            pass
        return [("sym", len_of(c), lambda K: item(c, K), None)]

    def iterate(self, st, c, body):
        """run body(state, element) for each element; returns outcomes ('next' = exhausted)"""
        outs = []
        cur = [st]
        for sg in self.segments(st, c):
            nxt = []
            for s in cur:
                if sg[0] == "one":
                    os_ = body(s, sg[1])
                elif sg[0] == "sym":
                    os_ = self.symloop(s, sg[1], sg[2], lambda s2, e, K: body(s2, e))
                else:
                    _, N, bv, cases = sg

                    def cbody(s2, e, K, cases=cases, bv=bv):
                        res = []
                        live = [s2]
                        for f, g in cases:
                            nl = []
                            for s3 in live:
                                c2 = [subst(x, {bv: K}) for x in f]
                                for s4, v in self.branch(s3, mk("and", *c2)) if c2 else [(s3, True)]:
                                    if not v:
                                        nl.append(s4)
                                        continue
                                    seqt = seq("list", [subst(x, {bv: K}) for x in g])
                                    res += self.iterate(s4, seqt, body)
                            live = nl
                        return res

                    os_ = self.symloop(s, N, lambda K: None, cbody)
                for o in os_:
                    if o[0] in ("next", "continue"):
                        nxt.append(("next", o[1], NONE))
                    else:
                        outs.append(o)
            cur = [o[1] for o in (self.merge(nxt) if len(nxt) > 1 else nxt)]
            if not cur:
                break
        return outs + [("next", s, NONE) for s in cur]

    def cursor(self, st, it):
        """the iterator object a loop over it advances, if its source is completely known"""
        if it.op == "ref" and st.obj(it).kind == "inst":
            m = self.clsattr(st, st.obj(it).cls, "__iter__")
            r = self.call(st, m, [it], {}) if m is not None else []
            if len(r) == 1 and r[0][1].op == "ref" and st.frames and r[0][0].obj(r[0][1]).kind == "iter":
                st, it = r[0]
        if it.op == "ref" and st.obj(it).kind == "iter":
            o = st.obj(it)
            if is_num(o.attrs["pos"]) and exact(self.snap(st, self.iterable_quiet(st, o.attrs["src"]))) is not None:
                return st, it
        return st, None

    def iterable_quiet(self, st, v):
        return v if v.op != "ref" else self.iterable(st, v) if st.obj(v).kind != "iter" else NONE

    def iterate_cursor(self, st, it, body):
        outs, cur = [], [st]
        while cur:
            nxt = []
            for s in cur:
                o = s.obj(it)
                xs = exact(self.snap(s, self.iterable_quiet(s, o.attrs["src"])))
                pos = o.attrs["pos"]
                if xs is None or not is_num(pos):
                    raise Unsupported("iterator position")
                if cval(pos) >= len(xs):
                    outs.append(("next", s, NONE))
                    continue
                s.obj(it, True).attrs["pos"] = const(cval(pos) + 1)
                for r in body(s, xs[cval(pos)]):
                    if r[0] in ("next", "continue"):
                        nxt.append(("next", r[1], NONE))
                    else:
                        outs.append(r)
            cur = [o[1] for o in (self.merge(nxt) if len(nxt) > 1 else nxt)]
        return outs

    def s_For(self, s, st):
        outs = []
        for s2, it in self.ev(s.iter, st):
            self.line = s.lineno
            if self.kindof(s2, it) == "set":
                self.emit(s2, "setiter", it)
            def body(s3, e):
                res = []
                for s4 in self.assign(s.target, e, s3):
                    res += self.block(s.body, s4)
                return res

            s2, cursor = self.cursor(s2, it)
            if cursor is not None:
                rounds = self.iterate_cursor(s2, cursor, body)
            else:
                rounds = self.iterate(s2, self.iterable(s2, it), body)
            for o in rounds:
                if o[0] == "break":
                    outs.append(("next", o[1], NONE))
                elif o[0] == "next":
                    outs += self.block(s.orelse, o[1]) if s.orelse else [o]
                else:
                    outs.append(o)
        return outs

    def s_While(self, s, st):
        # unroll when every test is decided and the number of rounds is small
        ssink, self.sink = self.sink, []
        outs = self.unroll(s, st.copy())
        new, self.sink = self.sink, ssink
        if outs is not None:
            self.sink += new
            return outs
        outs = []
        def body(s2, e, K):
            res = []
            for s3, v in self.cond(s.test, s2):
                if not v:
                    res.append(("wend", s3, NONE))
                else:
                    res += self.block(s.body, s3)
            return res

        for c in [st]:
            for o in self.symloop(c, None, lambda K: None, body):
                if o[0] == "break":
                    outs.append(("next", o[1], NONE))
                elif o[0] in ("next", "wend"):
                    outs += self.block(s.orelse, o[1]) if s.orelse else [("next", o[1], NONE)]
                else:
                    outs.append(o)
        return outs

    def unroll(self, s, st):
        outs, cur = [], [st]
        for n in range(max(8, TM.MANY // 4)):
            nxt = []
            for c in cur:
                vs = self.cond(s.test, c)
                if len(vs) != 1:
                    return None
                (c2, v), = vs
                if not v:
                    outs += self.block(s.orelse, c2) if s.orelse else [("next", c2, NONE)]
                    continue
                for o in self.block(s.body, c2):
                    if o[0] in ("next", "continue"):
                        nxt.append(o[1])
                    elif o[0] == "break":
                        outs.append(("next", o[1], NONE))
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                return outs
            if len(cur) > 1:
                return None
        return None

    # locations that a loop may change
    def locs(self, st):
        out = {}
        for fid, f in st.frames.items():
            for n, v in f.items():
                if isinstance(v, T):
                    out[("v", fid, n)] = v
        for oid, o in st.heap.items():
            for n, v in o.attrs.items():
                out[("a", oid, n)] = v
            if o.content is not None:
                ks = oid not in self.nodict and dictkeys(o)
                if ks:
                    # a dictionary with known keys is a record: one location per key
                    for k, v in ks:
                        out[("d", oid, k)] = v
                else:
                    out[("c", oid)] = o.content
        for k, v in st.over.items():
            if k[0] != "w":
                out[("o",) + k] = v
        return out

    nodict = frozenset()

    def setloc(self, st, loc, v):
        if loc[0] == "v":
            st.setvar(loc[1], loc[2], v)
        elif loc[0] == "a":
            st.obj(mk("ref", loc[1]), True).attrs[loc[2]] = v
        elif loc[0] == "c":
            st.obj(mk("ref", loc[1]), True).content = v
        elif loc[0] == "d":
            o = st.obj(mk("ref", loc[1]), True)
            o.content = mk("seq", "dict", tuple(one(mk("kv", g.a[0].a[0], v)) if g.a[0].a[0] is loc[2] else g for g in o.content.a[1]))
        else:
            st.over[loc[1:]] = v

    def getloc(self, st, loc):
        if loc[0] == "v":
            return st.frames[loc[1]].get(loc[2])
        if loc[0] == "a":
            return st.heap[loc[1]].attrs.get(loc[2])
        if loc[0] == "c":
            return st.heap[loc[1]].content
        if loc[0] == "d":
            for k, v in dictkeys(st.heap[loc[1]]) or ():
                if k is loc[2]:
                    return v
            return None
        return st.over.get(loc[1:])

    def symloop(self, st, N, elem, body, peel=0, unsw=0, split=True):
        if N is not None:
            if decide(st, le0(N), self):
                return [("next", st, NONE)]
            if is_const(N) and isinstance(cval(N), int) and cval(N) <= TM.MANY:
                outs, cur = [], [st]
                for i in range(cval(N)):
                    nxt = []
                    for s in cur:
                        for o in body(s, elem(const(i)), const(i)):
                            (nxt.append(o[1]) if o[0] in ("next", "continue") else outs.append(o))
                    cur = nxt
                return outs + [("next", s, NONE) for s in cur]
            if decide(st, eq(N, ONE), self):
                return [("next" if o[0] == "continue" else o[0], o[1], o[2]) for o in body(st, elem(ZERO), ZERO)]
        base = st
        bl = self.locs(base)
        lo = base.noid
        carried, solved, lastv = {}, {}, {}
        site = self.site()
        file, line, stack = self.file, self.line, self.stack
        for rnd in range(16):
            h = base.copy()
            K = mk("idx", f"k{h.nk}@{len(h.loops)}")
            h.nk += 1
            h.fact(le0(neg(K)))
            if N is not None:
                h.fact(lt(K, N))
            h.loops = h.loops + ((K, N if N is not None else K, site),)
            for loc, c in carried.items():
                v = solved.get(loc, c)
                self.setloc(h, loc, v)
            start = {loc: self.getloc(h, loc) for loc in bl}
            f0 = dict(h.facts)
            ssink, self.sink = self.sink, []
            outs = body(h, elem(K), K)
            outs = list(outs) + [("raise", s, e) for s, e in self.sink]
            self.sink = ssink
            nxt = self.merge([("next", s, NONE) for k, s, v in outs if k in ("next", "continue")])
            nxt = [s for _, s, _ in nxt]
            exits = [(k, s, v) for k, s, v in outs if k not in ("next", "continue")]
            new = {}
            recs = {}
            for loc in bl:
                if loc[0] == "d":
                    recs.setdefault(loc[1], []).append(loc[2])
            redo = {oid for oid, ks in recs.items() for s in nxt if [k for k, v in dictkeys(s.heap[oid]) or ()] != ks}
            if redo:
                self.nodict = self.nodict | redo
                return self.symloop(base, N, elem, body, peel, unsw, split)
            for s in nxt:
                for loc in bl:
                    v = self.getloc(s, loc)
                    if loc not in carried and v is not bl[loc]:
                        new[loc] = True
                for k2 in s.over:
                    loc = ("o",) + k2
                    if k2[0] != "w" and loc not in bl and loc not in carried:
                        # first write of a symbolic object's field inside the loop
                        dflt = mk("attr", k2[1], k2[2]) if k2[0] == "a" else (k2[1] if k2[0] == "c" else NONE)
                        if syms(dflt) & {K}:
                            continue
                        bl[loc] = dflt
                        base.over[k2] = dflt
                        new[loc] = True
            if new:
                for loc in new:
                    carried[loc] = mk("carry", f"c{len(base.loops)}", (show(loc[-1]) if loc[0] == "d" else str(loc[-1])) if loc[0] != "c" else f"o{loc[1]}", len(carried))
                    init = bl[loc]
                    g = None
                    if init is not None:
                        k = None
                        if loc[0] == "c":
                            kd = base.heap[loc[1]].kind
                            if kd in ("list", "dict", "set", "tuple"):
                                carried[loc] = seq(kd, [star(carried[loc])])
                continue
            csyms = {}
            for loc, c in carried.items():
                s = c.a[1][0].a[0] if c.op == "seq" else c
                csyms[s] = loc
            unsolved = {s: l for s, l in csyms.items() if l not in solved}

            def newfacts(s):
                return [f for f in s.facts if f not in f0]

            # ---- while loops whose trip count is visible
            if N is None and not unsolved:
                for k, s, v in exits:
                    if k == "wend":
                        cond = [f for f in newfacts(s)]
                        n = self.trip(K, cond, nxt, newfacts)
                        if n is not None:
                            return self.retry_counted(base, n, elem, body, peel, unsw)
                        break
            # ---- unswitching
            if unsw < 5:
                inv = None
                for s in nxt + [x[1] for x in exits]:
                    for f in newfacts(s):
                        if f.op in ("forall", "raised", "unpacked"):
                            continue
                        fs = syms(f)
                        if K in fs or any(x.op == "carry" for x in fs) or any(x.op == "idx" and x not in self.idxs(base) for x in fs):
                            continue
                        if any(x.op == "ref" and x.a[0] >= lo for x in fs):
                            continue
                        if decide(base, f, self) is None:
                            inv = f
                            break
                    if inv is not None:
                        break
                if inv is not None:
                    res = []
                    for s2, v in self.branch(base.copy(), inv):
                        res += self.symloop(s2, N, elem, body, peel, unsw + 1, split)
                    return res
            # ---- index-set splitting
            if split and N is not None and len(nxt) + len(exits) > 1:
                ts = self.thresholds(base, K, N, nxt, exits, newfacts)
                if ts:
                    return self.split(base, N, elem, body, ts)
            # ---- solve
            progress = False
            upd = {}
            common = None
            for s in nxt:
                nf = set(newfacts(s))
                common = nf if common is None else (common & nf)
            common = common or set()
            for s_, loc in list(unsolved.items()):
                init = bl[loc]
                c = carried[loc]
                us = [(tuple(f for f in newfacts(s) if f not in common), self.freeze(s, self.getloc(s, loc), lo)) for s in nxt]
                if not us:
                    solved[loc] = init
                    progress = True
                    continue
                r = self.solve(base, K, N, c, s_, init, us, unsolved, nxt, exits, newfacts, common)
                if r is not None:
                    kind, v = r
                    if kind == "last":
                        lastv[loc] = v
                        unsolved.pop(s_)
                    else:
                        solved[loc] = v
                        progress = True
            unsolved = {s: l for s, l in csyms.items() if l not in solved and l not in lastv}
            if progress:
                lastv = {}
                continue
            if unsolved:
                # peel the first iteration: flags and "first time" idioms become stable
                if peel < 2 and N is not None and self.worth_peeling(unsolved, nxt, exits, bl, newfacts, csyms):
                    return self.peel(base, N, elem, body, peel, unsw)
                if peel < 2 and N is None and self.worth_peeling(unsolved, nxt, exits, bl, newfacts, csyms):
                    res = []
                    for o in body(base.copy(), elem(ZERO), ZERO):
                        if o[0] in ("next", "continue"):
                            res += self.symloop(o[1], None, elem, body, peel + 1, unsw)
                        else:
                            res.append(o)
                    return res
                staged = {}
                for s_, loc in unsolved.items():
                    us = merge_cases([(tuple(f for f in newfacts(s) if f not in common), self.freeze(s, self.getloc(s, loc), lo)) for s in nxt])
                    others = set(unsolved) - {s_}
                    clean = all(not (syms(u) & others) and not any(syms(x) & others for x in f) for f, u in us)
                    staged[s_] = (us, clean and bl[loc] is not None and not any(x.op == "ref" and x.a[0] >= lo for f, u in us for x in syms(u)))
                some = any(ok for us, ok in staged.values())
                for s_, loc in unsolved.items():
                    init = bl[loc]
                    us, clean = staged[s_]
                    if some and not clean:
                        continue
                    if clean:
                        wrap = carried[loc]
                        if wrap.op == "seq":
                            us = [(f, subst_seq(u, s_)) for f, u in us]
                        fv = fold(K, s_, K, init if init.op != "seq" or wrap.op != "seq" else init, us)
                        fv = _unshadow(fv, K, s_, K, init, us)
                        solved[loc] = seq(wrap.a[0], [star(fv)]) if wrap.op == "seq" else fv
                    else:
                        if DEBUGTOP:
                            print("TOP", loc, clean, show(init)[:60], len(us), [(" & ".join(show(x)[:200] for x in f), show(u)[:200]) for f, u in us[:2]])
                        t_ = mk("top", f"loop {site} {loc[-1]}", K)
                        solved[loc] = seq(carried[loc].a[0], [star(t_)]) if carried[loc].op == "seq" else t_
                continue
            # ---- finished: build the outcomes
            res = []
            evs = []
            for s in nxt:
                e = s.ev
                lst = []
                while e is not base.ev and e is not None:
                    lst.append(e)
                    e = e[0]
                evs.append([x[1] for x in reversed(lst)])
            body_events = []
            seen = set()
            for l in evs:
                for e in l:
                    if id(e) not in seen:
                        seen.add(id(e))
                        body_events.append(e)
            wild = self.wild(base, nxt, bl, K)
            if N is not None:
                fin = base.copy()
                self.widen(fin, wild)
                fin.nk = max([fin.nk + 1] + [s.nk for s in nxt])
                fin.noid = max([fin.noid] + [s.noid for s in nxt])
                for e in body_events:
                    fin.ev = (fin.ev, e)
                for loc in carried:
                    if loc in solved:
                        v = solved[loc]
                        v = self.at(base, v, K, N)
                    elif loc in lastv:
                        v = self.at(base, lastv[loc], K, sub(N, ONE))
                    else:
                        v = bl[loc]
                    if v is None:
                        continue
                    self.setloc(fin, loc, v)
                # names first bound in the body keep their last value
                if nxt:
                    for fid, f in nxt[0].frames.items():
                        if fid in base.frames:
                            for n_, v in f.items():
                                if isinstance(v, T) and n_ not in base.frames[fid]:
                                    vs = {self.freeze(s, s.frames[fid][n_], lo) for s in nxt if n_ in s.frames.get(fid, {})}
                                    if len(vs) == 1:
                                        v = vs.pop()
                                        if not any(x.op == "ref" and x.a[0] >= lo for x in syms(v)):
                                            fin.setvar(fid, n_, self.at(base, v, K, sub(N, ONE)))
                                            continue
                                    fin.setvar(fid, n_, mk("top", f"last {n_}", N))
                if exits or len(nxt):
                    fa = [f for f in common if K in syms(f) and not any(x.op in ("carry",) or (x.op == "ref" and x.a[0] >= lo) for x in syms(f)) and f.op != "raised"]
                    fa = [f for f in fa if f.op in ("le0", "eq0", "eq", "not", "isinst", "in", "truth", "typeis", "lt0", "forall")]
                    if fa and not any(x.op == "idx" and x is not K and x not in self.idxs(base) for f in fa for x in syms(f)):
                        fin.fact(forall(K, N, fa))
                if nxt or decide(base, le0(N), self) is not False:
                    if not nxt:
                        fin.fact(le0(N))
                    res.append(("next", fin, NONE))
            for k, s, v in exits:
                # events of the completed earlier iterations come first
                own = []
                e = s.ev
                while e is not base.ev and e is not None:
                    own.append(e[1])
                    e = e[0]
                ch = base.ev
                if nxt:
                    for e in body_events:
                        if e not in own:
                            ch = (ch, e)
                for e in reversed(own):
                    ch = (ch, e)
                s.ev = ch
                self.widen(s, wild, keep=K)
                s.loops = base.loops
                s.nk = max(s.nk, base.nk + 1)
                if nxt:
                    fa = [f for f in common if K in syms(f) and f.op in ("le0", "eq0", "eq", "not", "isinst", "in", "truth", "typeis")]
                    fa = [f for f in fa if not any(x.op == "carry" or (x.op == "idx" and x is not K and x not in self.idxs(base)) or (x.op == "ref" and x.a[0] >= lo) for x in syms(f))]
                    if fa:
                        s.fact(forall(K, K, [f for f in fa]) if False else _forall_upto(K, fa))
                res.append((k, s, v))
            return res
        raise Unsupported(f"loop not summarised at {site}")

    def wild(self, base, nxt, bl, K):
        """fields that the iterations write on objects selected by the loop variable"""
        out = set()
        inner = set(self.idxs(base))
        for s in nxt:
            for k2, v in s.over.items():
                if base.over.get(k2) is v:
                    continue
                if k2[0] == "w":
                    out.add(k2)
                elif k2[0] in ("a", "c") and ("o",) + k2 not in bl and any(x.op == "idx" and x not in inner for x in syms(k2[1])):
                    dflt = mk("attr", k2[1], k2[2]) if k2[0] == "a" else k2[1]
                    if v is dflt:
                        continue
                    if k2[0] == "a":
                        out.add(("w", "a", k2[2]))
                    elif k2[1].op == "attr":
                        out.add(("w", "c", k2[1].a[1]))
        return out

    def widen(self, st, wild, keep=None):
        for w in wild:
            st.over[w] = TRUE
            for k2 in list(st.over):
                if w[1] == "a" and k2[0] == "a" and k2[2] == w[2] or w[1] == "c" and k2[0] == "c" and k2[1].op == "attr" and k2[1].a[1] == w[2]:
                    if keep is not None and keep in syms(k2[1]):
                        continue
                    st.over[k2] = mk("top", "field rewritten in a loop", k2[1])

    def idxs(self, st):
        return [k for k, n, s in st.loops] + [x for f in st.facts for x in syms(f) if x.op == "idx"]

    def at(self, st, v, K, n):
        return subst(v, {K: n})

    def trip(self, K, cond, nxt, newfacts):
        """trip count from the facts of the iterations that go on"""
        cands = None
        for s in nxt:
            f = {x for x in newfacts(s)}
            cands = f if cands is None else cands & f
        for f in cands or ():
            if nott(f) not in cond:
                continue
            if f.op == "le0":
                p = f.a[0]
                d = TM._poly(p)
                m = ((K, 1),)
                if d.get(m) == 1:
                    rest = sub(p, K)
                    if K not in syms(rest):
                        # K + rest <= 0  for all completed rounds
                        return add(neg(rest), ONE)
                q = sub(ONE, p)  # p <= 0  iff  q >= 1
                if q.op == "len" and q.a[0].op == "slice" and q.a[0].a[3] is NONE:
                    X, lo, hi = q.a[0].a[:3]
                    if K not in syms(X) and (lo is K and hi is NONE or lo is NONE and add(hi, K) is len_of(X)):
                        return len_of(X)  # one element is taken off in every round
            if f.op == "not" and f.a[0].op == "eq0":
                p = f.a[0].a[0]
                d = TM._poly(p)
                c = d.get(((K, 1),))
                if c in (1, -1):
                    rest = sub(p, mul(const(c), K))
                    if K not in syms(rest):
                        return neg(rest) if c == 1 else rest
        return None

    def retry_counted(self, base, n, elem, body, peel, unsw):
        out = []

        def body2(s2, e, K):
            return [o for o in body(s2, e, K)]

        for o in self.symloop(base.copy(), n, elem, body2, peel, unsw):
            out.append(o)
        return out

    def thresholds(self, st, K, N, nxt, exits, newfacts):
        ts = []
        for s in nxt + [x[1] for x in exits]:
            for f in newfacts(s):
                g = f.a[0] if f.op == "not" else f
                if g.op not in ("le0", "eq0"):
                    continue
                p = g.a[0]
                c = TM._poly(p).get(((K, 1),))
                if c not in (1, -1):
                    continue
                rest = sub(p, mul(const(c), K))
                if K in syms(rest) or any(x.op == "carry" for x in syms(rest)) or any(x.op == "idx" and x not in self.idxs(st) for x in syms(rest)):
                    continue
                z = neg(rest) if c == 1 else rest  # K == z
                if g.op == "eq0":
                    ts += [z, add(z, ONE)]
                elif c == 1:
                    ts.append(add(z, ONE))
                else:
                    ts.append(z)
        out = []
        for t in ts:
            if t in out:
                continue
            if decide(st, le0(t), self):
                continue
            if decide(st, le(N, t), self):
                continue
            # a threshold that is not provably inside the range is left alone
            if not (decide(st, le(ZERO, t), self) and decide(st, le(t, N), self)):
                continue
            out.append(t)
        # provable order
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                if decide(st, le(out[j], out[i]), self) and not decide(st, le(out[i], out[j]), self):
                    out[i], out[j] = out[j], out[i]
        for i in range(len(out) - 1):
            if not decide(st, le(out[i], out[i + 1]), self):
                return None
        return out[:6]

    def split(self, base, N, elem, body, ts):
        pts = [ZERO] + ts + [N]
        outs, cur = [], [base.copy()]
        for a, z in zip(pts, pts[1:]):
            nxt = []
            for s in cur:
                if decide(s, le(z, a), self):
                    nxt.append(s)
                    continue
                for o in self.symloop(s, sub(z, a), (lambda K, a=a: elem(add(a, K))), (lambda s2, e, K, a=a: body(s2, e, add(a, K))), split=True):
                    (nxt.append(o[1]) if o[0] in ("next", "continue") else outs.append(o))
            cur = nxt
        return outs + [("next", s, NONE) for s in cur]

    def worth_peeling(self, unsolved, nxt, exits, bl, newfacts, csyms):
        for s_, loc in unsolved.items():
            init = bl[loc]
            if init is None:
                continue
            if all(u is s_ or isinstance(u, T) and is_num(sub(u, s_)) for u in (self.getloc(s, loc) for s in nxt)) and is_num(init) and any(
                self.getloc(s, loc) is not s_ for s in nxt
            ):
                continue  # a counter
            for s in nxt + [x[1] for x in exits]:
                if any(s_ in syms(f) for f in newfacts(s)):
                    if is_const(init) or init.op in ("seq", "call", "obj", "ref"):
                        return True
            us = [self.getloc(s, loc) for s in nxt]
            if us and all(u is us[0] and is_const(u) for u in us):
                return True
        return False

    def peel(self, base, N, elem, body, peel, unsw):
        res = []
        for s, v in self.branch(base.copy(), le0(N)):
            if v:
                res.append(("next", s, NONE))
                continue
            for o in body(s, elem(ZERO), ZERO):
                if o[0] in ("next", "continue"):
                    res += self.symloop(o[1], sub(N, ONE), (lambda K: elem(add(K, ONE))), (lambda s2, e, K: body(s2, e, add(K, ONE))), peel + 1, unsw)
                else:
                    res.append(o)
        return res

    def solve(self, base, K, N, c, s_, init, us, unsolved, nxt, exits, newfacts, common):
        vals = [u for f, u in us]
        if any(u is None for u in vals):
            return ("top", mk("top", "unbound"))
        if all(u is c for u in vals):
            return ("const", init)
        allf = [x for f, u in us for x in f]
        # sequences: content grows by appended segments
        if c.op == "seq":
            st0 = c.a[1][0]
            tails = []
            for f, u in us:
                if u.op == "seq" and u.a[1] and u.a[1][0] is st0:
                    tails.append((f, u.a[1][1:]))
                else:
                    tails = None
                    break
            if tails is not None:
                bad = set(unsolved)
                if any((syms(x) & bad) for f, g in tails for x in list(f) + list(g)):
                    return None
                return ("app", seq(c.a[0], list(init.a[1] if init.op == "seq" else [star(init)]) + self.appmap(K, tails)))
            # work lists
            if len(vals) == 1:
                u = vals[0]
                inner = st0.a[0]
                if u.op == "seq" and len(u.a[1]) == 1 and u.a[1][0].op == "star":
                    u = u.a[1][0].a[0]
                if u.op == "slice":
                    src = u.a[0]
                    if src.op == "seq" and src.a[1] == (st0,):
                        src = inner
                    if src is inner and u.a[1] is ONE and u.a[2] is NONE:
                        return ("pop0", seq(c.a[0], [star(slice_of(seqterm(init), K, NONE, NONE))]))
                    if src is inner and u.a[1] is NONE and u.a[2] is const(-1):
                        return ("pop", seq(c.a[0], [star(slice_of(seqterm(init), NONE, sub(len_of(init), K), NONE))]))
            # stores at the loop index
        core = c if c.op != "seq" else c.a[1][0].a[0]
        stores = []
        for f, u in us:
            if u is c:
                continue
            w = u
            if w.op == "seq" and len(w.a[1]) == 1 and w.a[1][0].op == "star":
                w = w.a[1][0].a[0]
            b_ = w.a[0] if w.op == "store" else None
            if b_ is not None and b_.op == "seq" and len(b_.a[1]) == 1 and b_.a[1][0].op == "star":
                b_ = b_.a[1][0].a[0]
            if w.op == "store" and b_ is core:
                stores.append((f, w.a[1], w.a[2]))
            else:
                stores = None
                break
        if stores:
            bad = set(unsolved) - {s_}
            if any(syms(x) & bad for f, i, v in stores for x in list(f) + [i, v]):
                return None
            # entries not written yet still hold the initial value
            ini = seqterm(init) if c.op == "seq" else init
            def early(x):
                def go(y):
                    if y.op == "item" and y.a[1] is K and (y.a[0] is core or (y.a[0].op == "seq" and y.a[0].a[1] == (star(core),))):
                        return item(ini, K)
                    if y.op == "len" and y.a[0] is core:
                        return len_of(ini)
                    return rebuild(y, go) if s_ in syms(y) else y
                return go(x)
            if all(i is K for f, i, v in stores):
                st2 = [(tuple(early(x) for x in f), i, early(v)) for f, i, v in stores]
            else:
                st2 = stores
            if not any(s_ in syms(x) for f, i, v in st2 for x in list(f) + [i, v]):
                r = maparr(K, K, ini, st2)
                r = _maparr_upto(K, ini, st2)
                return ("arr", seq(c.a[0], [star(r)]) if c.op == "seq" else r)
            return None
        # numbers
        if c.op == "carry" and init is not None and (TM._numeric(init) or (init.op == "sym" and init.a[1] in ("int", None))) and init.op not in ("const",) or (c.op == "carry" and init is not None and is_num(init)):
            ds = {sub(u, c) if u is not c else ZERO for u in vals}
            if len(ds) == 1:
                d = ds.pop()
                if not any(x.op == "carry" for x in syms(d)) and K not in syms(d) and not any(x.op == "ref" for x in syms(d)):
                    return ("ind", add(init, mul(K, d)))
        # last value
        anydep = any(s_ in syms(x) for s in nxt for x in newfacts(s)) or any(s_ in syms(x) for k, s, v in exits for x in newfacts(s))
        otherdep = False
        for s in nxt:
            for s2, l2 in unsolved.items():
                if s2 is not s_:
                    v = self.getloc(s, l2)
                    if v is not None and s_ in syms(v):
                        otherdep = True
            for loc, v in self.locs(s).items():
                pass
        if not anydep and not otherdep and not any(s_ in syms(u) for u in vals):
            if len(set(vals)) == 1 and not any(x.op == "ref" and x.a[0] >= base.noid for x in syms(vals[0])):
                return ("last", vals[0])
            if len(set(vals)) > 1:
                return ("last", mk("top", "last", K))
        return None

    def appmap(self, K, tails):
        """segments appended in rounds 0..K-1 (K free, as the upper bound)"""
        tails = [(f, g) for f, g in tails]
        if all(not g for f, g in tails):
            return []
        j = fresh()
        tt = [(tuple(subst(x, {K: j}) for x in f), tuple(subst(x, {K: j}) for x in g)) for f, g in tails]
        if len({g for f, g in tt}) == 1:
            tt = [((), tt[0][1])]
        return [mapseg(j, K, tt)]

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, st):
        res = [(st, [])]
        for e in exprs:
            nr = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nr.append((s2, vs + [v]))
            res = nr
        return res

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.site()}")
        if hasattr(e, "lineno"):
            self.line = e.lineno
        return m(e, st)

    def e_Constant(self, e, st):
        return [(st, const(e.value) if e.value is not Ellipsis else mk("ext", "..."))]

    def e_Name(self, e, st):
        return [(st, self.name(st, e.id))]

    def name(self, st, n):
        fid = st.cur
        first = True
        while fid is not None:
            f = st.frame(fid)
            if n in f and isinstance(f[n], T) and (first or not f.get("__isclass__") or fid == st.cur):
                if first and n in f.get("__globals__", ()):
                    break
                return f[n]
            first = False
            fid = f["__parent__"]
        mod = self.modof(st)
        if mod is not None:
            f = st.frames["m:" + mod]
            if n in f:
                return f[n]
        if n == "__class__":
            return NONE
        if n in ("__file__", "__name__"):
            return const(n)
        if hasattr(_bi, n) or n in ("reveal_type",):
            return b(n)
        return mk("top", f"name {n}")

    def cond(self, e, st):
        """[(state, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not v) for s, v in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, cur = [], [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for s2, v in self.cond(x, s):
                        if v == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out + [(s, isand) for s in cur]
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, self.truth(s, v))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, cur = [], [(st)]
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, tv in self.branch(s2, self.truth(s2, v)):
                        if tv == isand:
                            nxt.append(s3)
                        else:
                            # the value itself is the result
                            out.append((s3, v if not self.isbool(v) else const(tv)))
            cur = nxt
        return out

    def isbool(self, v):
        return v.op in ("le0", "eq0", "eq", "not", "isinst", "typeis", "in", "and", "or", "truth", "lt0", "hasattr", "all", "any")

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, nott(self.truth(s, v))))
            elif isinstance(e.op, ast.USub):
                out.append((s, neg(self.num(s, v))))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, mk("bin", "~", self.snap(s, v), NONE)))
        return out

    def num(self, st, v):
        if v.op == "ref":
            v = self.snap(st, v)
        return v

    def e_BinOp(self, e, st):
        out = []
        for s, (x, y) in self.evs([e.left, e.right], st):
            self.line = e.lineno
            out += self.binop(type(e.op).__name__, x, y, s)
        return out

    def binop(self, op, x, y, st, inplace=False):
        if self.nd is not None:
            r = self.nd.binop(self, st, op, x, y)
            if r is not None:
                return r
        kx, ky = self.kindof(st, x), self.kindof(st, y)
        seqk = ("list", "tuple")
        if op == "Add" and (kx in seqk or ky in seqk) and kx != "arr" and ky != "arr":
            cx, cy = self.iterable(st, x), self.iterable(st, y)
            k = kx if kx in seqk else ky
            c = seq(k, [star(cx), star(cy)])
            return [(st, self.newlist(st, c) if k == "list" else c)]
        if op == "Mult" and (kx in seqk or ky in seqk) and kx != "arr" and ky != "arr":
            s_, n = (x, y) if kx in seqk else (y, x)
            k = kx if kx in seqk else ky
            c = self.iterable(st, s_)
            if is_const(n) and isinstance(cval(n), int) and cval(n) <= 64:
                segs = [star(c)] * max(cval(n), 0)
                c2 = seq(k, segs)
            elif is_const(n):
                raise Unsupported("sequence repetition")
            else:
                K = fresh()
                segs = c.a[1] if c.op == "seq" else (star(c),)
                c2 = seq(k, [mapseg(K, n, [((), segs)])])
            return [(st, self.newlist(st, c2) if k == "list" else c2)]
        gx, gy = self.tag(st, x), self.tag(st, y)
        if op == "Add" and (gx == "str" or gy == "str"):
            return [(st, fstr([x, y]))]
        if op == "Mult" and (gx == "str" or gy == "str"):
            if is_const(x) and is_const(y):
                return [(st, const(cval(x) * cval(y)))]
            for t, k in ((x, y), (y, x)):
                if is_const(t) and isinstance(cval(t), str) and len(cval(t)) == 1 and TM._numeric(self.num(st, k)):
                    return [(st, mk("fill", cval(t), self.num(st, k)))]
            return [(st, mk("bin", "*", x, y))]
        if op == "Mod" and gx == "str":
            return [(st, percent(x, self.snap(st, y)))]
        if kx in ("set", "dict") or ky in ("set", "dict"):
            return [(st, st.alloc(Obj(kx or ky, content=seq(kx or ky, [star(mk("bin", op, self.snap(st, x), self.snap(st, y)))]))))]
        X, Y = self.num(st, x), self.num(st, y)
        if X.op == "const" and X.a[0] == "bool":
            X = const(int(cval(X)))
        if Y.op == "const" and Y.a[0] == "bool":
            Y = const(int(cval(Y)))
        if op in ("Add", "Sub", "Mult"):
            for t in (X, Y):
                if self.isbool(t) and all(u.op in ("le0", "eq0", "lt0", "not", "and", "or", "poly", "const", "sym", "idx", "len", "item", "mod", "idiv", "min", "max") for u in walk(t)):
                    return [r for s2, v in self.branch(st, t) for r in self.binop(op, const(int(v)) if t is X else X, const(int(v)) if t is Y else Y, s2, inplace)]
        if op == "Add":
            r = add(X, Y)
        elif op == "Sub":
            r = sub(X, Y)
        elif op == "Mult":
            r = mul(X, Y)
        elif op == "Div":
            r = div(X, Y)
        elif op == "Pow":
            r = power(X, Y)
        elif op == "Mod":
            r = mod(X, Y)
        elif op == "FloorDiv":
            r = idiv(X, Y)
        elif op == "MatMult":
            r = extcall("matmul", X, Y)
        else:
            if op in ("BitAnd", "BitOr") and self.isbool(X) and self.isbool(Y):
                r = mk("and" if op == "BitAnd" else "or", X, Y)
            else:
                r = mk("bin", op, X, Y)
        return [(st, r)]

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for s, (x, y) in self.evs([e.left, e.comparators[0]], st):
                self.line = e.lineno
                out += [(s2, c) for s2, c in self.compare(type(e.ops[0]).__name__, x, y, s)]
            return out
        out = []
        for s, vs in self.evs([e.left] + list(e.comparators), st):
            cs = []
            cur = [(s, [])]
            for i, o in enumerate(e.ops):
                cur = [(s3, l + [c]) for s2, l in cur for s3, c in self.compare(type(o).__name__, vs[i], vs[i + 1], s2)]
            for s2, l in cur:
                if any(c is FALSE for c in l):
                    out.append((s2, FALSE))
                else:
                    l = [c for c in l if c is not TRUE]
                    out.append((s2, TRUE if not l else l[0] if len(l) == 1 else mk("and", *l)))
        return out

    def compare(self, op, x, y, st):
        if self.nd is not None and op not in ("Is", "IsNot"):
            r = self.nd.compare(self, st, op, x, y)
            if r is not None:
                return r
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            r = self.equal(st, x, y, op in ("Is", "IsNot"))
            return [(st, nott(r) if op in ("IsNot", "NotEq") else r)]
        if op in ("In", "NotIn"):
            r = self.contains_(st, x, y)
            return [(st, nott(r) if op == "NotIn" else r)]
        X, Y = self.num(st, x), self.num(st, y)
        if X.op == "const" and Y.op == "const":
            try:
                v = {"Lt": lambda a, c: a < c, "LtE": lambda a, c: a <= c, "Gt": lambda a, c: a > c, "GtE": lambda a, c: a >= c}[op](cval(X), cval(Y))
                return [(st, const(bool(v)))]
            except TypeError:
                self.throw(st, mk("exc", "TypeError"))
                return []
        kx, ky = self.ordkind(st, x), self.ordkind(st, y)
        if kx and ky and kx != ky:
            self.throw(st, mk("exc", "TypeError"))
            return []
        r = {"Lt": lambda: lt(X, Y), "LtE": lambda: le(X, Y), "Gt": lambda: lt(Y, X), "GtE": lambda: le(Y, X)}[op]()
        return [(st, r)]

    def ordkind(self, st, v):
        """the family of values an ordering comparison accepts together, when known"""
        if is_const(v):
            c = cval(v)
            return "num" if isinstance(c, (int, float)) else "str" if isinstance(c, str) else "None" if c is None else None
        k = self.kindof(st, v)
        return k if k in ("list", "tuple", "dict") else "num" if self.tag(st, v) == "int" else "str" if self.tag(st, v) == "str" else None

    def equal(self, st, x, y, ident=False):
        if x is y:
            return TRUE
        if x.op == "rematch" or y.op == "rematch":
            return FALSE if NONE in (x, y) else mk("eq", x, y)
        if texts.istext(x) and texts.istext(y):
            r = texts.equals(x, y)
            if r is not None:
                return r
        # type(x) == C
        for a, c in ((x, y), (y, x)):
            if a.op == "typeof":
                if c.op == "typeof":
                    return eq(x, y)
                return self.typeis(st, a.a[0], c)
        if x.op == "ref" or y.op == "ref":
            if ident:
                if x.op == "ref" and y.op == "ref":
                    return FALSE
                o = y if x.op == "ref" else x
                if is_const(o) or o.op in ("cls", "func", "enum", "seq"):
                    return FALSE
                return eq(x, y)
            xo = x.op == "ref" and st.obj(x).kind == "inst"
            yo = y.op == "ref" and st.obj(y).kind == "inst"
            if xo or yo:
                if xo and self.clsattr(st, st.obj(x).cls, "__eq__") is not None:
                    return mk("eq", x, y)
                return FALSE if (xo and yo) or is_const(x) or is_const(y) else eq(x, y)
            X, Y = self.snap(st, x), self.snap(st, y)
            return eq(X, Y) if X.op != "seq" or Y.op != "seq" or X.a[0] == Y.a[0] else FALSE
        return eq(x, y)

    def typeis(self, st, x, c):
        t = mk("typeis", x, c)
        r = decide(st, t, self)
        return t if r is None else const(r)

    def contains_(self, st, x, y):
        if texts.istext(y) and not is_const(y):
            r = texts.contains(self, st, x, y)
            if r is not None:
                return r
        k = self.kindof(st, y)
        c = self.iterable(st, y) if k != "dict" else self.dict_keys(st, y)
        X = self.snap(st, x)
        if is_const(y) and is_const(x):
            try:
                return const(cval(x) in cval(y))
            except TypeError:
                return FALSE
        ex = exact(c)
        if ex is not None and c.op == "seq":
            cs = [self.equal(st, x, z) for z in ex]
            if any(r is TRUE for r in cs):
                return TRUE
            cs = [r for r in cs if r is not FALSE]
            if not cs:
                return FALSE
            return cs[0] if len(cs) == 1 else mk("or", *cs)
        m = simple_map(c) if c.op == "seq" else None
        if m:
            bv, N, e = m
            d = sub(e, bv)
            if bv not in syms(d):
                # consecutive integers d .. d+N-1
                lo_, hi = le(d, X), lt(X, add(d, N))
                cs = [q for q in (lo_, hi) if q is not TRUE]
                if any(q is FALSE for q in cs):
                    return FALSE
                return TRUE if not cs else cs[0] if len(cs) == 1 else mk("and", *cs)
        # x == c[i] for a known element
        if X.op == "item" and X.a[0] is c:
            return TRUE
        if c.op == "seq":
            cs = []
            for s in c.a[1]:
                if s.op == "one":
                    r = self.equal(st, x, s.a[0])
                elif s.op == "star":
                    r = TRUE if X.op == "item" and X.a[0] is s.a[0] else mk("in", X, s.a[0])
                else:
                    r = mk("in", X, self.snap(st, seq("list", [s])))
                if r is TRUE:
                    return TRUE
                if r is not FALSE:
                    cs.append(r)
            if not cs:
                return FALSE
            return cs[0] if len(cs) == 1 else mk("or", *cs)
        return mk("in", X, self.snap(st, c))

    def e_IfExp(self, e, st):
        out = []
        for s, v in self.cond(e.test, st):
            out += self.ev(e.body if v else e.orelse, s)
        return out

    def e_Tuple(self, e, st):
        return [(s, seq("tuple", segs)) for s, segs in self.elts(e.elts, st)]

    def elts(self, es, st):
        res = [(st, [])]
        for x in es:
            nr = []
            for s, l in res:
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s):
                        nr.append((s2, l + [star(self.iterable(s2, v))]))
                else:
                    for s2, v in self.ev(x, s):
                        nr.append((s2, l + [one(v)]))
            res = nr
        return res

    def e_List(self, e, st):
        return [(s, self.newlist(s, seq("list", segs))) for s, segs in self.elts(e.elts, st)]

    def e_Set(self, e, st):
        return [(s, s.alloc(Obj("set", content=seq("set", self.distinct(s, list(segs))), site=self.site()))) for s, segs in self.elts(e.elts, st)]

    def e_Dict(self, e, st):
        res = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nr = []
            for s, l in res:
                if k is None:
                    for s2, m in self.ev(v, s):
                        nr.append((s2, l + list(self.content(s2, m).a[1]) if self.content(s2, m).op == "seq" else l + [star(m)]))
                else:
                    for s2, (kk, vv) in self.evs([k, v], s):
                        nr.append((s2, l + [one(mk("kv", self.snap(s2, kk), vv))]))
            res = nr
        return [(s, s.alloc(Obj("dict", content=seq("dict", l), site=self.site()))) for s, l in res]

    def e_JoinedStr(self, e, st):
        res = [(st, [])]
        for v in e.values:
            nr = []
            for s, l in res:
                if isinstance(v, ast.Constant):
                    nr.append((s, l + [const(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s):
                        if v.format_spec is not None or v.conversion not in (-1, 115):
                            for s3, sp in (self.ev(v.format_spec, s2) if v.format_spec is not None else [(s2, const(""))]):
                                nr.append((s3, l + [mk("fmt", self.snap(s3, x), sp, const(v.conversion))]))
                        else:
                            nr.append((s2, l + [self.tostr(s2, x)]))
            res = nr
        return [(s, fstr(l)) for s, l in res]

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def tostr(self, st, x):
        x = self.snap(st, x)
        if x.op == "const" and x.a[0] in ("int", "str", "bool", "NoneType"):
            return const(str(cval(x)))
        if self.tag(st, x) == "str":
            return x
        return mk("str", x)

    def e_Lambda(self, e, st):
        return self.mkfunc(e, st, "<lambda>")

    def e_NamedExpr(self, e, st):
        return [(s2, v) for s, v in self.ev(e.value, st) for s2 in self.assign(e.target, v, s)]

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        parts = [e.lower, e.upper, e.step]
        res = [(st, [])]
        for p in parts:
            nr = []
            for s, l in res:
                if p is None:
                    nr.append((s, l + [NONE]))
                else:
                    for s2, v in self.ev(p, s):
                        nr.append((s2, l + [self.num(s2, v)]))
            res = nr
        return [(s, mk("sl", *l)) for s, l in res]

    def e_Subscript(self, e, st):
        out = []
        for s, (o, i) in self.evs([e.value, e.slice], st):
            self.line = e.lineno
            out += self.getitem(s, o, i)
        return out

    def getitem(self, st, o, i):
        if self.nd is not None:
            r = self.nd.getitem(self, st, o, i)
            if r is not None:
                return r
        if o.op in ("ext", "builtin", "cls") and o.op != "cls":
            return [(st, o)]  # typing subscripts
        if o.op == "cls":
            if self.is_enum(o.a[0]) and is_const(i):
                a = self.classes[o.a[0]].attrs.get(cval(i))
                if a is not None:
                    return [(st, a)]
            return [(st, o)]
        if o.op == "ref" and st.obj(o).kind == "dict":
            out = []
            for s, v in self.dict_get(st, o, self.snap(st, i)):
                if v is None:
                    dv = s.obj(o).attrs.get("default")
                    if dv is ZERO:
                        out.append((s, ZERO))
                    elif dv is not None and dv is not NONE:
                        for s2, v2 in self.call(s, dv, [], {}):
                            for s3 in self.dict_set(s2, o, self.snap(s2, i), v2):
                                out.append((s3, v2))
                    else:
                        self.throw(s, mk("exc", "KeyError"))
                else:
                    out.append((s, v))
            return out
        if o.op == "rematch":
            import pylib
            r = pylib.texts.match_method(self, st, o, "__getitem__", [i], {})
            if r is not None:
                return r
        if texts.istext(o) and not is_const(o):
            r = texts.index(self, st, o, i)
            if r is not None:
                return r
        if o.op == "ref" and st.obj(o).kind == "inst":
            m = self.clsattr(st, st.obj(o).cls, "__getitem__")
            if m is not None:
                return self.call(st, m, [o, i], {})
        if is_const(o) and not isinstance(cval(o), (str, bytes, tuple)):
            self.throw(st, mk("exc", "TypeError"))
            return []
        c = self.content(st, o)
        c = self.snap_shallow(st, c) if c.op == "seq" else c
        k = self.kindof(st, o)
        if i.op == "sl":
            r = self.slice(st, c, *i.a)
            if k == "list":
                return [(st, self.newlist(st, r))]
            return [(st, r)]
        if i.op == "ref":
            i = self.snap(st, i)
        if i.op == "seq" and any(x.op == "one" and x.a[0].op == "ref" for x in i.a[1]):
            i = self.snap(st, i)
        r = self.item(st, c, i)
        if r.op == "item" and k in ("list", "tuple") and TM._numeric(i):
            if decide(st, le(len_of(c), i), self) or decide(st, lt(add(len_of(c), i), ZERO), self):
                self.throw(st, mk("exc", "IndexError"))
                return []
            inside = lt(i, len_of(c))
            if decide(st, inside, self) is None and decide(st, le(ZERO, i), self):
                # the subscript may be out of range; the path goes on only if it is not
                if self.risky is not None:
                    s2 = st.copy()
                    s2.fact(nott(inside))
                    self.emit(s2, "raise", mk("exc", "IndexError"))
                    self.risky.append((s2, mk("exc", "IndexError")))
                st.fact(inside)
        if r.op == "item" and c.op == "seq" and r.a[0] is c and is_const(i) and isinstance(cval(i), int) and cval(i) < 0 and len(c.a[1]) > 1 and c.a[1][-1].op != "one":
            # the last segment may be empty
            out = []
            for s2, v in self.branch(st, le0(len_of(seq("list", [c.a[1][-1]])))):
                c2 = seq(c.a[0], c.a[1][:-1]) if v else c
                out.append((s2, self.item(s2, c2, i)))
            return out
        return [(st, r)]

    def item(self, st, c, i):
        r = item(c, i)
        if r.op != "item" or c.op != "seq":
            if r.op == "item" and c.op == "store":
                # a store at a different position does not matter
                bt = c
                while bt.op == "store":
                    q = decide(st, eq(bt.a[1], i), self)
                    if q is True:
                        return bt.a[2]
                    if q is None:
                        return r
                    bt = bt.a[0]
                return self.item(st, bt, i)
            return r
        # locate the segment
        off = ZERO
        for g in c.a[1]:
            ln = len_of(seq("list", [g]))
            if not (is_const(i) and isinstance(cval(i), int) and cval(i) < 0):
                if decide(st, le(off, i), self) and decide(st, lt(i, add(off, ln)), self):
                    return g.a[0] if g.op == "one" else item(seq("list", [g]), sub(i, off))
            off = add(off, ln)
        if is_const(i) and isinstance(cval(i), int) and cval(i) < 0 and c.a[1]:
            # from the end
            off = i
            for g in reversed(c.a[1]):
                ln = len_of(seq("list", [g]))
                pos = add(off, ln)  # index inside g if it lies in g
                if decide(st, le(ZERO, pos), self):
                    return g.a[0] if g.op == "one" else item(seq("list", [g]), pos)
                if decide(st, lt(pos, ZERO), self):
                    off = pos
                    continue
                break
        return r

    def slice(self, st, c, a, z, step):
        if is_const(c) and isinstance(cval(c), str) and all(is_const(x) for x in (a, z, step)):
            try:
                return const(cval(c)[cval(a):cval(z):cval(step)])
            except (TypeError, ValueError):
                pass
        r = slice_of(c, a, z, step)
        if r.op == "slice" and step is NONE and c.op != "seq" and not any(x.op == "carry" for x in syms(r)):
            src = c
            n = len_of(src)
            lo_ = ZERO if a is NONE else a
            hi = n if z is NONE else (add(n, z) if is_const(z) and isinstance(cval(z), int) and cval(z) < 0 else z)
            if self.tag(st, src) not in ("str", None, "any") and not any(x.op == "top" for x in walk(r)):
                if decide(st, le(ZERO, lo_), self) and decide(st, le(lo_, hi), self) and decide(st, le(hi, n), self):
                    k2 = fresh()
                    return seq("list", [mapseg(k2, sub(hi, lo_), [((), (one(item(src, add(lo_, k2))),))])])
        if r.op != "slice" or c.op != "seq" or step is not NONE:
            return r
        # split a segmented sequence at provable positions
        n = len_of(c)
        lo_ = ZERO if a is NONE else (add(n, a) if is_const(a) and cval(a) < 0 else a)
        hi = n if z is NONE else (add(n, z) if is_const(z) and isinstance(cval(z), int) and cval(z) < 0 else z)
        out = []
        off = ZERO
        for g in c.a[1]:
            ln = len_of(seq("list", [g]))
            end = add(off, ln)
            if decide(st, le(end, lo_), self) or decide(st, le(hi, off), self):
                off = end
                continue
            s0 = ZERO if decide(st, le(lo_, off), self) else (sub(lo_, off) if decide(st, le(off, lo_), self) else None)
            s1 = ln if decide(st, le(end, hi), self) else (sub(hi, off) if decide(st, le(hi, end), self) else None)
            if s0 is None or s1 is None:
                return r
            if s0 is ZERO and s1 is ln:
                out.append(g)
            elif g.op == "one":
                return r
            elif g.op == "star":
                part = self.slice(st, g.a[0], s0 if s0 is not ZERO else NONE, s1 if s1 is not ln else NONE, NONE)
                out += part.a[1] if part.op == "seq" else [star(part)]
            else:
                m = simple_map(seq("list", [g]))
                if not m:
                    return r
                k2 = fresh()
                out.append(mapseg(k2, sub(s1, s0), [((), (one(subst(m[2], {m[0]: add(s0, k2)})),))]))
            off = end
        return seq(c.a[0], out)

    # comprehensions ---------------------------------------------------
    def e_ListComp(self, e, st):
        return [(s, self.newlist(s, c)) for s, c in self.comp(e.generators, e.elt, st)]

    def e_GeneratorExp(self, e, st):
        return [(s, s.alloc(Obj("gen", content=c, site=self.site()))) for s, c in self.comp(e.generators, e.elt, st)]

    def e_SetComp(self, e, st):
        return [(s, s.alloc(Obj("set", content=mk("seq", "set", tuple(self.distinct(s, list(c.a[1])))), site=self.site()))) for s, c in self.comp(e.generators, e.elt, st)]

    def e_DictComp(self, e, st):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        out = []
        for s, c in self.comp(e.generators, pair, st):
            segs = [_mapone(g, lambda x: mk("kv", *exact(x)) if exact(x) is not None else x) for g in c.a[1]]
            out.append((s, s.alloc(Obj("dict", content=seq("dict", self.dedupe(s, segs)), site=self.site()))))
        return out

    def dedupe(self, st, segs):
        """entries of a dictionary, later values in the place of the first; as they are when keys cannot be told apart"""
        if len(segs) > 80 or not all(g.op == "one" and g.a[0].op == "kv" for g in segs):
            return segs
        out = []
        for g in segs:
            for i, h in enumerate(out):
                r = g.a[0].a[0] is h.a[0].a[0] or decide(st, self.keyeq(st, h.a[0].a[0], g.a[0].a[0]), self)
                if r is None:
                    return segs
                if r:
                    out[i] = one(mk("kv", h.a[0].a[0], g.a[0].a[1]))
                    break
            else:
                out.append(g)
        return out

    def distinct(self, st, segs):
        """elements of a set; as they are when they cannot be told apart"""
        if len(segs) > 80 or not all(g.op == "one" for g in segs):
            return segs
        out = []
        for g in segs:
            rs = [g is h or decide(st, self.keyeq(st, h.a[0], g.a[0]), self) for h in out]
            if any(rs):
                continue
            if None in rs:
                return segs
            out.append(g)
        return out

    def comp(self, gens, elt, st):
        # evaluated in a child scope
        fid = f"f{st.nf}"
        st.nf += 1
        caller = st.cur
        st.frames[fid] = {"__parent__": caller, "__mod__": None}
        st.own.add(("f", fid))
        st.cur = fid
        acc = st.alloc(Obj("list", content=seq("list", []), site=self.site()))

        def gen(i, s):
            if i == len(gens):
                res = []
                for s2, v in self.ev(elt, s):
                    c = self.content(s2, acc)
                    self.set_quiet(s2, acc, seq("list", list(c.a[1]) + [one(v)]))
                    res.append(("next", s2, NONE))
                return res
            g = gens[i]
            res = []
            for s2, it in self.ev(g.iter, s):
                if self.kindof(s2, it) == "set":
                    self.emit(s2, "setiter", it)
                c = self.iterable(s2, it)

                def body(s3, e):
                    r = []
                    for s4 in self.assign(g.target, e, s3):
                        cur = [s4]
                        for cnd in g.ifs:
                            nx = []
                            for s5 in cur:
                                for s6, v in self.cond(cnd, s5):
                                    (nx.append(s6) if v else r.append(("next", s6, NONE)))
                            cur = nx
                        for s5 in cur:
                            r += gen(i + 1, s5)
                    return r

                res += self.iterate(s2, c, body)
            return res

        out = []
        for k, s, v in gen(0, st):
            if k == "raise":
                s.cur = caller
                self.sink.append((s, v))
                continue
            c = self.content(s, acc)
            s.cur = caller
            s.frames.pop(fid, None) if not any(isinstance(x, (ast.Lambda,)) for x in ast.walk(elt)) else None
            # the accumulator object is internal
            del s.heap[acc.a[0]]
            out.append((s, c))
        return out

    # attributes -------------------------------------------------------
    def e_Attribute(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            self.line = e.lineno
            out += self.getattr(s, o, e.attr)
        return out

    def clsattr(self, st, cid, name):
        for c in self.mro(cid):
            if c in self.classes:
                v = st.over.get(("k", mk("cls", c), name))
                if v is not None:
                    return v
                v = self.classes[c].attrs.get(name)
                if v is not None:
                    return v
        return None

    def bindattr(self, st, v, o, cid):
        """value of class attribute v seen through instance o"""
        if v.op == "property":
            return self.call(st, v.a[0], [o], {})
        if v.op == "cachedprop":
            self.emit(st, "memo", v.a[0])
            return self.call(st, v.a[0], [o], {})
        if v.op == "func":
            return [(st, mk("bound", v, o))]
        if v.op == "memo":
            return [(st, mk("bound", v, o))]
        if v.op == "staticmethod":
            return [(st, v.a[0])]
        if v.op == "classmethod":
            return [(st, mk("bound", v.a[0], mk("cls", cid)))]
        return [(st, v)]

    def getattr(self, st, o, name):
        op = o.op
        if self.nd is not None:
            r = self.nd.attr(self, st, o, name)
            if r is not None:
                return [(st, r)]
        if o is NONE and not hasattr(None, name):
            self.throw(st, mk("exc", "AttributeError"))
            return []
        if op == "ref":
            ob = st.obj(o)
            if ob.kind == "inst":
                cv = self.clsattr(st, ob.cls, name)
                if name in self.opaque_getter and cv is not None:
                    return [(st, mk("attr", o, name))]
                if cv is not None and cv.op == "property":
                    return self.bindattr(st, cv, o, ob.cls)
                if name in ob.attrs:
                    self.emit(st, "read", o, name)
                    return [(st, ob.attrs[name])]
                if cv is not None:
                    return self.bindattr(st, cv, o, ob.cls)
                if name == "__class__":
                    return [(st, mk("cls", ob.cls))]
                if name == "__dict__":
                    return [(st, mk("attr", o, name))]
                ga = self.clsattr(st, ob.cls, "__getattr__")
                if ga is not None:
                    return self.call(st, ga, [o, const(name)], {})
                if any(c.startswith("!") and c[1:].split(".")[-1] not in ("ABC", "object", "Enum") for c in self.mro(ob.cls)):
                    return [(st, mk("attr", o, name))]
                self.throw(st, mk("exc", "AttributeError"))
                return []
            if ob.kind == "arr":
                if name in ("T", "shape", "size", "ndim", "dtype", "real", "imag", "flat", "nnz", "data"):
                    return [(st, mk("attr", ob.content, name))]
                return [(st, mk("bmeth", o, name))]
            return [(st, mk("bmeth", o, name))]
        if op == "cls":
            c = o.a[0]
            v = self.clsattr(st, c, name)
            if v is not None:
                if v.op == "staticmethod":
                    v = v.a[0]
                elif v.op == "classmethod":
                    v = mk("bound", v.a[0], o)
                return [(st, v)]
            if name in ("__name__", "__qualname__"):
                return [(st, const(c.split(".")[-1]))]
            if name == "__members__":
                return [(st, mk("attr", o, name))]
            return [(st, mk("attr", o, name))]
        if op == "module":
            f = st.frames.get("m:" + o.a[0], {})
            if name in f and isinstance(f[name], T):
                return [(st, f[name])]
            m = self.load(o.a[0] + "." + name, st)
            if m is not None:
                return [(st, m)]
            return [(st, mk("top", f"{o.a[0]}.{name}"))]
        if op == "ext" and o.a[0] + "." + name in self.extattrs:
            return [(st, self.extattrs[o.a[0] + "." + name])]
        if op == "ext":
            return [(st, self.ext(o.a[0] + "." + name))]
        if op == "builtin":
            return [(st, mk("bstatic", o.a[0], name))]
        if op == "enum":
            if name == "value":
                return [(st, o.a[2])]
            if name == "name":
                return [(st, const(o.a[1]))]
            v = self.clsattr(st, o.a[0], name)
            if v is not None:
                return self.bindattr(st, v, o, o.a[0])
        if op == "superobj":
            cid, self_ = o.a
            start = self.mro(self.clsid(st, self_) or cid)
            after = start[start.index(cid) + 1:] if cid in start else self.mro(cid)[1:]
            for c in after:
                if c in self.classes and name in self.classes[c].attrs:
                    return self.bindattr(st, self.classes[c].attrs[name], self_, c)
            if name == "__getattribute__":
                return [(st, mk("ext", "object.__getattribute__"))]
            return [(st, mk("noop", name))]
        if op in ("func", "bound"):
            if name in ("__name__", "__qualname__"):
                return [(st, const(o.a[0] if op == "func" else o.a[0].a[0]))]
            return [(st, mk("attr", o, name))]
        v = st.over.get(("a", o, name))
        if v is not None:
            return [(st, v)]
        if ("w", "a", name) in st.over:
            return [(st, mk("top", "field rewritten in a loop", mk("attr", o, name)))]
        if name in self.opaque_attr:
            return [(st, mk("attr", o, name))]
        if name == "__class__":
            return [(st, mk("typeof", o))]
        cs = self.classes_of(st, o)
        if cs:
            return self.dispatch(st, o, cs, name)
        k = self.kindof(st, o)
        if op in ("rematch", "repattern"):
            return [(st, mk("bmeth", o, name))]
        if k is not None or self.tag(st, o) == "str" or op in ("fstr", "fill", "strhead", "strtail"):
            return [(st, mk("bmeth", o, name))]
        if name == "__class__":
            return [(st, mk("typeof", o))]
        return [(st, mk("attr", o, name))]

    def dispatch(self, st, o, cs, name):
        groups = {}
        for c in cs:
            p = self.clsattr(st, c, name)
            groups.setdefault(p, []).append(c)
        out = []
        rest = list(cs)
        cur = st
        gl = list(groups.items())
        for gi, (p, g) in enumerate(gl):
            if gi == len(gl) - 1:
                s = cur
            else:
                s = cur.copy()
                conds = [mk("isinst", o, mk("cls", c)) for c in g]
                # narrow: s gets "one of g", cur gets "none of g"
                for c in rest:
                    if c not in g:
                        if not any(self.issub(x, mk("cls", c)) for x in g):
                            s.fact(mk("not", mk("isinst", o, mk("cls", c))))
                if len(conds) == 1:
                    s.fact(conds[0])
                for x in conds:
                    cur.fact(mk("not", x))
                rest = [c for c in rest if c not in g]
            if gi == len(gl) - 1 and len(rest) == 1 and len(cs) > 1:
                s.fact(mk("isinst", o, mk("cls", rest[0])))
            if p is None:
                if o.op == "obj":
                    v = attr(o, name)
                    if v.op == "attr":
                        self.throw(s, mk("exc", "AttributeError"))
                        continue
                    out.append((s, v))
                elif all(self.attrtags.get((c, name)) is None and self.known_attrs(c) is not None and name not in self.known_attrs(c) for c in g):
                    self.throw(s, mk("exc", "AttributeError"))
                else:
                    self.emit(s, "read", o, name)
                    out.append((s, mk("attr", o, name)))
            else:
                out += self.bindattr(s, p, o, g[0])
        return out

    _ka = None

    def known_attrs(self, cid):
        """attribute names that instances of the class may have (assigned through self anywhere)"""
        if self._ka is None:
            self._ka = {}
        if cid in self._ka:
            return self._ka[cid]
        names = set()
        for c in self.mro(cid):
            if c in self.classes:
                for n in ast.walk(self.classes[c].node):
                    if isinstance(n, ast.Attribute):
                        names.add(n.attr)
                    if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "setattr":
                        names = None
                        break
            if names is None:
                break
        self._ka[cid] = names
        return names

    def clsid(self, st, t):
        if t.op == "ref":
            return st.obj(t).cls
        if t.op == "obj":
            return t.a[0].a[0]
        if t.op == "cls":
            return t.a[0]
        cs = self.classes_of(st, t)
        return cs[0] if cs and len(cs) == 1 else None

    # calls --------------------------------------------------------------
    def e_Call(self, e, st):
        # super() needs the enclosing function
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = st.frame(st.cur)
            fid = st.cur
            while "__fn__" not in f and f["__parent__"] is not None:
                fid = f["__parent__"]
                f = st.frame(fid)
            fn = self.funcs[f["__fn__"].a[1]] if "__fn__" in f else None
            if fn is None or fn.cls is None:
                raise Unsupported("super")
            first = fn.args.args[0].arg if fn.args.args else None
            return [(st, mk("superobj", fn.cls, f[first]))]
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars", "globals", "exec", "eval") and self.name(st, e.func.id).op == "builtin":
            raise Unsupported(e.func.id)
        out = []
        for s, f in self.ev(e.func, st):
            for s2, (args, kw) in self.callargs(e, s):
                self.line = e.lineno
                out += self.call(s2, f, args, kw, e)
        return out

    def callargs(self, e, st):
        res = [(st, [], {})]
        for a in e.args:
            nr = []
            for s, l, k in res:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        c = self.iterable(s2, v)
                        ex = exact(c)
                        nr.append((s2, l + (ex if ex is not None else [mk("spread", c)]), k))
                else:
                    for s2, v in self.ev(a, s):
                        nr.append((s2, l + [v], k))
            res = nr
        for kw in e.keywords:
            nr = []
            for s, l, k in res:
                for s2, v in self.ev(kw.value, s):
                    if kw.arg is None:
                        c = self.content(s2, v)
                        k2 = dict(k)
                        if c.op == "seq" and all(g.op == "one" and g.a[0].op == "kv" and is_const(g.a[0].a[0]) for g in c.a[1]):
                            for g in c.a[1]:
                                k2[cval(g.a[0].a[0])] = g.a[0].a[1]
                        else:
                            raise Unsupported("**kwargs call")
                        nr.append((s2, l, k2))
                    else:
                        k2 = dict(k)
                        k2[kw.arg] = v
                        nr.append((s2, l, k2))
            res = nr
        return [(s, (l, k)) for s, l, k in res]

    def call(self, st, f, args, kw, node=None):
        op = f.op
        if op == "func":
            return self.invoke(st, f, args, kw)
        if op == "bound":
            return self.call(st, f.a[0], [f.a[1]] + list(args), kw, node)
        if op == "memo":
            self.emit(st, "memo", f.a[0], *[self.snap(st, x) for x in args])
            r = self.call(st, f.a[0], args, kw, node)
            # the cached object is shared by every caller
            out = []
            for s, v in r:
                if v.op == "ref":
                    s.obj(v, True).owner = "static"
                out.append((s, v))
            return out
        if op == "staticmethod" or op == "classmethod":
            return self.call(st, f.a[0], args, kw, node)
        if op == "cls":
            return self.instantiate(st, f, args, kw)
        if op == "noop":
            return [(st, NONE)]
        if op == "partial":
            return self.call(st, f.a[0], list(f.a[1]) + list(args), {**dict(f.a[2]), **kw}, node)
        import pylib

        return pylib.call(self, st, f, args, kw, node)

    def instantiate(self, st, f, args, kw):
        cid = f.a[0]
        key = ("new", cid)
        if cid in self.stubs:
            return self.stubs[cid](self, st, [f] + list(args), kw)
        if self.is_enum(cid):
            c = self.classes[cid]
            for k in c.order:
                v = c.attrs[k]
                if v.op == "enum" and v.a[2] is args[0]:
                    return [(st, v)]
            return [(st, mk("call", f, tuple(self.snap(st, a) for a in args), ()))]
        new = self.clsattr(st, cid, "__new__")
        if new is not None and new.op in ("func", "staticmethod"):
            raise Unsupported("__new__")
        o = st.alloc(Obj("inst", cls=cid, attrs={}, site=self.site()))
        self.emit(st, "new", o, f)
        init = self.clsattr(st, cid, "__init__")
        if init is None:
            st.obj(o, True).attrs["args"] = seq("tuple", [one(a) for a in args])
            return [(st, o)]
        return [(s, o) for s, _ in self.call(st, init, [o] + list(args), kw)]

    def invoke(self, st, f, args, kw):
        fn = self.funcs[f.a[1]]
        name = (fn.mod or "") + "." + fn.qual
        for k in (name, fn.qual):
            if k in self.stubs:
                return self.stubs[k](self, st, args, kw)
        if len(self.stack) > self.maxdepth or self.stack.count(fn.qual) > 3:
            self.emit(st, "deep", f)
            return [(st, mk("top", f"recursion {fn.qual}"))]
        self.visited[name] = self.visited.get(name, 0) + 1
        a = fn.args
        env = {"__parent__": fn.parent, "__fn__": f, "__mod__": None, "__qual__": fn.qual + ".<locals>"}
        if fn.parent is None or (isinstance(fn.parent, str) and fn.parent not in st.frames):
            env["__parent__"] = "m:" + fn.mod if fn.mod else None
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        # spread of a sequence of unknown length
        if any(x.op == "spread" for x in pos):
            fixed = []
            i = 0
            while i < len(pos) and pos[i].op != "spread":
                fixed.append(pos[i])
                i += 1
            if a.vararg is None or len(fixed) < len(params):
                # bind by index
                s_ = seq("tuple", [(star(x.a[0]) if x.op == "spread" else one(x)) for x in pos])
                nfill = len(params) if a.vararg is None else len(params)
                fill = [item(s_, const(j)) for j in range(len(params) - len([p for p in params if p in kw]))]
                if a.vararg is not None:
                    env[a.vararg.arg] = slice_of(s_, const(len(params)), NONE, NONE)
                pos = fill
            else:
                rest = fixed[len(params):]
                segs = [one(x) for x in rest] + [(star(x.a[0]) if x.op == "spread" else one(x)) for x in pos[i:]]
                env[a.vararg.arg] = seq("tuple", segs)
                pos = fixed[: len(params)]
        for p, v in zip(params, pos):
            env[p] = v
        if len(pos) > len(params):
            if a.vararg is None:
                self.emit(st, "badcall", f)
                self.throw(st, mk("exc", "TypeError"))
                return []
            env[a.vararg.arg] = seq("tuple", [one(x) for x in pos[len(params):]])
        elif a.vararg is not None and a.vararg.arg not in env:
            env[a.vararg.arg] = seq("tuple", [])
        kwextra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            else:
                self.emit(st, "badcall", f)
                self.throw(st, mk("exc", "TypeError"))
                return []
        if a.kwarg is not None:
            env[a.kwarg.arg] = st.alloc(Obj("dict", content=seq("dict", [one(mk("kv", const(k), v)) for k, v in kwextra.items()])))
        for p, d in zip(params[len(params) - len(fn.defaults):], fn.defaults):
            env.setdefault(p, d)
        for p, d in zip(kwonly, fn.kwdefaults):
            if d is not None:
                env.setdefault(p, d)
        for p in params + kwonly:
            if p not in env:
                self.emit(st, "badcall", f)
                self.throw(st, mk("exc", "TypeError"))
                return []
        fid = f"f{st.nf}"
        st.nf += 1
        caller = st.cur
        st.frames[fid] = env
        st.own.add(("f", fid))
        st.cur = fid
        self.emit(st, "call", f, tuple((k, v) for k, v in env.items() if isinstance(v, T) and not k.startswith("__")))
        saved = (self.stack, self.file, self.line)
        self.stack = self.stack + [fn.qual]
        if fn.mod in self.mods:
            self.file = self.mods[fn.mod][0]
        if fn.isgen:
            env["__yield__"] = st.alloc(Obj("gen", content=seq("list", [])))
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [("return", s, v) for s, v in self.ev(fn.node.body, st)]
            else:
                outs = self.block(fn.node.body, st)
        finally:
            self.stack, self.file, self.line = saved
        res = []
        for k, s, v in outs:
            if k == "raise":
                s.cur = caller
                if not fn.captures:
                    s.frames.pop(fid, None)
                self.sink.append((s, v))
            elif k in ("next", "return"):
                if fn.isgen:
                    v = s.frames[fid]["__yield__"]
                    if self.lazy and exact(s.obj(v).content) is not None:
                        v = s.alloc(Obj("iter", attrs={"pos": ZERO, "src": s.obj(v).content}, site=self.site()))
                elif k == "next":
                    v = NONE
                s.cur = caller
                if not fn.captures:
                    s.frames.pop(fid, None)
                res.append(("return", s, v))
            else:
                raise Unsupported(k + " outside loop")
        if len(res) > 1:
            res = self.merge(res)
        return [(s, v) for k, s, v in res]

    def pop_at(self, st, o, i, why="pop"):
        """remove and return element i"""
        k = self.kindof(st, o)
        c = self.content(st, o)
        if k == "dict":
            out = []
            for s, v in self.dict_get(st, o, self.snap(st, i)):
                if v is None:
                    self.throw(s, mk("exc", "KeyError"))
                    continue
                cc = self.content(s, o)
                if cc.op == "seq":
                    key = self.snap(s, i)
                    segs = [g for g in cc.a[1] if not (g.op == "one" and g.a[0].op == "kv" and decide(s, eq(g.a[0].a[0], key), self))]
                    self.set_content(s, o, seq("dict", segs), why, i)
                else:
                    self.set_content(s, o, mk("delkey", cc, i), why, i)
                out.append((s, v))
            return out
        if i.op == "sl":
            if c.op == "seq" and all(g.op == "one" for g in c.a[1]) and all(x is NONE or is_num(x) for x in i.a):
                segs = list(c.a[1])
                del segs[slice(*[None if x is NONE else cval(x) for x in i.a])]
                self.set_content(st, o, seq(c.a[0], segs), why, i)
                return [(st, NONE)]
            self.set_content(st, o, mk("delslice", c, *i.a), why, i)
            return [(st, NONE)]
        c = self.snap_shallow(st, c) if c.op == "seq" else c
        v = self.item(st, c, i)
        if c.op == "seq" and is_const(i) and isinstance(cval(i), int):
            j = cval(i)
            segs = list(c.a[1])
            if j >= 0 and len(segs) > j and all(x.op == "one" for x in segs[: j + 1]):
                del segs[j]
                self.set_content(st, o, seq(c.a[0], segs), why, i)
                return [(st, v)]
            if j < 0 and len(segs) >= -j and all(x.op == "one" for x in segs[j:]):
                del segs[j]
                self.set_content(st, o, seq(c.a[0], segs), why, i)
                return [(st, v)]
            if all(x.op == "one" for x in segs):
                self.throw(st, mk("exc", "IndexError"))
                return []
        one_ = c if c.op != "seq" else (c.a[1][0].a[0] if len(c.a[1]) == 1 and c.a[1][0].op == "star" else c)
        if i is ZERO:
            nc = slice_of(one_, ONE, NONE, NONE)
        elif i is const(-1):
            nc = slice_of(one_, NONE, const(-1), NONE)
        else:
            nc = seq("list", [star(slice_of(one_, NONE, i, NONE)), star(slice_of(one_, add(i, ONE), NONE, NONE))])
        self.set_content(st, o, seq(k if k in ("list",) else "list", [star(nc)]) if k == "list" and nc.op != "seq" else nc, why, i)
        return [(st, v)]


# ---------------------------------------------------------------------- helpers
def seqterm(init):
    if init.op == "seq" and len(init.a[1]) == 1 and init.a[1][0].op == "star":
        return init.a[1][0].a[0]
    return init


def subst_seq(u, s_):
    return u


def _forall_upto(K, fa):
    j = fresh()
    return forall(j, K, [subst(f, {K: j}) for f in fa])


def _maparr_upto(K, ini, stores):
    j = fresh()
    return maparr(j, K, ini, [(tuple(subst(x, {K: j}) for x in f), subst(i, {K: j}), subst(v, {K: j})) for f, i, v in stores])


DEBUGTOP = False


def merge_cases(us):
    """cases with the same value that differ in one complementary condition are one case"""
    us = [(tuple(f), u) for f, u in us]
    again = True
    while again:
        again = False
        for i in range(len(us)):
            for j in range(i + 1, len(us)):
                (f, u), (g, v) = us[i], us[j]
                if u is not v:
                    continue
                sf, sg = set(f), set(g)
                if sf <= sg or sg <= sf:
                    us[i:i + 1] = [(f if sf <= sg else g, u)]
                    del us[j]
                    again = True
                    break
                d, e = sf - sg, sg - sf
                if len(d) == 1 and len(e) == 1 and nott(next(iter(d))) is next(iter(e)):
                    us[i:i + 1] = [(tuple(x for x in f if x in sg), u)]
                    del us[j]
                    again = True
                    break
            if again:
                break
    return us


def dictkeys(o):
    """[(key, value)] of a dictionary whose keys are all known constants"""
    c = o.content
    if o.kind != "dict" or c is None or c.op != "seq" or not c.a[1] or len(c.a[1]) > TM.MANY + 8:
        return None
    out = []
    for g in c.a[1]:
        if g.op != "one" or g.a[0].op != "kv" or not (is_const(g.a[0].a[0]) or g.a[0].a[0].op in ("enum", "cls")):
            return None
        out.append((g.a[0].a[0], g.a[0].a[1]))
    if len({k for k, v in out}) != len(out):
        return None
    return out


def _unshadow(fv, K, C, N, init, us):
    j = fresh()
    return fold(j, C, N, init, [(tuple(subst(x, {K: j}) for x in f), subst(u, {K: j})) for f, u in us])


def _mapone(g, fn):
    if g.op == "one":
        return one(fn(g.a[0]))
    if g.op == "map":
        K = fresh()
        bv, N, cases = g.a
        return mapseg(K, N, [(tuple(subst(x, {bv: K}) for x in f), tuple(_mapone(subst(x, {bv: K}), fn) for x in gg)) for f, gg in cases])
    return mk("mapfn", g)


def istext_(t):
    return is_const(t) and t.a[0] == "str" or t.op in ("fstr", "str", "strhead", "strtail", "fill")


def fstr(parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "fstr" else (p,)
        for q in ps:
            if is_const(q) and q.a[0] == "str":
                if cval(q) == "":
                    continue
                if out and is_const(out[-1]) and out[-1].a[0] == "str":
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("fstr", *out)


def percent(x, y):
    if not is_const(x):
        return mk("bin", "%", x, y)
    import re

    parts = re.split(r"(%[sdi])", cval(x))
    vals = exact(y) if y.op == "seq" and y.a[0] == "tuple" else [y]
    out = []
    it = iter(vals or [])
    for p in parts:
        if p in ("%s", "%d", "%i"):
            v = next(it, None)
            if v is None:
                return mk("bin", "%", x, y)
            out.append(const(str(cval(v))) if is_const(v) else (v if v.op in ("fstr", "str") else mk("str", v)))
        else:
            if "%" in p.replace("%%", ""):
                return mk("bin", "%", x, y)
            out.append(const(p.replace("%%", "%")))
    return fstr(out)


def _names(t):
    if t is None:
        return []
    if isinstance(t, ast.Tuple):
        return [n for e in t.elts for n in _names(e)]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    return [getattr(t, "id", "?")]


def _dec_name(v):
    if v.op == "call":
        return _dec_name(v.a[0])
    if v.op in ("ext", "builtin"):
        return v.a[0]
    return "?"


def _as_load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _isgen(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def mangle(tree):
    """apply the private-name rule inside classes"""

    class M(ast.NodeVisitor):
        def __init__(self):
            self.c = None

        def visit_ClassDef(self, n):
            old, self.c = self.c, n.name.lstrip("_")
            self.generic_visit(n)
            self.c = old

        def fix(self, name):
            if self.c and name.startswith("__") and not name.endswith("__"):
                return f"_{self.c}{name}"
            return name

        def visit_FunctionDef(self, n):
            n.name = self.fix(n.name)
            self.generic_visit(n)

        def visit_Attribute(self, n):
            n.attr = self.fix(n.attr)
            self.generic_visit(n)

        def visit_Name(self, n):
            n.id = self.fix(n.id)

        def visit_arg(self, n):
            n.arg = self.fix(n.arg)

    M().visit(tree)

import texts
