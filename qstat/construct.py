"""Circuit construction: what one gate call does to the layers of a circuit."""
from scene import *

SINGLE = {"h", "x", "x1", "z", "gate"}


def refgate(C, st, op, pre="ref_"):
    """the gate the documentation promises, built in the same abstract state"""
    P, D, B = C.P, C.D, C.B
    if op in ("h", "z", "gate"):
        args, nm = [D, B, r], pre + op
    elif op in ("x", "x1"):
        args, nm = [D, B, r, plus if op == "x" else ONE], pre + "x"
    elif op == "cx":
        args, nm = [D, B, c, t, plus], pre + "cx"
    elif op in ("toffoli", "toffoli1"):
        args, nm = [D, B, cs, t, plus if op == "toffoli" else ONE], pre + "toffoli"
    elif op == "gatel":
        args, nm = [D, B, rs], pre + "gatel"
    outs, bad = client(P, st.copy(), nm, args)
    return outs


def span(op):
    if op in SINGLE:
        return r, r
    if op == "cx":
        return extcall_mm("min", [c, t]), extcall_mm("max", [c, t])
    return None


def extcall_mm(n, a):
    return mk("call", mk("ext", n), (seq("tuple", [one(x) for x in a]),), ())


class Effect:
    """what changed between the circuit before and after a call"""

    def __init__(self, C, st, newkeys=()):
        P = C.P
        self.C, self.st = C, st
        self.old = C.s0.obj(C.layers).content
        self.new = st.obj(C.layers).content
        self.over = {k: v for k, v in st.over.items() if C.s0.over.get(k) is not v}
        # the `previous`/`next` links of layers are bookkeeping
        self.links = {k for k in self.over if k[0] in "aw" and k[2].endswith("_pointer")}
        self.over = {k: v for k, v in self.over.items() if k not in self.links}
        # a list written back with its own content is not a change
        self.over = {k: v for k, v in self.over.items() if not (k[0] == "c" and v is k[1])}
        self.heap = {}
        for oid, o in C.s0.heap.items():
            n = st.heap.get(oid)
            if n is not None and not n.same(o):
                if n.content is not o.content:
                    self.heap[(oid, None)] = n.content
                for k in set(n.attrs) | set(o.attrs):
                    if n.attrs.get(k) is not o.attrs.get(k):
                        self.heap[(oid, k)] = n.attrs.get(k)

    def appended(self):
        """new layer objects at the end, or None when the list changed otherwise"""
        o, n = self.old, self.new
        if n is o:
            return []
        if n.op == "seq" and o.op == "seq" and n.a[1][: len(o.a[1])] == o.a[1]:
            rest = n.a[1][len(o.a[1]):]
            if all(x.op == "one" and x.a[0].op == "ref" for x in rest):
                return [x.a[0] for x in rest]
        # a store of an element onto itself
        if n.op == "store" and n.a[0] is o:
            return None
        return None


def kind_of(C, st, e):
    """('append', layer) | ('replace', layer term, list term, index, gate) | ('none',) | ('other', why)"""
    ap = e.appended()
    ov = dict(e.over)
    hp = {k: v for k, v in e.heap.items() if k[0] != C.layers.a[0]}
    if ap is None:
        return ("other", "the list of layers is rearranged", e.new)
    if len(ap) == 1 and not ov:
        return ("append", ap[0])
    if not ap and not ov:
        return ("none",)
    if not ap and len(ov) == 1:
        (k, v), = ov.items()
        if k[0] == "c" and v.op == "store" and v.a[0] is k[1] and k[1].op == "attr":
            return ("replace", k[1].a[0], k[1], v.a[1], v.a[2])
    if len(ap) > 1:
        return ("other", f"{len(ap)} layers are added by one call", e.new)
    return ("other", "earlier layers are changed", None)


def last_layer(C):
    return C.P.item(C.s0, C.hist, sub(len_of(C.hist), ONE))
