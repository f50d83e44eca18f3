"""C22: the mapping, the array, dim, center and scale of a Layout describe the same points."""
import ast, os, sys, random
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront
from pyai import Interp, alts, subterms, show, elem, method
from paths import EveryPath, pure

REL = "minorminer/layout/layout.py"
SELF = ("self",)
RAW = ("_layout", "_layout_array", "_dim", "_center", "_scale")
PROPS = ("layout", "layout_array", "dim", "center", "scale")
MUTATE = ("pop", "update", "clear", "popitem", "setdefault", "__setitem__", "__delitem__", "resize", "fill", "sort", "put")


def nm(t):
    return t[-1] if isinstance(t[-1], str) else None


def fname(t):
    return nm(t[1]) if t[0] == "call" else None


def kwd(t, k, pos=None):
    d = dict(x for x in t[3] if x[0] != "**")
    if k in d:
        return d[k]
    if pos is not None and len(t[2]) > pos:
        return t[2][pos]
    return None


class Walk(EveryPath):
    """every if decided; loops once, as in Interp; a raise ends the path"""
    loop = Interp.loop
    LIMIT = 6000

    def __init__(self, m, opaque=(), **k):
        EveryPath.__init__(self, m, stop=lambda I, e: e.kind == "raise", **k)
        self.opaque |= {("name", n) for n in opaque}


def runs(m, fn, cls=None, opaque=(), bind=None):
    """(events, raised, returned) of every path that does not contradict itself"""
    I = Walk(m, opaque)
    for ev, cut in I.paths(fn, bind, cls):
        dec = [(e.a[0], e.a[1]) for e in ev if e.kind == "decide"]
        if any((c, not p) in dec and pure(c) for c, p in dec):
            continue
        raised = [e for e in ev if e.kind == "raise"]
        yield ev, dec, (raised[-1] if raised else None), I.ret


def bare(t):
    """a value without the copies and conversions around it"""
    while True:
        if t[0] == "call" and len(t[2]) >= 1 and fname(t) in ("array", "asarray", "asanyarray", "list", "tuple", "copy", "ascontiguousarray", "float64") and \
                t[1][0] in ("name", "attr") and (t[1][0] == "name" or t[1][1][0] == "name"):
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("copy", "astype", "view") and t[1][1][0] != "name":
            t = t[1][1]
        else:
            return t


# ---------------------------------------------------------------- which vertex a row belongs to
def graph(t):
    """the object iterated over"""
    while True:
        if t[0] == "attr" and t[2] in ("nodes", "_node", "adj", "_adj"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("nodes", "keys", "__iter__") and not t[2]:
            t = t[1][1]
        elif t[0] == "call" and t[1] in (("name", "list"), ("name", "tuple"), ("name", "iter")) and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def iterorder(t):
    """the order in which iterating over t names vertices"""
    if t[0] == "call" and t[1] == ("name", "sorted") and len(t[2]) == 1 and not t[3]:
        return ("sorted", graph(t[2][0]))
    t = graph(t)
    m = method(t, "items") or method(t, "values")
    if m:
        return iterorder(m[0])
    if t[0] == "call" and t[1] == ("name", "dict") and len(t[2]) == 1:
        return iterorder(t[2][0])
    if t[0] == "call" and t[1] == ("name", "zip") and t[2]:
        return iterorder(t[2][0])
    if t[0] == "call" and t[1] == ("name", "enumerate") and t[2]:
        return iterorder(t[2][0])
    if t[0] == "comp" and t[1] == "dict" and len(t[4]) == 1 and not t[5]:
        return iterorder(t[4][0])
    if t[0] == "comp" and t[1] == "dict":
        return ("iter", t)
    if t[0] in ("call", "param", "attr", "elem", "self", "item", "sub", "new"):
        return ("iter", t)
    return None


class Orders(object):
    """the row order of array terms"""

    def __init__(self, own=None):
        self.own = own

    def order(self, t):
        t = bare(t)
        if t[0] == "attr" and t[2] in ("layout_array", "_layout_array"):
            if t[1] == SELF or t[1] == ("param", "self"):
                return ("sorted", ("attr", t[1], "G"))
            if fname(t[1]) == "Layout":
                g = kwd(t[1], "G", 0)
                return ("sorted", graph(g)) if g is not None else None
            return None
        if t[0] == "comp" and t[1] in ("list", "gen") and len(t[4]) == 1 and not t[5]:
            it = t[4][0]
            if it[0] == "call" and it[1] == ("name", "range"):
                return None
            return iterorder(it)
        if t[0] == "op" and len(t) == 4:
            a, b = self.order(t[2]), self.order(t[3])
            return a or b if not (a and b) or a == b else ("mixed", a, b)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("reshape", "ravel", "flatten", "round", "dot", "clip") and t[1][1][0] != "name":
            return self.order(t[1][1])
        if t[0] == "attr" and t[2] == "x" and fname(t[1]) == "minimize":
            x0 = kwd(t[1], "x0", 1)
            return self.order(x0) if x0 is not None else None
        if t[0] == "call" and fname(t) in ("hstack", "concatenate", "column_stack") and t[2] and t[2][0][0] in ("tuple", "list"):
            os_ = {self.order(x) for x in t[2][0][1]} - {None}
            return os_.pop() if len(os_) == 1 else ("mixed",) + tuple(os_) if os_ else None
        if t[0] == "attr" and t[2] == "T":
            x = t[1]
            if fname(x) in ("dot", "matmul") and len(x[2]) == 2 and x[2][1][0] == "attr" and x[2][1][2] == "T":
                return self.order(x[2][1][1])
            if x[0] == "op" and x[1] in ("@", "matmul") and x[3][0] == "attr" and x[3][2] == "T":
                return self.order(x[3][1])
            return None
        m = method(t, "values")
        if m:
            return iterorder(m[0])
        if t[0] == "item" or t[0] == "sub" and t[2][0] == "tuple" and t[2][1] and t[2][1][0][0] == "slice":
            return self.order(t[1]) if t[0] == "sub" else None
        return None


# ---------------------------------------------------------------- formulas
class Formula(object):
    """terms as rational functions of named quantities, compared at random points"""

    def __init__(self, names, axis=None, seed=7):
        self.names, self.axis = names, axis
        self.rng = random.Random(seed)
        self.val = {}

    def atom(self, k):
        if k not in self.val:
            self.val[k] = Fraction(self.rng.randint(3, 10**6), self.rng.randint(3, 10**4))
        return self.val[k]

    def ev(self, t):
        n = self.names(t, self)
        if n is not None:
            return n if isinstance(n, Fraction) else self.atom(n)
        if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return Fraction(t[1])
        if t[0] == "neg":
            return -self.ev(t[1])
        if t[0] == "op" and len(t) == 3 and t[1] in ("-", "neg", "USub"):
            return -self.ev(t[2])
        if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-", "*", "/"):
            a, b = self.ev(t[2]), self.ev(t[3])
            if t[1] == "+":
                return a + b
            if t[1] == "-":
                return a - b
            if t[1] == "*":
                return a * b
            return a / b if b else self.atom(("div0", t))
        b = bare(t)
        if b != t and (b[0] not in ("list", "tuple") or self.axis is not None):
            return self.ev(b)
        if t[0] in ("list", "tuple") and self.axis is not None and len(t[1]) > self.axis:
            return self.ev(t[1][self.axis])
        return self.atom(t)

    def same(self, a, b):
        return self.ev(a) == self.ev(b)


def reduce_of(t, names):
    """X for min/max over X with axis 0: (X, axis given)"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in names:
        if t[1][1] == ("name", "np") or t[1][1] == ("name", "numpy"):
            ax = kwd(t, "axis", 1)
            return (t[2][0], ax) if t[2] else None
        ax = kwd(t, "axis", 0)
        return t[1][1], ax
    return None


class C22(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        cls = [n for n in ast.walk(self.m.tree) if isinstance(n, ast.ClassDef) and n.name == "Layout"]
        if not cls:
            raise AnalysisBroken("%s has no class Layout" % REL)
        self.cls = cls[0]
        self.get, self.set, self.plain = {}, {}, {}
        for n in self.cls.body:
            if isinstance(n, ast.FunctionDef):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.set[n.name] = n
                elif any(d.split(".")[-1] in ("property", "cached_property") for d in decs):
                    self.get[n.name] = n
                else:
                    self.plain[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "property":
                raise AnalysisBroken("Layout.%s is made by property()" % ast.unparse(n.targets[0]))
        for p in PROPS:
            if p not in self.set or p not in self.get:
                raise AnalysisBroken("Layout.%s is not a property with a setter" % p)
        self.me = None

    def where(self, n):
        return self.m.where(n)

    def self_of(self, fn):
        return fn.args.args[0].arg

    def is_self(self, t):
        return t == SELF or t == ("param", "self") or t[0] == "self"

    def fld(self, t, *names):
        return t[0] == "attr" and self.is_self(t[1]) and t[2] in names

    # ------------------------------------------------------------ canonical quantities of the stored points
    def names(self, value=None, extra=None):
        """A: the array, C: its center, S: its scale, V: the value set"""
        def f(t, F):
            if extra is not None:
                n = extra(t, F)
                if n is not None:
                    return n
            b = bare(t)
            if value is not None and b == value:
                return "V"
            if self.fld(b, "layout_array", "_layout_array"):
                return "A"
            if self.fld(b, "center", "_center"):
                return "C"
            if self.fld(b, "scale", "_scale"):
                return "S"
            if b[0] == "op" and len(b) == 4:
                mid = self.mid(b)
                if mid is not None and F.ev(mid) == F.atom("A"):
                    return "C"
            r = self.maxabs(t)
            if r is not None:
                v = F.ev(r)
                if v == F.atom("A") - F.atom("C") or v == F.atom("C") - F.atom("A"):
                    return "S"
            return None
        return f

    @staticmethod
    def mid(t):
        """X when t is half the sum of the column minima and maxima of X"""
        half = None
        if t[0] == "op" and t[1] == "/" and t[3] in (("const", 2), ("const", 2.0)):
            half = t[2]
        elif t[0] == "op" and t[1] == "*" and ("const", 0.5) in t[2:4]:
            half = [x for x in t[2:4] if x != ("const", 0.5)]
            half = half[0] if half else None
        if half is None or half[0] != "op" or half[1] != "+":
            return None
        lo = hi = None
        for x in half[2:4]:
            a, b = reduce_of(x, ("min", "amin", "nanmin")), reduce_of(x, ("max", "amax", "nanmax"))
            if a and a[1] == ("const", 0):
                lo = a[0]
            if b and b[1] == ("const", 0):
                hi = b[0]
        return lo if lo is not None and lo == hi else None

    @staticmethod
    def maxabs(t):
        """X when t is the largest absolute entry of X"""
        r = reduce_of(t, ("max", "amax", "nanmax")) or (t[0] == "call" and t[1] == ("name", "max") and len(t[2]) == 1 and (t[2][0], None)) or None
        if not r:
            return None
        x, ax = r
        if ax is not None and ax != ("const", None):
            return None
        if x[0] == "call" and fname(x) == "norm":
            o = kwd(x, "ord", 1)
            a = kwd(x, "axis", 2)
            inf = o is not None and (o == ("call", ("name", "float"), (("const", "inf"),), ()) or nm(o) in ("inf", "Inf", "infty") or o == ("const", float("inf")))
            return x[2][0] if inf and a is not None and a[0] == "const" and a[1] in (0, 1, -1) else None
        if x[0] == "call" and fname(x) in ("abs", "absolute", "fabs") and len(x[2]) == 1:
            return x[2][0]
        r2 = reduce_of(x, ("max", "amax", "nanmax"))
        if r2 and r2[0][0] == "call" and fname(r2[0]) in ("abs", "absolute", "fabs"):
            return r2[0][2][0]
        return None

    # ------------------------------------------------------------ lockstep
    def raw(self, ev):
        return [(i, e) for i, e in enumerate(ev) if e.kind == "store_attr" and self.is_self(e.a[0]) and e.a[1] in RAW]

    def through(self, ev):
        return [(i, e) for i, e in enumerate(ev) if e.kind == "store_attr" and self.is_self(e.a[0]) and e.a[1] in PROPS]

    def is_map(self, t):
        return self.fld(t, "layout", "_layout") or self.is_self(t)

    def is_arr(self, t):
        return self.fld(t, "layout_array", "_layout_array")

    def pokes(self, ev):
        """what changes the mapping or the array in place"""
        for e in ev:
            if e.kind in ("store_sub", "del_sub", "aug_sub") and (self.is_map(e.a[0]) and not self.is_self(e.a[0]) or self.is_arr(e.a[0])):
                yield e
            elif e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in MUTATE and (self.fld(e.a[0][1], "layout", "_layout") or self.is_arr(e.a[0][1])):
                yield e
            elif e.kind == "delete" and e.a and e.a[0][0] in ("sub", "attr") and (self.is_map(e.a[0][1]) or self.is_arr(e.a[0][1])):
                yield e

    def specs_ok(self, ev, after):
        """dim, center and scale recomputed from the array after it was stored: (problems)"""
        last = {}
        for i, e in self.raw(ev):
            last[e.a[1]] = (i, e)
        out = []
        empty = any(self.says_empty(c, p) for e in ev if e.kind == "decide" for c, p in [e.a[:2]])
        F = Formula(self.names())
        arr = last.get("_layout_array")
        stored = arr[1].a[2] if arr else None

        def canon(t, FF):
            if stored is not None and (t == stored or bare(t) == bare(stored)):
                return "A"
            return None
        F = Formula(self.names(extra=canon))
        for f in ("_dim", "_center", "_scale"):
            if f not in last:
                out.append("%s is not brought up to date" % f)
                continue
            i, e = last[f]
            if i < after:
                out.append("%s is computed before the array is stored" % f)
            v = e.a[2]
            if empty:
                zero = v == ("const", 0) if f != "_center" else v[0] != "const"
                if not zero:
                    out.append("%s of an empty layout is %s" % (f, show(v)[:40]))
            elif f == "_dim":
                ok = v[0] == "sub" and v[2] in (("const", 1), ("const", -1)) and v[1][0] == "attr" and v[1][2] == "shape" and F.ev(v[1][1]) == F.atom("A") or \
                    v[0] == "item" and v[2] == 1 and v[1][0] == "attr" and v[1][2] == "shape" and F.ev(v[1][1]) == F.atom("A")
                if not ok:
                    out.append("_dim is %s" % show(v)[:60])
            elif f == "_center":
                # a middle computed from the array, not one read from before
                x = self.mid(bare(v))
                if x is None or F.ev(x) != F.atom("A"):
                    out.append("_center is not the middle of the array")
            else:
                x = self.maxabs(v)
                if x is None or F.ev(x) not in (F.atom("A") - F.atom("C"), F.atom("C") - F.atom("A")):
                    out.append("_scale is not the largest distance from the center")
        ci, si = last.get("_center"), last.get("_scale")
        if not empty and ci and si and si[0] < ci[0] and any(self.fld(x, "center", "_center") for x in subterms(si[1].a[2])):
            out.append("_scale is computed from the center of before")
        return out

    def says_empty(self, c, p):
        while c[0] == "not":
            c, p = c[1], not p
        if c[0] == "cmp" and c[1] == "==" and ("const", 0) in c[2:4]:
            x = c[2] if c[3] == ("const", 0) else c[3]
            return p and self.sizeof(x)
        if c[0] == "cmp" and c[1] == "<" and c[2] == ("const", 0):
            return not p and self.sizeof(c[3])
        return not p and self.sizeof(c)

    def sizeof(self, x):
        return x[0] == "attr" and x[2] == "size" and x[1][0] != "param" or x[0] == "call" and x[1] == ("name", "len") and len(x[2]) == 1

    def store_pairs(self, fn, ev):
        """problems with what a path leaves behind when it stores the fields itself"""
        raw, thr = self.raw(ev), self.through(ev)
        out = []
        lay = [x for x in raw if x[1].a[1] == "_layout"]
        arr = [x for x in raw if x[1].a[1] == "_layout_array"]
        if not raw:
            return out
        # a store through a setter afterwards replaces both
        later = max([i for i, e in thr if e.a[1] in PROPS], default=-1)
        if later > max(i for i, e in raw):
            return out
        if not lay or not arr:
            if lay or arr:
                out.append("%s is stored without the other" % raw[0][1].a[1])
            return out
        L, A = lay[-1][1].a[2], arr[-1][1].a[2]
        G = ("sorted", ("attr", raw[0][1].a[0], "G"))
        x = bare(A)
        src = bare(L)
        if src[0] == "call" and src[1] == ("name", "dict") and len(src[2]) == 1 and not src[3]:
            src2 = src[2][0]
        elif src[0] == "dict" and len(src[1]) == 1 and src[1][0][0] == ("**",):
            src2 = src[1][0][1]
        else:
            src2 = None
        same = {L, bare(L)} | ({src2} if src2 is not None else set()) | {("attr", raw[0][1].a[0], k) for k in ("_layout", "layout")}
        rows = x[0] == "comp" and x[1] in ("list", "gen") and len(x[4]) == 1 and not x[5] and x[2] is not None
        if rows:
            v = bare(x[2])
            o = iterorder(x[4][0])
            if not (v[0] == "sub" and v[1] in same and v[2] == elem(x[4][0])):
                out.append("a row of the array is %s" % show(x[2])[:50])
            if o != G:
                out.append("the rows of the array follow %s, not the sorted vertices" % (show(o[1])[:30] if o else "something else"))
            if src2 is None and not (src[0] == "comp"):
                out.append("the mapping stored is the caller's own")
            elif src[0] == "call" and src2 is not None and src2[0] not in ("param", "call", "comp", "dict", "attr"):
                out.append("the mapping stored is %s" % show(src)[:40])
        else:
            # array given, mapping made from it
            z = L
            if z[0] == "call" and z[1] == ("name", "dict") and len(z[2]) == 1:
                z = z[2][0]
            pair = self.pairs(z)
            if pair is None or pair[0] != G or bare(pair[1]) != bare(A):
                out.append("mapping and array are stored from different points")
        return out

    def pairs(self, t):
        """(order of the vertices, array) when t pairs vertices with rows"""
        if t[0] == "call" and t[1] == ("name", "zip") and len(t[2]) == 2:
            return iterorder(t[2][0]), t[2][1]
        if t[0] == "comp" and t[1] == "dict" and len(t[4]) == 1 and not t[5]:
            it = t[4][0]
            if it[0] == "call" and it[1] == ("name", "zip") and len(it[2]) == 2:
                from pyai import item
                e = elem(it)
                if (t[2], bare(t[3])) in ((item(e, 0, 2), item(e, 1, 2)), (elem(it[2][0]), elem(it[2][1]))):
                    return iterorder(it[2][0]), it[2][1]
                return None
            if it[0] == "call" and it[1] == ("name", "enumerate") and len(it[2]) == 1:
                v = bare(t[3])
                from pyai import item
                e = elem(it)
                if v[0] == "sub" and v[2] == item(e, 0, 2) and t[2] == item(e, 1, 2):
                    return iterorder(it[2][0]), v[1]
        return None

    def lockstep(self):
        chk = self.chk
        n = 0
        todo = [("%s (set)" % k, f) for k, f in self.set.items()] + list(self.plain.items()) + [("%s (get)" % k, f) for k, f in self.get.items()]
        helpers = {f for f in self.plain if not f.startswith("__")}
        called = {x.attr for x in ast.walk(self.cls) if isinstance(x, ast.Attribute) and x.attr in helpers}
        for name, fn in todo:
            if name in called:
                continue                      # seen where it is called
            bad, pk = [], []
            for ev, dec, raised, ret in runs(self.m, fn, "Layout", ("p_norm", "dnx_layout", "graph_layout", "_pack_components", "_dimension_layout" if name != "dim (set)" else "")):
                n += 1
                if raised is not None:
                    continue
                bad += self.store_pairs(fn, ev)
                if name == "layout_array (set)":
                    for i, e in self.through(ev)[-1:]:
                        val = ("param", EveryPath.params(fn)[-1])
                        if e.a[1] == "layout":
                            pr = self.pairs(bare(e.a[2])) or (self.pairs(e.a[2][2][0]) if fname(e.a[2]) == "dict" and e.a[2][2] else None)
                            same = pr is not None and (bare(pr[1]) == val or self.is_arr(pr[1]))
                            if not same or pr[0] != ("sorted", ("attr", e.a[0], "G")):
                                bad.append("the rows given are not those of the sorted vertices")
                raw = [(i, e) for i, e in self.raw(ev)]
                stores = [i for i, e in raw if e.a[1] in ("_layout", "_layout_array")]
                thr = [i for i, e in self.through(ev)]
                if raw and not (thr and max(thr) > max(i for i, e in raw)):
                    if not stores:
                        bad.append("%s is set without the points" % raw[0][1].a[1])
                    else:
                        bad += self.specs_ok(ev, max(stores))
                for e in self.pokes(ev):
                    i = ev.index(e)
                    if not any(j > i for j in thr):
                        pk.append((e, "changes %s in place and leaves the rest as it was" % ("the array" if self.is_arr(e.a[0] if e.kind != "call" else e.a[0][1]) else "the mapping")))
            for w in sorted(set(bad)):
                chk.ob("lockstep", "Layout.%s: %s" % (name, w), False, self.where(fn), w)
            if pk:
                chk.ob("lockstep", "Layout.%s: %s" % (name, pk[0][1]), False, self.where(pk[0][0].node), pk[0][1])
            if not bad and not pk:
                chk.ob("lockstep", "Layout.%s leaves mapping, array, dim, center and scale in step" % name, True, self.where(fn))
        chk.count("paths through methods of Layout", n)
        # outside the class nothing touches the fields
        for n_ in ast.walk(self.m.tree):
            if isinstance(n_, ast.Attribute) and n_.attr in RAW and isinstance(n_.ctx, (ast.Store, ast.Del)):
                inside = any(n_ is x for x in ast.walk(self.cls))
                if not inside:
                    chk.ob("lockstep", "%s: stores %s of a layout" % (REL, n_.attr), False, self.where(n_), "only Layout may")
        for rel in ("minorminer/layout/placement.py", "minorminer/layout/__init__.py"):
            mm = pyfront.load(rel)
            hits = [n_ for n_ in ast.walk(mm.tree) if isinstance(n_, ast.Attribute) and n_.attr in RAW and isinstance(n_.ctx, (ast.Store, ast.Del))]
            hits += [n_ for n_ in ast.walk(mm.tree) if isinstance(n_, ast.Subscript) and isinstance(n_.ctx, (ast.Store, ast.Del)) and
                     isinstance(n_.value, ast.Attribute) and n_.value.attr in ("layout", "layout_array", "_layout", "_layout_array")]
            chk.ob("lockstep", "%s changes layouts only through their setters" % rel, not hits, mm.where(hits[0]) if hits else rel, "")

    # ------------------------------------------------------------ reading
    def reading(self):
        chk = self.chk
        for p in PROPS:
            ok, why = True, ""
            for ev, dec, raised, ret in runs(self.m, self.get[p], "Layout"):
                if raised is not None or ret is None or not self.fld(ret, "_" + p):
                    ok, why = False, show(ret)[:60] if ret else "nothing"
            chk.ob("reading", "Layout.%s is the stored one" % p, ok, self.where(self.get[p]), why)
        want = {"__getitem__": "item", "__len__": "len", "__iter__": "iter"}
        for k in want:
            if k not in self.plain:
                raise AnalysisBroken("Layout has no %s" % k)
            fn = self.plain[k]
            ok, why, some = True, "", False
            for ev, dec, raised, ret in runs(self.m, fn, "Layout"):
                if raised is not None:
                    ok = False
                    continue
                if k == "__getitem__":
                    key = ("param", EveryPath.params(fn)[-1])
                    good = ret is not None and ret[0] == "sub" and self.is_map(ret[1]) and not self.is_self(ret[1]) and ret[2] == key
                elif k == "__len__":
                    good = ret is not None and ret[0] == "call" and ret[1] == ("name", "len") and len(ret[2]) == 1 and self.fld(graph(ret[2][0]), "layout", "_layout")
                else:
                    ys = [e for e in ev if e.kind in ("yield", "yield_from")]
                    good = len(ys) == 1 and (self.fld(graph(ys[0].a[0]), "layout", "_layout") if ys[0].kind == "yield_from" or ys[0].a[0][0] != "elem" else
                                             self.fld(graph(ys[0].a[0][1]), "layout", "_layout"))
                    if not ys and ret is not None:
                        good = ret[0] == "call" and ret[1] == ("name", "iter") and self.fld(graph(ret[2][0]), "layout", "_layout")
                some = True
                if not good:
                    ok, why = False, show(ret)[:60] if ret else ""
            chk.ob("reading", "Layout.%s reads the mapping" % k, ok and some, self.where(fn), why)
        fn = self.plain.get("__setitem__")
        if fn is None:
            raise AnalysisBroken("Layout has no __setitem__")
        ps = EveryPath.params(fn)
        ok = False
        for ev, dec, raised, ret in runs(self.m, fn, "Layout"):
            thr = [e for i, e in self.through(ev) if e.a[1] in ("layout", "layout_array")]
            ok = False
            if thr:
                v = thr[-1].a[2]
                if v[0] == "dict":
                    d = list(v[1])
                    ok = len(d) == 2 and d[0][0] == ("**",) and self.fld(d[0][1], "layout", "_layout") and d[1] == (("param", ps[-2]), ("param", ps[-1]))
                elif v[0] == "call" and v[1] == ("name", "dict") and v[2] and self.fld(v[2][0], "layout", "_layout"):
                    ok = any(e.kind == "store_sub" and e.a[0] == v and e.a[1] == ("param", ps[-2]) and e.a[2] == ("param", ps[-1]) for e in ev)
                elif v[0] == "new" or v[0] == "call":
                    ok = any(e.kind == "store_sub" and e.a[0] == v and e.a[1] == ("param", ps[-2]) and e.a[2] == ("param", ps[-1]) for e in ev)
            if not ok:
                break
        chk.ob("reading", "Layout.__setitem__ gives the vertex its new point and keeps the others", ok, self.where(fn), "")

    # ------------------------------------------------------------ the transformations
    def transforms(self):
        chk = self.chk
        for p in ("center", "scale", "dim"):
            fn = self.set[p]
            val = ("param", EveryPath.params(fn)[-1])
            bad, done = [], 0
            for ev, dec, raised, ret in runs(self.m, fn, "Layout"):
                guards = []
                zero = False
                for c, pol in dec:
                    while c[0] == "not":
                        c, pol = c[1], not pol
                    ts = set(subterms(c))
                    if val in ts and not any(self.fld(x, *(RAW + PROPS)) for x in ts):
                        guards.append((c, pol))
                    elif c[0] == "cmp" and c[1] in ("==", "is") and any(self.fld(x, "_scale", "scale") or self.maxabs(x) is not None for x in c[2:4]) and ("const", 0) in c[2:4]:
                        zero = pol
                    elif self.fld(c, "_scale", "scale"):
                        zero = not pol
                small = [pol for c, pol in dec if c[0] == "cmp" and c[1] == "<" and c[2] == val]
                if raised is not None:
                    if p != "dim" or fname(raised.a[0]) != "ValueError" or small != [True]:
                        bad.append("an exception for values that can be set")
                    continue
                thr = [e for i, e in self.through(ev)]
                st = [e.a[2] for e in thr if e.a[1] == "layout_array"]
                st += [e.a[2] for i, e in self.raw(ev) if e.a[1] == "_layout_array"]
                if not st:
                    if zero and p == "scale":
                        continue
                    if not guards:
                        bad.append("nothing is stored")
                        continue
                    if not all(self.nothing(c, pol, val) for c, pol in guards[-1:]):
                        bad.append("nothing is stored if %s" % show(guards[-1][0])[:50])
                    continue
                X = st[-1]
                done += 1
                F = Formula(self.names(val))
                A, C, S, V = (F.atom(k) for k in "ACSV")
                if p == "center":
                    if F.ev(X) != A + V - C:
                        bad.append("the points become %s" % show(X)[:80])
                elif p == "scale":
                    if zero and F.ev(X) == A:
                        continue
                    if F.ev(X) != V / S * (A - C) + C:
                        bad.append("the points become %s" % show(X)[:80])
                    if not any(c[0] == "cmp" and c[1] in ("==", "is", "<") and ("const", 0) in c[2:4] and not any(x == val for x in subterms(c)) or
                               self.fld(c, "_scale", "scale") for c, pol in [(c[1] if c[0] == "not" else c, pol) for c, pol in dec]):
                        bad.append("a layout of a single point is divided by its scale of 0")
                else:
                    if small != [False] and not any(c[0] == "cmp" and c[1] == "<=" and c[3] == val and pol for c, pol in dec):
                        bad.append("a smaller dimension is not refused")
                    if not self.padded(X, ev, val):
                        bad.append("the points become %s" % show(X)[:80])
            if not done:
                bad.append("never sets anything")
            chk.ob("transforms", "Layout.%s = v %s" % (p, {"center": "moves every point by v - center", "scale": "stretches every point about the center by v/scale",
                                                         "dim": "adds coordinates of 0, refusing a smaller dimension"}[p]), not bad, self.where(fn), "; ".join(sorted(set(bad))))
        for nm_, form in (("_center_layout", "center"), ("_scale_layout", "scale")):
            if nm_ not in self.m.functions:
                continue
            fn = self.m.functions[nm_]
            ps = [("param", x) for x in EveryPath.params(fn)]
            bad = []
            for ev, dec, raised, ret in runs(self.m, fn):
                if raised is not None:
                    bad.append("raises")
                    continue
                none = {c[2]: pol for c, pol in dec if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None)}

                def extra(t, F):
                    b = bare(t)
                    if b == ps[0]:
                        return "A"
                    if b == ps[1]:
                        return "V"
                    if len(ps) > 2 and b == ps[2] and form == "center" or len(ps) > 3 and b == ps[3]:
                        return "C"
                    if len(ps) > 2 and b == ps[2] and form == "scale":
                        return "S"
                    return None
                F = Formula(self.names(None, extra))
                A, C, S, V = (F.atom(k) for k in "ACSV")
                zero = any(pol and c[0] == "cmp" and c[1] == "==" and ("const", 0) in c[2:4] for c, pol in dec)
                w = A + V - C if form == "center" else A if zero and F.ev(ret) == A else V / S * (A - C) + C
                if ret is None or F.ev(ret) != w:
                    bad.append("%s" % show(ret)[:80] if ret else "nothing")
            chk.ob("transforms", "%s is the %s map, whichever arguments are left out" % (nm_, form), not bad, self.where(fn), "; ".join(sorted(set(bad))))

    def nothing(self, c, pol, val):
        """the value is empty: None, 0, or an array of size 0"""
        if c == val:
            return not pol
        if c[0] == "cmp" and c[1] == "is" and c[2] == val and c[3] == ("const", None):
            return pol
        if c[0] == "cmp" and c[1] == "==" and ("const", 0) in c[2:4]:
            x = c[2] if c[3] == ("const", 0) else c[3]
            return pol and (x == val or x[0] == "attr" and x[2] == "size" or fname(x) == "len")
        if c[0] == "attr" and c[2] == "size" or fname(c) == "len":
            return not pol
        if c[0] == "cmp" and c[1] == "<" and c[2] == ("const", 0):
            return not pol
        return False

    def padded(self, X, ev, val):
        F = Formula(self.names(val))
        A = F.atom("A")

        def olddim(t):
            return self.fld(t, "dim", "_dim") or t[0] == "sub" and t[2] in (("const", 1), ("const", -1)) and t[1][0] == "attr" and t[1][2] == "shape" and F.ev(t[1][1]) == A

        def rows(t):
            return t[0] == "sub" and t[2] == ("const", 0) and t[1][0] == "attr" and t[1][2] == "shape" and F.ev(t[1][1]) == A or \
                fname(t) == "len" and F.ev(t[2][0]) == A or t[0] == "item" and t[2] == 0 and t[1][0] == "attr" and t[1][2] == "shape"
        if fname(X) == "zeros" and X[2] and X[2][0][0] == "tuple" and len(X[2][0][1]) == 2:
            n, d = X[2][0][1]
            st = [e for e in ev if e.kind == "store_sub" and e.a[0] == X]
            if not (rows(n) and d == val and len(st) == 1 and F.ev(st[0].a[2]) == A):
                return False
            ix = st[0].a[1]
            if ix[0] != "tuple" or len(ix[1]) != 2 or ix[1][0][0] != "slice" or ix[1][1][0] != "slice":
                return False
            full = all(x in (None, ("const", None)) for x in ix[1][0][1:])
            s = ix[1][1]
            return full and s[1] in (None, ("const", None), ("const", 0)) and olddim(s[2]) and s[3] in (None, ("const", None))
        if fname(X) in ("hstack", "concatenate", "column_stack", "append"):
            parts = list(X[2][0][1]) if X[2] and X[2][0][0] in ("tuple", "list") else list(X[2][:2])
            if fname(X) in ("concatenate", "append") and kwd(X, "axis") != ("const", 1):
                return False
            if len(parts) != 2 or F.ev(parts[0]) != A or fname(parts[1]) != "zeros" or parts[1][2][0][0] != "tuple":
                return False
            n, d = parts[1][2][0][1]
            return rows(n) and d[0] == "op" and d[1] == "-" and d[2] == val and olddim(d[3])
        if fname(X) == "pad" and F.ev(X[2][0]) == A:
            w = kwd(X, "pad_width", 1)
            try:
                (a, b), (c, d) = [y[1] for y in w[1]]
            except (TypeError, ValueError, IndexError):
                return False
            return (a, b, c) == (("const", 0),) * 3 and d[0] == "op" and d[1] == "-" and d[2] == val and olddim(d[3])
        return False

    # ------------------------------------------------------------ construction
    def construction(self):
        chk = self.chk
        fn = self.plain.get("__init__")
        if fn is None:
            raise AnalysisBroken("Layout has no __init__")
        bad = {"layout": set(), "specs": set(), "keywords": set()}
        LAYOUT = ("param", "layout")
        n = 0
        kwn = ("param", "**" + fn.args.kwarg.arg) if fn.args.kwarg else None
        for ev, dec, raised, ret in runs(self.m, fn, "Layout", ("p_norm", "dnx_layout", "graph_layout", "_pack_components", "_parse_graph")):
            if raised is not None:
                continue
            # a flag assigned a constant on this path decides the ifs on it
            n += 1
            f = {}
            for c, pol in dec:
                while c[0] == "not":
                    c, pol = c[1], not pol
                if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None) and c[2][0] == "param":
                    f[c[2][1] + " none"] = pol
                elif c[0] == "call" and c[1] == ("name", "callable") and c[2] == (LAYOUT,):
                    f["callable"] = pol
                elif c == ("param", "pack_components"):
                    f["pack"] = pol
                elif c[0] == "cmp" and c[1] == "in" and any(x == ("const", "family") for x in subterms(c[2])):
                    f["dwave"] = pol
            thr = self.through(ev)
            lay = [(i, e) for i, e in thr if e.a[1] == "layout"]
            if len(lay) != 1:
                bad["layout"].add("the mapping is set %d times" % len(lay))
                continue
            i0, e0 = lay[0]
            G = [e.a[2] for e in ev if e.kind == "store_attr" and self.is_self(e.a[0]) and e.a[1] == "G"]
            gs = {("attr", e0.a[0], "G")} | set(G[-1:])
            if not G or not (fname(G[-1]) == "_parse_graph" and G[-1][2] == (("param", "G"),) or ("param", "G") in alts(G[-1])):
                bad["layout"].add("G is %s" % (show(G[-1])[:40] if G else "not kept"))
            v = e0.a[2]
            if f.get("layout none"):
                if f.get("dwave") is None:
                    bad["layout"].add("without a layout the family of G is not asked")
                if f.get("dwave"):
                    ok = fname(v) in ("dnx_layout", "graph_layout") and v[2][:1] and v[2][0] in gs
                    how = ("name", "dnx_layout")
                else:
                    how = ("name", "p_norm")
                    ok = self.computed(v, how, gs, f.get("pack"), kwn)
                if not ok:
                    bad["layout"].add("without a layout %s graph gets %s" % ("a D-Wave" if f.get("dwave") else "a", show(v)[:60]))
            elif f.get("callable"):
                if not self.computed(v, LAYOUT, gs, f.get("pack"), kwn):
                    bad["layout"].add("a layout function gives %s" % show(v)[:60])
            elif f.get("callable") is False:
                if v != LAYOUT:
                    bad["layout"].add("a given mapping becomes %s" % show(v)[:60])
            else:
                bad["layout"].add("%s is taken whether or not it is a function" % show(v)[:40])
            if kwn is not None and f.get("callable") is not False:
                st = {e.a[1][1]: e for j, e in enumerate(ev) if e.kind == "store_sub" and e.a[0] == kwn and e.a[1][0] == "const" and j < i0}
                for k in ("dim", "center", "scale"):
                    if (k in st) != (f.get(k + " none") is False) or k in st and st[k].a[2] != ("param", k):
                        if not (k in st and f.get(k + " none") is None):
                            bad["keywords"].add("%s reaches the layout function %s" % (k, "as %s" % show(st[k].a[2])[:30] if k in st else "not at all"))
                        elif f.get(k + " none") is None:
                            bad["keywords"].add("%s reaches the layout function as None when it is not given" % k)
            # dim, scale and center
            seen = {}
            for i, e in thr:
                if e.a[1] in ("dim", "center", "scale"):
                    if i < i0:
                        bad["specs"].add("%s is set before the mapping" % e.a[1])
                    seen[e.a[1]] = (i, e.a[2])
            for k in ("dim", "center", "scale"):
                given = f.get(k + " none")
                x = seen.get(k)
                P = ("param", k)
                if x is None:
                    if given is not True and not any(c == P and not pol for c, pol in dec):
                        bad["specs"].add("a %s that is asked for is not set" % k)
                    continue
                vs = set(alts(x[1])) if x[1][0] == "alt" else {x[1]}
                if x[1][0] in ("or", "boolop"):
                    vs = set(x[1][1])
                ok = vs <= {P, ("attr", e0.a[0], "_" + k), ("attr", e0.a[0], k)} and (P in vs or given or any(c == P and not pol for c, pol in dec))
                if not ok:
                    bad["specs"].add("%s is set to %s" % (k, show(x[1])[:40]))
            if "dim" in seen and "center" in seen and seen["dim"][0] > seen["center"][0]:
                bad["specs"].add("the center is set before the dimension")
        chk.count("paths through Layout.__init__", n)
        chk.ob("construction", "Layout takes a mapping as given, calls a function on the whole of G, and chooses for D-Wave graphs", not bad["layout"],
               self.where(fn), "; ".join(sorted(bad["layout"])))
        chk.ob("construction", "dim, center and scale reach the layout function exactly if given", not bad["keywords"], self.where(fn), "; ".join(sorted(bad["keywords"])))
        chk.ob("construction", "dim, then center and scale are set as asked for", not bad["specs"], self.where(fn), "; ".join(sorted(bad["specs"])))

    def computed(self, v, how, gs, pack, kwn):
        if v[0] != "call":
            return False
        star = [x for k, x in v[3] if k == "**"]
        if kwn is not None and star != [kwn]:
            return False
        if fname(v) == "_pack_components":
            return pack is True and len(v[2]) == 2 and v[2][0] in gs and v[2][1] == how
        return pack is not True and v[1] == how and len(v[2]) == 1 and v[2][0] in gs

    # ------------------------------------------------------------ rows and vertices
    def rows(self):
        chk = self.chk
        O = Orders()
        n = 0
        self.seen_pairs = set()
        for name in sorted(self.m.functions):
            fn = self.m.functions[name]
            if "." in name or fn in self.cls.body:
                continue
            bad = {}
            found = 0
            done = set()
            for ev, dec, raised, ret in runs(self.m, fn, None, ("Layout",) + (("p_norm", "graph_layout", "dnx_layout", "_set_dim_and_center", "_nx_to_graph_layout"))):
                n += 1
                terms = []
                for e in ev:
                    if e.kind == "call":
                        terms.append((e.a[3], e.node, False))
                    elif e.kind in ("store_name", "return") and e.a:
                        terms.append((e.a[-1], e.node, True))
                    elif e.kind == "store_attr" and e.a[1] == "layout_array" and not self.is_self(e.a[0]):
                        o = O.order(e.a[2])
                        g = kwd(e.a[0], "G", 0) if fname(e.a[0]) == "Layout" else None
                        if g is None:
                            continue
                        found += 1
                        if o is None or o != ("sorted", graph(g)):
                            bad["the array set on a layout follows %s" % self.show(o)] = e.node
                for t, node, deep in terms:
                    if (t, deep) in done:
                        continue
                    done.add((t, deep))
                    for x in subterms(t) if deep else (t,):
                        if x[0] not in ("call", "comp") or x in done:
                            continue
                        done.add(x)
                        if x[0] == "call" and x[1] == ("name", "zip") and len(x[2]) == 2:
                            o = O.order(x[2][1]) if bare(x[2][1])[0] not in ("list", "tuple", "new") else None
                            k = iterorder(x[2][0])
                            if o is not None and k is not None:
                                found += 1
                                if o != k:
                                    bad["rows in the order of %s are given to vertices in the order of %s" % (self.show(o), self.show(k))] = node
                        elif x[0] == "comp" and x[1] == "dict":
                            pr = self.pairs(x)
                            if pr is not None:
                                o = O.order(pr[1])
                                if o is not None and pr[0] is not None:
                                    found += 1
                                    if o != pr[0]:
                                        bad["rows in the order of %s are given to vertices in the order of %s" % (self.show(o), self.show(pr[0]))] = node
                        elif x[0] == "call" and fname(x) == "minimize":
                            x0, ar = kwd(x, "x0", 1), kwd(x, "args", 2)
                            o = O.order(x0) if x0 is not None else None
                            D = ar[1][0] if ar is not None and ar[0] == "tuple" and ar[1] else None
                            if D is None:
                                continue
                            found += 1
                            d = O.order(D)
                            inner = None
                            b = bare(D)
                            if b[0] == "comp" and b[2] is not None and b[2][0] == "comp":
                                inner = iterorder(b[2][4][0]) if len(b[2][4]) == 1 and not b[2][5] else None
                                cell = b[2][2]
                            if o is None or d != o or inner != o:
                                bad["the distances follow %s by %s, the points %s" % (self.show(d), self.show(inner), self.show(o))] = node
                            elif not self.cell(cell, b, b[2]):
                                bad["a distance is %s" % show(cell)[:60]] = node
            for w, node in sorted(bad.items(), key=lambda q: q[0]):
                chk.ob("rows", "%s: %s" % (name, w), False, self.where(node), w)
            if not bad and found:
                self.seen_pairs.add(name)
                chk.ob("rows", "%s: rows and vertices are paired in the order they were laid out" % name, True, self.where(fn))
        chk.count("paths through layout functions", n)

    def cell(self, c, outer, inner):
        """entry (u, v) is the distance from u to v, or the number for other components"""
        u, v = elem(outer[4][0]), elem(inner[4][0])
        if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "get" and len(c[2]) == 2:
            return c[1][1][0] == "sub" and c[1][1][2] in (u, v) and c[2][0] in (u, v) and c[2][1][0] != "const"
        return c[0] == "sub" and c[1][0] == "sub"

    @staticmethod
    def show(o):
        if not o:
            return "no order known"
        if o[0] == "mixed":
            return "different orders"
        return ("sorted %s" if o[0] == "sorted" else "%s") % show(o[1])[:40]

    def pnorm(self):
        chk = self.chk
        fn = self.m.functions.get("p_norm")
        if fn is None:
            raise AnalysisBroken("%s has no p_norm" % REL)
        bad = set()
        n = 0
        for ev, dec, raised, ret in runs(self.m, fn, None, ("Layout", "_graph_distance_matrix", "_set_dim_and_center")):
            if raised is not None:
                continue
            n += 1
            lay = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "Layout"]
            if not lay:
                bad.add("makes no layout")
                continue
            L = lay[-1]
            start = [pol for c, pol in dec if c == ("param", "starting_layout")] + [not pol for c, pol in dec if c[0] == "cmp" and c[1] == "is" and c[2] == ("param", "starting_layout")]
            given = kwd(L, "layout", 1)
            if start[:1] == [True] and given != ("param", "starting_layout"):
                bad.add("the starting layout is not used")
            if kwd(L, "G", 0) != ("param", "G"):
                bad.add("the layout is not of G")
            if not (ret == ("attr", L, "layout") or ret == L or fname(ret) == "dict" and ret[2] and ret[2][0] in (L, ("attr", L, "layout"))):
                bad.add("returns %s" % show(ret)[:50])
            st = [(e.a[1], e.a[2]) for e in ev if e.kind == "store_attr" and e.a[0] == L]
            names = [k for k, v in st]
            sc = [pol for c, pol in dec if c == ("param", "scale")] + [not pol for c, pol in dec if c[0] == "cmp" and c[1] == "is" and c[2] == ("param", "scale")]
            if names.count("layout_array") != 1:
                bad.add("the points found are not stored once")
            else:
                at = names.index("layout_array")
                if "center" not in names[at:]:
                    bad.add("the layout is not centered after it is found")
                else:
                    v = dict(st)["center"]
                    ok = v[0] == "item" and v[2] == 1 and fname(v[1]) == "_set_dim_and_center" or v == ("param", "center")
                    if not ok:
                        bad.add("the center set is %s" % show(v)[:40])
                if ("scale" in names[at:]) != (sc[-1:] != [False]):
                    bad.add("the scale asked for is not set" if sc[-1:] != [False] else "a scale is set")
                elif "scale" in names and dict(st)["scale"] != ("param", "scale"):
                    bad.add("the scale set is %s" % show(dict(st)["scale"])[:40])
            D = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "_graph_distance_matrix"]
            if D and not any(x == ("param", "G_distances") for x in subterms(D[0])):
                bad.add("the distances given are ignored")
            mi = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "minimize"]
            if not mi:
                bad.add("nothing is minimised")
        chk.ob("construction", "p_norm: starts where asked, measures the distances given, centers and scales the points it found", not bad and n > 0,
               self.where(fn), "; ".join(sorted(bad)))
        fn = self.m.functions.get("_set_dim_and_center")
        if fn is not None:
            bad = set()
            dflt = None
            for ev, dec, raised, ret in runs(self.m, fn):
                none = {c[2][1]: pol for c, pol in dec if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None) and c[2][0] == "param"}
                if raised is not None:
                    continue
                if ret is None or ret[0] != "tuple" or len(ret[1]) != 2:
                    bad.add("returns %s" % (show(ret)[:40] if ret else "nothing"))
                    continue
                d, c = ret[1]
                cl = ("call", ("name", "len"), (("param", "center"),), ())
                if none.get("dim") and none.get("center") is False and d != cl:
                    bad.add("dim is %s for a center alone" % show(d)[:30])
                if none.get("dim") is False and d != ("param", "dim"):
                    bad.add("dim is %s though given" % show(d)[:30])
                if none.get("dim") and none.get("center") and d not in (("param", "default_dim"), ("const", 2)):
                    bad.add("dim is %s by default" % show(d)[:30])
                if none.get("center") is False and c != ("param", "center"):
                    bad.add("the center given is replaced")
                if none.get("center") and not (c[0] == "op" and c[1] == "*" and set(c[2:4]) == {d, ("tuple", (("const", 0),))}):
                    bad.add("the default center is %s" % show(c)[:40])
                eq = [pol for c_, pol in dec if c_[0] == "cmp" and c_[1] == "==" and any(fname(x) == "len" for x in c_[2:4])]
                if eq[-1:] != [True]:
                    bad.add("a center of another dimension is let through")
            chk.ob("construction", "_set_dim_and_center: as given, else of each other, else the origin of the plane; a mismatch is refused", not bad,
                   self.where(fn), "; ".join(sorted(bad)))

    # ------------------------------------------------------------ the D-Wave layout
    def dwave(self):
        chk = self.chk
        fn = self.m.functions.get("graph_layout")
        if fn is None:
            raise AnalysisBroken("%s has no graph_layout" % REL)
        bad = set()
        seen = set()
        n = 0
        G, CEN, SC = ("param", "G"), ("param", "center"), ("param", "scale")
        for ev, dec, raised, ret in runs(self.m, fn, None, ("Layout", "_set_dim_and_center")):
            if raised is not None:
                continue
            calls = [e.a[3] for e in ev if e.kind == "call" and (fname(e.a[3]) or "").endswith("_layout") and e.a[3][1][0] == "attr"]
            fam, no = None, set()
            for c, pol in dec:
                while c[0] == "not":
                    c, pol = c[1], not pol
                if c[0] == "cmp" and c[1] == "==" and any(x == ("const", "family") for x in subterms(c)):
                    k = [x[1] for x in c[2:4] if x[0] == "const"]
                    if k and pol:
                        fam = k[0]
                    elif k:
                        no.add(k[0])
            if fam is None and len({"chimera", "pegasus", "zephyr"} - no) == 1:
                fam = list({"chimera", "pegasus", "zephyr"} - no)[0]
            if fam is None:
                continue
            n += 1
            if len(calls) != 1 or fname(calls[0]) != fam + "_layout" or calls[0][2][:1] != (G,):
                bad.add("%s graphs are laid out by %s" % (fam, ", ".join(sorted(str(fname(c)) for c in calls)) or "nothing"))
                continue
            seen.add(fam)
            call = calls[0]
            dc = [x for x in subterms(kwd(call, "center") or ("const", 0)) if fname(x) == "_set_dim_and_center"]
            cen = ("item", dc[0], 1) if dc else CEN
            none = any(c[0] == "cmp" and c[1] == "is" and c[2] == SC and pol for c, pol in dec)

            def nms(t, F):
                if t[0] == "sub" and t[1] == cen and t[2][0] == "const":
                    return "c%d" % t[2][1]
                if t[0] == "item" and t[1] == cen:
                    return "c%d" % t[2]
                if t == SC:
                    return "s"
                if none and t[0] == "call" and t[1][-1] in ("max", "maximum") and {nm_(x) for x in t[2]} == {"rows", "columns"}:
                    return "2s"
                return None

            def nm_(x):
                return x[2][1] if x[0] == "sub" and x[2][0] == "const" else None
            F = Formula(nms)
            s = F.atom("2s") / 2 if none else F.atom("s")
            k = kwd(call, "scale")
            if k is None or F.ev(k) != 2 * s:
                bad.add("the width asked for is not twice the scale")
            if not (kwd(call, "dim") is not None and kwd(call, "dim") in (("param", "dim"),) + ((("item", dc[0], 0),) if dc else ())):
                bad.add("the dimension asked for is not passed on")
            parts = self.concat(kwd(call, "center"))
            ok = parts is not None and len(parts) == 3 and parts[0][0] != "rest" and F.ev(parts[0]) == F.atom("c0") - s and F.ev(parts[1]) == F.atom("c1") + s and \
                parts[2] == ("rest", cen, 2)
            if not ok:
                bad.add("the corner is not (center[0] - scale, center[1] + scale, center[2:])")
            # what is returned
            L = ret
            if L is not None and L[0] == "attr" and L[2] == "layout":
                L = L[1]
            if L is None or fname(L) != "Layout" or kwd(L, "G", 0) != G:
                bad.add("returns %s" % (show(ret)[:50] if ret else "nothing"))
                continue
            m = kwd(L, "layout", 1)
            if m == call:
                continue
            pr = self.pairs(m if fname(m) != "dict" else m[2][0])
            if pr is None:
                bad.add("the points returned are %s" % show(m)[:50])
                continue
            seen.add("stretched")
            why = self.stretched(pr[1], call, cen, k, kwd(call, "dim"))
            if why:
                bad.add(why)
        if not bad and seen != {"chimera", "pegasus", "zephyr", "stretched"}:
            bad.add("only %s" % ", ".join(sorted(seen)))
        chk.count("paths through graph_layout", n)
        chk.ob("construction", "graph_layout: every family by its own layout, into the square of the center and scale asked for", not bad, self.where(fn), "; ".join(sorted(bad)))

    def concat(self, t):
        """the parts of a tuple built by +: elements and ("rest", base, from)"""
        if t is None:
            return None
        if t[0] == "op" and t[1] == "+":
            a, b = self.concat(t[2]), self.concat(t[3])
            return None if a is None or b is None else a + b
        if t[0] == "tuple":
            out = []
            for x in t[1]:
                if x[0] == "star":
                    y = self.concat(x[1])
                    if y is None:
                        return None
                    out += y
                else:
                    out.append(x)
            return out
        if t[0] == "call" and t[1] in (("name", "tuple"), ("name", "list")) and len(t[2]) == 1:
            return self.concat(t[2][0])
        if t[0] == "comp" and len(t[4]) == 1 and not t[5] and t[2] == elem(t[4][0]):
            return self.concat(t[4][0])
        if t[0] == "sub" and t[2][0] == "slice" and t[2][1] and t[2][1][0] == "const" and t[2][2] in (None, ("const", None)) and t[2][3] in (None, ("const", None)):
            return [("rest", t[1], t[2][1][1])]
        return None

    def stretched(self, arr, call, cen, width, dim):
        """the returned rows against the two coordinates of the layout less its corner, axis by axis"""
        corner = kwd(call, "center")
        t = bare(arr)
        # rows + corner, of (stretched, zeros)
        if t[0] != "op" or t[1] != "+" or corner not in (bare(t[2]), bare(t[3])):
            return "the stretched points are not moved back to the corner"
        body = bare(t[2] if bare(t[3]) == corner else t[3])
        if fname(body) in ("hstack", "concatenate", "column_stack") and body[2][0][0] in ("tuple", "list") and len(body[2][0][1]) == 2:
            body, z = body[2][0][1]
            if fname(z) != "zeros":
                return "the further coordinates are not 0"
            w = z[2][0][1][-1] if z[2] and z[2][0][0] == "tuple" else None
            if w is None or w[0] != "op" or w[1] != "-" or w[2] != dim or w[3] != ("const", 2):
                return "dim - 2 further coordinates are not added"
        else:
            return "the further coordinates are not added"
        raw = None
        for x in subterms(body):
            if fname(x) in ("array", "asarray") and x[2] and x[2][0][0] == "comp" and any(y == call for y in subterms(x)):
                raw = x
        if raw is None:
            return "the stretched points do not come from the layout"
        c = raw[2][0]
        v = c[2]
        ok = len(c[4]) == 1 and not c[5] and v[0] == "sub" and v[2][0] == "slice" and v[2][2] == ("const", 2) and v[2][1] in (None, ("const", None), ("const", 0))
        if ok:
            w = v[1]
            ok = w[0] == "op" and w[1] == "-" and bare(w[3]) == corner and w[2] == ("sub", call, elem(c[4][0]))
        if not ok:
            return "the points stretched are %s" % show(v)[:60]
        for ax in (0, 1):
            def nms(t, F, ax=ax):
                if t == raw:
                    return "x"
                if t == width:
                    return "w"
                if t[0] in ("item", "sub"):
                    i = t[2] if t[0] == "item" else t[2][1] if t[2][0] == "const" else None
                    for names, k in ((("min", "amin"), "lo"), (("max", "amax"), "hi")):
                        r = reduce_of(t[1], names)
                        if r and r[0] == raw and r[1] == ("const", 0):
                            return "%s%s" % (k, i)
                for names, k in ((("min", "amin"), "lo"), (("max", "amax"), "hi")):
                    r = reduce_of(t, names)
                    if r and r[0] == raw and r[1] == ("const", 0):
                        return "%s%d" % (k, ax)
                return None
            F = Formula(nms, axis=ax)
            got = F.ev(body)
            lo, hi, x, w = F.atom("lo%d" % ax), F.atom("hi%d" % ax), F.atom("x"), F.atom("w")
            want = (x - (lo if ax == 0 else hi)) * w / (hi - lo)
            if got != want:
                return "coordinate %d is not stretched from its own extent to the width asked for" % ax
        return None

    # ------------------------------------------------------------ components
    def pack(self):
        chk = self.chk
        fn = self.m.functions.get("_pack_components")
        if fn is None:
            raise AnalysisBroken("%s has no _pack_components" % REL)
        bad = set()
        cases = set()
        LAY, G = ("param", EveryPath.params(fn)[1]), ("param", EveryPath.params(fn)[0])
        n = 0
        for ev, dec, raised, ret in runs(self.m, fn, None, ("_rotate_to_minimize_area",)):
            if raised is not None:
                continue
            n += 1
            rp = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "pack"]
            if not rp:
                if not (ret is not None and ret[0] == "call" and ret[1] == LAY and ret[2][:1] == (G,) and any(k == "**" for k, v in ret[3])):
                    bad.add("unpacked the result is %s" % (show(ret)[:50] if ret else "nothing"))
                cases.add("whole")
                continue
            rect = rp[0][2][0] if rp[0][2] else None
            apps = [e for e in ev if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "append" and len(e.a[1]) == 1]
            rapp = [e for e in apps if e.a[0][1] == rect]
            out = ret
            scaled = False
            if out is not None and fname(out) == "dict" and fname(out[2][0]) == "zip":
                scaled = True
                arr = out[2][0][2][1]
                src = [x for x in subterms(arr) if x[0] == "comp" and x[1] == "dict"]
                out = src[0] if src else None
            if out is None or out[0] != "comp" or out[1] != "dict" or len(out[4]) != 2 or out[5]:
                bad.add("the points returned are %s" % (show(ret)[:50] if ret else "nothing"))
                continue
            z = out[4][0]
            if fname(z) != "zip" or len(z[2]) != 3:
                bad.add("positions, rectangles and layouts are not gone through together")
                continue
            roles = {}
            for i, x in enumerate(z[2]):
                if x == rp[0]:
                    roles["pos"] = i
                elif x == rect:
                    roles["rect"] = i
                else:
                    roles["lay"], lays = i, x
            lapp = [e for e in apps if "lay" in roles and e.a[0][1] == lays]
            if set(roles) != {"pos", "rect", "lay"} or len(rapp) != 1 or len(lapp) != 1:
                bad.add("not every component adds one layout and one rectangle")
                continue
            fors = [c[0][1] for c in lapp[0].conds if c[0][0] == "for"]
            it = fors[-1] if fors else None
            if it is not None and fname(it) == "enumerate":
                it = it[2][0]
            if it is None or fname(it) != "connected_components" or it[2] != (G,):
                bad.add("the layouts are not made for every component of G")
                continue
            comp_ = elem(it)
            key, val = out[2], out[3]
            inner = out[4][1]
            m = method(inner, "items")
            from pyai import item
            el = elem(z)
            cpos = {item(el, roles["lay"], 3), elem(lays)}
            if not m or m[0] not in cpos or key != item(elem(inner), 0, 2) or val[0] not in ("tuple", "list") or len(val[1]) != 2:
                bad.add("not every vertex of a component gets its point")
                continue
            pt = {item(elem(inner), 1, 2), ("sub", m[0], key)}
            for ax in (0, 1):
                def nms(t, F, ax=ax):
                    if t[0] in ("item", "sub"):
                        i = t[2] if t[0] == "item" else t[2][1] if t[2][0] == "const" else None
                        if t[1] in pt:
                            return "v%s" % i
                        if t[1] in (item(el, roles["pos"], 3), elem(rp[0])):
                            return "r%s" % i
                        if t[1] in (item(el, roles["rect"], 3), elem(rect)):
                            return "w%s" % i
                    return None
                F = Formula(nms)
                if F.ev(val[1][ax]) != F.atom("v%d" % ax) + F.atom("r%d" % ax) + F.atom("w%d" % ax) / 2:
                    bad.add("coordinate %d is not the point about the middle of its rectangle" % ax)
            # the component's own layout
            c, d = lapp[0].a[1][0], rapp[0].a[1][0]
            size = self.size(dec, comp_)
            if size is not None and size[1] is not None and size[0] > size[1]:
                continue
            if fname(c) == "dict" and c[2] and fname(c[2][0]) == "zip":
                k, v = c[2][0][2]
                if v[0] in ("list", "tuple") and all(x[0] in ("tuple", "list") for x in v[1]):
                    if k != comp_:
                        bad.add("a small component's points are not given to its own vertices")
                    elif size is None or size[0] < 1 or size[1] is None or size[1] > len(v[1]):
                        bad.add("%d points are written down for components of %s vertices" % (len(v[1]), "other" if size is None else "%s to %s" % size))
                    else:
                        cases.update(range(size[0], size[1] + 1))
                        dims = [x[1] for x in d[1]] if d[0] in ("list", "tuple") and all(x[0] == "const" for x in d[1]) else None
                        for q in v[1]:
                            xy = [self.number(y) for y in q[1]]
                            if dims is None or None in xy or any(abs(a) >= w / 2.0 for a, w in zip(xy, dims)):
                                bad.add("a small component does not fit its rectangle")
                        pts = [tuple(self.number(y) for y in q[1]) for q in v[1]]
                        if len(set(pts)) != len(pts):
                            bad.add("two vertices of a small component get one point")
                else:
                    cases.add("many")
                    src = k
                    ok = src[0] == "call" and src[1] == LAY and src[2] and fname(src[2][0]) == "subgraph" and src[2][0][1][1] == G and src[2][0][2] == (comp_,)
                    if not ok:
                        bad.add("a component is not laid out by the layout asked for on its own vertices")
                    rot = v[1] if v[0] == "item" and v[2] == 0 else None
                    if rot is None or fname(rot) != "_rotate_to_minimize_area":
                        bad.add("the points of a component are %s" % show(v)[:40])
                    else:
                        a = Orders().order(rot[2][0])
                        if a != iterorder(src):
                            bad.add("the points turned are not those of the component in its order")
                        whole = [x for x in subterms(d) if fname(x) in ("ceil", "round", "floor", "int", "trunc")]
                        up = [x for x in whole if fname(x) == "ceil"]
                        if ("item", rot, 1) not in set(subterms(d)) or not up or any(fname(x) in ("round", "floor", "trunc") for x in whole):
                            bad.add("the rectangle is not the component's extent rounded up")
                    sub = [x for k_, x in src[3] if k_ == "**"] if src[0] == "call" else []
                    if not sub:
                        bad.add("the keywords do not reach the component's layout")
            else:
                bad.add("a component's points are %s" % show(c)[:50])
            cases.add("scaled" if scaled else "plain")
            sc = [pol for c_, pol in dec if c_[0] == "cmp" and c_[1] in ("in", "is") and any(x == ("const", "scale") for x in subterms(c_))]
        for w in (1, 2, "many", "whole", "scaled", "plain"):
            if w not in cases and not bad:
                bad.add("never %s" % w)
        chk.count("paths through _pack_components", n)
        chk.ob("components", "_pack_components: every component laid out once, inside its own rectangle, every vertex placed", not bad, self.where(fn), "; ".join(sorted(bad)))
        fn = self.m.functions.get("_rotate_to_minimize_area")
        if fn is None:
            return
        bad = set()
        P = ("param", EveryPath.params(fn)[0])
        for ev, dec, raised, ret in runs(self.m, fn):
            if raised is not None or ret is None or ret[0] != "tuple" or len(ret[1]) != 2:
                bad.add("returns %s" % (show(ret)[:40] if ret else "nothing"))
                continue
            pts, dims = ret[1]
            rot = None
            for x in subterms(pts):
                if x[0] == "attr" and x[2] == "T" and Orders().order(x) is None and fname(x[1]) == "dot" and P in set(subterms(x)) and x != rot:
                    y = x[1][2][1]
                    if y[0] == "attr" and y[2] == "T" and P in (y[1], y[1][2] if y[1][0] == "op" else None):
                        if rot is None or len(str(x)) > len(str(rot)):
                            rot = x
                elif x[0] == "attr" and x[2] == "T" and fname(x[1]) == "dot" and P in set(subterms(x)):
                    rot = x
            if rot is None:
                bad.add("the points are not turned as a whole")
                continue
            for ax in (0, 1):
                def nms(t, F, ax=ax):
                    if t == rot:
                        return "x"
                    if t[0] in ("item", "sub"):
                        i = t[2] if t[0] == "item" else t[2][1] if t[2][0] == "const" else None
                        for names, k in ((("min", "amin", "nanmin"), "lo"), (("max", "amax", "nanmax"), "hi")):
                            r = reduce_of(t[1], names)
                            if r and r[0] == rot and r[1] == ("const", 0):
                                return "%s%s" % (k, i)
                    for names, k in ((("min", "amin", "nanmin"), "lo"), (("max", "amax", "nanmax"), "hi")):
                        r = reduce_of(t, names)
                        if r and r[0] == rot and r[1] == ("const", 0):
                            return "%s%d" % (k, ax)
                    return None
                F = Formula(nms, axis=ax)
                lo, hi = F.atom("lo%d" % ax), F.atom("hi%d" % ax)
                if F.ev(pts) != F.atom("x") - (lo + hi) / 2:
                    bad.add("coordinate %d is not centered" % ax)
                if F.ev(dims) != hi - lo:
                    bad.add("extent %d is not the largest less the smallest coordinate" % ax)
        chk.ob("components", "_rotate_to_minimize_area: the turned points about their middle, with their extents", not bad, self.where(fn), "; ".join(sorted(bad)))

    @staticmethod
    def number(t):
        if t[0] == "const" and isinstance(t[1], (int, float)):
            return t[1]
        if t[0] == "neg" and t[1][0] == "const":
            return -t[1][1]
        return None

    @staticmethod
    def size(dec, comp_):
        """(least, most) vertices of the component as decided"""
        lo, hi = 1, None
        L = ("call", ("name", "len"), (comp_,), ())
        for c, p in dec:
            while c[0] == "not":
                c, p = c[1], not p
            if c[0] != "cmp" or L not in c[2:4]:
                continue
            k = c[3] if c[2] == L else c[2]
            if k[0] != "const":
                return None
            k = k[1]
            if c[1] == "==":
                if p:
                    lo, hi = max(lo, k), k if hi is None else min(hi, k)
                elif k == lo:
                    lo += 1
                elif k == hi:
                    hi -= 1
            elif c[1] in ("<", "<="):
                if c[2] == L:       # len < k
                    b = k - 1 if c[1] == "<" else k
                    if p:
                        hi = b if hi is None else min(hi, b)
                    else:
                        lo = max(lo, b + 1)
                else:               # k < len
                    b = k + 1 if c[1] == "<" else k
                    if p:
                        lo = max(lo, b)
                    else:
                        hi = b - 1 if hi is None else min(hi, b - 1)
        while hi is not None and lo <= hi and any(not p and c[0] == "cmp" and c[1] == "==" and L in c[2:4] and ("const", lo) in c[2:4] for c, p in dec):
            lo += 1
        return lo, hi


def make():
    chk = Check("C22", "path enumeration with row-order typing and symbolic identities over the Layout class",
                "every path through Layout's methods and the layout functions: what is stored together, in which order rows belong to vertices, which map is applied")
    chk.rule("lockstep", "whatever changes a layout leaves the mapping, the array (rows in the order of the sorted vertices), dim, center and scale describing the same points")
    chk.rule("reading", "the properties and the mapping interface read and write the stored points")
    chk.rule("transforms", "setting center, scale or dim applies exactly the translation, the stretching about the center, the padding")
    chk.rule("construction", "a layout is made from what was asked for: mapping, function, dim, center and scale")
    chk.rule("rows", "an array laid out in one order of the vertices is read back in the same order")
    chk.rule("components", "packed components keep every vertex, each inside its own rectangle")
    c = C22(chk)
    c.lockstep()
    c.reading()
    c.transforms()
    c.construction()
    c.rows()
    c.pnorm()
    c.dwave()
    c.pack()
    chk.need("rows", 2)
    return chk


if __name__ == "__main__":
    main(make)
