"""C20: what the caller passes in is left as it was."""
import ast, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai

pyai.CAP = 26
from pyai import Interp, alts, show, method, key, own_nodes

PYFILES = ["minorminer/minorminer.py", "minorminer/_minorminer.pyx", "minorminer/busclique.pyx", "minorminer/subgraph.pyx",
           "minorminer/layout/__init__.py", "minorminer/layout/layout.py", "minorminer/layout/placement.py",
           "minorminer/utils/chimera.py", "minorminer/utils/diagnostic.py", "minorminer/utils/feasibility.py",
           "minorminer/utils/parallel_embeddings.py", "minorminer/utils/pegasus.py", "minorminer/utils/polynomialembedder.py",
           "minorminer/utils/zephyr.py", "minorminer/_extern/rpack/__init__.py", "minorminer/_extern/rpack/_core.pyx"]

# methods that change their receiver
MUT = set("""append add update pop popitem setdefault clear extend insert remove discard sort reverse appendleft extendleft popleft rotate
 remove_node remove_nodes_from add_node add_nodes_from add_edge add_edges_from add_weighted_edges_from remove_edge remove_edges_from clear_edges
 add_path add_cycle add_star difference_update intersection_update symmetric_difference_update subtract move_to_end
 fill resize put itemset partition setflags byteswap sort_indices __setitem__ __delitem__ __setattr__ __ior__ __iadd__ __isub__ __iand__
 __imul__ __itruediv__ setfield set_node_attributes""".split())
# methods and attributes whose result shares storage with the receiver
ALIAS = set("""get items values keys setdefault pop popitem nodes edges adjacency neighbors successors predecessors subgraph edge_subgraph
 reverse view reshape ravel transpose squeeze swapaxes get_edge_data __getitem__ __iter__ popleft data diagonal flat most_common elements""".split())
# free functions handed an object that they change: name -> positions
FREE = {"shuffle": (0,), "heapify": (0,), "heappush": (0,), "heappop": (0,), "heapreplace": (0,), "heappushpop": (0,), "insort": (0,),
        "insort_left": (0,), "insort_right": (0,), "copyto": (0,), "put": (0,), "place": (0,), "putmask": (0,), "fill_diagonal": (0,),
        "put_along_axis": (0,), "setattr": (0,), "delattr": (0,), "set_node_attributes": (0,), "set_edge_attributes": (0,),
        "add_path": (0,), "add_cycle": (0,), "add_star": (0,), "freeze": (0,), "setitem": (0,), "delitem": (0,), "iadd": (0,), "ior": (0,),
        "isub": (0,), "imul": (0,), "iand": (0,), "ixor": (0,), "itruediv": (0,), "iconcat": (0,), "remove_node_attributes": (0,),
        "create_empty_copy": ()}
# free functions whose result contains, or is, what they were given
CONTAIN = {"list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "iter", "enumerate", "zip", "filter", "chain", "cycle", "islice",
           "from_iterable", "product", "permutations", "combinations", "deque", "OrderedDict", "defaultdict", "Counter", "map", "copy"}
SAME = {"next", "max", "min", "asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "subgraph",
        "subgraph_view", "edge_subgraph", "getattr", "nan_to_num", "broadcast_to", "iter", "induced_subgraph", "cast", "ascontiguousarray",
        "choice", "nodes", "edges", "neighbors", "get_node_attributes", "__cast__", "asfarray", "require", "identity"}
NUMERIC_OPS = {"int", "float", "len", "round", "abs", "sum", "perf_counter", "time"}


def last(f):
    return f[1] if f[0] == "name" else f[2] if f[0] == "attr" else None


class Owner(object):
    """which parts of a value belong to the caller"""

    def __init__(self, roots, summaries=None, fresh_fields=None):
        self.roots, self.summ, self.memo = roots, summaries or {}, {}

    def owned(self, t):
        """the object t denotes may be one the caller owns; returns the root, or None"""
        k = t
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self._owned(t)
        self.memo[k] = r
        return r

    def any(self, ts):
        for x in ts:
            r = self.owned(x)
            if r:
                return r
        return None

    def _owned(self, t):
        k = t[0]
        if k == "alt":
            return self.any(alts(t))
        if k == "param":
            return self.roots.get(t[1])
        if k == "attr":
            if t[2] in ("shape", "size", "ndim", "dtype"):
                return None
            r = self.roots.get(key(t))
            return r or self.owned(t[1])
        if k in ("sub", "elem", "item", "rest"):
            return self.inner(t[1])
        if k == "star":
            return self.owned(t[1])
        if k == "enter":
            return self.owned(t[1])
        if k == "call":
            f, a, kw = t[1], t[2], t[3]
            n = last(f)
            if f[0] == "attr" and f[1][0] != "name":
                if n in ALIAS:
                    r = self.owned(f[1]) or self.inner(f[1]) if n in ("get", "pop", "setdefault", "popitem", "__getitem__", "popleft") else self.owned(f[1])
                    return r or self.any(a[1:] if n in ("get", "setdefault", "pop") else ())
                return None
            if n in self.summ:
                return self.any(self.summ[n](a, kw))
            if n in SAME:
                return self.any(a) or (self.any([self.elemof(x) for x in a]) if n in ("next", "max", "min", "choice") else None)
            return None
        if k in ("op",):
            if t[1] in ("or", "and"):
                return self.any(t[2:])
            return None
        return None

    @staticmethod
    def elemof(x):
        return ("elem", x)

    def inner(self, t):
        """an element of t"""
        k = t[0]
        if k == "alt":
            for x in alts(t):
                r = self.inner(x)
                if r:
                    return r
            return None
        if k in ("list", "tuple", "set"):
            return self.any(t[1])
        if k == "comp":
            return self.any([x for x in t[2:3] if isinstance(x, tuple)]) if t[1] != "dict" else self.dictcomp(t)
        if k == "gen":
            return self.any([t[2]])
        if k == "dict":
            return self.any([y for x in t[1] if isinstance(x, tuple) for y in x if isinstance(y, tuple)])
        if k == "call":
            f, a, kw = t[1], t[2], t[3]
            n = last(f)
            if f[0] == "attr" and f[1][0] != "name":
                if n == "copy" and not a:
                    return self.inner(f[1])
                if n in ("deepcopy",):
                    return None
            elif n in CONTAIN:
                for x in a:
                    r = self.inner(x)
                    if r:
                        return r
                if n == "copy":
                    return self.inner(a[0]) if a else None
                return self.any([v for _, v in kw])
        return self.owned(t)

    def dictcomp(self, t):
        v = t[2]
        if isinstance(v, tuple) and v and isinstance(v[0], tuple):
            return self.any(list(v))
        if isinstance(v, tuple) and v and v[0] == "tuple":
            return self.any(v[1])
        return self.any([v]) if isinstance(v, tuple) else None


def numeric(fn, p):
    """the parameter is declared or defaulted as a number"""
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            s = ast.unparse(x.annotation)
            if any(w in s for w in ("int", "float", "bool", "str", "size_t", "double", "long", "uint")) and not any(
                    w in s for w in ("Graph", "dict", "Dict", "list", "List", "set", "Iterable", "Mapping", "ndarray", "array")):
                return True
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == p and isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and d.value is not None:
            return True
    return False


def private(q):
    return any(x.startswith("_") and not (x.startswith("__") and x.endswith("__")) for x in q.split("."))


def called_only_inside(m, q):
    return private(q)


class Mod(object):
    def __init__(self, chk, rel, mods):
        self.chk, self.rel, self.m, self.mods = chk, rel, mods[rel], mods
        self.imports()

    def imports(self):
        """names in this module that are functions of another analysed module"""
        self.ext = {}
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    for rel, m in self.mods.items():
                        if rel != self.rel and a.name in m.functions and os.path.basename(rel).rsplit(".", 1)[0] in (
                                (n.module or "").rsplit(".", 1)[-1], "__init__"):
                            self.ext[a.asname or a.name] = (m, a.name)

    def borrowed(self, cls):
        """fields of the class that hold what a caller passed in"""
        c = self.__dict__.setdefault("_borrowed", {})
        if cls not in c:
            c[cls] = self.borrowed1(cls)
        return c[cls]

    def borrowed1(self, cls):
        out = {}
        for q, fn in self.m.functions.items():
            if q.rsplit(".", 1)[0] != cls and not q.startswith(cls + "."):
                continue
            if "." not in q:
                continue
            I = Interp(self.m)
            roots = {p: p for p in I.params(fn) if p != "self" and not numeric(fn, p)}
            O = Owner(roots)
            for e in I.run(fn):
                if e.kind == "store_attr" and e.a[0] == ("param", "self"):
                    r = O.owned(e.a[2])
                    if r:
                        out[e.a[1]] = "%s of %s" % (r, q)
        return out

    def summaries(self):
        """public functions of this module whose result may be (part of) an argument"""
        if "_summ" in self.__dict__:
            return self._summ
        self._summ = out = {}
        for x, fn in self.m.functions.items():
            if "." in x or private(x):
                continue
            I = Interp(self.m)
            I.opaque |= {("name", y) for y in self.m.functions if "." not in y and not private(y)}
            ps = [p for p in I.params(fn) if p not in ctypes(fn)]
            O = Owner({p: p for p in ps})
            hit = set()
            for e in I.run(fn):
                if e.kind == "return" and e.fn is fn:
                    for p in ps:
                        if Owner({p: p}).owned(e.a[0]):
                            hit.add(p)
            if hit:
                out[x] = lambda a, kw, fn=fn, hit=hit: [v for p in hit for v in argument(fn, a, kw, p)]
        return out

    def run(self):
        for q, fn in sorted(self.m.functions.items()):
            parts = q.split(".")
            if any(f == q for f in ()):
                continue
            name = parts[-1]
            dunder = name.startswith("__") and name.endswith("__")
            if name.startswith("_") and not dunder:
                continue
            if name in ("__setitem__", "__delitem__", "__dealloc__", "__missing__"):
                continue
            self.entry(q, fn)

    def entry(self, q, fn):
        chk, m = self.chk, self.m
        I = Interp(m)
        I.opaque |= {("name", x) for x in m.functions if "." not in x and not private(x) and x != q}
        ps = I.params(fn)
        roots = {p: p for p in ps if p not in ("self", "cls")}
        for p in list(roots):
            if p in ctypes(fn):
                del roots[p]
        if fn.args.vararg:
            roots["*" + fn.args.vararg.arg] = "*" + fn.args.vararg.arg
        if "." in q:
            c = q.rsplit(".", 1)[0]
            for cc in (c, c.rsplit(".", 1)[0]):
                if cc in m.classes:
                    for fld, why in self.borrowed(cc).items():
                        roots["self." + fld] = "self.%s (%s)" % (fld, why)
        kw = "**" + fn.args.kwarg.arg if fn.args.kwarg else None
        O = Owner(roots, self.summaries())
        if kw:
            # the dictionary is the call's own, what it holds is the caller's
            inner0 = O.inner
            O.inner = lambda t, f=inner0: kw if t == ("param", kw) else f(t)
            own0 = O._owned

            def own(t):
                if t[0] == "call" and t[1][0] == "attr" and t[1][1] == ("param", kw) and t[1][2] in ("get", "pop", "setdefault"):
                    return kw
                return own0(t)
            O._owned = own
        try:
            evs = I.run(fn)
        except RecursionError:
            raise AnalysisBroken("no answer for %s" % q)
        chk.count("entry points")
        bad = {}
        nsites = 0
        for e in evs:
            for what, t in self.mutated(e, q, fn, evs):
                nsites += 1
                if any(x == ("top",) for x in alts(t)):
                    chk.count("changing operations on values too complex to trace")
                if t == ("param", "self") or t == ("param", "cls"):
                    continue
                r = O.owned(t)
                if r is None:
                    continue
                if self.excused(e, t, O, evs, fn) or self.infeasible(e, t, O, fn, I):
                    continue
                if documented(fn, r):
                    continue
                bad.setdefault((r, id(e.node)), (e, what, t, r))
        chk.count("changing operations reached", nsites)
        for p in sorted(set(roots.values()) | ({kw} if kw else set())):
            hits = [v for (r, _), v in bad.items() if r == p]
            chk.ob("callers-objects", "%s %s: %s is not modified" % (os.path.basename(self.rel), q, p), not hits,
                   m.where(hits[0][0].node) if hits else m.where(fn),
                   "; ".join("%s of %s" % (w, show(t)[:80]) for _, w, t, _ in hits[:3]))

    def mutated(self, e, q, fn, evs):
        if e.kind == "call":
            f, a, kw = e.a[0], e.a[1], e.a[2]
            n = last(f)
            for k, v in kw:
                if k == "out":
                    yield "out= target", v
            if f[0] == "attr":
                if f[2] in MUT:
                    if f[1][0] == "name" and f[1][1] in ("list", "dict", "set", "object") and a:
                        yield ".%s()" % f[2], a[0]
                    else:
                        yield ".%s()" % f[2], f[1]
            own = f[0] == "attr" and f[1][0] in ("call", "new") and (f[1][1][-1] if f[1][0] == "call" else f[1][1]) in self.m.classes
            if n in FREE and not own and not (f[0] == "attr" and n in MUT and f[1][0] != "name"):
                for i in FREE[n]:
                    if i < len(a):
                        yield "%s()" % n, a[i]
            if n == "relabel_nodes" and any(k == "copy" and v == ("const", False) for k, v in kw) or n == "relabel_nodes" and a[2:3] == (("const", False),):
                yield "relabel_nodes(copy=False)", a[0]
            if n in ("contracted_nodes", "contracted_edge", "identified_nodes") and any(k == "copy" and v == ("const", False) for k, v in kw):
                yield "%s(copy=False)" % n, a[0]
            if any(k == "store_pos_as" and v != ("const", None) for k, v in kw) and a:
                yield "store_pos_as", a[0]
            t = self.callee(f)
            if t is not None:
                for i, p in self.changes(*t).items():
                    for x in argument(t[0].functions[t[1]], a, kw, p):
                        yield "%s(), which changes it" % t[1], x
        elif e.kind == "store_sub":
            yield "item assignment", e.a[0]
        elif e.kind == "del_sub":
            yield "item deletion", e.a[0]
        elif e.kind in ("store_attr", "del_attr"):
            yield "attribute assignment", e.a[0]
        elif e.kind == "store_name" and isinstance(e.node, ast.AugAssign) and isinstance(e.node.target, ast.Name):
            v = e.a[1]
            if v[0] == "op" and not self.immutable(v, q, fn, e):
                yield "in-place %s=" % v[1], v[2]

    def callee(self, f):
        if f[0] == "name" and f[1] in self.ext:
            m, n = self.ext[f[1]]
            if private(n) or True:
                return m, n
        return None

    CH = {}

    def changes(self, m, n):
        """parameters a function of another module changes (its own obligation reports them when it is public)"""
        k = (id(m), n)
        if k not in self.CH:
            self.CH[k] = {}
            if private(n):
                fn = m.functions[n]
                sub = Mod(Check("C20", "", ""), [r for r, x in self.mods.items() if x is m][0], self.mods)
                I = Interp(m)
                O = Owner({p: p for p in I.params(fn)})
                for e in I.run(fn):
                    for what, t in sub.mutated(e, n, fn, []):
                        r = O.owned(t)
                        if r:
                            self.CH[k][r] = r
        return self.CH[k]

    def immutable(self, v, q, fn, e):
        """augmented assignment to something that is a number, string or tuple"""
        old, rhs = v[2], v[3]

        def num(t, d=0):
            if d > 6:
                return False
            if t[0] == "const":
                return isinstance(t[1], (int, float, str, bytes)) or t[1] is None
            if t[0] in ("tuple", "str", "cmp", "not", "fstr"):
                return True
            if t[0] == "alt":
                return all(num(x, d + 1) for x in alts(t) if x != old) if d < 3 else False
            if t[0] == "op":
                return all(num(x, d + 1) for x in t[2:] if isinstance(x, tuple))
            if t[0] == "call":
                return last(t[1]) in NUMERIC_OPS or last(t[1]) in ("tuple", "frozenset", "str", "number_of_nodes", "number_of_edges", "degree")
            if t[0] == "param":
                return numeric(e.fn, t[1]) or numeric(fn, t[1])
            if t[0] == "attr":
                return t[2] in ("size", "ndim", "scale", "dim", "area", "width", "height")
            return False
        return num(old)

    def infeasible(self, e, t, O, fn, I0):
        """the caller's object is only one of the values at a join, and no single path carries it to the operation"""
        if not [x for x in alts(t) if not O.owned(x)]:
            return False
        ifs = [n for n in own_nodes(e.fn) if isinstance(n, ast.If) and n.lineno < getattr(e.node, "lineno", 0) and
               not any(isinstance(L, (ast.For, ast.While)) and any(y is n for y in ast.walk(L)) for L in own_nodes(e.fn))]
        if not 0 < len(ifs) <= 7:
            return False
        for combo in itertools.product((True, False), repeat=len(ifs)):
            I = Interp(self.m)
            I.opaque = set(I0.opaque)
            I.forced = {id(n.test): v for n, v in zip(ifs, combo)}
            for x in I.run(fn):
                if x.node is e.node and not contradictory(x.conds):
                    for _, u in self.mutated(x, "", fn, []):
                        if O.owned(u):
                            return False
        self.chk.count("joins resolved by path enumeration")
        return True

    # an alias of the caller's object that is never the one changed
    def excused(self, e, t, O, evs, fn):
        bad = [x for x in alts(t) if O.owned(x)]
        good = [x for x in alts(t) if not O.owned(x)]
        if not good:
            return False
        if e.kind == "call" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) and isinstance(e.node.func.value, ast.Name):
            v = e.node.func.value.id
        elif e.kind in ("store_sub", "del_sub", "store_attr"):
            v = None
        else:
            v = None
        if v is not None and (self.copied_first(e, v, O, evs) or self.single_shot(e, v, O, evs)):
            return True
        # changed inside a helper: look at the call that handed it over
        if len(e.stack) > 1:
            calls = [x for x in evs if x.kind == "call" and x.fn is e.stack[-2] and isinstance(x.node, ast.Call) and
                     isinstance(x.node.func, ast.Name) and x.node.func.id == getattr(e.fn, "name", None)]
            if not calls:
                return False
            for x in calls:
                if not any(val == t and isinstance(nd, ast.Name) for nd, val in zip(x.node.args, x.a[1])):
                    return False
                for nd, val in list(zip(x.node.args, x.a[1])):
                    if val == t and isinstance(nd, ast.Name):
                        if not (self.copied_first(x, nd.id, O, evs) or self.single_shot(x, nd.id, O, evs)):
                            return False
            return True
        return False

    def copied_first(self, e, v, O, evs):
        """the first arrival in the loop replaces the variable by a fresh object: guarded by a list that is still empty then,
        and that nothing fills without passing the guard"""
        f = e.fn
        loops = [n for n in ast.walk(f) if isinstance(n, (ast.For, ast.While)) and any(x is e.node for x in ast.walk(n))]
        for L in loops:
            for g in ast.walk(L):
                if not isinstance(g, ast.If):
                    continue
                flag = empty_test(g.test)
                if flag is None:
                    continue
                fresh = [s for s in g.body if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == v for x in s.targets)]
                if not fresh:
                    continue
                vals = [x.a[1] for x in evs if x.kind == "store_name" and x.node in fresh and x.a[0] == v]
                if not vals or any(O.owned(x) for x in vals):
                    continue
                # nothing makes the variable the caller's again inside the loop
                again = [x for x in evs if x.kind == "store_name" and x.a[0] == v and x.fn is f and x.node not in fresh and
                         any(y is x.node for y in ast.walk(L)) and O.owned(x.a[1])]
                if again:
                    continue
                if not before(L, g, e.node):
                    continue
                if self.empty_at_entry(f, L, flag) and self.grows_after(f, L, g, flag, evs):
                    return True
        return False

    def empty_at_entry(self, f, L, flag):
        kind, x = flag
        if kind == "empty" and self.isflag(f, x):
            kind = "false"
        vals = []
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in s.targets):
                vals.append((s, s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == x and s.value is not None:
                vals.append((s, s.value))
        inside = [s for s, _ in vals if any(y is s for y in ast.walk(L))]
        outside = [(s, w) for s, w in vals if not any(s is y for y in inside)]
        if not outside:
            return False
        if kind == "empty":
            if inside:
                return False
            ok = all(isinstance(w, (ast.List, ast.Tuple)) and not w.elts or isinstance(w, ast.Call) and isinstance(w.func, ast.Name) and
                     w.func.id in ("list", "set", "dict") and not w.args or isinstance(w, ast.Dict) and not w.keys for _, w in outside)
        else:
            ok = all(isinstance(w, ast.Constant) and bool(w.value) is (kind == "true") for _, w in outside)
        grown = [n for n in ast.walk(f) if grows(n, x) and not any(y is n for y in ast.walk(L))]
        pre = [n for n in grown if n.lineno < L.lineno]
        return ok and not pre

    @staticmethod
    def isflag(f, x):
        vals = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in s.targets)]
        return bool(vals) and all(isinstance(w, ast.Constant) and isinstance(w.value, bool) for w in vals)

    def grows_after(self, f, L, g, flag, evs):
        """every growth in the loop comes after the guard in its round, and the guard is skipped only by tests the loop does not change"""
        kind, x = flag
        if kind == "empty" and self.isflag(f, x):
            sets = [n for n in ast.walk(L) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets)]
            return all(any(n is y for b in g.body for y in ast.walk(b)) for n in sets)
        for n in ast.walk(L):
            gr = grows(n, x) if kind == "empty" else (isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets))
            if gr and not before(L, g, n):
                return False
        stored = set()
        for n in ast.walk(L):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
        for t, br in guards(L, g):
            names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            if names & stored:
                # the way that skips the guard must leave the loop, or grow nothing
                if not skips_without_growth(br, x):
                    return False
        return True

    def single_shot(self, e, v, O, evs):
        """aliased only when one result is wanted, and only changed when fewer results than wanted are there although one was just added"""
        f = e.fn
        froms = [x for x in evs if x.kind == "store_name" and x.a[0] == v and x.fn is f and O.owned(x.a[1])]
        if not froms:
            return False
        for s in froms:
            lim = set()
            for c, p in s.conds:
                lim |= ones(c, p)
            if not lim:
                return False
            names = {k[1] for k in lim if k[0] == "param"}
            ok = False
            for c, p in e.conds:
                r = room(c, p)          # len(E) < N
                if r is None:
                    continue
                E, N = r
                if not at_most(N, names):
                    continue
                if self.just_added(e, E, f, evs):
                    ok = True
            if not ok:
                return False
        return True

    def just_added(self, e, E, f, evs):
        """the change is made for an element of something that was added to E"""
        loops = [n for n in ast.walk(f) if isinstance(n, ast.For) and any(x is e.node for x in ast.walk(n)) and isinstance(n.iter, ast.Name)]
        if not loops:
            return False
        inner = max(loops, key=lambda n: n.lineno)
        src = inner.iter.id
        for n in ast.walk(f):
            if n is inner or getattr(n, "lineno", 10**9) > inner.lineno:
                continue
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Name) and n.value.id == src:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "extend" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == src:
                return True
        return False


def contradictory(conds):
    cs = set(conds)
    if any((c, not p) in cs for c, p in cs):
        return True
    # a constant compared with a constant
    return any(c[0] == "cmp" and c[1] in ("is", "==") and c[2][0] == "const" and c[3][0] == "const" and (c[2] == c[3]) is not p for c, p in cs)


def argument(fn, a, kw, p):
    ps = Interp.params(fn)
    out = [v for k, v in kw if k == p]
    if p in ps and ps.index(p) < len(a):
        out.append(a[ps.index(p)])
    return out


def ones(c, p):
    """terms known to be exactly 1 (or at most 1)"""
    if c[0] == "cmp" and p and c[1] in ("==", "<="):
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if y == ("const", 1):
                return {x}
    if c[0] in ("and", "op") and p:
        out = set()
        for x in c[1:]:
            if isinstance(x, tuple):
                for y in (x if x and isinstance(x[0], tuple) else [x]):
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= ones(y, True)
        return out
    return set()


def room(c, p):
    if c[0] != "cmp":
        return None
    op, x, y = c[1], c[2], c[3]

    def ln(t):
        return t[0] == "call" and t[1] == ("name", "len") and len(t[2]) == 1
    if ln(x) and (op == ">=" and not p or op == "<" and p):
        return x[2][0], y
    # N - len(E) > 0
    if x[0] == "op" and x[1] in ("-", "Sub") and len(x) == 4 and ln(x[3]) and y == ("const", 0) and (op == ">" and p or op == "<=" and not p):
        return x[3][2][0], x[2]
    if y[0] == "op" and y[1] in ("-", "Sub") and len(y) == 4 and ln(y[3]) and x == ("const", 0) and (op == "<" and p or op == ">=" and not p):
        return y[3][2][0], y[2]
    if ln(y) and (op == "<=" and not p or op == ">" and p):
        return y[2][0], x
    return None


def at_most(t, names):
    """the term is no larger than a named parameter"""
    if t[0] == "param":
        return t[1] in names
    if t[0] == "call" and t[1] == ("name", "min"):
        return any(at_most(x, names) for x in t[2])
    if t[0] == "alt":
        # the way on which the parameter is None is not the one on which it is 1
        xs = alts(t)
        return any(at_most(x, names) for x in xs)
    return False


def empty_test(t):
    """('empty', X) for `len(X) == 0`, `not X`, ...; ('false', f) for `not flag`"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        if isinstance(t.operand, ast.Name):
            return ("empty", t.operand.id)
        if isinstance(t.operand, ast.Call) and isinstance(t.operand.func, ast.Name) and t.operand.func.id == "len" and isinstance(t.operand.args[0], ast.Name):
            return ("empty", t.operand.args[0].id)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len" \
            and isinstance(t.left.args[0], ast.Name) and isinstance(t.comparators[0], ast.Constant):
        o, v = t.ops[0], t.comparators[0].value
        if isinstance(o, ast.Eq) and v == 0 or isinstance(o, ast.Lt) and v == 1 or isinstance(o, ast.LtE) and v == 0:
            return ("empty", t.left.args[0].id)
    return None


def grows(n, x):
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x:
        return True
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x and n.func.attr in (
        "append", "extend", "add", "insert", "update", "setdefault", "__setitem__")


def chain(root, node):
    """statements from root down to node, with the list each stands in"""
    out = []

    def rec(n):
        for fld in ("body", "orelse", "finalbody", "handlers"):
            for s in getattr(n, fld, []) or []:
                if s is node or any(x is node for x in ast.walk(s)):
                    out.append((n, fld, s))
                    if s is not node:
                        rec(s)
                    return
    rec(root)
    return out


def before(L, g, node):
    """in a round of L, g's statement list is passed before node is reached"""
    cg, cn = chain(L, g), chain(L, node)
    for (n, fld, s) in cn:
        for (n2, fld2, s2) in cg:
            if n is n2 and fld == fld2 and s2 is g:
                lst = getattr(n, fld)
                return lst.index(s2) < lst.index(s)
    # the guard is inside a block that ends before the node: those that skip the block skip the guard
    for (n, fld, s) in cn:
        for (n2, fld2, s2) in cg:
            if n is n2 and fld == fld2 and s2 is not s:
                lst = getattr(n, fld)
                return lst.index(s2) < lst.index(s)
    return False


def guards(L, g):
    """(test, other branch) of the ifs between the loop and the guard"""
    out = []
    for (n, fld, s) in chain(L, g)[:]:
        if isinstance(n, ast.If):
            out.append((n.test, n.orelse if fld == "body" else n.body))
    return out


def skips_without_growth(br, x):
    if br and isinstance(br[-1], (ast.Break, ast.Return, ast.Raise, ast.Continue)):
        return not any(grows(n, x) for s in br for n in ast.walk(s))
    return False


def documented(fn, p):
    """the function's documentation announces that it modifies this argument"""
    d = " ".join((ast.get_docstring(fn) or "").split())
    return any(x % q in d for x in ("will modify %s", "modifies %s", "modified in place: %s") for q in ("``%s``" % p, "`%s`" % p, p))


def ctypes(fn):
    """parameters declared with a native type"""
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and isinstance(x.annotation, ast.Constant) and isinstance(x.annotation.value, str) \
                and x.annotation.value not in ("object", "dict", "list", "set", "tuple"):
            out.add(x.arg)
    return out


def make():
    chk = Check("C20", "ownership dataflow over every public Python and Cython function",
                "For every public function, method and constructor, each operation that changes an object in place (item or attribute "
                "assignment, deletion, in-place operators, changing methods and library functions) is enumerated on all paths, helpers "
                "included, and the object is traced to where it came from; none may be, or be part of, an object the caller passed in.",
                ["an argument that the function's own documentation says it modifies is exempt (placement.intersection: S_layout)",
                 "a user-supplied callable (embedder, layout, placement) does not itself modify its arguments",
                 "numbers, strings and tuples cannot be modified in place"])
    chk.rule("callers-objects", "no operation reached from a public call changes an object the caller passed in")
    mods = {rel: pyfront.load(rel) for rel in PYFILES}
    for rel in PYFILES:
        Mod(chk, rel, mods).run()
    chk.need("callers-objects", 150)
    return chk


if __name__ == "__main__":
    main(make)
