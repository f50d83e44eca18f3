"""C24: the feasibility filters never reject what could be embedded."""
import ast, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import alts, subterms, show
from c22 import runs, nm, fname, kwd, graph

REL = "minorminer/utils/feasibility.py"
FIL, LOW = "embedding_feasibility_filter", "lattice_size_lower_bound"
S, T = ("param", "S"), ("param", "T")
NODES = {"chimera": lambda m, t: 2 * t * m * m, "pegasus": lambda m, t: (24 * m - 8) * (m - 1), "zephyr": lambda m, t: (2 * m + 1) * m * 4 * t}
# no more than the number of edges
EDGES = {"chimera": lambda m, t: m * m * t * t + 2 * t * m * (m - 1), "pegasus": lambda m, t: 5 * (24 * m - 8) * (m - 1), "zephyr": lambda m, t: 6 * t * t * (2 * m + 1) * m}
DEGREE = {"chimera": lambda t: 2 + t, "pegasus": lambda t: 15, "zephyr": lambda t: 4 + 4 * t}
GREEDY = ("connected_sequential", "connected_sequential_bfs", "connected_sequential_dfs", "saturation_largest_first", "DSATUR")


def mentions(t, x):
    return any(y == x for y in subterms(t))


def count(t):
    """(graph, 'nodes'|'edges') for a term counting them"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] in (S, T) and not t[2]:
        k = {"number_of_nodes": "nodes", "order": "nodes", "__len__": "nodes", "number_of_edges": "edges", "size": "edges"}.get(t[1][2])
        return (t[1][1], k) if k else None
    x = t[2][0] if t[0] == "call" and t[1] == ("name", "len") and len(t[2]) == 1 else t[1] if t[0] == "len" else None
    if x is not None:
        y = x
        while y[0] == "call" and y[1] in (("name", "list"), ("name", "tuple"), ("name", "set")) and len(y[2]) == 1:
            y = y[2][0]
        if y[0] == "call" and y[1][0] == "attr" and not y[2]:
            y = y[1]
        if y in (S, T):
            return y, "nodes"
        if y[0] == "attr" and y[1] in (S, T) and y[2] in ("nodes", "edges", "adj", "degree"):
            return y[1], "edges" if y[2] == "edges" else "nodes"
        d = degrees(x)
        if d:
            return d[0], "nodes"
    return None


def degrees(t):
    """(graph, sorted the usual way) for a term listing the degrees of a graph's nodes"""
    order = False
    while True:
        if t[0] == "call" and t[1][-1] in ("sort", "sorted") and len(t[2]) == 1:
            rev = dict(t[3]).get("reverse")
            order = "down" if rev is not None and rev != ("const", False) else True
            t = t[2][0]
        elif t[0] == "call" and t[1][-1] in ("array", "asarray", "list", "tuple", "fromiter") and t[2]:
            t = t[2][0]
        else:
            break
    if t[0] == "comp" and t[1] in ("list", "gen") and len(t[4]) == 1 and not t[5]:
        for g in (S, T):
            d = ("attr", g, "degree")
            e = ("elem", t[4][0])
            if graph(t[4][0]) == g and t[2] in (("sub", d, e), ("call", d, (e,), ())):
                return g, order
            if bool(t[4][0] in (d, ("call", d, (), ()))) and t[2][0] in ("item", "sub") and mentions(t[2], e):
                return g, order
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "values" and t[1][1][0] == "call" and t[1][1][1] == ("name", "dict"):
        x = t[1][1][2][0]
        for g in (S, T):
            if x in (("attr", g, "degree"), ("call", ("attr", g, "degree"), (), ())):
                return g, order
    return None


def norm(c, p):
    while c[0] == "not" or c[0] == "call" and c[1] in (("name", "bool"), ("attr", ("name", "np"), "bool_")) and len(c[2]) == 1:
        c, p = (c[1], not p) if c[0] == "not" else (c[2][0], p)
    return c, p


def less(c, p):
    """(a, b, strict) when the decision says a < b or a <= b"""
    c, p = norm(c, p)
    if c[0] != "cmp" or c[1] not in ("<", "<="):
        return None
    a, b = c[2], c[3]
    if p:
        return a, b, c[1] == "<"
    return b, a, c[1] == "<="


class Num(Exception):
    pass


def value(t, atoms):
    """value of an arithmetic term for given values of its atoms"""
    for f, v in atoms:
        if f(t):
            return v
    if t[0] == "const" and isinstance(t[1], (int, float)):
        return t[1]
    if t[0] == "alt":
        return min(value(x, atoms) for x in t[1])
    if t[0] == "op" and len(t) == 4:
        a, b = value(t[2], atoms), value(t[3], atoms)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b,
                    "**": lambda: a ** b, "%": lambda: a % b}[t[1]]()
        except (KeyError, ZeroDivisionError, OverflowError):
            raise Num()
    if t[0] == "uop" or t[0] == "op" and len(t) == 3:
        if t[1] in ("-", "USub"):
            return -value(t[2], atoms)
        raise Num()
    if t[0] == "call" and t[2]:
        f = t[1][-1]
        xs = [value(a, atoms) for a in t[2]]
        if f in ("ceil", "floor", "sqrt", "isqrt"):
            if xs[0] < 0:
                raise Num()
            return getattr(math, f)(int(xs[0]) if f == "isqrt" else xs[0])
        if f in ("int", "round", "rint", "float", "abs", "max", "min", "int64"):
            return {"int": int, "int64": int, "rint": round, "float": float, "round": round, "abs": abs, "max": max, "min": min}[f](*xs)
    raise Num()


class C24(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        for q in (FIL, LOW):
            if q not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, q))
        self.res = {}

    def ob(self, rule, what, ok, node, why=""):
        k = (rule, what)
        if k not in self.res or not ok and self.res[k][0]:
            self.res[k] = (ok, node, why)

    # ---------------------------------------------------------------- the filter
    def ground(self, c, p):
        """'count' | 'empty' | 'degrees' | 'path' | ('wrong', why) | None: what a decision says about S and T"""
        l = less(c, p)
        if l:
            a, b, strict = l
            ca, cb = count(a), count(b)
            if ca and cb and ca[1] == cb[1] and {ca[0], cb[0]} == {S, T}:
                if ca[0] == T:
                    return "count" if strict else ("wrong", "a target with exactly as many %s as the source is rejected" % ca[1])
                return ("pass",) if not strict else ("wrong", "a target with more %s than the source is rejected" % ca[1])
            if ca and cb and {ca[0], cb[0]} == {S, T}:
                return ("wrong", "the %s of one graph are compared with the %s of the other" % (ca[1], cb[1]))
            for x, y in ((a, b),):
                if y[0] == "const" and x[0] == "sub" and degrees(x[1]) and degrees(x[1])[0] == T and x[2] == ("const", -1):
                    top = y[1] - (1 if strict else 0)
                    return "path" if degrees(x[1])[1] is True and top <= 2 else ("wrong", "targets with nodes of degree %s count as paths" % top)
            if b[0] == "const" and a[0] == "call" and a[1][-1] in ("max", "amax") and len(a[2]) == 1 and degrees(a[2][0]) and degrees(a[2][0])[0] == T:
                top = b[1] - (1 if strict else 0)
                return "path" if top <= 2 else ("wrong", "targets with nodes of degree %s count as paths" % top)
        c, p = norm(c, p)
        if c[0] == "cmp" and c[1] == "==" and p and c[3] == ("const", 0) and count(c[2]) == (T, "nodes"):
            return "empty"
        cmps = None
        if p and c[0] == "call" and c[1][-1] == "any":
            cmps = c[2][0] if c[2] else c[1][1]
        elif not p and c[0] == "call" and c[1][-1] == "all":
            x = c[2][0] if c[2] else c[1][1]
            if x[0] == "cmp" and x[1] in ("<", "<="):
                cmps = ("cmp", "<=" if x[1] == "<" else "<", x[3], x[2])
        if cmps is not None and cmps[0] == "cmp" and cmps[1] in ("<", "<="):
            a, b = cmps[2], cmps[3]
            sides = []
            for x in (a, b):
                y = x[1] if x[0] == "sub" and x[2][0] == "slice" else x
                d = degrees(y)
                sides.append((d, x[2] if y is not x else None))
            (da, sa), (db, sb) = sides
            if da and db:
                if (da[0], db[0]) != (T, S):
                    return ("wrong", "the degrees of the source are compared with the wrong side")
                if cmps[1] != "<":
                    return ("wrong", "nodes of equal degree count as too small")
                if da[1] is not True or db[1] is not True:
                    return ("wrong", "degrees are compared that are not in increasing order")
                if sb is not None or sa is None or not self.tail(sa):
                    return ("wrong", "the source's degrees are not compared with the largest degrees of the target")
                return "degrees"
        return None

    def tail(self, s):
        lo, hi, st = (s + (None,) * 4)[1:4]
        none = (None, ("const", None))
        if hi not in none or st not in none:
            return False
        if lo[0] in ("uop", "op", "neg") and lo[1] in ("-", "USub") and len(lo) == 3:
            return count(lo[2]) == (S, "nodes")
        if lo[0] == "op" and lo[1] == "-":
            return count(lo[2]) == (T, "nodes") and count(lo[3]) == (S, "nodes")
        return False

    def filter(self):
        fn = self.m.functions[FIL]
        n = 0
        for one in (True, False):
            lbl = "one_to_one=%s" % one
            for ev, dec, raised, ret in runs(self.m, fn, bind={"one_to_one": ("const", one)}):
                if raised is not None or ret is None:
                    continue
                n += 1
                if ret == ("const", True):
                    continue
                gs = [self.ground(c, p) for c, p in dec]
                ret = norm(ret, True)[0] if norm(ret, True)[1] else ret
                if ret == ("const", False):
                    last = gs[-1] if gs else None
                    if "count" in gs or "empty" in gs:
                        self.ob("grounds", "%s: fewer nodes or edges" % lbl, True, fn)
                        continue
                    if last and last[0] == "wrong":
                        self.ob("grounds", "%s: comparison" % lbl, False, fn, last[1])
                        continue
                    wrong = [g for g in gs if g and g[0] == "wrong"]
                    if "degrees" in gs:
                        if one or "path" in gs:
                            self.ob("grounds", "%s: degrees" % lbl, True, fn)
                        elif last == "degrees":
                            self.ob("grounds", "%s: auxiliary nodes" % lbl, False, fn,
                                    "a minor is rejected because some degrees are larger than the target's, which chains make up for")
                        else:
                            why = self.spare(less(*dec[-1]))
                            self.ob("grounds", "%s: auxiliary nodes" % lbl, not why, fn, why or "")
                        continue
                    if wrong:
                        self.ob("grounds", "%s: comparison" % lbl, False, fn, wrong[0][1])
                        continue
                    why = self.unknown(dec, gs)
                    self.ob("grounds", "%s: source and target compared" % lbl, not why, fn, why or "")
                else:
                    if one and "degrees" in gs:
                        continue
                    why = self.spare(less(ret, False))
                    self.ob("grounds", "%s: auxiliary nodes" % lbl, not why, fn, why or "")
                if not one and "degrees" in gs:
                    for e in ev:
                        if e.kind == "store_sub":
                            why = self.lost(e.a[0], e.a[1], e.a[2])
                            if why is not None:
                                self.ob("grounds", "spare nodes", not why, e.node, why)
        self.chk.count("paths through the filter", n)
        if n < 6:
            self.chk.short.append("%s: %d paths" % (FIL, n))

    def unknown(self, dec, gs):
        """why a rejection on grounds that are not listed is wrong"""
        both = False
        for (c, p), g in zip(dec, gs):
            k, q = norm(c, p)
            if g is not None or k[0] == "cmp" and k[1] == "==" and {k[2], k[3]} == {S, T}:
                continue
            if mentions(k, S) and mentions(k, T):
                both = True
                for y in subterms(k):
                    if y[0] == "call" and y[1][0] == "attr" and y[1][1] in (("name", "nx"), ("name", "networkx")) and y[1][2] not in ("degree", "number_of_nodes", "number_of_edges"):
                        return "rejected on %s, which a target may have less of than the source" % y[1][2]
        return None if both else "rejected without comparing source and target: %s" % (show(dec[-1][0])[:80] if dec else "always")

    def lost(self, base, key, val):
        """why setting a count of spare nodes is wrong: '' if it is right, None if this is no such count"""
        if not (base[0] == "call" and base[1][-1] == "Counter" and base[2]):
            return None
        d = degrees(base[2][0])
        if d is None:
            return "the nodes to spare are counted among %s" % show(base[2][0])[:60]
        if d[0] != T:
            return None
        top = self.top(key)
        if top is not None and top <= 2:
            return ""
        try:
            for A in (-2, 0, 3):
                for B in (-3, -1):
                    v = value(val, [(lambda y: y == ("sub", base, key), A), (lambda y: y[0] == "sub" and y[1] == base, B)])
                    if A - v > -B:
                        return "spare target nodes of degree %s are left out of the count" % (top if top is not None else show(key)[:40])
        except Num:
            return None
        return ""

    def top(self, key):
        if key[0] == "const":
            return key[1] if isinstance(key[1], int) else None
        if key[0] == "elem" and key[1][0] == "call" and key[1][1] == ("name", "range"):
            hi = key[1][2][0] if len(key[1][2]) == 1 else key[1][2][1]
            return hi[1] - 1 if hi[0] == "const" else None
        if key[0] == "elem" and key[1][0] in ("list", "tuple") and all(x[0] == "const" for x in key[1][1]):
            return max(x[1] for x in key[1][1])
        if key[0] == "op" and key[1] == "+" and len(key) == 4:
            a, b = self.top(key[2]), self.top(key[3])
            return a + b if a is not None and b is not None else None
        return None

    def spare(self, l):
        """why rejecting a minor when l holds is wrong"""
        if l is None:
            return None
        a, b, strict = l
        if not (mentions(a, T) or mentions(b, T)):
            return None
        needy = lambda x: any(y[0] == "call" and y[1][-1] in ("ceil", "floor") for y in subterms(x))
        # with degrees too large for the target, at least one node to spare is needed
        if b[0] == "const" and isinstance(b[1], (int, float)):
            if b[1] - (1 if strict else 0) > (-1 if needy(a) else 0):
                return "a target with as many nodes as chains need is rejected" if needy(a) else "a target with a node to spare is rejected"
        elif a[0] == "const" and isinstance(a[1], (int, float)):
            if a[1] + (1 if strict else 0) < (1 if needy(b) else 0):
                return "a target with as many nodes as chains need is rejected"
        else:
            if not strict:
                return "a target with exactly the number of nodes that chains need is rejected"
            if needy(a) and not needy(b):
                return "a target with more nodes than chains need is rejected"
        for x in (a, b):
            for C in subterms(x):
                if C[0] == "call" and C[1][-1] == "Counter" and C[2] and mentions(C, T) and degrees(C[2][0]) is None:
                    return "the nodes to spare are counted among %s" % show(C[2][0])[:60]
        for x in (a, b):
            if needy(x):
                why = self.need(x)
                if why:
                    return why
        return None

    def need(self, x):
        sums = [y for y in subterms(x) if y[0] == "call" and y[1][-1] == "sum" and len(y[2]) == 1 and y[2][0][0] == "comp" and
                any(z[0] == "call" and z[1][-1] == "ceil" for z in subterms(y[2][0][2]))]
        if not sums and x[0] == "alt":
            return next((w for w in map(self.need, x[1]) if w), None)
        one = sums[0][2][0][2] if sums else x
        ceils = [y for y in subterms(one) if y[0] == "call" and y[1][-1] == "ceil"]
        K = [y for c in ceils for y in subterms(c) if y[0] == "call" and y[1][-1] in ("max", "min", "amax", "amin")]
        if not K:
            return None
        K = K[0]
        if K[1][-1] in ("min", "amin"):
            return "chains are taken to be made of the smallest nodes of the target"
        for KK in range(3, 16):
            for kk in range(3, 40):
                at = [(lambda y: y == K, KK), (lambda y: y[0] == "sub", -1), (lambda y: y[0] in ("elem", "item"), kk)]
                try:
                    v = value(one, at)
                except Num:
                    continue
                n = math.ceil((kk - KK) / (KK - 2))
                if v > len(set(ceils)) * max(n, 0) if not sums else v > n:
                    return "a node of degree %d is taken to need %d nodes of degree %d besides its first" % (kk, v, KK)
        return None

    # ---------------------------------------------------------------- the bound
    def refused(self, c, p):
        """the decision says the filter found the graph given infeasible: the call, or None"""
        c, p = norm(c, p)
        if c[0] == "cmp" and c[1] in ("is", "==") and c[3] == ("const", False):
            c, p = c[2], not p
        return c if c[0] == "call" and c[1] == ("name", FIL) and not p else None

    def arg(self, call, k, pos):
        return kwd(call, k, pos)

    def lattice(self):
        fn = self.m.functions[LOW]
        n = 0
        for one in (True, False):
            ONE = ("const", one)
            lbl = "one_to_one=%s" % one
            for ev, dec, raised, ret in runs(self.m, fn, bind={"one_to_one": ONE}, opaque=(FIL,)):
                if raised is not None or ret is None:
                    continue
                n += 1
                calls = [e for e in ev if e.kind == "call" and e.a[0] == ("name", FIL)]
                for e in calls:
                    c = e.a[3]
                    o = self.arg(c, "one_to_one", 2)
                    ok = o == ONE or o in (None, ("const", False))
                    self.ob("kind", "%s: the filter is told" % lbl, ok, e.node, "the filter is asked about one_to_one=%s" % (show(o)[:40] if o is not None else False))
                    s = self.arg(c, "S", 0)
                    self.ob("kind", "%s: the filter looks at S" % lbl, s == S, e.node, "the filter is given %s for S" % (show(s)[:40] if s is not None else None))
                topo = [c[3][1] if c[3][0] == "const" else c[2][1] for c, p in dec if p and c[0] == "cmp" and c[1] == "==" and
                        any(x[0] == "const" and x[1] in NODES for x in c[2:4])]
                topo = topo[-1] if topo else None
                if ret == ("none",) and self.endless(fn):
                    continue
                if ret in (("const", None), ("none",)):
                    self.reject(fn, lbl, one, dec, topo)
                    continue
                self.size(fn, ev, dec, ret, topo)
        self.chk.count("paths through the bound", n)
        if n < 10:
            self.chk.short.append("%s: %d paths" % (LOW, n))

    def endless(self, fn):
        """the function ends in a loop that is only left by returning"""
        last = fn.body[-1]
        return isinstance(last, ast.While) and isinstance(last.test, ast.Constant) and last.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(last)) or \
            isinstance(last, ast.For) and isinstance(last.iter, ast.Call) and ast.unparse(last.iter.func).endswith("count")

    def reject(self, fn, lbl, one, dec, topo):
        for c, p in dec:
            r = self.refused(c, p)
            if r is not None and self.arg(r, "T", 1) == T:
                self.ob("rejected", "%s: the target is infeasible" % lbl, True, fn)
                return
        if not one:
            self.ob("rejected", "%s: only when the filter refuses the target" % lbl, False, fn,
                    "no size is reported feasible for a minor although a large enough lattice has one: %s" % show(dec[-1][0])[:100])
            return
        why = None
        for c, p in reversed(dec):
            l = less(c, p)
            k, q = norm(c, p)
            if l and any(y[0] == "call" and y[1][-1] == "max" or y[0] == "attr" and y[2] == "degree" for x in l[:2] for y in subterms(x)):
                why = self.degree(l, dec, topo)
                break
            if k[0] == "call" and k[1][-1] == "is_bipartite" and not q and k[2] == (S,):
                why = None if topo == "chimera" else "sources that are not bipartite are rejected for a lattice that is not"
                break
            if any(y[0] == "call" and "color" in str(y[1][-1]) for y in subterms(k)):
                why = self.colour(k, q, topo)
                break
        self.ob("rejected", "%s: degree or colouring" % lbl, not why, fn, why or "")

    def degree(self, l, dec, topo):
        a, b, strict = l
        if not mentions(b, S) or mentions(a, S):
            return "sources with small degrees are rejected"
        tab = {}
        if a[0] == "sub" and a[1][0] == "dict":
            tab = {k[1]: v for k, v in a[1][1] if k[0] == "const"}
        elif topo:
            tab = {topo: a}
        isT = lambda y: y == ("param", "t") or y[0] == "sub" and y[2] == ("const", "tile")
        for k, v in tab.items():
            if k not in DEGREE:
                continue
            for t in self.tiles(dec):
                try:
                    x = max(value(z, [(isT, t)]) for z in alts(v) if z != ("const", None))
                except (Num, ValueError):
                    break
                if x < DEGREE[k](t) or x == DEGREE[k](t) and not strict:
                    return "a %s lattice of tile %d has nodes of degree %d, and sources of degree %d are rejected" % (k, t, DEGREE[k](t), x + (1 if strict else 0))
        return None

    def tiles(self, dec):
        """the tiles a path runs for: the default alone where none is given"""
        none = ("const", None)
        nt = nT = False
        for c, p in dec:
            c, p = norm(c, p)
            if c[0] == "cmp" and c[1] in ("is", "==") and c[3] == none and p:
                nt |= c[2] == ("param", "t")
                nT |= c[2] == T
            elif c == ("param", "t") and not p:
                nt = True
        return (4,) if nt and nT else range(1, 13)

    def colour(self, c, p, topo):
        if topo != "chimera":
            return "sources that are not bipartite are rejected for a lattice that is not"
        for y in subterms(c):
            l = less(y, True) if y[0] == "cmp" else None
            if l:
                a, b, strict = l
                if a[0] == "const" and isinstance(a[1], (int, float)):
                    least = a[1] + 1 if strict else a[1]
                    if y[0] == "cmp" and p and least < 2:
                        return "a colouring with two colours is taken for one with more"
            if y[0] == "call" and "color" in str(y[1][-1]):
                st = kwd(y, "strategy", 1)
                if st is None or st[0] == "const" and st[1] not in GREEDY:
                    return "greedy colouring in this order may need more than two colours for a bipartite source"
        return None

    def size(self, fn, ev, dec, ret, topo):
        built = [e for e in ev if e.kind == "call" and str(e.a[0][-1]).endswith("_graph") and str(e.a[0][-1])[:-6] in NODES]
        if not built:
            self.ob("bound", "the size was tested", False, fn, "a size is returned without a lattice of that size having been tried")
            return
        sizes = []
        for e in built:
            c = e.a[3]
            fam = e.a[0][-1][:-6]
            if topo:
                self.ob("bound", "%s: lattice of the topology asked for" % topo, fam == topo, e.node, "a %s lattice is tried" % fam)
            m = kwd(c, "m", 0)
            sizes.append(m)
            if fam == "chimera":
                k = kwd(c, "n", 1)
                self.ob("bound", "chimera: square lattice", k is None or k == m, e.node, "a lattice of %s columns is tried" % (show(k)[:60] if k is not None else None))
            if fam != "pegasus":
                t = kwd(c, "t", 2 if fam == "chimera" else 1)
                ok = t is not None and all(x == ("param", "t") or x[0] == "sub" and x[2] == ("const", "tile") or x == ("const", 4) for x in alts(t))
                self.ob("bound", "%s: tile" % fam, ok, e.node, "a lattice of tile %s is tried" % (show(t)[:60] if t is not None else "by default"))
        fam = built[0].a[0][-1][:-6]
        isN = lambda y: count(y) == (S, "nodes")
        isE = lambda y: count(y) == (S, "edges")
        isT = lambda y: y == ("param", "t") or y[0] == "sub" and y[2] == ("const", "tile") or y[0] == "alt" and ("param", "t") in y[1]
        if sizes[0] is not None:
            bad = None
            try:
                for t in self.tiles(dec) if fam != "pegasus" else (1,):
                    for m in range(2 if fam == "pegasus" else 1, 80):
                        for N in {NODES[fam](m, t), NODES[fam](m - 1, t) + 1}:
                            if N < 1 or bad:
                                continue
                            v = value(sizes[0], [(isN, N), (isE, int(EDGES[fam](m, t) * N / NODES[fam](m, t))), (isT, t)])
                            if v > m:
                                bad = "the search starts with size %s for a source of %d nodes, and size %d (tile %d) has as many" % (v, N, m, t)
                self.ob("bound", "%s: first size" % fam, not bad, built[0].node, bad or "checked for the node counts of 80 sizes and 12 tiles")
                self.followed.add(fam)
            except Num:
                pass
        for a, b in zip(sizes, sizes[1:]):
            skip = False
            if a is not None and b is not None:
                for N in (200, 3000):
                    try:
                        at = [(isN, N), (isE, 4 * N), (isT, 4)]
                        skip |= value(b, at) - value(a, at) > 1
                    except Num:
                        pass
            if skip:
                self.ob("bound", "%s: one size after the other" % fam, False, built[-1].node, "sizes are left out between %s and %s" % (show(a)[-50:], show(b)[-60:]))
        known = [m for m in sizes if m is not None]
        tops = [x for m in known for x in alts(m)] + known
        out = [x for x in alts(ret) if x[0] != "top" and x not in tops and x != ("const", None)]
        self.ob("bound", "%s: the size returned is one that was tried" % fam, not out, fn, "returns %s" % (show(out[0])[:100] if out else ""))

    def run(self):
        old = pyai.CAP
        pyai.CAP = 26
        self.followed = set()
        try:
            self.filter()
            self.lattice()
        finally:
            pyai.CAP = old
        self.chk.count("starting sizes followed", len(self.followed))
        for (rule, what), (ok, node, why) in sorted(self.res.items(), key=lambda x: x[0]):
            f = FIL if rule == "grounds" else LOW
            self.chk.ob(rule, "%s: %s" % (f, what), ok, self.m.where(node), why)


def make():
    chk = Check("C24", "path enumeration over provenance terms, with the grounds of each rejection classified",
                "Every path through embedding_feasibility_filter and lattice_size_lower_bound, for subgraph and for minor embeddings: what a "
                "rejection rests on, what every nested filter call is told, and which lattice sizes are tried in which order.",
                ["the degrees and node counts of Chimera, Pegasus and Zephyr lattices are those of dwave.graphs",
                 "greedy colouring along a connected order two-colours bipartite graphs"])
    chk.rule("grounds", "the filter rejects only on facts that rule out the kind of embedding asked for")
    chk.rule("kind", "every nested filter call is about S and the kind of embedding asked for")
    chk.rule("rejected", "no size is called feasible only where the target is refused, or for subgraphs by degree or colouring")
    chk.rule("bound", "the sizes tried start no higher than the smallest lattice with enough nodes and leave none out")
    C24(chk).run()
    chk.need("grounds", 3)
    chk.need("kind", 2)
    chk.need("bound", 5)
    return chk


if __name__ == "__main__":
    main(make)
