"""C30: placements are made from copies of the layouts, in one frame, by the rule asked for."""
import ast, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check, main, AnalysisBroken
import pyfront
from pyai import Interp, alts, subterms, show, elem, method, item
from paths import EveryPath
from c22 import Formula, runs, bare, graph, kwd, fname, nm

REL = "minorminer/layout/placement.py"
SELF = (("self",), ("param", "self"))
FAMILIES = ("chimera", "pegasus", "zephyr")


def inv(c, p):
    while c[0] == "not":
        c, p = c[1], not p
    return c, p


def verdict(dec, term):
    """what a path decided about the truth of a term: True, False or None"""
    out = None
    for c, p in dec:
        c, p = inv(c, p)
        if c == term:
            out = p
        elif c[0] == "cmp" and c[1] in ("is", "==") and c[3] == ("const", None) and c[2] == term:
            out = (not p) if out is None else out
        elif c[0] == "cmp" and c[1] in ("is not", "!=") and c[3] == ("const", None) and c[2] == term:
            out = p if out is None else out
    return out


def isnone(dec, term):
    for c, p in dec:
        c, p = inv(c, p)
        if c[0] == "cmp" and c[3] == ("const", None) and c[2] == term and c[1] in ("is", "==", "is not", "!="):
            return p if c[1] in ("is", "==") else not p
    return None


def subst(t, sub):
    if t in sub:
        return sub[t]
    if isinstance(t, tuple):
        return tuple(subst(x, sub) if isinstance(x, tuple) else x for x in t)
    return t


def gathered(t, ev):
    """a container filled by one statement of one loop, as the comprehension it is"""
    if t is None or t[0] != "new":
        return t
    made = [e for e in ev if e.kind == "call" and e.a[3] == t]
    use = [e for e in ev if e.kind in ("store_sub", "aug_sub", "del_sub") and e.a[0] == t or e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == t and
           e.a[0][2] in ("append", "add", "extend", "update", "pop", "remove", "clear", "insert", "setdefault", "sort", "reverse", "discard")]
    if len(use) != 1:
        return t
    e = use[0]
    loops = [c for c in e.conds if c[0][0] in ("for", "while")]
    if len(loops) != 1 or loops[0][0][0] != "for":
        return t
    it = loops[0][0][1]
    if e.kind == "store_sub":
        return ("comp", "dict", e.a[1], e.a[2], (it,), ())
    if e.kind == "call" and e.a[0][2] in ("append", "add") and len(e.a[1]) == 1:
        return ("comp", "list" if e.a[0][2] == "append" else "set", e.a[1][0], None, (it,), ())
    return t


class C30(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        self.cls = [n for n in self.m.tree.body if isinstance(n, ast.ClassDef) and n.name == "Placement"]
        if not self.cls:
            raise AnalysisBroken("%s has no class Placement" % REL)
        self.meth = {n.name: n for n in self.cls[0].body if isinstance(n, ast.FunctionDef)}

    def fn(self, name):
        f = self.m.functions.get(name)
        if f is None:
            raise AnalysisBroken("%s has no %s" % (REL, name))
        return f

    def put(self, rule, what, fn, bad, some=True):
        self.chk.ob(rule, what, not bad and some, self.m.where(fn), "; ".join(sorted(bad)) or ("" if some else "never seen"))

    # ------------------------------------------------------------ Placement
    def init(self):
        fn = self.meth.get("__init__")
        if fn is None:
            raise AnalysisBroken("Placement has no __init__")
        ps = EveryPath.params(fn)[1:]
        if len(ps) < 4:
            raise AnalysisBroken("Placement takes other arguments")
        S, T, P, R = [("param", p) for p in ps[:4]]
        copies, dims, scale, choice = set(), set(), set(), set()
        seen = set()
        n = 0
        for ev, dec, raised, ret in runs(self.m, fn, "Placement", ("closest", "intersection", "Layout")):
            n += 1
            lay = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "Layout"]
            cop = {}
            for t in lay:
                g, l = kwd(t, "G", 0), kwd(t, "layout", 1)
                for side in (S, T):
                    if g == ("attr", side, "G"):
                        if l is None or bare(l) not in (("attr", side, "layout"), side) and not (fname(l) == "dict" and l[2] and l[2][0] in (("attr", side, "layout"), side)):
                            copies.add("the copy of %s is made from %s" % (side[1], show(l)[:40] if l else "nothing"))
                        elif [k for k, v in t[3] if k in ("dim", "center", "scale")] or len(t[2]) > 2:
                            copies.add("the copy of %s is moved or scaled" % side[1])
                        cop[side] = t
            held = {}
            for k, side in (("S_layout", S), ("T_layout", T)):
                st = [e.a[2] for e in ev if e.kind == "store_attr" and e.a[0] in SELF and e.a[1] == k]
                if st and st[-1] == cop.get(side):
                    held.update({("attr", me, k): st[-1] for me in SELF})
            dec = [(subst(c, held), p) for c, p in dec]
            differ = [(inv(c, p)) for c, p in dec if inv(c, p)[0][0] == "cmp" and any(x[0] == "attr" and x[2] == "dim" for x in inv(c, p)[0][2:4])]
            same = None
            for c, p in differ:
                sides = {c[2], c[3]}
                if sides == {("attr", cop.get(S, S), "dim"), ("attr", cop.get(T, T), "dim")} or sides == {("attr", S, "dim"), ("attr", T, "dim")}:
                    same = p if c[1] == "==" else not p if c[1] == "!=" else None
            typed = {}
            for c, p in dec:
                c, p = inv(c, p)
                if c[0] == "call" and c[1] == ("name", "isinstance") and c[2][0] in (S, T) and nm(c[2][1]) == "Layout":
                    typed[c[2][0]] = p
            if raised is not None:
                e = raised.a[0] if raised.a else None
                kind = nm(e[1]) if e is not None and e[0] == "call" else nm(e) if e is not None else None
                if False in typed.values():
                    seen.add("type")
                    if kind != "TypeError":
                        copies.add("what is not a Layout raises %s" % kind)
                elif same is False:
                    seen.add("dim")
                    if kind != "ValueError":
                        dims.add("different dimensions raise %s" % kind)
                else:
                    dims.add("raises %s without a reason" % kind)
                continue
            if same is not True:
                dims.add("layouts of different dimensions are let through")
            for side in (S, T):
                if typed.get(side) is not True:
                    copies.add("%s may be something other than a Layout" % side[1])
                if side not in cop:
                    copies.add("%s is not copied" % side[1])
            if set(cop) != {S, T}:
                continue
            for k, side in (("S_layout", S), ("T_layout", T)):
                st = [e.a[2] for e in ev if e.kind == "store_attr" and e.a[0] in SELF and e.a[1] == k]
                if st[-1:] != [cop[side]]:
                    copies.add("%s is kept as %s" % (k, show(st[-1])[:30] if st else "nothing"))
            # one frame
            mod = [(i, e) for i, e in enumerate(ev) if e.kind in ("store_attr", "store_sub", "del_sub") and subst(e.a[0], held) in (cop[S], cop[T], S, T)]
            sts = []
            for i, e in mod:
                if e.kind == "store_attr" and subst(e.a[0], held) == cop[S] and e.a[1] == "scale":
                    sts.append((i, subst(e.a[2], held)))
                else:
                    scale.add("%s of %s is changed" % (e.a[1] if e.kind == "store_attr" else "a point", show(e.a[0])[:25]))
            sS, sT = ("attr", cop[S], "scale"), ("attr", cop[T], "scale")
            alias = {("attr", S, "scale"): "s", ("attr", T, "scale"): "t", sS: "s", sT: "t", R: "r"}
            F = Formula(lambda t, F: alias.get(t) if not isinstance(alias.get(t), tuple) else None)
            given = verdict(dec, R)
            if given is None:
                scale.add("scale_ratio is not looked at")
                continue
            if given:
                seen.add("ratio")
                if len(sts) != 1 or F.ev(sts[0][1]) != F.atom("r") * F.atom("t"):
                    scale.add("with scale_ratio the scale is %s" % (show(sts[-1][1])[:50] if sts else "left alone"))
            else:
                bigger = None
                for c, p in dec:
                    c, p = inv(c, p)
                    if c[0] == "cmp" and c[1] in ("<", "<="):
                        a, b = alias.get(c[2]), alias.get(c[3])
                        if (a, b) == ("t", "s"):
                            bigger = p
                        elif (a, b) == ("s", "t"):
                            bigger = not p
                mins = [t for i, t in sts if t[0] == "call" and nm(t[1]) in ("min", "minimum") and {alias.get(x) for x in t[2]} == {"s", "t"}]
                if mins and len(sts) == 1:
                    seen.update(("bigger", "smaller"))
                elif bigger is None:
                    scale.add("whether S is bigger than T is not looked at")
                elif bigger:
                    seen.add("bigger")
                    if len(sts) != 1 or alias.get(sts[0][1]) != "t":
                        scale.add("a bigger layout is %s" % ("scaled to %s" % show(sts[-1][1])[:40] if sts else "not scaled down"))
                else:
                    seen.add("smaller")
                    if sts:
                        scale.add("a smaller layout is scaled to %s" % show(sts[0][1])[:40])
            # the rule asked for
            pl = [(i, e) for i, e in enumerate(ev) if e.kind == "store_attr" and e.a[0] in SELF and e.a[1] == "placement"]
            if not pl:
                choice.add("no placement is stored")
                continue
            i, v = pl[-1][0], subst(pl[-1][1].a[2], held)
            none = isnone(dec, P)
            call = [inv(c, p)[1] for c, p in dec if inv(c, p)[0] == ("call", ("name", "callable"), (P,), ())]
            args = (cop[S], cop[T])
            made = [j for j, e in enumerate(ev) if e.kind == "call" and subst(e.a[3], held) == v]
            if made and sts and made[0] < max(j for j, t in sts):
                choice.add("the placement is computed before the layout is scaled")
            if none is True:
                seen.add("none")
                if not (v[0] == "call" and v[1] == ("name", "closest") and v[2][:2] == args and len(v[2]) == 2):
                    choice.add("by default the placement is %s" % show(v)[:40])
            elif call[-1:] == [True]:
                seen.add("call")
                if not (v[0] == "call" and v[1] == P and v[2] == args and any(k == "**" for k, x in v[3]) and all(k == "**" for k, x in v[3])):
                    choice.add("a function is called as %s" % show(v)[:60])
            elif call[-1:] == [False]:
                seen.add("map")
                if not (bare(v) == P or fname(v) == "dict" and v[2] == (P,)):
                    choice.add("a mapping given is kept as %s" % show(v)[:40])
            else:
                choice.add("a placement is taken without looking at what it is")
        self.chk.count("paths through Placement.__init__", n)
        self.put("copies", "Placement works on its own copies of two Layouts and refuses anything else", fn, copies, "type" in seen)
        self.put("frame", "Placement refuses layouts of different dimensions, and only these", fn, dims, "dim" in seen)
        self.put("frame", "Placement scales S's copy to scale_ratio times T's scale, else down to T's scale, and nothing else", fn, scale, {"ratio", "bigger", "smaller"} <= seen)
        self.put("choice", "Placement takes closest's, the function's or the given placement of the scaled copies", fn, choice, {"none", "call", "map"} <= seen)

    def interface(self):
        PL = (("attr", ("self",), "placement"), ("attr", ("param", "self"), "placement"))
        for k in ("__getitem__", "__setitem__", "__delitem__", "__iter__", "__len__"):
            fn = self.meth.get(k)
            if fn is None:
                raise AnalysisBroken("Placement has no %s" % k)
            ps = [("param", p) for p in EveryPath.params(fn)[1:]]
            bad, some = set(), False
            for ev, dec, raised, ret in runs(self.m, fn, "Placement"):
                some = True
                if raised is not None:
                    bad.add("raises")
                    continue
                if k == "__getitem__":
                    ok = ret is not None and ret[0] == "sub" and ret[1] in PL and ret[2] == ps[0]
                elif k == "__setitem__":
                    w = [e.a for e in ev if e.kind == "store_sub"]
                    ok = len(w) == 1 and w[0][0] in PL and w[0][1] == ps[0] and w[0][2] == ps[1]
                elif k == "__delitem__":
                    w = [e.a for e in ev if e.kind in ("del_sub", "delete", "del")]
                    pop = [e for e in ev if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "pop" and e.a[0][1] in PL and e.a[1] == (ps[0],)]
                    ok = bool(pop) or len(w) == 1 and (w[0][0] in PL and w[0][1] == ps[0] or w[0][0] == ("sub", PL[0], ps[0]) or w[0][0] == ("sub", PL[1], ps[0]))
                elif k == "__len__":
                    ok = ret is not None and ret[0] == "call" and ret[1] == ("name", "len") and graph(ret[2][0]) in PL
                else:
                    ys = [e for e in ev if e.kind in ("yield", "yield_from")]
                    if ys:
                        x = ys[0].a[0]
                        ok = len(ys) == 1 and graph(x[1] if ys[0].kind == "yield" and x[0] == "elem" else x) in PL
                    else:
                        ok = ret is not None and ret[0] == "call" and ret[1] == ("name", "iter") and graph(ret[2][0]) in PL
                if not ok:
                    bad.add(show(ret)[:50] if ret else "not on the placement")
            self.put("choice", "Placement.%s is the placement's" % k, fn, bad, some)

    # ------------------------------------------------------------ connected subsets
    def subsets(self):
        fn = self.fn("_get_connected_subgraphs")
        ps = EveryPath.params(fn)
        G, K = ("param", ps[0]), ("param", ps[1])
        bad, grown, first = set(), 0, 0
        I = Interp(self.m)
        ev = I.run(fn)
        for D in [I.ret]:
            one = [e.a[2] for e in ev if e.kind == "store_sub" and e.a[0] == D and e.a[1] == ("const", 1)]
            if one:
                v = one[-1]
                while v[0] == "call" and nm(v[1]) == "set" and len(v[2]) == 1:
                    v = v[2][0]
                ok = v[0] == "comp" and len(v[4]) == 1 and graph(v[4][0]) == G and not v[5] and fname(v[2]) == "frozenset" and \
                    v[2][2] and v[2][2][0][0] in ("tuple", "list", "set") and v[2][2][0][1] == (elem(v[4][0]),)
                if ok:
                    first += 1
                else:
                    bad.add("the subsets of size 1 are %s" % show(v)[:50])
            for e in ev:
                if e.kind != "call" or e.a[0][0] != "attr" or e.a[0][2] not in ("add", "update") or not (e.a[0][1][0] == "sub" and e.a[0][1][1] == D):
                    continue
                key, arg = e.a[0][1][2], e.a[1][0] if e.a[1] else None
                if key == ("const", 1) and arg is not None and fname(arg) == "frozenset":
                    q = arg[2][0]
                    if q[0] in ("tuple", "list", "set") and len(q[1]) == 1 and q[1][0][0] == "elem" and graph(q[1][0][1]) == G:
                        first += 1
                        continue
                dec = [c for c in e.conds if c[0][0] not in ("for", "while")]
                if e.a[0][2] == "update":
                    if arg is None or arg[0] != "comp" or arg[1] == "dict":
                        bad.add("what is added is %s" % show(arg)[:40])
                        continue
                    dec, arg = dec + [(c, True) for c in arg[5]], arg[2]
                why = self.growth(key, arg, D, G, K, dec)
                if why:
                    bad.add(why)
                else:
                    grown += 1
            for e in ev:
                if e.kind == "store_sub" and e.a[0] == D and e.a[1] != ("const", 1):
                    bad.add("subsets of a size are overwritten")
        self.put("candidates", "_get_connected_subgraphs grows every connected subset of size i by every neighbour outside it, up to k", fn, bad, grown > 0 and first > 0)

    def growth(self, key, arg, D, G, K, dec):
        if arg is None:
            return "nothing is added"
        # the element added
        new = base = None
        if arg[0] == "call" and arg[1][0] == "attr" and arg[1][2] == "union" and len(arg[2]) == 1:
            base, s = arg[1][1], arg[2][0]
        elif arg[0] == "op" and arg[1] == "|":
            base, s = arg[2], arg[3]
        elif fname(arg) == "frozenset" and arg[2][0][0] == "op" and arg[2][0][1] == "|":
            base, s = arg[2][0][2], arg[2][0][3]
        else:
            return "what is added is %s" % show(arg)[:50]
        while s[0] == "call" and nm(s[1]) in ("frozenset", "set", "tuple", "list") and len(s[2]) == 1:
            s = s[2][0]
        if s[0] in ("set", "tuple", "list") and len(s[1]) == 1:
            new = s[1][0]
        if base[0] != "elem" or new is None:
            return "what is added is %s" % show(arg)[:50]
        src = base[1]
        while src[0] == "call" and nm(src[1]) in ("list", "tuple", "sorted", "set") and len(src[2]) == 1:
            src = src[2][0]
        if not (src[0] == "sub" and src[1] == D):
            return "the subsets grown are %s" % show(src)[:40]
        i = src[2]
        F = Formula(lambda t, F: None)
        if F.ev(key) != F.ev(i) + 1:
            return "a subset of one size more is filed under %s" % show(key)[:30]
        if not (i[0] == "elem" and i[1][0] == "call" and i[1][1] == ("name", "range") and len(i[1][2]) == 2 and i[1][2][0] == ("const", 1)):
            return "the sizes grown are %s" % show(i)[:40]
        top = i[1][2][1]
        L = ("call", ("name", "len"), (G,), ())
        lens = (L, ("call", ("attr", G, "number_of_nodes"), (), ()), ("call", ("attr", G, "order"), (), ()))
        if top != K and not (fname(top) == "min" and len(top[2]) == 2 and K in top[2] and any(x in lens for x in top[2])):
            return "the largest size is %s" % show(top)[:40]
        # a neighbour of a member, outside the subset
        out = False
        u = new
        if u[0] != "elem":
            return "the vertex added is %s" % show(u)[:40]
        nb = u[1]
        while True:
            if nb[0] == "op" and nb[1] == "-" and bare(nb[3]) == base:
                out, nb = True, nb[2]
            elif nb[0] == "call" and nb[1][0] == "attr" and nb[1][2] == "difference" and nb[2] == (base,):
                out, nb = True, nb[1][1]
            elif nb[0] == "call" and nm(nb[1]) in ("set", "list", "tuple", "iter", "frozenset") and len(nb[2]) == 1:
                nb = nb[2][0]
            elif nb[0] == "comp" and nb[1] != "dict" and nb[2] == elem(nb[4][-1]):
                nb = nb[4][-1]
            else:
                break
        w = None
        if nb[0] == "call" and nb[1] in (("attr", G, "neighbors"), ("attr", G, "adj")) and len(nb[2]) == 1:
            w = nb[2][0]
        elif nb[0] == "sub" and nb[1] in (G, ("attr", G, "adj"), ("attr", G, "_adj")):
            w = nb[2]
        if w != elem(base):
            return "the vertex added comes from %s" % show(nb)[:40]
        for c, p in dec:
            c, p = inv(c, p)
            if c[0] == "cmp" and c[1] in ("in", "not in") and c[2] == u and c[3] == base:
                out = out or (not p if c[1] == "in" else p)
        return None if out else "a vertex of the subset may be added to it again"

    # ------------------------------------------------------------ closest
    def closest(self):
        fn = self.fn("closest")
        ps = EveryPath.params(fn)
        S, T = ("param", ps[0]), ("param", ps[1])
        for p in ("subset_size", "num_neighbors"):
            if p not in ps:
                raise AnalysisBroken("closest has no %s" % p)
        SZ, NN = ("param", "subset_size"), ("param", "num_neighbors")
        TG = ("attr", T, "G")
        lo, hi = ("sub", SZ, ("const", 0)), ("sub", SZ, ("const", 1))
        LO, HI = {lo, item(SZ, 0, 2)}, {hi, item(SZ, 1, 2)}
        bad, near, over = set(), set(), set()
        seen = set()
        n = 0
        for ev, dec, raised, ret in runs(self.m, fn, None, self.weighing()):
            if raised is not None:
                continue
            n += 1
            sg = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "_get_connected_subgraphs"]
            if len(sg) != 1 or sg[0][2][:1] != (TG,) or len(sg[0][2]) < 2 or sg[0][2][1] not in HI:
                bad.add("the candidates are not the connected subsets of T up to subset_size[1]")
                continue
            SG = sg[0]
            # candidates and their places
            cand = [e for e in ev if e.kind == "store_sub" and e.a[1][0] == "elem" and e.a[1][1][0] == "sub" and e.a[1][1][1] == SG]
            if not cand:
                bad.add("a subset is left out")
                continue
            D = cand[0].a[0]
            F = Formula(lambda t, F: "lo" if t in LO else "hi" if t in HI else None)
            for e in cand:
                sub_, val = e.a[1], e.a[2]
                k = sub_[1][2]
                if e.a[0] != D:
                    bad.add("candidates are kept in several places")
                if not (k[0] == "elem" and fname(k[1]) == "range" and len(k[1][2]) == 2 and F.ev(k[1][2][0]) == F.atom("lo") and F.ev(k[1][2][1]) == F.atom("hi") + 1):
                    bad.add("the sizes considered are %s" % show(k)[:50])
                single = None
                for c, p in dec:
                    c, p = inv(c, p)
                    if c[0] == "cmp" and ("const", 1) in c[2:4] and (k in c[2:4] or ("call", ("name", "len"), (sub_,), ()) in c[2:4]):
                        if c[1] in ("==", "!="):
                            single = p if c[1] == "==" else not p
                        elif c[1] == "<" and c[2] == ("const", 1) or c[1] == "<=" and c[3] == ("const", 1):
                            single = not p if c[1] == "<" else p
                w = self.place(val, sub_, T, single)
                if w:
                    bad.add(w)
                else:
                    seen.add("place")
            # lookup, points and tree speak of the same candidates
            kd = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) in ("KDTree", "cKDTree")]
            if not kd and any(not p and (c[0] in ("comp", "new") or fname(c) == "len") for c, p in [inv(*x) for x in dec]):
                continue                        # no candidates
            if not kd:
                near.add("no nearest neighbours are looked for")
                continue
            tree, pts = kd[-1], kd[-1][2][0] if kd[-1][2] else None
            if not self.points(gathered(pts, ev), D):
                near.add("the tree holds %s" % (show(pts)[:50] if pts else "nothing"))
                continue
            q = [e for e in ev if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "query" and tree in alts(e.a[0][1])]
            if len(q) != 1:
                near.add("%d queries are made for a vertex" % len(q))
                continue
            Q = q[0].a[3]
            point = Q[2][0] if Q[2] else None
            if point is not None and point[0] in ("list", "tuple") and len(point[1]) == 1:
                point = point[1][0]
            u = None
            if point is not None and point[0] == "sub" and point[1] in (S, ("attr", S, "layout")) and point[2][0] == "elem" and graph(point[2][1]) in (S, ("attr", S, "layout"), ("attr", S, "G")):
                u = point[2]
            if u is None:
                near.add("what is looked up is %s" % show(point)[:40])
                continue
            nn = kwd(Q, "k", 1)
            cnt = (("call", ("name", "len"), (pts,), ()), ("call", ("name", "len"), (D,), ()))
            more = [p if c[2] in cnt else not p for c, p in [inv(*x) for x in dec] if c[0] == "cmp" and c[1] in ("<", "<=") and NN in c[2:4] and (c[2] in cnt or c[3] in cnt)]
            if not (nn in cnt and more[-1:] == [True] or nn == NN and more[-1:] == [False]) and not (fname(nn) == "min" and len(nn[2]) == 2 and NN in nn[2] and any(x in cnt for x in nn[2])):
                near.add("the number of neighbours is %s" % show(nn)[:40])
            # the choice
            out = [e for e in ev if e.kind == "store_sub" and e.a[0] == ret and e.a[1] == u]
            others = [e for e in ev if e.kind == "store_sub" and e.a[0] == ret and e.a[1] != u]
            if others or not out:
                if not any(e.kind == "catch" for e in ev) or others:
                    near.add("a vertex of S gets no subset")
                continue
            self.overlap(dec, out[-1].a[2], Q, nn, pts, D, u, over, seen, ev)
        self.chk.count("paths through closest", n)
        self.put("candidates", "closest considers the connected subsets of T of the sizes asked for, each at the mean of its vertices' points", fn, bad, "place" in seen)
        self.put("nearest", "closest looks every vertex of S up at its own point among these candidates", fn, near, n > 0)
        self.put("nearest", "closest takes the neighbour of least distance plus overlap and counts its vertices", fn, over, "chosen" in seen)

    def weighing(self):
        """the functions judged on their own: the subsets, and what weighs candidates by powers"""
        fs = {f: n for f, n in self.m.functions.items() if "." not in f}
        calls = {f: {x.func.id for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)} & set(fs) for f, n in fs.items()}
        pow_ = {f for f, n in fs.items() if any(isinstance(x, ast.Pow) for x in ast.walk(n))}
        while True:
            more = {f for f in fs if calls[f] & pow_} - pow_
            if not more:
                break
            pow_ |= more
        return ("_get_connected_subgraphs",) + tuple(sorted(calls["closest"] & pow_))

    def place(self, val, sub_, T, single):
        at = (T, ("attr", T, "layout"))
        v = val
        if v[0] == "sub" and v[1] in at:
            x = v[2]
            one = x in (elem(sub_), item(sub_, 0, 1)) or fname(x) == "next" or x[0] in ("elem", "item") and x[1] == sub_
            if not one:
                return "a subset is placed at the point of %s" % show(x)[:30]
            return None if single is True else "a subset of several vertices is placed at one of them"
        arr = None
        if v[0] == "call" and fname(v) in ("mean", "average"):
            if v[1][0] == "attr" and v[1][1][0] != "name":
                arr, ax = v[1][1], kwd(v, "axis", 0)
            else:
                arr, ax = v[2][0] if v[2] else None, kwd(v, "axis", 1)
            if ax != ("const", 0):
                return "the mean is not taken coordinate by coordinate"
            if kwd(v, "weights", 2) is not None:
                return "the mean is weighted"
        elif v[0] == "op" and v[1] == "/" and v[3] == ("call", ("name", "len"), (sub_,), ()) and v[2][0] == "call" and nm(v[2][1]) == "sum":
            arr = v[2][2][0]
        if arr is None:
            return "a subset is placed at %s" % show(v)[:50]
        a = bare(arr)
        if a[0] == "comp" and a[1] in ("list", "gen") and len(a[4]) == 1 and not a[5] and graph(a[4][0]) == sub_ and a[2][0] == "sub" and a[2][1] in at and a[2][2] == elem(a[4][0]):
            return None
        return "the mean is taken of %s" % show(a)[:50]

    @staticmethod
    def points(t, D):
        if t is None:
            return False
        t = bare(t)
        if t[0] == "comp" and t[1] in ("list", "gen") and len(t[4]) == 1 and not t[5]:
            m = method(t[4][0], "values") or method(t[4][0], "items")
            return bool(m and m[0] == D or t[4][0] == D) and bare(t[2] if t[2][0] != "call" or t[2][1] != ("name", "tuple") else t[2][2][0]) in (("sub", D, elem(D)), elem(t[4][0]), item(elem(t[4][0]), 1, 2))
        m = method(t, "values")
        return bool(m and m[0] == D)

    def overlap(self, dec, chosen, Q, nn, pts, D, u, over, seen, ev):
        """the subset chosen for a vertex, by a function of the query's answer or in place"""
        D0, I0 = {item(Q, 0, 2), ("sub", Q, ("const", 0))}, {item(Q, 1, 2), ("sub", Q, ("const", 1))}
        one = None
        for c, p in dec:
            c, p = inv(c, p)
            if c[0] == "cmp" and c[1] in ("==", "!=") and ("const", 1) in c[2:4] and nn in c[2:4]:
                one = p if c[1] == "==" else not p
            elif c[0] == "cmp" and c[1] == "<" and c[2:4] == (("const", 1), nn):
                one = not p

        def role(t):
            for top, name in ((D0, "distances"), (I0, "indices")):
                x, first, free = t, False, False
                while True:
                    if x[0] == "sub" and x[2] == ("const", 0) and x not in top or x[0] == "item" and x[2] == 0 and x not in top:
                        x, first = x[1], True
                    elif x[0] == "call" and nm(x[1]) in ("ravel", "flatten", "atleast_1d", "reshape", "squeeze"):
                        free = free or nm(x[1]) != "squeeze"
                        x = x[2][0] if x[2] and x[1][0] == "attr" and x[1][1][0] == "name" else x[1][1]
                    else:
                        break
                if x in top:
                    if not free and (one is None or first == one):
                        over.add("the %s of one neighbour or of several are not told apart" % name)
                    return ("param", "<%s>" % name)
            if t == pts:
                return ("param", "<points>")
            t = gathered(t, ev)
            if t[0] == "comp" and t[1] == "dict":
                keyed = len(t[4]) == 1 and not t[5] and (method(t[4][0], "items") or (None,))[0] == D
                pt = t[2][2][0] if t[2][0] == "call" and t[2][1] == ("name", "tuple") and len(t[2][2]) == 1 else t[2]
                if keyed and pt == ("sub", D, elem(D)) and t[3] == elem(D):
                    return ("param", "<lookup>")
                over.add("the lookup of candidates is %s" % show(t)[:50])
            if fname(t) == "Counter" and not t[2]:
                mk = [e for e in ev if e.kind == "call" and e.a[3] == t]
                if not mk or any(q[0][0] == "for" for x in mk for q in x.conds):
                    over.add("the overlaps are counted anew for every vertex")
                return ("param", "<counter>")
            if t[0] == "call" and nm(t[1]) in ("list", "tuple") and t[2] and graph(t[2][0]) == D:
                return ("param", "<subsets>")
            return t
        f = self.m.functions.get(chosen[1][1]) if chosen[0] == "call" and chosen[1][0] == "name" else None
        if f is None:
            over.add("the subset taken is %s" % show(chosen)[:50])
            return
        ps = EveryPath.params(f)
        bind_ = {}
        for k, a in list(zip(ps, chosen[2])) + list(chosen[3]):
            bind_[k] = role(a)
        I = Interp(self.m)
        ev2 = I.run(f, bind_)
        self.choose(ev2, I.ret, over, seen)

    def choose(self, ev, ret, over, seen):
        IDX, DIST, PTS, LK, CNT, SUBS = [("param", "<%s>" % k) for k in ("indices", "distances", "points", "lookup", "counter", "subsets")]
        i = elem(IDX)
        own = [(("sub", LK, ("sub", PTS, i)), elem(DIST)), (("sub", LK, ("call", ("name", "tuple"), (("sub", PTS, i),), ())), elem(DIST)), (("sub", SUBS, i), elem(DIST))]
        for c in alts(ret) if ret is not None else []:
            if c[0] == "const" and c[1] is None:
                continue
            key, E = None, None
            if c[0] == "call" and c[1] == ("name", "min") and c[2]:
                E, key = c[2][0], dict(x for x in c[3] if x[0] != "**").get("key")
            if c[0] == "item" and c[2] == 0 and c[1][0] == "call" and c[1][1] == ("name", "min") and c[1][2] and method(c[1][2][0], "items"):
                E, key = method(c[1][2][0], "items")[0], dict(x for x in c[1][3] if x[0] != "**").get("key")
                if not self.second(key):
                    over.add("the least is taken by the subsets themselves")
                key = ("attr", E, "get")
            if E is None:
                over.add("the subset taken is %s" % show(c)[:50])
                continue
            if key not in (("attr", E, "get"), ("attr", E, "__getitem__")) and not self.looksup(key):
                over.add("the least is taken by %s" % (show(key)[:30] if key else "the subsets themselves"))
            pairs_ = [(E[2], E[3])] if E[0] == "comp" and E[1] == "dict" else [(e.a[1], e.a[2]) for e in ev if e.kind == "store_sub" and e.a[0] == E]
            if not pairs_:
                over.add("no costs are computed")
            for k, v in pairs_:
                cell = dist = None
                mine = [d for s_, d in own if s_ == k]
                if not mine:
                    over.add("the candidate weighed is %s" % show(k)[:60])
                    continue
                if v[0] == "op" and v[1] == "+" and mine[0] in v[2:4]:
                    pen = v[3] if v[2] == mine[0] else v[2]
                    if pen[0] == "call" and nm(pen[1]) == "sum" and len(pen[2]) == 1 and pen[2][0][0] == "comp" and len(pen[2][0][4]) == 1 and not pen[2][0][5] and \
                            graph(pen[2][0][4][0]) == k:
                        cell, el = pen[2][0][2], elem(pen[2][0][4][0])
                if cell is None:
                    over.add("the cost of a candidate is %s" % show(v)[:60])
                    continue
                if not (cell[0] == "op" and cell[1] == "**" and cell[3] == ("sub", CNT, el)):
                    over.add("the penalty of a vertex is %s" % show(cell)[:50])
                    continue
                base = cell[2]
                if base[0] == "elem" and fname(base[1]) == "range":
                    a = base[1][2]
                    if not (len(a) == 3 and a[0][0] == "const" and a[0][1] > 1 and a[1] == ("const", 0) and self.neg(a[2])):
                        over.add("the bases tried are %s" % show(base)[:40])
                elif not (base[0] == "const" and base[1] > 1):
                    over.add("the base is %s" % show(base)[:30])
                seen.add("chosen")
            up = [e for e in ev if e.kind == "call" and e.a[0] in (("attr", CNT, "update"),) and e.a[1] == (c,)]
            inc = [e for e in ev if e.kind in ("aug_sub", "store_sub") and e.a[0] == CNT and e.a[1] == elem(c)]
            if len(up) + len(inc) != 1:
                over.add("the vertices taken are counted %d times" % (len(up) + len(inc)))

    def lam(self, key):
        if key is None or key[0] not in ("lambda", "func"):
            return None
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Lambda) and len(n.args.args) == 1 and any(isinstance(x, tuple) and x[:2] == (n.lineno, n.col_offset) for x in key):
                return n
        return None

    def second(self, key):
        if key is not None and fname(key) == "itemgetter":
            return key[2] == (("const", 1),)
        n = self.lam(key)
        return n is not None and ast.unparse(n.body) == "%s[1]" % n.args.args[0].arg

    def looksup(self, key):
        n = self.lam(key)
        return n is not None and isinstance(n.body, ast.Subscript) and isinstance(n.body.value, ast.Name) and ast.unparse(n.body.slice) == n.args.args[0].arg

    @staticmethod
    def neg(t):
        return t == ("const", -1) or t == ("neg", ("const", 1)) or t[0] in ("op", "neg") and t[-1] == ("const", 1)

    # ------------------------------------------------------------ intersection
    def intersection(self):
        fn = self.fn("intersection")
        ps = EveryPath.params(fn)
        S, T = ("param", ps[0]), ("param", ps[1])
        TG = ("attr", T, "G")
        bad, some = set(), False
        for ev, dec, raised, ret in runs(self.m, fn, None, ("_intersection_binning",)):
            fam = None
            for c, p in dec:
                c, p = inv(c, p)
                if c[0] == "cmp" and c[1] in ("in", "not in") and c[3][0] in ("tuple", "list", "set"):
                    names = {x[1] for x in c[3][1] if x[0] == "const"}
                    if names != set(FAMILIES):
                        bad.add("the families let through are %s" % ", ".join(sorted(map(str, names))))
                    fam = p if c[1] == "in" else not p
            if raised is not None:
                if fam is not False:
                    bad.add("raises for a D-Wave graph")
                continue
            if fam is not True:
                bad.add("other graphs are let through")
                continue
            b = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "_intersection_binning"]
            if len(b) != 1 or b[0][2] != (S, TG):
                bad.add("S's layout and T's graph are not binned")
                continue
            st = [e for e in ev if e.kind == "store_sub" and e.a[0] == ret]
            if ret[0] == "comp" and ret[1] == "dict" and not ret[5]:
                pr = [(ret[2], ret[3])]
            else:
                pr = [(e.a[1], e.a[2]) for e in st]
            if not pr:
                bad.add("no vertex gets its qubits")
            for k, v in pr:
                v = bare(v)
                if v[0] == "call" and nm(v[1]) in ("set", "frozenset", "list", "tuple") and len(v[2]) == 1:
                    v = v[2][0]
                if not (v[0] == "sub" and v[2] == ("const", "qubits") and k == elem(("sub", v[1], ("const", "variables"))) and
                        any(x == b[0] for x in subterms(v[1]))):
                    bad.add("a vertex gets %s" % show(v)[:40])
                else:
                    some = True
        self.put("grid", "intersection gives the vertices binned at a grid point the qubits meeting there, on D-Wave graphs only", fn, bad, some)
        self.binning()
        self.lookup()
        self.collectors()

    def binning(self):
        fn = self.fn("_intersection_binning")
        ps = EveryPath.params(fn)
        S, T = ("param", ps[0]), ("param", ps[1])
        gd = ("attr", T, "graph")

        def nms(t, F):
            if t[0] == "sub" and t[1] == gd and t[2][0] == "const" and t[2][1] in ("rows", "columns", "tile"):
                return t[2][1]
            if t[0] == "call" and t[1] == ("attr", gd, "get") and t[2] and t[2][0][0] == "const":
                return t[2][0][1]
            if t[0] == "call" and nm(t[1]) in ("min", "max", "minimum", "maximum") and len(t[2]) == 2 and t[1][0] == "name":
                return (nm(t[1])[:3],) + tuple(sorted(F.ev(x) for x in t[2]))
            if t == ("attr", S, "scale"):
                return "s"
            if t[0] in ("tuple", "list"):
                return None
            return None
        bad, seen = set(), set()
        n = 0
        for ev, dec, raised, ret in runs(self.m, fn, None, ("_lookup_intersection_coordinates",)):
            if raised is not None:
                bad.add("raises")
                continue
            n += 1
            F = Formula(nms, axis=0)
            F1 = Formula(nms, axis=1)
            zep = None
            for c, p in dec:
                c, p = inv(c, p)
                if c[0] == "cmp" and c[1] in ("==", "!=") and ("const", "zephyr") in c[2:4]:
                    zep = p if c[1] == "==" else not p
            if zep is None:
                bad.add("zephyr's finer grid is not told apart")
                continue
            seen.add(zep)
            r, c_, t = F.atom("rows"), F.atom("columns"), F.atom("tile")
            M, N, t = (2 * r + 1, 2 * c_ + 1, 2 * t) if zep else (r, c_, t)
            G = ret
            if fname(G) != "grid_2d_graph" or len(G[2]) != 2 or F.ev(G[2][0]) != t * N or F.ev(G[2][1]) != t * M:
                bad.add("the grid is %s" % show(G)[:60])
                continue
            small = F.atom(("min",) + tuple(sorted((M, N))))
            half = (t * small - 1) / 2
            nodes = (("attr", G, "nodes"), ("attr", G, "_node"))
            # fresh sets, and every qubit at its points
            L = [e.a[3] for e in ev if e.kind == "call" and fname(e.a[3]) == "_lookup_intersection_coordinates"]
            if not L or L[0][2] != (T,):
                bad.add("the qubits of T are not looked up")
                continue
            LK = L[0]
            qub = False
            for e in ev:
                if e.kind in ("store_sub", "aug_sub") and e.a[1] == ("const", "qubits") and e.a[0][0] == "sub" and e.a[0][1] in nodes:
                    if e.a[0][2] == elem(LK) and any(x == ("sub", LK, elem(LK)) for x in subterms(e.a[2])):
                        if e.kind == "aug_sub" or any(x == ("sub", e.a[0], ("const", "qubits")) or x[0] == "new" for x in subterms(e.a[2])) or bare(e.a[2]) == ("sub", LK, elem(LK)):
                            qub = True
                if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("update", "union_update") and e.a[1] == (("sub", LK, elem(LK)),):
                    b = e.a[0][1]
                    if b[0] == "sub" and b[2] == ("const", "qubits") and b[1][0] == "sub" and b[1][1] in nodes and b[1][2] == elem(LK) or b[0] == "new":
                        qub = True
            if not qub:
                bad.add("the qubits meeting at a point are not put there")
            # S's layout in the grid
            sts = [(i, e.a[1], e.a[2]) for i, e in enumerate(ev) if e.kind == "store_attr" and e.a[0] == S]
            sc = [(i, v) for i, k, v in sts if k == "scale"]
            ce = [(i, v) for i, k, v in sts if k == "center"]
            if {k for i, k, v in sts} - {"scale", "center"}:
                bad.add("something else of S's layout is changed")
            s = F.atom("s")
            if len(sc) != 1:
                bad.add("S's layout is scaled %d times" % len(sc))
            else:
                v = F.ev(sc[0][1])
                less = None
                for c, p in dec:
                    c, p = inv(c, p)
                    if c[0] == "cmp" and c[1] in ("<", "<="):
                        a, b = F.ev(c[2]), F.ev(c[3])
                        if (a, b) == (s * t, half):
                            less = p
                        elif (a, b) == (half, s * t):
                            less = not p
                ok = v == F.atom(("min",) + tuple(sorted((s * t, half)))) or less is True and v == s * t or less is False and v == half
                if not ok:
                    bad.add("S's layout is scaled to %s" % show(sc[0][1])[:50])
            if len(ce) != 1:
                bad.add("S's layout is centered %d times" % len(ce))
            else:
                x = ce[0][1]
                if x[0] == "op" and x[1] == "*" and any(y[0] in ("tuple", "list") for y in x[2:4]):
                    k = [y for y in x[2:4] if y[0] == "const"]
                    tup = [y for y in x[2:4] if y[0] in ("tuple", "list")]
                    ok = k == [("const", 2)] and len(tup) == 1 and len(tup[0][1]) == 1 and F.ev(tup[0][1][0]) == half
                else:
                    ok = F.ev(x) == half and F1.ev(x) == ((F1.atom("tile") * (2 if zep else 1)) * F1.atom(("min",) + tuple(sorted(
                        ((2 * F1.atom("rows") + 1, 2 * F1.atom("columns") + 1) if zep else (F1.atom("rows"), F1.atom("columns")))))) - 1) / 2
                if not ok:
                    bad.add("S's layout is centered at %s" % show(x)[:50])
            # every vertex of S at its nearest grid point, after that
            put = None
            for i, e in enumerate(ev):
                if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "add" and len(e.a[1]) == 1:
                    b = e.a[0][1]
                    if b[0] == "sub" and b[2] == ("const", "variables") and b[1][0] == "sub" and b[1][1] in nodes:
                        put = (i, e.a[1][0], b[1][2])
            if put is None:
                bad.add("the vertices of S are not put anywhere")
                continue
            i, v, pt = put
            if not (v[0] == "elem" and graph(v[1]) in (S, ("attr", S, "layout"), ("attr", S, "G"))):
                bad.add("what is put is %s" % show(v)[:30])
                continue
            pos = {("sub", S, v), ("sub", ("attr", S, "layout"), v)}
            calls = [x for x in subterms(pt) if x[0] == "call"]
            rnd = [x for x in calls if nm(x[1]) in ("round", "rint", "around", "round_")]
            odd = [x for x in calls if nm(x[1]) not in ("round", "rint", "around", "round_", "tuple", "int", "astype", "map", "tolist")]
            odd += [x for x in subterms(pt) if x[0] in ("op", "neg")]
            if not any(x in pos for x in subterms(pt)) or not rnd or odd:
                bad.add("a vertex is put at %s" % show(pt)[:50])
            if sc and ce and i < max(sc[0][0], ce[0][0]):
                bad.add("the vertices are put before their layout is scaled and centered")
        self.chk.count("paths through _intersection_binning", n)
        self.put("grid", "_intersection_binning scales and centers S's layout into the grid and puts every vertex at its nearest point", fn, bad, seen == {True, False})

    def lookup(self):
        fn = self.fn("_lookup_intersection_coordinates")
        G = ("param", EveryPath.params(fn)[0])
        gd = ("attr", G, "graph")
        cols = {"_%s_all_intersection_points" % f: f for f in FAMILIES}
        self.col = {f: self.fn(k) for k, f in cols.items()}
        bad, seen = set(), set()
        n = 0

        def g(k):
            return {("sub", gd, ("const", k)), ("call", ("attr", gd, "get"), (("const", k),), ())}
        for ev, dec, raised, ret in runs(self.m, fn, None, tuple(cols)):
            if raised is not None:
                continue
            fam, lab, data = None, {}, None
            for c, p in dec:
                c, p = inv(c, p)
                if c[0] == "cmp" and c[1] in ("==", "!=") and c[3][0] == "const":
                    p = p if c[1] == "==" else not p
                    if c[2] in g("family"):
                        if p:
                            fam = c[3][1]
                    elif c[2] in g("labels"):
                        lab[c[3][1]] = p
                elif c in g("data"):
                    data = p
            cs = [e for e in ev if e.kind == "call" and nm(e.a[0]) in cols]
            if fam is None:
                continue
            n += 1
            label = [k for k, p in lab.items() if p]
            if fam == "pegasus" and not label and data is False and {"coordinate", "int", "nice"} <= set(lab):
                continue                     # no other labelling exists
            if len(cs) != 1:
                bad.add("%s: a qubit is entered %d times" % (fam, len(cs)))
                continue
            e = cs[0]
            if cols[nm(e.a[0])] != fam:
                bad.add("%s qubits are entered as %s ones" % (fam, cols[nm(e.a[0])]))
                continue
            a = e.a[1]
            if len(a) != 4 or a[0] != ret or a[3][0] != "star":
                bad.add("%s: entered are %s" % (fam, show(e.a[3])[:40]))
                continue
            sh, v, co = a[1], a[2], a[3][1]
            if fam == "pegasus":
                ok = sh[0] in ("list", "tuple") and len(sh[1]) == 2 and sh[1][0] in g("vertical_offsets") and sh[1][1] in g("horizontal_offsets")
            else:
                ok = sh in g("tile")
            if not ok:
                bad.add("%s: the shore is %s" % (fam, show(sh)[:40]))
            if v[0] == "elem" and graph(v[1]) == G:
                vert, dat = v, ("sub", ("attr", G, "nodes"), v)
            elif v[0] == "item" and v[2] == 0 and v[1][0] == "elem" and fname(v[1][1]) == "nodes" and dict(v[1][1][3]).get("data") == ("const", True) and v[1][1][1][1] == G:
                vert, dat = v, item(v[1], 1, 2)
            else:
                bad.add("%s: the qubit entered is %s" % (fam, show(v)[:40]))
                continue
            if co == ("sub", dat, ("const", "%s_index" % fam)):
                seen.add((fam, "data"))
                if data is not True:
                    bad.add("%s: indices are read that need not be there" % fam)
                continue
            if lab.get("coordinate"):
                seen.add((fam, "coordinate"))
                if co != vert:
                    bad.add("%s: coordinate labels are taken as %s" % (fam, show(co)[:40]))
                continue
            if lab.get("coordinate") is None:
                bad.add("%s: coordinate labels are not told apart" % fam)
                continue
            # a converter
            ok = co[0] == "call" and co[1][0] == "attr" and co[2] == (vert,) and fname(co[1][1]) == "%s_coordinates" % fam
            if not ok:
                bad.add("%s: the coordinates are %s" % (fam, show(co)[:40]))
                continue
            conv, ctor = co[1][2], co[1][1]
            want = "linear_to_%s" % fam
            if lab.get("nice"):
                want = "nice_to_%s" % fam
            elif fam == "pegasus" and not lab.get("int"):
                bad.add("pegasus: nice labels are converted by %s" % conv)
            if conv != want:
                bad.add("%s: labels are converted by %s" % (fam, conv))
            kk = dict(x for x in ctor[3] if x[0] != "**")
            pos = {"m": 0, "n": 1, "t": 2} if fam == "chimera" else {"m": 0, "t": 1} if fam == "zephyr" else {"m": 0}
            for name, key in (("m", "rows"), ("n", "columns"), ("t", "tile")):
                if name in pos:
                    x = kk.get(name, ctor[2][pos[name]] if len(ctor[2]) > pos[name] else None)
                    if x not in g(key):
                        bad.add("%s: the converter's %s is %s" % (fam, name, show(x)[:30] if x else "left out"))
            seen.add((fam, "linear"))
        self.chk.count("paths through _lookup_intersection_coordinates", n)
        lack = [f for f in FAMILIES if not {(f, "coordinate"), (f, "linear")} <= seen]
        self.put("grid", "every qubit of a D-Wave graph is entered once, by its own coordinates, at the points of its family", fn, bad, not lack)

    def collectors(self):
        O = None
        for fam in FAMILIES:
            fn = self.col[fam]
            ps = [("param", p) for p in EveryPath.params(fn)]
            want = {"chimera": 7, "pegasus": 7, "zephyr": 8}[fam]
            if len(ps) != want:
                raise AnalysisBroken("%s takes other arguments" % fn.name)
            P, SH, V = ps[:3]
            names = dict(zip(ps[3:], {"chimera": "ijuk", "pegasus": "uwkz", "zephyr": "uwkjz"}[fam]))
            U = [p for p, n in names.items() if n == "u"][0]
            bad, seen = set(), set()
            for ev, dec, raised, ret in runs(self.m, fn):
                u = None
                no = set()
                for c, p in dec:
                    c, p = inv(c, p)
                    if c == U:
                        u = 1 if p else 0
                    if c[0] == "cmp" and c[2] == U and c[3] in (("const", 0), ("const", 1)):
                        p = p if c[1] == "==" else not p
                        if p:
                            u = c[3][1]
                        else:
                            no.add(c[3][1])
                if u is None and len(no) == 1 and raised is None:
                    u = 1 - no.pop()
                if raised is not None:
                    if u is not None:
                        bad.add("raises")
                    continue
                if len(no) == 2 or u is None or u in no:
                    continue
                got = []
                for e in ev:
                    if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "add" and e.a[0][1][0] == "sub" and e.a[0][1][1] == P:
                        got.append((e.a[0][1][2], e.a[1][0] if e.a[1] else None))
                if len(got) != 1 or got[0][1] != V or got[0][0][0] != "tuple" or len(got[0][0][1]) != 2:
                    bad.add("u = %d: %d kinds of points are entered" % (u, len(got)))
                    continue
                X, Y = got[0][0][1]
                run = {x for x in list(subterms(X)) + list(subterms(Y)) if x[0] == "elem"}
                if len(run) != 1 or fname(list(run)[0][1]) != "range" or len(list(run)[0][1][2]) not in (1, 2):
                    bad.add("u = %d: the points are not counted along the qubit" % u)
                    continue
                rn = list(run)[0]
                a = rn[1][2]

                def nms(t, F, u=u):
                    if t == rn:
                        return (F.ev(a[0]) if len(a) == 2 else Fraction(0)) + F.atom("step")
                    if t == U:
                        return Fraction(u)
                    if t[0] == "sub" and t[1][0] == "sub" and t[1][1] == SH and t[1][2] in (U, ("const", u)) and names.get(t[2]) == "k":
                        return "offset"
                    if t == SH:
                        return "t"
                    return names.get(t)
                F = Formula(nms)
                A = F.atom
                step = A("step")
                length = F.ev(a[-1]) - (F.ev(a[0]) if len(a) == 2 else 0)
                if fam == "chimera":
                    exp = (A("j") * A("t") + step, A("i") * A("t") + A("k")) if u else (A("j") * A("t") + A("k"), A("i") * A("t") + step)
                    ln = A("t")
                elif fam == "pegasus":
                    row, along = 12 * A("w") + A("k"), 12 * A("z") + A("offset") + step
                    exp = (along, row) if u else (row, along)
                    ln = Fraction(12)
                else:
                    row, along = 2 * (A("t") * A("w") + A("k")) + A("j"), (4 * A("z") + 2 * A("j")) * A("t") + step
                    exp = (along, row)
                    ln = 4 * A("t")
                    if u == 1:
                        exp = (row, along)
                g = (F.ev(X), F.ev(Y))
                if length != ln:
                    bad.add("u = %d: a qubit is entered at another number of points" % u)
                if fam == "zephyr" and (g == exp or g == exp[::-1]):
                    seen.add((u, g == exp))
                elif g != exp:
                    bad.add("u = %d: a qubit is entered at (%s, %s)" % (u, show(X)[:40], show(Y)[:40]))
                else:
                    seen.add((u, True))
            ok = {x for x, y in seen} == {0, 1} and len({y for x, y in seen}) == 1
            self.put("grid", "%s enters a qubit at exactly the points of its line" % fn.name, fn, bad, ok)


def make():
    chk = Check("C30", "path enumeration over provenance terms with symbolic identities",
                "every path through Placement, closest, intersection and their helpers")
    chk.rule("copies", "the caller's layouts are copied before anything is scaled")
    chk.rule("frame", "both layouts have one dimension, S's scale is brought to T's as asked")
    chk.rule("choice", "the placement is the one of the rule asked for, and the mapping interface reads and writes it")
    chk.rule("candidates", "candidates are the connected subsets of the sizes asked for, at the mean of their points")
    chk.rule("nearest", "every vertex gets one of the nearest candidates, least overlapped")
    chk.rule("grid", "intersection gives every vertex the qubits meeting at its grid point")
    c = C30(chk)
    c.init()
    c.interface()
    c.subsets()
    c.closest()
    c.intersection()
    return chk


if __name__ == "__main__":
    main(make)
