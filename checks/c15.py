"""C15: busclique takes and returns embeddings in the labels of the caller's graph, on the nodes the caller named."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import Interp, alts, subterms, show, const_truth, mentions, elem
from paths import PathInterp, EveryPath

pyai.CAP = 60
REL = "minorminer/busclique.pyx"
SELF = ("param", "self")
CACHE = "busgraph_cache"
FAMILIES = ("zephyr", "pegasus", "chimera")
TRIVIAL, MAKER = "_trivial_relabeler", "_make_relabeler"
NEUTRAL = {"len", "max", "min", "range", "size", "number_of_nodes", "isinstance", "sum", "get_size"}
# the module's public results that hold chains, and what they are in
PUBLIC = ("largest_clique", "largest_clique_by_chainlength", "find_clique_embedding", "largest_balanced_biclique", "find_biclique_embedding", "get_clique_cache")
ENSURE = ("_ensure_clique_cache", "_ensure_biclique_cache", "_fetch_cache", "merge_clique_cache", "insert_clique_embedding", "update_clique_cache",
          "topology_identifier")


def name(t):
    if t[0] != "call":
        return None
    f = t[1]
    if f[0] == "sub":          # a template's instance
        f = f[1]
    return f[-1] if isinstance(f[-1], str) else None


class C15(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        self.inner = {"_%s_busgraph" % f: f for f in FAMILIES}
        for c in list(self.inner) + [CACHE]:
            if c not in self.m.classes:
                raise AnalysisBroken("%s has no class %s" % (REL, c))
        for q in [CACHE + "." + p for p in PUBLIC] + [CACHE + ".insert_clique_embedding", CACHE + ".update_clique_cache", MAKER, TRIVIAL, "mine_clique_embeddings"]:
            if q not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, q))

    # ---------------------------------------------------------------- which labels a term is in
    def where(self, t, public):
        """set of what the chains in a term are labelled with: lin (internal), graph (the caller's), twice, and where from"""
        out = set()

        def go(x, ctx):
            if not isinstance(x, tuple) or not x:
                if isinstance(x, frozenset):
                    for y in x:
                        go(y, ctx)
                return
            if not isinstance(x[0], str):
                for y in x:
                    go(y, ctx)
                return
            if x[0] == "call":
                n = x[1][-1] if isinstance(x[1][-1], str) else None
                if n in ("relabel", "delabel"):
                    sub = set()
                    for a in x[2]:
                        sub |= self.where(a, public)
                    frm, to = ("lin", "graph") if n == "relabel" else ("graph", "lin")
                    for s in sub:
                        out.add(to if s == frm else "wrong")
                    return
                if n in NEUTRAL:
                    return
                if n in ("get",) and x[1][0] == "attr" and self.index(x[1][1]):
                    return
                if n == "_regularize_embedding" and len(x[2]) > 1:
                    go(x[2][1], ctx)       # turns the container given into a plain dictionary
                    return
                if n in ("find_clique_embedding", "largest_clique", "largest_clique_by_chainlength", "find_biclique_embedding", "largest_balanced_biclique",
                         "find_embeddings", "find_embedding", "_regularize_embedding") and x[1][0] != "name" or n == "_regularize_embedding":
                    out.add("graph")
                    return
                if n in ("independent_set", "cliques", "bicliques"):
                    out.add("lin")
                    return
                if n == "_num_nodes":
                    return
            if x[0] == "attr" and x[2] in ("_cliques", "_bicliques", "emb_1"):
                out.add("lin")
                return
            if x[0] == "new" and x[1] == "embedding_t":
                out.add("lin")
                return
            if x[0] == "sub":
                if self.index(x):
                    return
                go(x[1], ctx)          # an index does not label anything
                return
            if x[0] == "param" and x[1] in public:
                out.add("graph")
                return
            if x[0] == "comp":
                if x[1] == "dict":
                    go(x[3], ctx)
                else:
                    go(x[2], ctx)
                return
            if x[0] == "dict":
                for k, v in x[1]:
                    go(v, ctx)
                return
            for y in x[1:]:
                go(y, ctx)
        go(t, None)
        return out

    def index(self, t):
        """the parts of a cache that hold keys, not chains"""
        while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("get", "items", "values", "keys"):
            t = t[1][1]
        return t[0] == "sub" and t[2][0] == "const" and t[2][1] in ("size", "length", "max_side")

    def interp(self, q, opaque=()):
        I = Interp(self.m)
        I.opaque |= {("attr", SELF, n) for n in ENSURE} | {("name", n) for n in ("_num_nodes", "_regularize_embedding", MAKER, "_make_clique_cache", "_make_biclique_cache") + tuple(opaque)}
        if CACHE + "." in q:
            # private helpers of the class are inlined, public ones are judged on their own
            for f in self.m.functions:
                if f.startswith(CACHE + ".") and not f.split(".")[1].startswith("_"):
                    I.opaque.add(("attr", SELF, f.split(".")[1]))
        evs = I.run(self.m.functions[q])
        return I, evs

    # ---------------------------------------------------------------- results
    def results(self):
        todo = [CACHE + "." + p for p in PUBLIC] + [c + ".find_clique_embedding" for c in self.inner]
        for q in todo:
            if q not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, q))
            I, evs = self.interp(q)
            fn = self.m.functions[q]
            n = 0
            for e in evs:
                if e.kind != "return" or e.stack[-1] is not fn or len(e.stack) != 1:
                    continue
                for r in alts(e.a[0]):
                    w = self.filled(r, evs)
                    if not w:
                        continue
                    n += 1
                    self.chk.ob("result-labels", q, w == {"graph"}, self.m.where(e.node),
                                "returns chains in the internal linear labels" if "lin" in w else "chains are translated twice" if "wrong" in w else "")
            if not n:
                self.chk.ob("result-labels", q, False, self.m.where(fn), "nothing it returns comes from the cliques it should be answered from")
        self.chk.count("functions returning chains", len(todo))

    def filled(self, r, evs):
        """labels of a term, what was put into fresh containers included"""
        w = self.where(r, ())
        fresh = {x for x in subterms(r) if x[0] == "new" and x[1] in ("dict", "list", "set")}
        for e in evs:
            if e.kind == "store_sub" and e.a[0] in fresh:
                w |= self.where(e.a[2], ())
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] in fresh and e.a[0][2] in ("append", "update", "setdefault", "extend", "add"):
                for a in e.a[1]:
                    w |= self.where(a, ())
        return w

    # ---------------------------------------------------------------- inputs
    def inputs(self):
        q = CACHE + ".insert_clique_embedding"
        I, evs = self.interp(q)
        n = 0
        for e in evs:
            if e.kind != "call":
                continue
            f = e.a[0]
            vals = []
            if f[0] == "attr" and f[2] in ("append", "insert", "extend", "setdefault", "update") and self.raw(f[1]):
                vals = list(e.a[1][-1:])
            elif f == ("name", "_make_clique_cache"):
                vals = list(e.a[1])
            for v in vals:
                n += 1
                w = self.where(v, ("emb",))
                self.chk.ob("input-labels", q, w == {"lin"}, self.m.where(e.node), "what is put into the cache is %s" % (
                    "in the labels of the graph" if "graph" in w else "translated twice or the wrong way"))
        for e in evs:
            if e.kind == "store_sub" and self.raw(e.a[0]):
                n += 1
                w = self.where(e.a[2], ("emb",))
                self.chk.ob("input-labels", q, w == {"lin"}, self.m.where(e.node), "what is put into the cache is not in internal labels")
            if e.kind == "store_sub" and self.index(e.a[0]):
                # the entry stored is found under what it really is
                self.keyed(q, e, evs)
        if n < 2:
            self.chk.ob("input-labels", q, False, self.m.where(self.m.functions[q]), "no embedding is put into the cache")
        I, evs = self.interp(CACHE + ".update_clique_cache")
        got = False
        for e in evs:
            if e.kind == "call" and e.a[0] == ("attr", SELF, "insert_clique_embedding"):
                got = True
                v = e.a[1][0] if e.a[1] else dict(e.a[2]).get("emb")
                w = self.where(v, ("cache",))
                self.chk.ob("input-labels", CACHE + ".update_clique_cache", w == {"graph"}, self.m.where(e.node), "an entry of the cache given is not inserted as it is")
            if e.kind == "call" and e.a[0][0] == "attr" and self.raw(e.a[0][1]):
                got = True
                w = self.where(e.a[1][0], ("cache",)) if e.a[1] else set()
                self.chk.ob("input-labels", CACHE + ".update_clique_cache", w == {"lin"}, self.m.where(e.node), "entries are stored without translating them")
        self.chk.ob("input-labels", CACHE + ".update_clique_cache: entries", got, self.m.where(self.m.functions[CACHE + ".update_clique_cache"]), "nothing of the cache given is inserted")
        I, evs = self.interp("mine_clique_embeddings")
        n = 0
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "insert_clique_embedding":
                v = e.a[1][0] if e.a[1] else dict(e.a[2]).get("emb")
                w = self.where(v, ())
                if w:
                    n += 1
                self.chk.ob("input-labels", "mine_clique_embeddings", w <= {"graph"}, self.m.where(e.node), "an embedding in other labels than the graph's is inserted")
        if not n:
            raise AnalysisBroken("mine_clique_embeddings inserts nothing")
        q = CACHE + ".draw_fragment_embedding"
        if q in self.m.functions:
            I, evs = self.interp(q)
            for e in evs:
                if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "fragment_nodes" and e.a[1]:
                    w = self.where(e.a[1][0], ("emb",))
                    self.chk.ob("input-labels", q, w == {"lin"}, self.m.where(e.node), "fragments are looked up by the labels of the graph")

    def raw(self, t):
        return t[0] == "sub" and t[2] == ("const", "raw") and self.mine(t[1])

    @staticmethod
    def mine(t):
        return t == ("attr", SELF, "_cliques") or t[0] == "alt" and any(x == ("attr", SELF, "_cliques") for x in t[1])

    def keyed(self, q, e, evs):
        """size[n] = position of an entry of n chains; length[l] = position of an entry whose longest chain has l"""
        what = e.a[0][2][1]
        stored = [x.a[1][0] for x in evs if x.kind == "call" and x.a[0][0] == "attr" and x.a[0][2] == "append" and self.raw(x.a[0][1]) and x.a[1]]
        pos = e.a[2]
        rawlen = [("call", ("name", "len"), (x,), ()) for x in {y.a[0][1] for y in evs if y.kind == "call" and y.a[0][0] == "attr" and y.a[0][2] == "append" and self.raw(y.a[0][1])}]
        before = any(x.kind == "call" and x.a[3] in rawlen and evs.index(x) < min([evs.index(y) for y in evs if y.kind == "call" and y.a[0][0] == "attr" and y.a[0][2] == "append" and self.raw(y.a[0][1])] or [0]) for x in evs)
        ok = pos in rawlen and before or pos[0] == "op" and pos[1] == "-" and pos[2] in rawlen and pos[3] == ("const", 1)
        self.chk.ob("index", "%s: %s refers to the new entry" % (q, what), ok, self.m.where(e.node), "the position stored is %s" % show(pos)[:80])
        k = e.a[1]
        if what == "size":
            ok = any(k == ("call", ("name", "len"), (s,), ()) for s in stored)
            self.chk.ob("index", "%s: size is the number of chains" % q, ok, self.m.where(e.node), "the entry is filed under %s" % show(k)[:80])
        elif what == "length":
            ok = all(y == ("const", 0) or y[0] == "call" and (y[1] == ("name", "len") and y[2] and y[2][0][0] == "sub" and y[2][0][2] == ("const", -1) and y[2][0][1] in stored and y[2][0][1][0] == "call" and (
                "key", ("name", "len")) in y[2][0][1][3] or y[1] == ("name", "max")) for y in alts(k))
            self.chk.ob("index", "%s: length is that of the longest chain" % q, ok, self.m.where(e.node), "the entry is filed under %s" % show(k)[:80])

    def owners(self, t):
        """whose table a term is taken from: this cache's, the given one's"""
        out = set()
        for x in subterms(t):
            if x == ("attr", SELF, "_cliques"):
                out.add("own")
            elif x == ("param", "cache"):
                out.add("given")
        return out

    def merged(self):
        """the positions a merge hands out are those of the entries they were handed out for"""
        q = CACHE + ".merge_clique_cache"
        if q not in self.m.functions:
            return
        I, evs = self.interp(q)
        tables = {}
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "setdefault" and len(e.a[1]) == 2:
                t, (k, v) = e.a[0][1], e.a[1]
                if v == ("call", ("name", "len"), (t,), ()) or v == ("len", t):
                    tables.setdefault(t, []).append((e, k))
                    if k[0] == "tuple" and len(k[1]) == 2 and k[1][1][0] == "const":
                        pos = k[1][0]
                        base = pos[1][1] if pos[0] == "call" and pos[1][0] == "attr" and pos[1][2] == "get" else pos[1] if pos[0] == "sub" else pos
                        tables.setdefault(("side", t), []).append((k[1][1][1], self.owners(base)))
        n = 0
        for e in evs:
            if e.kind != "store_attr" or e.a[:2] != (SELF, "_cliques") or e.a[2][0] != "dict":
                continue
            raw = dict(e.a[2][1]).get(("const", "raw"))
            if raw is None:
                continue
            for t in [t for t in tables if t[0] != "side"]:
                n += 1
                order = [x for x in subterms(raw) if x[0] == "call" and x[1][0] == "name" and x[1][1] in ("sorted", "reversed", "set", "frozenset") and x[2] and not x[3] and
                         (x[2][0] == t or x[2][0][0] == "call" and x[2][0][1][0] == "attr" and x[2][0][1][1] == t)]
                self.chk.ob("index", q + ": entries are in the order of their positions", not order, self.m.where(e.node),
                            "positions are handed out in order of use, the entries are listed in that of %s()" % (order[0][1][1] if order else ""))
        for t in [t for t in tables if t[0] == "side"]:
            by = {}
            for side, own in tables[t]:
                by.setdefault(side, set()).update(own)
            self.chk.ob("index", q + ": one side, one table", all(len(x) == 1 for x in by.values()) and len({frozenset(x) for x in by.values()}) == len(by), self.m.where(self.m.functions[q]),
                        "positions of both tables are taken for one: %s" % sorted((k, sorted(v)) for k, v in by.items()))
        self.chk.count("position tables of a merge", n)

    def halves(self):
        """the two sides of a biclique are told apart before its chains are put in another order"""
        for q in (CACHE + ".largest_balanced_biclique", CACHE + ".find_biclique_embedding"):
            I, evs = self.interp(q)
            for e in evs:
                if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "relabel" and e.a[1]:
                    bad = []
                    for x in subterms(e.a[1][0]):
                        if x[0] == "sub" and x[2][0] == "slice" and x[1][0] == "call" and x[1][1][-1] in ("sorted", "reversed", "shuffle") and x[1][2]:
                            y = x[1][2][0]
                            if mentions(y, ("const", "raw")) and not any(z[0] == "sub" and z[2][0] == "slice" for z in subterms(y)) and \
                                    any(z[0] in ("item", "unpack") or z[0] == "sub" for w in x[2][1:] if isinstance(w, tuple) for z in subterms(w)) and y[0] == "sub":
                                bad.append(x)
                    self.chk.ob("pairing", q + ": sides are told apart in the order stored", not bad, self.m.where(e.node),
                                "the chains of both sides are sorted before they are split: %s" % (show(bad[0])[:100] if bad else ""))

    # ---------------------------------------------------------------- the relabelers
    def relabelers(self):
        I = Interp(self.m)
        fn = self.m.functions[TRIVIAL]
        I.run(fn)
        a = PathInterp.params(fn)[0]
        for r in alts(I.ret):
            self.chk.ob("relabeler", TRIVIAL, self.maps(r, ("param", a), None), self.m.where(fn), "not every node gets its own chain: %s" % show(r)[:100])
        mk = self.m.functions[MAKER]
        f = PathInterp.params(mk)[0]
        inner = [n for n in ast.walk(mk) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not mk]
        if len(inner) != 1:
            raise AnalysisBroken("%s does not return one function" % MAKER)
        I = Interp(self.m)
        a = inner[0].args.args[0].arg
        st = pyai.St({f: ("param", f), a: ("param", a)}, [])
        I.stack = []
        r0 = I.call_fn(inner[0], dict(st.env), [], None)
        evs = I.events
        for r in alts(r0):
            if r[0] == "new" and r[1] == "dict":
                st = [e for e in evs if e.kind == "store_sub" and e.a[0] == r]
                ok = len({(e.a[1], e.a[2]) for e in st}) == 1 and self.pair(st[0].a[1], st[0].a[2], ("param", a), ("param", f)) and all(c[0][0] == "for" for e in st for c in e.conds)
            else:
                ok = self.maps(r, ("param", a), ("param", f))
            self.chk.ob("relabeler", MAKER, ok, self.m.where(mk), "not every node gets its own chain, translated once: %s" % show(r)[:100])

    def maps(self, r, emb, f):
        if r[0] == "call" and r[1] == ("name", "dict") and len(r[2]) == 1 and r[2][0][0] == "comp" and r[2][0][2][0] == "tuple" and len(r[2][0][2][1]) == 2:
            c = r[2][0]
            return not c[5] and self.pair(c[2][1][0], c[2][1][1], emb, f)
        return r[0] == "comp" and r[1] == "dict" and not r[5] and self.pair(r[2], r[3], emb, f)

    def pair(self, k, v, emb, f):
        e = ("elem", emb)
        if k != e:
            return False
        chain = ("sub", emb, e)
        while v[0] == "call" and v[1][0] == "name" and v[1][1] in ("tuple", "list") and len(v[2]) == 1:
            v = v[2][0]
        if f is None:
            return v == chain
        if v == ("call", f, (chain,), ()):
            return True
        while v[0] == "call" and v[1] == f and len(v[2]) == 1:
            v = v[2][0]
            while v[0] == "call" and v[1][0] == "name" and v[1][1] in ("tuple", "list", "iter") and len(v[2]) == 1:
                v = v[2][0]
            return v == chain
        return False

    # ---------------------------------------------------------------- constructors
    def constructors(self):
        for c, fam in sorted(self.inner.items()):
            q = c + ".__cinit__"
            if q not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, q))
            fn = self.m.functions[q]
            mk = self.m.functions[MAKER]
            kinds = {"zephyr": ("int", "coordinate"), "chimera": ("int", "coordinate"), "pegasus": ("int", "coordinate", "nice")}[fam]
            for kind in kinds + ("something else",):
                I = Kinded(self.m, kind)
                I.opaque |= {("name", n) for n in (MAKER, "_serialize")}
                evs = list(I.run(fn))
                self.kind(c, fam, kind, fn, I, evs, kinds)

    def kind(self, c, fam, kind, fn, I, evs, kinds):
        cons = "%s, labels %s" % (c, kind)
        g = ("param", PathInterp.params(fn)[1])
        stored = {}
        for e in evs:
            if e.kind == "store_attr" and e.a[0] == SELF:
                stored[e.a[1]] = (e.a[2], e)
        if kind not in kinds:
            raised = any(e.kind == "raise" and name(e.a[0]) == "ValueError" for e in evs) and "topo" not in stored
            self.chk.ob("constructor", cons, raised, self.m.where(fn), "an unknown labelling is not refused with ValueError")
            return
        for a in ("nodes", "relabel", "delabel", "topo"):
            if a not in stored:
                self.chk.ob("constructor", cons + ": " + a, False, self.m.where(fn), "never set")
                return
        nodes, relabel, delabel = (stored[a][0] for a in ("nodes", "relabel", "delabel"))
        x = {"coordinate": fam, "nice": "nice"}.get(kind)
        topo = [e for e in evs if e.kind == "call" and name(e.a[3]) and name(e.a[3]).startswith("topo_cache") and len(e.a[1]) >= 3]
        short = [e for e in evs if e.kind == "call" and name(e.a[3]) and name(e.a[3]).startswith("short_clique") and len(e.a[1]) >= 4]
        if not topo or not short:
            raise AnalysisBroken("%s: native construction not found" % c)
        edges = topo[-1].a[1][2]
        if x is None:
            ok = {"nodes": plain(nodes, g, "nodes"), "edges": plain(edges, g, "edges"), "relabel": relabel == ("name", TRIVIAL), "delabel": delabel == ("name", TRIVIAL)}
        else:
            co = None
            ok = {}
            for what, v, meth, src in (("nodes", nodes, "iter_%s_to_linear" % x, "nodes"), ("edges", edges, "iter_%s_to_linear_pairs" % x, "edges")):
                r = v
                while r[0] == "call" and r[1][0] == "name" and r[1][1] in ("list", "tuple") and len(r[2]) == 1:
                    r = r[2][0]
                ok[what] = r[0] == "call" and r[1][0] == "attr" and r[1][2] == meth and len(r[2]) == 1 and plain(r[2][0], g, src) and self.coords(r[1][1], fam, g)
            for what, v, meth in (("relabel", relabel, "iter_linear_to_%s" % x), ("delabel", delabel, "iter_%s_to_linear" % x)):
                ok[what] = v[0] == "call" and v[1] == ("name", MAKER) and len(v[2]) == 1 and v[2][0][0] == "attr" and v[2][0][2] == meth and self.coords(v[2][0][1], fam, g)
        for what, v in sorted(ok.items()):
            self.chk.ob("constructor", cons + ": " + what, v, self.m.where(fn), "%s is %s" % (what, show({"nodes": nodes, "edges": edges, "relabel": relabel, "delabel": delabel}[what])[:120]))
        for e, lbl in ((topo[-1], "topology"), (short[-1], "short cliques")):
            n, ed = e.a[1][1], e.a[1][2]
            same = n in (("attr", SELF, "nodes"), nodes) and ed == edges
            self.chk.ob("constructor", cons + ": " + lbl, same, self.m.where(e.node), "not made from these nodes and edges")
        spec = topo[-1].a[1][0]
        sc = [y for y in subterms(spec) if y[0] == "call" and name(y) == fam + "_spec"]
        self.chk.ob("constructor", cons + ": dimensions", bool(sc) and self.dims(sc[0], fam, g), self.m.where(topo[-1].node), "the native lattice is made from other dimensions than the graph's")

    def attr(self, t, g, key):
        while t[0] == "call" and t[1] in (("name", "__cast__"), ("name", "int")) and t[2]:
            t = t[2][-1]
        return t == ("sub", ("attr", g, "graph"), ("const", key)) or t[0] == "call" and t[1] == ("attr", ("attr", g, "graph"), "get") and t[2][0] == ("const", key)

    def coords(self, t, fam, g):
        if not (t[0] == "call" and name(t) == fam + "_coordinates"):
            return False
        keys = {"zephyr": ("rows", "tile"), "pegasus": ("rows",), "chimera": ("rows", "columns", "tile")}[fam]
        args = list(t[2]) + [None] * 3
        kw = dict(t[3])
        names = {"zephyr": ("m", "t"), "pegasus": ("m",), "chimera": ("m", "n", "t")}[fam]
        for i, (k, n) in enumerate(zip(keys, names)):
            v = args[i] if args[i] is not None else kw.get(n)
            if v is None:
                return False
            elif not self.attr(v, g, k):
                return False
        return True

    def dims(self, t, fam, g):
        a = t[2]
        if fam == "zephyr":
            return len(a) >= 2 and self.attr(a[0], g, "rows") and self.attr(a[1], g, "tile")
        if fam == "chimera":
            return len(a) >= 3 and self.attr(a[0], g, "rows") and self.attr(a[1], g, "columns") and self.attr(a[2], g, "tile")
        return len(a) >= 3 and self.attr(a[0], g, "rows") and uses(a[1], "vertical_offsets") and not uses(a[1], "horizontal_offsets") and uses(a[2], "horizontal_offsets") and not uses(a[2], "vertical_offsets")

    # ---------------------------------------------------------------- what a request asks for
    def requests(self):
        fn = self.m.functions.get("_num_nodes")
        if fn is None:
            raise AnalysisBroken("%s has no function _num_nodes" % REL)
        ps = [("param", p) for p in PathInterp.params(fn)]
        if len(ps) != 2:
            raise AnalysisBroken("_num_nodes takes %d arguments" % len(ps))
        nn, off = ps
        d = fn.args.defaults
        self.chk.ob("requests", "_num_nodes: numbers from 0", len(d) == 1 and isinstance(d[0], ast.Constant) and d[0].value == 0, self.m.where(fn), "")
        evs = Interp(self.m).run(fn)
        kinds = set()
        rets = [e for e in evs if e.kind == "return"]
        for e in rets:
            for t in alts(e.a[0]):
                ok = t[0] == "tuple" and len(t[1]) == 2
                if ok:
                    # joined variables: every alternative of the nodes with the number that goes with it
                    for ns in alts(t[1][1]):
                        k = self.asked(ns, nn, off)
                        kinds.add(k)
                        want = {"range": [nn, ("call", ("name", "len"), (ns,), ())], "names": [("call", ("name", "len"), (ns,), ()), ("call", ("name", "len"), (nn,), ())]}.get(k, [])
                        ok = ok and any(w in alts(t[1][0]) or any(w == y or y[0] == "call" and y[1] == ("name", "len") and ns in alts(y[2][0]) for y in alts(t[1][0])) for w in want)
                    for y in alts(t[1][0]):
                        ok = ok and (y == nn or y[0] == "call" and y[1] == ("name", "len") and (y[2][0] == nn or all(self.asked(z, nn, off) for z in alts(y[2][0]))))
                self.chk.ob("requests", "_num_nodes: answers", ok, self.m.where(e.node), "a request is read as %s" % show(t)[:100])
        self.chk.ob("requests", "_num_nodes: numbers and names", kinds == {"range", "names"}, self.m.where(fn), "a request is a number or names; read as %s" % sorted(str(k) for k in kinds))

    @staticmethod
    def asked(t, nn, off):
        while t[0] == "call" and t[1] in (("name", "tuple"), ("name", "list")) and len(t[2]) == 1:
            t = t[2][0]
        if t == nn:
            return "names"
        if t[0] == "call" and t[1] == ("name", "range") and len(t[2]) == 2 and t[2][0] == off and t[2][1] in (("op", "+", off, nn), ("op", "+", nn, off)):
            return "range"
        return None

    # ---------------------------------------------------------------- which node gets which chain
    def pairing(self):
        num = ("name", "_num_nodes")
        for q in [CACHE + ".find_clique_embedding"] + [c + ".find_clique_embedding" for c in sorted(self.inner)]:
            fn = self.m.functions[q]
            I, evs = self.interp(q)
            rel = [e for e in evs if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "relabel"]
            for e in rel:
                for t in alts(e.a[1][0]):
                    z = t
                    while z[0] == "call" and z[1][0] == "name" and z[1][1] in ("dict", "list") and len(z[2]) == 1:
                        z = z[2][0]
                    ok, why = False, "nodes and chains are not paired: %s" % show(t)[:100]
                    if z[0] == "comp" and z[1] == "dict":
                        k, v = z[2], z[3]
                        ok = k[0] == "elem" and name_item(k[1], 1)
                        call = k[1][1] if ok else None
                        chains = v
                        z = None
                    if z is not None and z[0] == "call" and z[1] == ("name", "zip") and len(z[2]) == 2:
                        ok = name_item(z[2][0], 1)
                        call = z[2][0][1] if ok else None
                        chains = z[2][1]
                    self.chk.ob("pairing", q + ": nodes", ok, self.m.where(e.node), why)
                    if not ok:
                        continue
                    first = [p for p in PathInterp.params(fn) if p != "self"][0]
                    self.chk.ob("pairing", q + ": from the argument", call[2] and call[2][0] == ("param", first) and len(call[2]) == 1 and not call[3], self.m.where(e.node), "the nodes are not those asked for")
                    # the chains are those of a clique of at least that size
                    n = ("item", call, 0)
                    for ch in alts(chains):
                        ok = self.sized(ch, n, evs, e)
                        self.chk.ob("pairing", q + ": size", ok, self.m.where(e.node), "the clique is not the one found for this number of nodes: %s" % show(ch)[:100])
        self.biclique()

    def sized(self, ch, n, evs, at):
        while ch[0] == "sub" and ch[2][0] == "slice":
            ch = ch[1]
        if ch[0] == "sub" and ch[1][0] == "sub" and ch[1][2] == ("const", "raw"):
            k = ch[2]
            size = ("sub", ch[1][1], ("const", "size"))
            if k == ("call", ("attr", size, "get"), (n,), ()) or k[0] == "call" and k[1] == ("attr", size, "get") and k[2] == (n, ("const", None)) or k == ("sub", size, n):
                # an unknown size must not get here
                return k[0] == "sub" or any(self.isnone(c, p, k) for c, p in at.conds)
            return False
        if ch == ("attr", SELF, "emb_1"):
            size = ("call", ("attr", ch, "size"), (), ())
            return any(e.kind == "store_name" and e.a[1] == ch and any(self.atmost(c, p, n, size) for c, p in e.conds) for e in evs) or any(
                self.atmost(c, p, n, size) for c, p in at.conds)
        if ch[0] == "new":
            # filled by a native search for exactly this size
            return any(e.kind == "call" and name(e.a[3]) == "find_clique" and n in e.a[1] and ch in e.a[1] for e in evs)
        return False

    @staticmethod
    def isnone(c, p, k):
        while c[0] == "not":
            c, p = c[1], not p
        if c[0] == "cmp" and c[1] == "is" and c[2] == k and c[3] == ("const", None):
            return not p
        return c[0] == "cmp" and c[1] == "in" and p

    @staticmethod
    def atmost(c, p, n, size):
        while c[0] == "not":
            c, p = c[1], not p
        sizes = (size, ("call", ("name", "len"), (size[1][1],), ()))
        if c[0] != "cmp":
            return False
        if p and c[1] in ("<=", "<", "==") and c[2] == n and c[3] in sizes:
            return True
        return not p and c[1] == "<" and c[2] in sizes and c[3] == n

    def biclique(self):
        q = CACHE + ".find_biclique_embedding"
        fn = self.m.functions[q]
        ps = [p for p in PathInterp.params(fn) if p != "self"][:2]
        I = EveryPath(self.m, rounds=1)
        I.opaque |= {("attr", SELF, n) for n in ENSURE} | {("name", "_num_nodes")}
        n = 0
        for evs, cut in I.paths(fn):
            for e in evs:
                if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "relabel" and e.a[1]:
                    n += 1
                    self.bipath(q, ps, e, evs)
        if n < 4:
            self.chk.short.append("%s: %d answers found" % (q, n))
        self.chk.count("paths to a biclique answer", n)

    def bipath(self, q, ps, e, evs):
        t = e.a[1][0]
        while t[0] == "call" and t[1][0] == "name" and t[1][1] in ("dict", "list") and len(t[2]) == 1:
            t = t[2][0]
        calls = {}
        for x in evs:
            if x.kind == "call" and x.a[0] == ("name", "_num_nodes") and x.a[1]:
                for p in ps:
                    if x.a[1][0] == ("param", p):
                        calls[p] = x.a[3]
        if set(calls) != set(ps):
            self.chk.ob("pairing", q + ": nodes", False, self.m.where(e.node), "the nodes of one side are never looked at")
            return
        n0 = ("item", calls[ps[0]], 0)
        c1 = calls[ps[1]]
        off = c1[2][1] if len(c1[2]) > 1 else dict(c1[3]).get("offset")
        self.chk.ob("pairing", q + ": numbering of the second side", off == n0 and len(calls[ps[0]][2]) == 1 and not calls[ps[0]][3], self.m.where(e.node), "the second side is not numbered from where the first ends")
        ind = [x for x in subterms(t) if x[0] == "call" and name(x) == "independent_set"]
        side = {("item", calls[p], 1): p for p in ps}
        num = {p: ("item", calls[p], 0) for p in ps}
        if ind:
            names = [side[x] for x in subterms(t) if x in side]
            used = set(names)
            ok = len(used) == 1 and ind[0][2] and ind[0][2][0] == num[names[0]]
            other = [p for p in ps if p not in used]
            zero = ok and any(self.iszero(c, p, num[other[0]]) for c, p in e.conds)
            self.chk.ob("pairing", q + ": one side empty", bool(ok and zero), self.m.where(e.node), "not answered with one chain for every node of the other side")
            if t[0] == "comp" and t[1] == "dict":
                chain = t[3]
                self.chk.ob("pairing", q + ": one side empty, chains", chain[0] in ("tuple", "list", "call"), self.m.where(e.node), "nodes are mapped to nodes instead of chains")
            return
        ok = t[0] == "call" and t[1] == ("name", "zip") and len(t[2]) == 2
        if not ok:
            self.chk.ob("pairing", q + ": nodes", False, self.m.where(e.node), "nodes and chains are not paired: %s" % show(t)[:80])
            return
        A, B = t[2]
        ns = parts(A)
        cs = parts(B)
        if not (len(ns) == len(cs) == 2 and ns[0] in side and ns[1] in side and ns[0] != ns[1]):
            self.chk.ob("pairing", q + ": nodes", False, self.m.where(e.node), "the two sides are not the nodes asked for: %s" % show(A)[:80])
            return
        self.chk.ob("pairing", q + ": nodes", True, self.m.where(e.node))
        first, second = side[ns[0]], side[ns[1]]
        trunc = cs[0][0] == "sub" and cs[0][2][0] == "slice" and cs[0][2][1] == ("const", None) and cs[0][2][2] == num[first]
        self.chk.ob("pairing", q + ": as many chains as nodes", trunc, self.m.where(e.node), "the first side is not cut to the number of its nodes, so the second side's nodes get its chains")
        halves = [strip(c, num) for c in cs]
        # which part of the stored embedding is it
        hs = []
        for h in halves:
            if h[0] == "sub" and h[2][0] == "slice":
                lo, hi = h[2][1], h[2][2]
                if lo in (("const", None), ("const", 0)) and hi[0] == "item" and hi[2] == 0:
                    hs.append((0, h[1], hi[1]))
                    continue
                if hi == ("const", None) and lo[0] == "item" and lo[2] == 0:
                    hs.append((1, h[1], lo[1]))
                    continue
                if lo[0] == "item" and lo[2] == 0 and hi == ("op", "+", lo, ("item", lo[1], 1)):
                    hs.append((1, h[1], lo[1]))
                    continue
            hs.append(None)
        ok = None not in hs and {h[0] for h in hs} == {0, 1} and hs[0][1] == hs[1][1] and hs[0][2] == hs[1][2]
        self.chk.ob("pairing", q + ": the two sides of the embedding", ok, self.m.where(e.node), "the chains are not the two sides of the stored embedding")
        if not ok:
            return
        key = hs[0][2]
        # the larger request must get the larger stored side
        big = None
        for c, p in e.conds:
            r = order(c, p)
            if r is None:
                continue
            lo, hi, strict = r
            if lo == num[ps[0]] and hi == num[ps[1]]:
                big = ps[1]
            elif lo == num[ps[1]] and hi == num[ps[0]]:
                big = ps[0]
        bigside = None
        for c, p in e.conds:
            r = order(c, p)
            if r is not None and r[0] == ("item", key, 0) and r[1] == ("item", key, 1):
                bigside = 1
            elif r is not None and r[0] == ("item", key, 1) and r[1] == ("item", key, 0):
                bigside = 0
        got = dict(zip((first, second), [h[0] for h in hs]))
        self.chk.ob("pairing", q + ": larger side for the larger request", big is not None and bigside is not None and got[big] == bigside, self.m.where(e.node),
                    "the larger side of the request may get the smaller side of the stored biclique")

    @staticmethod
    def iszero(c, p, n):
        while c[0] == "not":
            c, p = c[1], not p
        return p and c == ("cmp", "==", n, ("const", 0)) or not p and c == n or p and c in (("cmp", "<", n, ("const", 1)), ("cmp", "<=", n, ("const", 0)))

    # ---------------------------------------------------------------- the function level
    def dispatch(self):
        fn = self.m.functions.get("find_clique_embedding")
        for q in ("find_clique_embedding", CACHE + ".__init__"):
            fn = self.m.functions.get(q)
            if fn is None:
                raise AnalysisBroken("%s has no function %s" % (REL, q))
            maps = [n for n in ast.walk(fn) if isinstance(n, ast.Dict)] + [n.value for n in self.m.tree.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict)]
            got = {}
            for d in maps:
                for k, v in zip(d.keys, d.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Name) and v.id in self.inner:
                        got[k.value] = v.id
            for n in ast.walk(fn):
                if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.comparators[0], ast.Constant):
                    for x in n.body:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and y.id in self.inner:
                                got.setdefault(n.test.comparators[0].value, y.id)
            for f in FAMILIES:
                self.chk.ob("family", "%s: %s" % (q, f), got.get(f, "_%s_busgraph" % f) == "_%s_busgraph" % f, self.m.where(fn), "a %s graph is handled as %s" % (f, got.get(f)))
        I = Interp(self.m)
        evs = I.run(self.m.functions["find_clique_embedding"])
        for r in alts(I.ret):
            ok = r[0] == "call" and r[1][0] == "attr" and r[1][2] == "find_clique_embedding" and r[2] == (("param", "nodes"),) and r[1][1][0] == "call" and r[1][1][2][:1] == (("param", "g"),)
            self.chk.ob("family", "find_clique_embedding: asks for the nodes given", ok, self.m.where(self.m.functions["find_clique_embedding"]), "%s" % show(r)[:100])

    def run(self):
        self.results()
        self.inputs()
        self.merged()
        self.halves()
        self.relabelers()
        self.constructors()
        self.requests()
        self.pairing()
        self.dispatch()


class Kinded(Interp):
    """the labelling of the graph is known"""

    def __init__(self, m, kind):
        Interp.__init__(self, m)
        self.kind = kind

    def branch(self, test, body, orelse, st, fr):
        c = self.ev(test, st, fr)
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        t = None
        if c[0] == "cmp" and c[1] == "==" and c[3][0] == "const" and uses(c[2], "labels"):
            t = (c[3][1] == self.kind) != neg
        elif c[0] == "cmp" and c[1] == "in" and uses(c[2], "labels") and c[3][0] in ("tuple", "list", "set"):
            t = (("const", self.kind) in c[3][1]) != neg
        if t is None:
            return Interp.branch(self, test, body, orelse, st, fr)
        return self.block(body if t else orelse, st, fr)


def uses(t, key):
    return any(x == ("const", key) for x in subterms(t))


def plain(t, g, what):
    while t[0] == "call" and t[1][0] == "name" and t[1][1] in ("list", "tuple") and len(t[2]) == 1:
        t = t[2][0]
    return t == ("attr", g, what) or t == ("call", ("attr", g, what), (), ()) or what == "nodes" and t == g


def name_item(t, i):
    return t[0] == "item" and t[2] == i and t[1][0] == "call" and t[1][1] == ("name", "_num_nodes")


def parts(t):
    if t[0] == "op" and t[1] == "+":
        return parts(t[2]) + parts(t[3])
    if t[0] == "call" and t[1][0] == "name" and t[1][1] in ("list", "tuple") and len(t[2]) == 1:
        return parts(t[2][0])
    if t[0] == "call" and name(t) == "chain":
        return [y for x in t[2] for y in parts(x)]
    return [t]


def strip(c, num):
    if c[0] == "sub" and c[2][0] == "slice" and c[2][1] == ("const", None) and c[2][2] in num.values():
        c = c[1]
    while c[0] == "call" and c[1][0] == "name" and c[1][1] in ("list", "tuple") and len(c[2]) == 1:
        c = c[2][0]
    return c


def order(c, p):
    """(smaller, larger, strict) of a decided comparison"""
    while c[0] == "not":
        c, p = c[1], not p
    if c[0] != "cmp" or c[1] not in ("<", "<="):
        return None
    if p:
        return c[2], c[3], c[1] == "<"
    return c[3], c[2], c[1] == "<="


def make():
    chk = Check("C15", "label-kind dataflow over provenance terms, path enumeration for the pairing of nodes and chains",
                "Every function of busclique that returns or takes chains: which labels they are in on every path; the constructors of the three "
                "graph classes specialised for every labelling; the pairing of nodes with chains on every path.",
                ["dwave.graphs' coordinate converters are each other's inverses", "the native search is in linear labels"])
    chk.rule("result-labels", "every chain returned is in the graph's labels, translated exactly once")
    chk.rule("input-labels", "every chain taken is translated into internal labels exactly once before it is stored")
    chk.rule("index", "a stored embedding is filed under its own size and chain length")
    chk.rule("relabeler", "relabelling keeps the nodes and translates every chain once")
    chk.rule("constructor", "nodes, edges and both translations belong to the graph's own labelling and dimensions")
    chk.rule("requests", "a request is the nodes named, or as many numbers from the offset on, and how many they are")
    chk.rule("pairing", "the nodes asked for get the chains of an embedding of that size, side by side")
    chk.rule("family", "a graph is handled as what it is")
    C15(chk).run()
    chk.need("result-labels", 9)
    chk.need("input-labels", 5)
    chk.need("constructor", 30)
    chk.need("pairing", 10)
    chk.need("relabeler", 2)
    return chk


if __name__ == "__main__":
    main(make)
