"""C10: labels and indices."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS, LOOPS
from cname import cname
from flow import AI, path, strip_casts
from kinds import Kinds, N
import pyfront
from pyai import Interp, alts, subterms, show, method, elem

SRC, TGT = "source index", "target index"


def uncast(t):
    while t[0] == "call" and (t[1] in (("name", "int"), ("name", "__cast__"))) and t[2]:
        t = t[2][-1]
    return t


def dict_kind(t):
    """SRC/TGT for the two label dictionaries"""
    t = uncast(t)
    if t[0] == "alt":
        ks = {dict_kind(x) for x in alts(t)}
        return ks.pop() if len(ks) == 1 else None
    if t[0] == "attr":
        return {"SL": SRC, "TL": TGT}.get(t[2])
    if t[0] == "call" and t[1] == ("name", "_read_graph") and t[2]:
        g = t[2][0]
        if g[0] == "attr":
            return {"Sg": SRC, "Tg": TGT}.get(g[2])
    return None


class Py(object):
    def __init__(self, chk, m, q, opaque):
        self.chk, self.m, self.q = chk, m, q
        self.I = Interp(m)
        for o in opaque:
            self.I.opaque.add(("name", o))
        self.I.run(m.functions[q])
        self.ev = self.I.events

    def kind(self, t):
        """kind of an index term"""
        t = uncast(t)
        if t[0] == "alt":
            ks = {self.kind(x) for x in alts(t)}
            return ks.pop() if len(ks) == 1 else None
        if t[0] == "sub":
            return dict_kind(t[1])
        for e in self.ev:
            # an element of a vector the C++ side filled, or that was filled here
            pass
        for v in self.vectors():
            if t == elem(v):
                return self.vec_kind(v)
        if t[0] in ("elem", "item", "call", "each") or True:
            r = self.range_of(t)
            if r is not None:
                return SRC
        return None

    def vectors(self):
        out = []
        for e in self.ev:
            for t in e.a:
                for s in subterms(t):
                    if s[0] == "new" and s[1].startswith("vector") and s not in out:
                        out.append(s)
                    if s[0] == "sub" and s[1][0] == "new" and s[1][1].startswith("vector[vector") and s not in out:
                        out.append(s)
        return out

    def range_of(self, t):
        """t runs over all variables: range(<number of chains or variables> - pincount)"""
        for e in self.ev:
            if e.kind == "call" and e.a[0] == ("name", "range"):
                if t == elem(e.a[3]):
                    s = show(e.a[3])
                    return s
        return None

    def vec_kind(self, v):
        """kind of the elements of a vector of indices"""
        if v[0] == "sub":
            # chains[v], filled by findEmbedding
            return TGT if any(e.kind == "call" and e.a[0] == ("name", "findEmbedding") and v[1] in e.a[1] for e in self.ev) else None
        ks = set()
        for e in self.ev:
            if e.kind != "call":
                continue
            f = e.a[0]
            if f[0] == "attr" and f[1] == v and f[2] == "push_back":
                ks.add(self.kind(e.a[1][0]))
            if f[0] == "attr" and f[2] == "get_chain" and len(e.a[1]) == 2 and e.a[1][1] == v:
                ks.add(TGT)
            if f == ("name", "findEmbedding") and v in e.a[1]:
                ks.add("chains")
        return ks.pop() if len(ks) == 1 else (None if ks else "empty")

    # ------------------------------------------------------------------
    def check(self):
        chk, m, q = self.chk, self.m, self.q
        seen = set()
        for e in self.ev:
            where = m.where(e.node)
            # every look-up of a label is guarded by membership in the same dictionary (a miss would invent an index)
            for t in e.a:
                for s in subterms(t):
                    if s[0] != "sub" or dict_kind(s[1]) is None:
                        continue
                    key = s[2]
                    sig = (s, tuple(c for c in e.conds if c[0][0] == "cmp"))
                    if sig in seen:
                        continue
                    seen.add(sig)
                    pos = any(c[0] == "cmp" and c[1] == "in" and c[2] == key and dict_kind(c[3]) == dict_kind(s[1]) and p for c, p in e.conds)
                    neg = any(c[0] == "cmp" and c[1] == "in" and c[2] == key and dict_kind(c[3]) == dict_kind(s[1]) and not p for c, p in e.conds)
                    pin = key[0] == "tuple" and key[1] and key[1][0][0] == "const"
                    if e.kind in ("raise",):
                        continue
                    chk.ob("known-label", "%s: %s" % (q, show(s)[-60:]), pos or (pin and neg), where,
                           "the label is not known to be in the %s dictionary, so a misspelt one would get an index of its own" %
                           ("source" if dict_kind(s[1]) == SRC else "target"))
                    if pos:
                        g = [c for c, p in e.conds if c[0] == "cmp" and c[1] == "in" and c[2] == key and p][0]
                        bad = [x for x in self.ev if x.kind == "raise" and (g, False) in x.conds]
                        chk.ob("known-label", "%s: unknown %s is refused" % (q, show(key)[-50:]), bool(bad), where, "an unknown label is passed over in silence")
            if e.kind != "call":
                continue
            f, args = e.a[0], e.a[1]
            if f[0] == "attr" and f[2] == "push_back" and f[1][0] == "attr" and f[1][2] in ("Sg", "Tg"):
                want = SRC if f[1][2] == "Sg" else TGT
                ks = [self.kind(a) for a in args]
                chk.ob("kinds", "%s: edge into %s" % (q, f[1][2]), len(ks) == 2 and all(k == want for k in ks), where, "ends are a %s and a %s" % tuple((ks + [None, None])[:2]))
            if f[0] == "attr" and f[2] == "insert" and len(args) == 1 and args[0][0] == "call" and "pair" in show(args[0][1]):
                self.chain(e, where)
            if f[0] == "attr" and f[2] == "label" and dict_kind(f[1]) is not None and args:
                want = dict_kind(f[1])
                k = self.kind(args[0])
                chk.ob("kinds", "%s: %s" % (q, "source label" if want == SRC else "target label"), k == want, where, "it is looked up with a %s" % k)
            if f[0] == "attr" and f[2] == "quickPass" and args and args[0][0] == "new":
                k = self.vec_kind(args[0])
                chk.ob("kinds", q + ": variable order", k == SRC, where, "the order holds %s" % k)
                it = {(x.a[1][0], x.conds) for x in self.ev if x.kind == "call" and x.a[0] == ("attr", args[0], "push_back")}
                for t, conds in it:
                    extra = [show(c) for c, p in conds if not (c[0] == "for" or c[0] == "cmp" and c[1] in ("in", "is"))]
                    chk.ob("complete", q + ": whole variable order", not extra, where, "an entry is skipped unless %s" % extra)
            if f[0] == "attr" and f[2] == "get_chain" and len(args) == 2:
                chk.ob("kinds", q + ": chain read by", self.kind(args[0]) == SRC, where, "read by %s" % self.kind(args[0]))
            if f == ("name", "_get_chainmap") and len(args) >= 4:
                ks = (dict_kind(args[2]), dict_kind(args[3]))
                chk.ob("kinds", q + ": chain option dictionaries", ks == (SRC, TGT), where, "passes the %s and %s dictionaries" % ks)
            if f == ("name", "findEmbedding") and len(args) >= 2:
                gs = tuple(a[2] if a[0] == "attr" else "?" for a in args[:2])
                chk.ob("kinds", q + ": search arguments", gs == ("Sg", "Tg"), where, "passes %s, %s" % gs)

    def chain(self, e, where):
        chk, q = self.chk, self.q
        pr = e.a[1][0]
        if len(pr[2]) != 2:
            return
        k, vec = pr[2]
        ks = (self.kind(k), self.vec_kind(vec))
        chk.ob("kinds", q + ": chain entry", ks[0] == SRC and ks[1] in (TGT, "empty"), where, "maps a %s to a chain of %s" % ks)
        key = uncast(k)
        key = key[2] if key[0] == "sub" else None
        fors = [c for c, p in e.conds if c[0] == "for"]
        clears = [x for x in self.ev if x.kind == "call" and x.a[0][0] == "attr" and x.a[0][1] == vec and x.a[0][2] == "clear" and x.fn is e.fn
                  and [c for c, p in x.conds if c[0] == "for"] == fors and set(x.conds) <= set(e.conds)]
        pushes = [x for x in self.ev if x.kind == "call" and x.a[0][0] == "attr" and x.a[0][1] == vec and x.a[0][2] == "push_back" and x.fn is e.fn
                  and [c for c, p in x.conds if c[0] == "for"][:len(fors)] == fors]
        fresh = vec[0] == "call"
        i = self.ev.index
        ok = fresh or clears and (not pushes or min(map(i, clears)) < min(map(i, pushes)))
        chk.ob("own-chain", q + ": starts empty", bool(ok), where, "the chain still holds the qubits of the previous entry")
        pin = key is not None and key[0] == "tuple"
        for x in pushes:
            t = uncast(x.a[1][0])
            if t[0] != "sub":
                continue
            own = t[2] == key if pin else any(t[2] == elem(s) for s in self.values_of(key))
            chk.ob("own-chain", q + ": qubits of its own entry", own, self.m.where(x.node), "%s is put into the chain of %s" % (show(t[2])[-50:], show(key)[-40:]))
            extra = [show(c)[-60:] for c, p in x.conds if not self.benign(c, p, key, t[2])]
            chk.ob("complete", q + ": every qubit", not extra, self.m.where(x.node), "a qubit is taken only if %s" % extra)
        extra = [show(c)[-60:] for c, p in e.conds if not self.benign(c, p, key, None)]
        chk.ob("complete", q + ": every entry", not extra, where, "an entry is taken only if %s" % extra)

    def values_of(self, key):
        """terms for the value stored under `key` of a mapping iterated over"""
        out = []
        if key is None:
            return out
        for e in self.ev:
            for c, p in e.conds:
                for s in subterms(c):
                    if s[0] == "sub" and s[2] == key and s not in out:
                        out.append(s)
        return out

    def benign(self, c, p, key, q):
        if c[0] in ("for", "except"):
            return True
        if c[0] == "cmp" and c[1] == "in":
            return True
        if any(x.kind == "raise" and (c, not p) in x.conds for x in self.ev):
            return True          # otherwise the whole input is refused
        if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None):
            return True
        if p and c[0] == "sub" and c[2] == key:
            return True          # empty entries are ignored
        if p and c[0] == "call" and c[1] == ("name", "len") and c[2][0][0] == "sub" and c[2][0][2] == key:
            return True
        if dict_kind(c) is not None:
            return True          # the graphs are not empty
        if c[0] == "alt" and all(x[0] == "const" for x in alts(c)):
            return True          # a flag set when the blob has a qubit
        if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "get":
            return True
        return False


def python(chk):
    m = pyfront.load("minorminer/_minorminer.pyx")
    for q in ("_read_graph", "_get_chainmap", "labeldict.__missing__", "labeldict.label", "_input_parser.__init__"):
        if q not in m.functions:
            raise AnalysisBroken("%s vanished" % q)
    n = 0
    for q in m.functions:
        if q.split(".")[0] in ("find_embedding", "_input_parser", "miner"):
            p = Py(chk, m, q, ("_read_graph", "_input_parser"))
            p.check()
            n += 1
    chk.count("Python entry points interpreted", n)
    # the two dictionaries belong to their own graphs
    p = Py(chk, m, "_input_parser.__init__", ("_read_graph", "_get_chainmap"))
    params = [x for x in Interp.params(m.functions["_input_parser.__init__"])]
    graphs = {"SL": "Sg", "TL": "Tg"}
    for e in p.ev:
        if e.kind == "store_attr" and e.a[1] in (("const", "SL"), ("const", "TL"), "SL", "TL"):
            d = e.a[1][1] if isinstance(e.a[1], tuple) else e.a[1]
            t = e.a[2]
            ok = t[0] == "call" and t[1] == ("name", "_read_graph") and len(t[2]) == 2 and t[2][0][0] == "attr" and t[2][0][2] == graphs[d] and \
                t[2][1] == ("param", params[1 if d == "SL" else 2])
            chk.ob("kinds", "_input_parser: " + d, ok, m.where(e.node), "%s is built from %s" % (d, show(t)))
    pins(chk, m, p)
    labeldict(chk, m)
    read_graph(chk, m)


def pins(chk, m, p):
    """suspension pins: fresh labels in both graphs, counted, tied to their own variable and blob"""
    pinned = set()
    for e in p.ev:
        for t in e.a:
            for s in subterms(t):
                if s[0] == "sub" and dict_kind(s[1]) and s[2][0] == "tuple":
                    pinned.add((dict_kind(s[1]), s[2]))
    if not pinned:
        raise AnalysisBroken("no suspension pins found")
    keys = {k for d, k in pinned}
    for k in keys:
        var = [x for x in k[1] if x[0] != "const" and (x[0] != "call" or "index" in show(x))]
        its = [c[1] for e in p.ev for c, q in e.conds if c[0] == "for" and any(x.kind == "call" and mentions_key(x, k) for x in [e])]
        chk.ob("pins", "a pin per variable and blob", len(var) >= 2 and len({repr(v) for v in var}) >= 2 and any(v[0] in ("idx", "index") or "index" in show(v) for v in var), "",
               "two blobs can share the pin %s" % show(k)[-80:])
        chk.ob("pins", "in both graphs", {d for d, x in pinned if x == k} == {SRC, TGT}, "", "the pin is missing from one graph")
    inc = [e for e in p.ev if e.kind == "store_attr" and "pincount" in show(e.a[1]) and "+" in show(e.a[2])]
    new = [e for e in p.ev if e.kind == "call" and any(s[0] == "sub" and dict_kind(s[1]) == SRC and s[2] in keys for a in e.a[1] for s in subterms(a))]
    ok = bool(inc) and bool(new)
    for e in inc:
        own = [c for c in e.conds]
        first = new[0].conds if new else ()
        ok = ok and list(own) == list(first)[:len(own)] and len(own) == len(first)
        t = e.a[2]
        ok = ok and all(x[0] != "op" or x[1] != "+" or x[3] == ("const", 1) for x in subterms(t))
    chk.ob("pins", "counted exactly when added", ok, m.where(inc[0].node) if inc else "", "the number of pins differs from the number of auxiliary source nodes, so pins leak into results or real variables are cut")
    g = {"Sg": 0, "Tg": 0}
    for e in p.ev:
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "push_back" and e.a[0][1][0] == "attr" and e.a[0][1][2] in g:
            g[e.a[0][1][2]] += 1
            side = e.a[0][1][2]
            pin = [a for a in e.a[1] if uncast(a)[0] == "sub" and uncast(a)[2] in keys]
            oth = [a for a in e.a[1] if uncast(a)[0] == "sub" and uncast(a)[2] not in keys]
            good = len(pin) == 1 and len(oth) == 1
            if good and side == "Sg":
                good = uncast(oth[0])[2] in uncast(pin[0])[2][1]
            if good and side == "Tg":
                o = uncast(oth[0])[2]
                good = any(c[0] == "for" and o == elem(c[1]) for c, q in e.conds)
            chk.ob("pins", "edge in " + side, good, m.where(e.node), "the pin is joined to something else than its own variable or its own blob's qubits")
    for s, c in g.items():
        if not c:
            chk.ob("pins", "edge in " + s, False, "", "pins are not connected in " + s)


def mentions_key(e, k):
    return any(s == k for a in e.a for s in subterms(a))


def labeldict(chk, m):
    f = m.functions["labeldict.__missing__"]
    I = Interp(m)
    I.run(f)
    lab = Interp.params(f)[1]
    me = ("param", Interp.params(f)[0])
    stores = [e for e in I.events if e.kind == "store_sub"]
    apps = [e for e in I.events if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "append"]
    rets = [e for e in I.events if e.kind == "return"]
    ok = len(stores) == 1 and len(apps) == 1 and len(rets) == 1
    lst = apps[0].a[0][1] if apps else None
    ix = None
    if ok:
        ix = stores[0].a[2]
        ok = stores[0].a[1] == ("param", lab) and apps[0].a[1][0] == ("param", lab) and rets[0].a[0] == ix and not stores[0].conds and not apps[0].conds
        lens = [i for i, e in enumerate(I.events) if e.kind == "call" and e.a[0] == ("name", "len") and (e.a[1][0] == lst or show(e.a[1][0]) == show(lst))]
        ai = I.events.index(apps[0])
        if ix[0] == "call" and ix[1] == ("name", "len") and ix[2][0] == lst:
            ok = ok and lens and lens[0] < ai
        elif ix[0] == "op" and ix[1] == "-" and ix[3] == ("const", 1) and ix[2][0] == "call" and ix[2][2][0] == lst:
            ok = ok and lens and lens[0] > ai
        else:
            ok = False
    chk.ob("bijection", "labeldict.__missing__", bool(ok), m.where(f), "the index given to a new label is not its place in the list of labels")
    g = m.functions["labeldict.label"]
    J = Interp(m)
    J.run(g)
    r = [e.a[0] for e in J.events if e.kind == "return"]
    ok = len(r) == 1 and r[0][0] == "sub" and lst is not None and show(r[0][1]) == show(lst) and r[0][2] == ("param", Interp.params(g)[1])
    chk.ob("bijection", "labeldict.label", ok, m.where(g), "label(k) is not the k-th label")


def read_graph(chk, m):
    f = m.functions["_read_graph"]
    I = Interp(m)
    I.opaque.add(("name", "labeldict"))
    I.run(f)
    ps = Interp.params(f)
    g, E = ("param", ps[0]), ("param", ps[1])
    L = ("call", ("name", "labeldict"), (), ())
    rets = [e for e in I.events if e.kind == "return"]
    isL = lambda t: t[0] == "call" and t[1] == ("name", "labeldict")
    chk.ob("graph", "_read_graph returns the dictionary it filled", bool(rets) and all(isL(e.a[0]) for e in rets), m.where(f), "")
    has = lambda c: c[0] == "call" and c[1] == ("name", "hasattr")
    def benign(c, p):
        return c[0] == "for" or has(c) or c[0] == "alt" and all(x[0] == "const" for x in alts(c))
    edge = node = 0
    scans = []
    for i, e in enumerate(I.events):
        if e.kind == "expr" and e.a[0][0] == "sub" and isL(e.a[0][1]):
            scans.append((i, e, e.a[0][2]))
        if e.kind == "call" and e.a[0] == ("attr", g, "push_back"):
            a, b = (uncast(x) for x in e.a[1])
            extra = [show(c) for c, p in e.conds if not benign(c, p)]
            if a[0] == "sub" and isL(a[1]) and b[0] == "sub" and isL(b[1]) and a[2] != b[2]:
                ends = set()
                for x, j in ((a[2], 0), (b[2], 1)):
                    ends.add(tuple(sorted({edge_item(t, E) for t in alts(x)}, key=str)))
                ok = ends == {(0,), (1,)}
                edge += 1
                chk.ob("graph", "_read_graph: both ends of every edge", ok, m.where(e.node), "pushes %s, %s" % (show(a), show(b)))
                chk.ob("graph", "_read_graph: every edge", not extra, m.where(e.node), "an edge is taken only if %s" % extra)
            elif a == b and a[0] == "sub" and isL(a[1]) and is_node(a[2], E):
                node += 1
                chk.ob("graph", "_read_graph: every node", not extra, m.where(e.node), "a node is taken only if %s" % extra)
            elif a == b and scans:
                r = [x for x in I.events if x.kind == "call" and x.a[0] == ("name", "range") and elem(x.a[3]) == a]
                ok = False
                if r and len(r[0].a[1]) == 2:
                    lo, hi = r[0].a[1]
                    lens = [k for k, x in enumerate(I.events) if x.kind == "call" and x.a[0] == ("name", "len") and isL(x.a[1][0])]
                    edges = [k for k, x in enumerate(I.events) if x.kind == "call" and x.a[0] == ("attr", g, "push_back")]
                    si = scans[0][0]
                    islen = lambda t: t[0] == "call" and t[1] == ("name", "len") and isL(t[2][0])
                    before = [k for k in lens if k < si]
                    after = [k for k in lens if si < k < i]
                    ok = islen(hi) and bool(after) and (lo == ("const", 0) or islen(lo) and bool(before))
                node += 1
                chk.ob("graph", "_read_graph: every node without an edge", ok, m.where(e.node), "isolated nodes %s are added" % show(a))
                sx = [show(c) for c, p in scans[0][1].conds if not benign(c, p)]
                chk.ob("graph", "_read_graph: every node", not sx and is_node(scans[0][2], E) and not extra, m.where(scans[0][1].node), "only some nodes are given an index")
            else:
                chk.ob("graph", "_read_graph: " + show(e.a[3])[:60], False, m.where(e.node), "an edge of other things than indices of this graph's labels")
    if not edge:
        chk.ob("graph", "_read_graph: both ends of every edge", False, m.where(f), "no edge between two labels is pushed")
    chk.ob("graph", "_read_graph: nodes without edges", bool(node), m.where(f), "isolated nodes are never added to the graph")


def edge_item(t, E):
    """which end of an edge of E the term is"""
    for j in (0, 1):
        for it in (E, ("call", ("attr", E, "edges"), (), ()), ("attr", E, "edges")):
            if t == ("sub", elem(it), ("const", j)) or t == ("item", elem(it), j):
                return j
    return show(t)


def is_node(t, E):
    for g in alts(E):
        pass
    s = show(t)
    e = show(E)
    ok = ("each of %s.nodes()" % e, "each of %s.nodes" % e, "each of %s" % e, "each of (%s or unbound()).nodes()" % e, "each of (%s or unbound()).nodes" % e,
          "each of (%s or unbound())" % e)
    return s in ok


# ------------------------------------------------------------------ native

XV, XQ, IV, IQ = "external source index", "external target index", "internal variable", "internal qubit"


def anchor_chainmap(K, node, k, e):
    K.unify(node.idx(), N(k))
    K.unify(node.el().el(), N(e))


def native(chk):
    P = program("_minorminer")
    lib = [f for f in P.lib() if f.defined and f.root is not None]

    def graph_ab(K, n, b, av):
        return b.el() if b is not None else None

    def graph_push(K, n, b, av):
        for a in av:
            K.unify(b.el(), a)

    def neighbours(K, n, b, av):
        r = N()
        av = [a for a in av]
        # sinks/sources flags, relabelling
        if av and av[0] is not None and not scalar(n.kids[1]):
            K.unify(av[0].idx(), b.el())
        rel = None
        for a, x in zip(av[1:], n.kids[2:]):
            if a is not None and not scalar(x):
                rel = a
                break
        if rel is not None:
            K.unify(rel.idx(), b.el())
            K.unify(r.idx(), rel.el())
            K.unify(r.el().el(), rel.el())
        else:
            K.unify(r.idx(), b.el())
            K.unify(r.el().el(), b.el())
        return r

    def pf_get(K, n, b, av):
        K.unify(N(IV), av[0])
        r = N()
        K.unify(r.el(), N(IQ))
        return r

    def pf_init(K, n, b, av):
        anchor_chainmap(K, av[0] if av[0] is not None else N(), IV, IQ)

    def pf_quick(K, n, b, av):
        if av and av[0] is not None and not scalar(n.kids[1]):
            K.unify(av[0].el(), N(IV))

    summaries = {
        "input_graph::a": graph_ab, "input_graph::b": graph_ab, "input_graph::push_back": graph_push,
        "input_graph::get_neighbors_sinks": neighbours, "input_graph::get_neighbors_sources": neighbours,
        "pathfinder_public_interface::get_chain": pf_get, "pathfinder_public_interface::set_initial_chains": pf_init,
        "pathfinder_public_interface::quickPass": pf_quick,
    }

    def skip(f):
        return "::__init_" in f.p or f.p.endswith("input_graph::num_nodes") or f.p.endswith("input_graph::num_edges") or f.n.startswith("_pf_parse")

    K = Kinds(P, per_object=("optional_parameters", "input_graph"), summaries=summaries, skip=skip, fresh_alias=("parent", "rank"))
    # anchors: the public entry points are external, the pathfinder's interface and its neighbourhood lists internal
    anchors = 0
    for f in lib:
        ps = {p["n"]: K.decl(p["d"]) for p in f.params if p.get("n")}
        ts = {p["n"]: f.ptype(i) for i, p in enumerate(f.params) if p.get("n")}
        own = f.p.startswith("find_embedding::pathfinder_wrapper") or f.p.startswith("find_embedding::parameter_processor") or f.p == "find_embedding::findEmbedding"
        if own and any("optional_parameters" in t for t in ts.values()) and (f.kind in ("ctor", "constructor") or f.p == "find_embedding::findEmbedding"):
            graphs = [p["n"] for p in f.params if "input_graph" in ts[p["n"]]]
            for nme, kd in zip(graphs, (XV, XQ)):
                K.unify(ps[nme].el(), N(kd))
                anchors += 1
            for nme, t in ts.items():
                if "optional_parameters" in t:
                    for c in ("fixed_chains", "initial_chains", "restrict_chains"):
                        anchor_chainmap(K, ps[nme].field(c), XV, XQ)
        if f.p == "find_embedding::findEmbedding":
            for nme, t in ts.items():
                if "vector<std::vector" in t:
                    K.unify(ps[nme].idx(), N(XV))
                    K.unify(ps[nme].el().el(), N(XQ))
        if f.p == "find_embedding::pathfinder_wrapper::get_chain":
            v = [p["d"] for p in f.params]
            K.unify(K.decl(v[0]), N(XV))
            K.unify(K.decl(v[1]).el(), N(XQ))
            anchors += 1
        if f.p == "find_embedding::pathfinder_wrapper::set_initial_chains":
            anchor_chainmap(K, K.decl(f.params[0]["d"]), XV, XQ)
            anchors += 1
        if f.p == "find_embedding::pathfinder_wrapper::quickPass" and "vector" in f.ptype(0):
            K.unify(K.decl(f.params[0]["d"]).el(), N(XV))
            anchors += 1
    if anchors < 5:
        raise AnalysisBroken("the native entry points vanished")
    pp = "find_embedding::parameter_processor::"
    for q, k in ((pp + "var_nbrs", IV), (pp + "qubit_nbrs", IQ)):
        K.unify(K.fieldnode(q).idx(), N(k))
        K.unify(K.fieldnode(q).el().el(), N(k))
    for c in ("fixed_chains", "initial_chains", "restrict_chains"):
        anchor_chainmap(K, K.fieldnode(pp + "params").field(c), IV, IQ)
    comp = "graph::components::"
    K.unify(K.fieldnode(comp + "component").el().el(), N(XQ))
    n = 0
    for f in lib:
        if f.p.startswith(pp) or f.p.startswith("find_embedding::pathfinder_wrapper::") or f.p == "find_embedding::findEmbedding" or f.p.startswith(comp):
            if skip(f):
                continue
            before = len(K.conflicts)
            c0 = K.constraints
            K.function(f)
            n += 1
    byfn = {}
    for f, s, a, b in K.conflicts:
        byfn.setdefault(f.id if f else None, []).append((f, s, a, b))
    for f in lib:
        if f.id in K.done:
            bad = byfn.pop(f.id, [])
            s = bad[0] if bad else None
            chk.ob("spaces", cname(f), not bad, s[1].at() if s and s[1] is not None else f.at(),
                   "a %s is used where a %s belongs: %s" % (s[2], s[3], s[1].text()[:80] if s[1] is not None else "") if s else "")
    for bad in byfn.values():
        for f, s, a, b in bad:
            chk.ob("spaces", "interface", False, s.at() if s is not None else "", "a %s meets a %s" % (a, b))
    chk.count("native functions in the index-space inference", n)
    chk.count("index-space constraints", K.constraints)
    # the inference reached the boundary in both directions
    want = {"screw_vars": (XV, IV), "unscrew_vars": (IV, XV)}
    for fld, (i, e) in want.items():
        nd = K.fieldnode(pp + fld)
        chk.ob("spaces", "%s translates %s to %s" % (fld, i, e), (nd.idx().k(), nd.el().k()) == (i, e), "", "it maps %s to %s" % (nd.idx().k(), nd.el().k()))
    nd = K.fieldnode(comp + "label")
    chk.ob("spaces", "components::label translates", (nd.idx().k(), nd.el().k()) == (XQ, IQ), "", "it maps %s to %s" % (nd.idx().k(), nd.el().k()))
    graph_spaces(chk, P, lib)
    whole(chk, P, lib)


def graph_spaces(chk, P, lib):
    """neighbour lists: endpoints are filtered with their own number and entered under their relabelled number"""
    fs = [f for f in lib if f.n == "__get_neighbors" and "input_graph" in f.p]
    if not fs:
        raise AnalysisBroken("input_graph::__get_neighbors vanished")
    for f in fs:
        EXT, INT = "node", "relabelled node"

        def ab(K, n, b, av):
            return N(EXT)

        def un(K, n, b, av):
            nm = strip_casts(n.kids[1])
            nm = nm.n if nm is not None else ""
            K.unify(N(EXT), av[0])
            return N(INT) if f.params and nm == f.params[2].get("n") else N("flag")
        K = Kinds(P, summaries={"input_graph::a": ab, "input_graph::b": ab, "::operator()": un, "input_graph::_to_vectorhoods": lambda K, n, b, av: None})
        for v in f.nodes():
            if v.k == "Var" and "vector<std::set" in v.type:
                K.unify(K.decl(v.d).idx(), N(INT))
                K.unify(K.decl(v.d).el().el(), N(INT))
        K.function(f)
        bad = K.conflicts
        chk.ob("spaces", cname(f) + ": relabelling", not bad, bad[0][1].at() if bad else f.at(),
               "a %s is used where a %s belongs" % (bad[0][2], bad[0][3]) if bad else "")
        # both directions of every edge
        ins = [n for n in f.nodes() if n.k == "CXXMemberCallExpr" and n.n in ("insert", "emplace")]
        ends = set()
        for n in ins:
            tgt = [x.d for x in n.kids[0].walk() if x.k == "DeclRefExpr" and x.dk == "Var"]
            val = [x.d for x in n.kids[1].walk() if x.k == "DeclRefExpr" and x.dk == "Var"]
            if len(set(tgt)) >= 2 and len(val) == 1:
                ends.add((tgt[-1], val[0]))
        sym = bool(ends) and all((b, a) in ends for a, b in ends)
        chk.ob("spaces", cname(f) + ": both directions", sym, f.at(), "an edge is entered in one direction only")


def scalar(x):
    t = strip_casts(x).type if x is not None else ""
    return not ("vector" in t or "map" in t)


def whole(chk, P, lib):
    """translations are total: no element is passed over except by refusing the whole input or (input_vars) for fixed variables"""
    for f in lib:
        nm = f.n
        if not (nm in ("input_chains", "input_vars", "into_component", "from_component", "_inverse_permutation") and (
                "parameter_processor" in f.p or "components" in f.p)):
            continue
        loops = [n for n in f.nodes() if n.k in LOOPS]
        chk.ob("total", cname(f) + ": loops over its input", bool(loops), f.at(), "no loop")
        for lp in loops:
            a = Total(P, f, lp, nm)
            a.run("out")
            chk.ob("total", cname(f), not a.bad and a.seen, lp.at(), a.why or "nothing is translated")


class Total(AI):
    """every round of the loop that stays in the loop stores a translation"""

    def __init__(self, P, f, loop, nm):
        AI.__init__(self, P, f)
        self.only = set()
        self.loop, self.nm, self.bad, self.seen, self.why = loop, nm, False, False, ""
        self.body = loop.kids[-1]

    def step(self, ts, env, n):
        if n.within(self.body):
            if self.nm == "input_chains":
                hit = n.k in CALLS and n.n == "into_component"
            else:
                hit = n.k in CALLS and n.n in ("push_back", "emplace", "emplace_back", "insert", "insert_or_assign") or (
                    n.k == "BinaryOperator" and n.op == "=") or n.k == "CXXOperatorCallExpr" and n.op == "="
            if hit:
                self.seen = True
                return (("done", env),)
            if n.k == "BreakStmt":
                self.bad, self.why = True, "the loop stops before the end of its input"
            if n.k == "ReturnStmt" and n.kids and strip_casts(n.kids[0]).text() not in ("false", "0"):
                self.bad, self.why = True, "returns before the end of its input"
        return ((ts, env),)

    def branch(self, ts, env, c, truth):
        if self.loop.k in ("ForStmt", "WhileStmt"):
            cond = self.loop.kids[1] if self.loop.k == "ForStmt" else self.loop.kids[-2]
            if cond is not None and strip_casts(c) is strip_casts(cond):
                return (("-" if truth else "out", env),)
        return ((self.mark(ts, c, truth), env),)

    def mark(self, ts, c, truth):
        c = strip_casts(c)
        if c is not None and c.within(self.body) and ts != "done":
            t = c
            neg = False
            while t.k == "UnaryOperator" and t.op == "!":
                t, neg = strip_casts(t.kids[0]), not neg
            if self.nm == "input_vars" and any(x.k == "MemberExpr" and x.n == "var_fixed_unscrewed" for x in t.walk()) and truth != neg:
                return "done"    # fixed variables are left out of an order
        return ts

    def enter(self, b, ts, env):
        blk = self.fn.cfg.blocks[b]
        if blk.get("ti") == self.loop.i and ts == "-":
            self.bad, self.why = True, "an element is passed over without being translated or the input being refused"
        return ts

    def loopedge(self, ts, env, blk, i):
        if blk.get("ti") == self.loop.i and len(blk["s"]) == 2:
            return (("-" if i == 0 else "out", env),)
        return ((ts, env),)


def run():
    chk = Check("C10", "index-space inference over the C++ translation layer, provenance dataflow over the Python label handling",
                "Every look-up, insertion and read-back of a label or index between the Python API and the search.",
                ["labels are hashable and equality is consistent with hash", "the pathfinder's own interface is in internal numbering throughout"])
    chk.rule("known-label", "a label is looked up only after it was found in the same dictionary; unknown labels are refused")
    chk.rule("kinds", "source indices and target indices are never exchanged")
    chk.rule("own-chain", "a chain option holds exactly the qubits of its own entry")
    chk.rule("complete", "no entry of an option or order is passed over")
    chk.rule("pins", "suspension pins are fresh, paired, counted and attached to their own variable and blob")
    chk.rule("bijection", "labeldict numbers labels by their position and label() inverts it")
    chk.rule("graph", "every edge and every isolated node of a graph is read, under its own labels")
    chk.rule("spaces", "external and internal, source and target numberings never meet except through their translation tables")
    chk.rule("total", "translations cover their whole input")
    python(chk)
    native(chk)
    return chk


if __name__ == "__main__":
    main(run)
