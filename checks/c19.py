"""C19: the embedding diagnostics report every defect of an embedding and nothing else."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront
from pyai import Interp, alts, subterms, show, elem
from paths import EveryPath

REL = "minorminer/utils/diagnostic.py"
EXC = "minorminer/utils/exceptions.py"
D, V, W = "diagnose_embedding", "is_valid_embedding", "verify_embedding"
ERRORS = {"MissingChainError": 1, "ChainOverlapError": 3, "DisconnectedChainError": 1, "InvalidNodeError": 2, "MissingEdgeError": 2}


def nm(t):
    return t[-1].split(".")[-1] if isinstance(t[-1], str) else None


def bare(t):
    """a container without the copies around it"""
    while t[0] == "call" and len(t[2]) == 1 and (t[1][0] == "name" and t[1][1] in ("list", "tuple", "set", "frozenset", "sorted", "iter", "dict")):
        t = t[2][0]
    return t


class Quiet(object):
    short = []

    def ob(self, *a, **k):
        pass

    count = ob


class C19(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        for q in (D, V, W):
            if q not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, q))
        self.fn = self.m.functions[D]
        self.emb, self.src, self.tgt = (("param", p) for p in EveryPath.params(self.fn)[:3])

    def graph(self, t, p):
        return t == p or t[0] == "call" and nm(t[1]) == "Graph" and p in t[2] or t[0] == "alt" and all(self.graph(x, p) for x in t[1])

    def nodes(self, t, p):
        """a term for the nodes of the graph given as p"""
        t = bare(t)
        if t[0] == "attr" and t[2] in ("nodes", "adj", "_adj"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "nodes" and not t[2]:
            t = t[1][1]
        return self.graph(t, p)

    def edges(self, t, p):
        t = bare(t)
        if t[0] == "attr" and t[2] == "edges":
            return self.graph(t[1], p)
        return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "edges" and not t[2] and not t[3] and self.graph(t[1][1], p)

    def chain(self, t, x):
        """the chain of x, however it is looked up"""
        t = bare(t)
        if t == ("sub", self.emb, x):
            return True
        return t[0] == "call" and t[1] == ("attr", self.emb, "get") and t[2][:1] == (x,) and (len(t[2]) == 1 or t[2][1] in (("const", None), ("tuple", ()), ("list", ()), ("set", ())) or t[2][1][0] == "new")

    # ---------------------------------------------------------------- atoms of a path
    @staticmethod
    def atom(c, p):
        while c[0] == "not":
            c, p = c[1], not p
        return c, p

    def has(self, conds, x):
        """(there is an entry, the entry is not empty) as decided, None where not"""
        entry = full = None
        for c, p in conds:
            c, p = self.atom(c, p)
            if c[0] == "cmp" and c[1] == "in" and c[2] == x and (bare(c[3]) == self.emb or c[3] == ("call", ("attr", self.emb, "keys"), (), ())):
                entry = p
            elif c[0] == "cmp" and c[1] in ("is", "==") and self.chain(c[2], x) and c[3] == ("const", None):
                entry = not p
            elif c[0] == "cmp" and c[1] == "==" and self.size(c[2], x) and c[3] == ("const", 0):
                full = not p
            elif c[0] == "cmp" and c[1] == "<" and self.size(c[2], x) and c[3] == ("const", 1):
                full = not p
            elif c[0] == "cmp" and c[1] == "<" and c[2] == ("const", 0) and self.size(c[3], x):
                full = p
            elif c[0] == "cmp" and c[1] == "<=" and c[2] == ("const", 1) and self.size(c[3], x):
                full = p
            elif self.size(c, x) or self.chain(c, x):
                full = p
        return entry, full

    def size(self, t, x):
        return t[0] == "call" and t[1] == ("name", "len") and len(t[2]) == 1 and self.chain(t[2][0], x) or t[0] == "len" and self.chain(t[1], x)

    def inside(self, c, q):
        """the condition says q is a node of the target"""
        if c[0] == "cmp" and c[1] == "in" and c[2] == q:
            return self.nodes(c[3], self.tgt)
        return c[0] == "call" and c[1][0] == "attr" and c[1][2] == "has_node" and self.graph(c[1][1], self.tgt) and c[2] == (q,)

    def valid(self, conds, x):
        """(this node of the chain is in the target, all of them are)"""
        one = allv = None
        for c, p in conds:
            c, p = self.atom(c, p)
            if c[0] == "cmp" and c[1] == "in" and self.member(c[2], x) and self.inside(c, c[2]) or c[0] == "call" and c[2] and self.member(c[2][0], x) and self.inside(c, c[2][0]):
                one = p
            k = self.every(c, x)
            if k is not None:
                allv = p == k
        return one, one if allv is None else allv

    def member(self, q, x):
        return q[0] == "elem" and self.chain(q[1], x)

    def every(self, c, x):
        """True: holds when all nodes are in the target; False: when some is not"""
        if c[0] == "cmp" and c[1] == "==" and c[3] == ("const", 0) and c[2][0] in ("call", "len"):
            k = self.every(c[2], x)
            return None if k is None else not k
        if c[0] == "call" and c[1] in (("name", "len"), ("name", "list"), ("name", "bool")) and c[2] or c[0] == "len":
            c = c[2][0] if c[0] == "call" else c[1]
        if c[0] == "comp" and c[1] in ("list", "set") and len(c[5]) == 1 and self.member(c[2], x):
            f, p = self.atom(c[5][0], True)
            if self.inside(f, c[2]):
                return None if p else False
        if c[0] == "call" and c[1] in (("name", "any"), ("name", "all")) and c[2] and c[2][0][0] == "comp":
            k = c[2][0]
            f, p = self.atom(k[2], True)
            if not k[5] and f[0] in ("cmp", "call") and any(self.member(y, x) and self.inside(f, y) for y in subterms(f)):
                if c[1][1] == "all" and p:
                    return True
                if c[1][1] == "any" and not p:
                    return False
        if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "issubset" and bare(c[1][1]) != c[1][1] and self.chain(c[1][1], x) and self.nodes(c[2][0], self.tgt):
            return True
        if c[0] == "cmp" and c[1] == "<=" and self.chain(c[2], x) and bare(c[2]) != c[2] and self.nodes(c[3], self.tgt):
            return True
        return None

    def connected(self, conds, x):
        for c, p in conds:
            c, p = self.atom(c, p)
            if c[0] == "call" and nm(c[1]) == "is_connected" and len(c[2]) == 1:
                g = c[2][0]
                if g[0] == "call" and nm(g[1]) == "Graph" and len(g[2]) == 1:
                    g = g[2][0]
                if g[0] == "call" and g[1][0] == "attr" and g[1][2] == "subgraph" and self.graph(g[1][1], self.tgt) and len(g[2]) == 1 and self.chain(g[2][0], x):
                    return p
        return None

    # ---------------------------------------------------------------- the generator
    def diagnose(self):
        n = 0
        for given in (True, False):
            def assume(I, c, st, given=given):
                if c[0] == "call" and c[1] == ("name", "hasattr"):
                    return given
                if c[0] == "call" and c[1] == ("name", "isinstance") and c[2] and c[2][0] in (self.src, self.tgt):
                    return given
                return None
            I = EveryPath(self.m, rounds=1, assume=assume)
            for evs, cut in I.paths(self.fn):
                n += 1
                self.path(evs, given)
        if n < 12:
            self.chk.short.append("%s: %d paths found" % (D, n))
        self.chk.count("paths through the diagnosis", n)

    def ob(self, rule, what, ok, node, why=""):
        self.chk.ob(rule, "%s: %s" % (D, what), ok, self.m.where(node), why)

    def path(self, evs, given):
        errors = []
        for e in evs:
            if e.kind != "yield":
                continue
            for t in alts(e.a[0]):
                if t[0] == "gen" or t[0] in ("alt", "elem") and not t[0] == "tuple" and len(e.stack) >= 1 and any(y.kind == "yield" and y is not e and y.stack[:len(e.stack)] == e.stack and len(y.stack) > len(e.stack) for y in evs):
                    continue
                if t[0] != "tuple" or not t[1] or t[1][0][0] not in ("name", "attr") or nm(t[1][0]) not in ERRORS:
                    if any(len(y.stack) > len(e.stack) for y in evs if y.kind == "yield"):
                        continue       # what a helper yielded, passed on
                    self.ob("form", "what is yielded", False, e.node, "an error that is not an exception class with its arguments: %s" % show(t)[:80])
                    continue
                k = nm(t[1][0])
                if len(t[1]) - 1 != ERRORS[k]:
                    self.ob("form", "what is yielded", False, e.node, "%s with %d arguments" % (k, len(t[1]) - 1))
                    continue
                errors.append((k, t[1][1:], e))
        for e in evs:
            if e.kind == "return" and e.stack[-1] is self.fn and len(e.stack) == 1:
                self.ob("complete", "no early end", False, e.node, "the diagnosis stops before everything has been looked at")
            if e.kind == "break":
                loop = self.around(e.node)
                if loop is not None and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(loop)):
                    self.ob("complete", "no early end", False, e.node, "a loop that reports errors is left before its end")
        self.carried(errors)
        self.graphs(evs, given)
        self.pernode(evs, errors)
        self.overlaps(evs, errors)
        self.missing(evs, errors)

    def carried(self, errors):
        """whether one node is reported does not hang on what an earlier round of the same loop left behind"""
        for k, a, e in errors:
            if k == "ChainOverlapError":
                continue
            loop = self.around(e.node)
            if loop is None:
                continue
            left = set()
            tests = [f.test for f in ast.walk(loop) if isinstance(f, ast.If) and any(y is e.node for b in f.body + f.orelse for y in ast.walk(b))]
            for t in tests:
                for y in ast.walk(t):
                    if not (isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)):
                        continue
                    comp = {id(w) for b in loop.body for g in ast.walk(b) if isinstance(g, ast.comprehension) for w in ast.walk(g.target)}
                    sets = [z.lineno for b in loop.body for z in ast.walk(b) if isinstance(z, ast.Name) and id(z) not in comp and isinstance(z.ctx, ast.Store) and z.id == y.id]
                    put = [z.lineno for b in loop.body for z in ast.walk(b) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and
                           z.func.attr in ("add", "append", "update", "setdefault") and isinstance(z.func.value, ast.Name) and z.func.value.id == y.id]
                    if sets and min(sets) >= t.lineno or put and not sets:
                        left.add(y.id)
            self.ob("complete", "%s does not depend on earlier rounds" % k, not left, e.node, "reported only depending on %s, which earlier rounds changed" % ", ".join(sorted(left)))

    def around(self, node):
        best = None
        for f in ast.walk(self.m.tree):
            if isinstance(f, (ast.For, ast.While)) and f.lineno <= node.lineno and node.end_lineno <= f.end_lineno:
                if best is None or f.lineno >= best.lineno:
                    best = f
        return best

    def graphs(self, evs, given):
        """an edge list is made into a graph before it is asked for anything"""
        for e in evs:
            if e.kind == "round" and e.a[1] is not None:
                for p, w in ((self.src, "source"), (self.tgt, "target")):
                    if mentions_raw(e.a[1], p) and not given:
                        self.ob("inputs", "edge lists", False, e.node, "%s is used as it is although it may be a list of edges" % w)

    def pernode(self, evs, errors):
        X = None
        start = None
        self.outside = False
        for e in evs:
            if e.kind == "round" and e.a[1] is not None and self.nodes(e.a[1], self.src):
                X, start = elem(e.a[1]), e
                break
            if e.kind == "round" and e.a[1] is not None and e.a[1][0] == "comp" and self.nodes(e.a[1][4][0], self.src):
                break
        if X is None:
            self.ob("complete", "every source node", False, self.fn, "not every node of the source graph is looked at")
            return
        self.X = X
        conds = []
        seen = set()
        for e in evs:
            if e.kind == "decide":
                conds.append((e.a[0], e.a[1]))
        for e in evs:
            for c in e.conds if e.kind in ("yield", "store_name", "continue") else ():
                if c not in seen and c[0][0] not in ("for", "except"):
                    seen.add(c)
                    if (c[0], c[1]) not in conds:
                        conds.append(c)
        # what one round of a comprehension let through is about that round only
        filt = set()
        for e in evs:
            if e.kind == "round" and e.a[1] is not None and e.a[1][0] == "comp":
                for c in e.a[1][5]:
                    filt.add(self.atom(c, True))
        own = [c for c in conds if self.atom(*c) not in filt]
        entry, full = self.has(own, X)
        dflt = any(y[0] == "call" and y[1] == ("attr", self.emb, "get") and y[2][:1] == (X,) and len(y[2]) == 2 and y[2][1] != ("const", None) for e in evs for y in subterms(e.a[0]) if isinstance(e.a, tuple) and e.a and isinstance(e.a[0], tuple)) if entry is None else False
        truthy = any(self.chain(self.atom(*c)[0], X) for c in own)
        if entry is False or full is False:
            P = False
        elif full and (entry or dflt or truthy):
            P = True
        else:
            P = None
        mine = lambda k: [x for x in errors if x[0] == k and x[1][0] == X]
        at = start.node
        if P is None:
            self.ob("missing-chain", "chain looked at", False, at, "a source node is passed over without looking at whether it has a chain" if entry is None and full is None else
                    "a node without a chain and a node with an empty chain are not told apart from one with a chain")
            return
        miss = mine("MissingChainError")
        self.ob("missing-chain", "reported exactly when there is none", bool(miss) == (not P), miss[0][2].node if miss else at,
                "a source node %s a chain is %sreported" % ("with" if P else "without", "" if P else "not "))
        one, allv = self.valid(conds, X)
        self.outside = one is False
        inv = mine("InvalidNodeError")
        dis = mine("DisconnectedChainError")
        emb = [e for e in evs if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("add", "append") and e.a[1] == (X,) and e.a[0][1][0] == "new"]
        emb += [e for e in evs if e.kind == "store_sub" and e.a[0][0] == "new" and e.a[1] == X]
        self.embedded = {(e.a[0][1] if e.kind == "call" else e.a[0]) for e in emb}
        if not P:
            self.ob("complete", "nothing else for a missing chain", not inv and not dis, at, "a missing chain is reported in another way too")
            self.P, self.emb_here = False, bool(emb)
            self.ob("edges", "embedded nodes", not emb, emb[0].node if emb else at, "a node without a chain counts as embedded")
            return
        if one is None and allv is None:
            self.ob("invalid-node", "every node of a chain looked at", False, at, "nodes of a chain are not compared with the target's")
            return
        for x in inv:
            self.ob("invalid-node", "names the node", self.member(x[1][1], X), x[2].node, "the node reported is not the chain's: %s" % show(x[1][1])[:60])
        filtered = [e for e in evs if e.kind == "round" and e.a[1] is not None and e.a[1][0] == "comp" and self.every(e.a[1], X) is False]
        if filtered:
            self.ob("invalid-node", "reported exactly when not in the target", len(inv) == 1, at, "the nodes that are not in the target are not all reported")
        else:
            self.ob("invalid-node", "reported exactly when not in the target", one is not None and bool(inv) == (not one), inv[0][2].node if inv else at,
                    "a node of a chain that is %sin the target is %sreported" % ("" if one else "not ", "" if inv else "not "))
        own1, allv = self.valid(own, X)
        if allv is None:
            allv = one
        C = self.connected(conds, X)
        if allv:
            self.ob("disconnected", "reported exactly when not connected", C is not None and bool(dis) == (not C), dis[0][2].node if dis else at,
                    "connectivity of a chain is not looked at" if C is None else "a %sconnected chain is %sreported" % ("" if C else "dis", "" if dis else "not "))
            self.ob("edges", "embedded nodes", bool(emb), at, "the edges of a node with a complete chain are never looked at")
        else:
            self.ob("disconnected", "only for chains inside the target", not dis, dis[0][2].node if dis else at, "")
            self.ob("edges", "embedded nodes", not emb, emb[0].node if emb else at, "a node whose chain is not in the target counts as embedded")
        # who owns a target node
        if one or one is None and filtered:
            self.owners(evs, X, at, one)

    def label(self, t):
        """labels[q] in any spelling -> (labels, q, default given)"""
        if t[0] == "sub" and t[1][0] in ("new", "call"):
            return t[1], t[2], None
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("setdefault", "get") and t[2]:
            return t[1][1], t[2][0], t[2][1] if len(t[2]) > 1 else None
        return None

    def owners(self, evs, X, at, one):
        got = None
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("add", "append") and e.a[1] == (X,):
                l = self.label(e.a[0][1])
                if l and self.member(l[1], X):
                    got = l[0]
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "setdefault" and len(e.a[1]) == 2 and self.member(e.a[1][0], X) and self.only(e.a[1][1], X):
                # a new entry starts with this node; an old one must get it
                l = e.a[3]
                for c, p in [y.a for y in evs if y.kind == "decide"]:
                    c, p = self.atom(c, p)
                    if c == ("cmp", "in", X, l) and p:
                        got = e.a[0][1]
        self.ob("overlap", "who uses a target node", got is not None, at, "that a chain uses a target node is not kept on every path")
        if got is not None:
            self.labels = got

    @staticmethod
    def only(t, x):
        return t[0] in ("set", "list", "tuple") and t[1] == (x,)

    # ---------------------------------------------------------------- overlaps
    def overlaps(self, evs, errors):
        lab = getattr(self, "labels", None)
        adds = []
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("add", "append") and len(e.a[1]) == 1 and e.a[0][1][0] == "new" and self.member(e.a[1][0], self.X):
                adds.append((e.a[0][1], e))
        keep = {c for c, _ in adds} | getattr(self, "embedded", set()) | ({lab} if lab is not None else set())
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] in keep and e.a[0][2] in ("discard", "remove", "pop", "popitem", "clear", "difference_update", "intersection_update"):
                self.ob("complete", "nothing is taken back", False, e.node, "what was noted about the chains is taken back")
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("add", "append", "setdefault"):
                c = e.a[0][1]
                l = self.label(c)
                c = l[0] if l else c
                if c in keep and c[0] == "new" and isinstance(c[-1], tuple):
                    inside = [f for f in ast.walk(self.m.tree) if isinstance(f, (ast.For, ast.While)) and
                              f.body[0].lineno <= e.node.lineno <= f.end_lineno and f.body[0].lineno <= c[-1][0] <= f.end_lineno]
                    self.ob("complete", "notes are kept for all chains", not inside, e.node, "what is noted here is forgotten with every round of the loop")
        if self.outside:
            for c, e in adds:
                if any(self.inside(f, e.a[1][0]) and p for f, p in (self.atom(*z) for z in e.conds)):
                    continue
                used = [x for k, a, x in errors if k == "ChainOverlapError" and a[0][0] == "elem" and bare(a[0][1]) == c]
                ok = bool(used) and all(any(self.inside(self.atom(*z)[0], x.a[0][1][1]) for z in x.conds if x.a[0][0] == "tuple") for x in used)
                if used:
                    self.ob("overlap", "only nodes of the target", ok, e.node, "a chain node that is not in the target is noted as shared")
        # a node is put on the list exactly when another source node has it already
        for e in evs:
            if e.kind != "decide":
                continue
            c, p = self.atom(*e.a)
            if c[0] == "cmp" and c[1] == "in" and c[2] == self.X:
                l = self.label(c[3])
                if l and self.member(l[1], self.X) and l[2] is not None and self.only(l[2], self.X):
                    self.ob("overlap", "noted exactly when shared", bool(adds) == (not p), e.node, "a target node used by two chains is %snoted" % ("not " if not p else ""))
        for k, a, e in errors:
            if k != "ChainOverlapError":
                continue
            q = a[0]
            src = q[1] if q[0] == "elem" else None
            okq = False
            if src is not None:
                src = bare(src)
                okq = src in [c for c, _ in adds] or src[0] == "new" or lab is not None and src == lab
                if src[0] == "call" and src[1][0] == "attr" and src[1][2] in ("items", "keys"):
                    okq = src[1][1] == lab or lab is None
            xs = [("sub", l, q) for l in ([lab] if lab is not None else [])]
            ok = okq and (lab is None or self.two(a[1], a[2], lab, q))
            self.ob("overlap", "every further chain is reported with the first", ok, e.node, "the report is not a target node and two of the chains that use it: %s" % show(("tuple", a))[:120])
            extra = [c for c in e.conds if c[0][0] not in ("for", "except") and not self.many(c, lab, q) and self.about(c[0], q)]
            self.ob("overlap", "nothing is left out", not extra, e.node, "an overlap is only reported when %s" % (show(extra[0][0])[:80] if extra else ""))
        seen = [x for x in errors if x[0] == "ChainOverlapError"]
        last = [e for e in evs if e.kind == "decide" and self.many1(e.a, lab)]
        if not seen and not last:
            self.ob("overlap", "reported", False, self.fn, "overlaps are not reported")

    def about(self, c, q):
        return any(y == q for y in subterms(c))

    def many(self, c, lab, q):
        return self.shared(self.atom(*c), lab, q) is True

    def shared(self, a, lab, q=None):
        """True: more than one chain uses the node; False: at most one"""
        k, p = a
        if k[0] != "cmp":
            return None
        n = lambda t: (t[0] == "len" or t[0] == "call" and t[1] == ("name", "len")) and any(y[0] == "sub" and (lab is None or y[1] == lab) and (q is None or y[2] == q) for y in subterms(t))
        l, r = k[2], k[3]
        if n(l):
            t = {("<", 2): False, ("<=", 1): False, ("==", 1): False}.get((k[1], r[1] if r[0] == "const" else None))
        elif n(r):
            t = {(1, "<"): True, (2, "<="): True}.get((l[1] if l[0] == "const" else None, k[1]))
        else:
            return None
        return None if t is None else t == p

    def many1(self, a, lab):
        return self.shared(self.atom(*a), lab) is False

    def two(self, a, b, lab, q):
        """a and b are different chains out of labels[q], b running over all others"""
        own = ("sub", lab, q)
        if a[0] == "item" and b[0] == "item" and a[1] == b[1] and (a[2], b[2]) == (0, 1) and a[1][0] == "elem" and a[1][1][0] == "call" and nm(a[1][1][1]) == "combinations":
            return bare(a[1][1][2][0]) == own and a[1][1][2][1] == ("const", 2)
        if a[0] in ("sub", "item") and a[2] in (("const", 0), 0) and bare(a[1]) == own:
            if b[0] == "elem":
                t = b[1]
                if t[0] == "sub" and t[2] == ("slice", ("const", 1), ("const", None), ("const", None)) and t[1] == a[1]:
                    return True
                if t[0] == "sub" and t[2][0] == "slice" and t[2][1] == ("const", 1) and t[2][2] == ("const", None) and t[1] == a[1]:
                    return True
                return t[0] in ("rest", "starred", "item") and bare(t[1]) == own
        return False

    # ---------------------------------------------------------------- edges
    def missing(self, evs, errors):
        rounds = [e for e in evs if e.kind == "round" and e.a[1] is not None and self.edges(e.a[1], self.src)]
        if not rounds:
            self.ob("complete", "every source edge", False, self.fn, "not every edge of the source graph is looked at")
            return
        r = rounds[-1]
        ed = elem(r.a[1])
        u, v = ("item", ed, 0), ("item", ed, 1)
        same = eu = ev = cov = None
        other = []
        allc = []
        for e in evs[evs.index(r):]:
            if e.kind == "decide" and e.a not in allc:
                allc.append(e.a)
        for c, p in allc:
            c, p = self.atom(c, p)
            if c in (("cmp", "==", u, v), ("cmp", "==", v, u)):
                same = p
            elif c[0] == "cmp" and c[1] == "in" and c[2] in (u, v):
                if c[3] in self.embedded or not self.embedded and c[3][0] == "new":
                    if c[2] == u:
                        eu = p
                    else:
                        ev = p
                else:
                    other.append(c)
            elif (c[0] == "cmp" and c[1] == "<=" and self.pair(c[2], u, v) and (c[3] in self.embedded or not self.embedded and c[3][0] == "new")
                  or c[0] == "call" and c[1][0] == "attr" and c[1][2] == "issubset" and self.pair(c[1][1], u, v) and c[2] and (c[2][0] in self.embedded or not self.embedded and c[2][0][0] == "new")
                  or c[0] == "call" and c[1][0] == "attr" and c[1][2] == "issuperset" and (c[1][1] in self.embedded or not self.embedded and c[1][1][0] == "new") and c[2] and self.pair(c[2][0], u, v)):
                if p:
                    eu = ev = True
                elif eu is not False:
                    ev = False
            elif self.covers(c, u, v, evs) is not None:
                cov = p == self.covers(c, u, v, evs)
            elif c[0] in ("and", "or"):
                continue
            elif self.about(c, u) or self.about(c, v):
                other.append(c)
        got = [x for x in errors if x[0] == "MissingEdgeError"]
        for x in got:
            self.ob("edges", "names the edge", x[1] in ((u, v), (v, u)), x[2].node, "reports %s" % show(("tuple", x[1]))[:80])
        node = got[0][2].node if got else r.node
        if other:
            self.ob("edges", "reported exactly when no target edge", False, node, "whether an edge is reported also depends on %s" % show(other[0])[:100])
            return
        if same is True or eu is False or ev is False or cov is True:
            self.ob("edges", "reported exactly when no target edge", not got, node, "an edge is reported although it is a loop, an end is not embedded, or a target edge represents it")
        elif same is False and eu and ev and cov is False:
            self.ob("edges", "reported exactly when no target edge", bool(got), node, "an edge between embedded nodes without a target edge is not reported")
            self.full = getattr(self, "full", 0) + 1
        else:
            self.ob("edges", "reported exactly when no target edge", False, node, "an edge is passed over without looking for a target edge (loop %s, ends embedded %s %s, covered %s)" % (same, eu, ev, cov))

    @staticmethod
    def pair(t, u, v):
        if t[0] == "call" and t[1] in (("name", "set"), ("name", "frozenset")) and len(t[2]) == 1:
            t = t[2][0]
            if t[0] == "elem":
                return t == u[1]
        return t[0] in ("set", "tuple", "list") and len(t[1]) == 2 and set(t[1]) == {u, v}

    def covers(self, c, u, v, evs):
        """True when the condition says some target edge joins the chains of u and v, False for the contrary, None otherwise"""
        if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "has_edge" and c[2] in ((u, v), (v, u)):
            return True if self.built(c[1][1], evs) else None
        if c[0] == "cmp" and c[1] == "in" and c[3][0] == "new" and c[2] in (("tuple", (u, v)), ("tuple", (v, u))):
            return True if self.built(c[3], evs) else None
        if c[0] == "cmp" and c[1] == "in" and c[2] == v and c[3][0] in ("sub", "call") and u in (c[3][2] if isinstance(c[3][2], tuple) else ()):
            g = c[3][1]
            return True if self.built(g[1] if g[0] == "attr" else g, evs) else None
        if c[0] == "call" and c[1] == ("name", "any") and c[2] and c[2][0][0] == "comp" and not c[2][0][5]:
            k = c[2][0][2]
            if k[0] == "call" and k[1][0] == "attr" and k[1][2] == "has_edge" and self.graph(k[1][1], self.tgt) and len(k[2]) == 2:
                a, b = k[2]
                if a[0] == b[0] == "elem" and (self.chain(a[1], u) and self.chain(b[1], v) or self.chain(a[1], v) and self.chain(b[1], u)):
                    return True
        return None

    def built(self, g, evs):
        """g joins the chains that a target edge joins, for every target edge"""
        if g[0] == "call" and nm(g[1]) == "Graph" and len(g[2]) == 1:
            return self.fill(g[2][0], None, evs)
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == g and e.a[0][2] in ("add_edges_from", "update", "add_edge", "add"):
                if e.a[0][2] == "add_edge" and len(e.a[1]) == 2:
                    if self.joined(e.a[1][0], e.a[1][1], e):
                        return True
                elif e.a[1] and self.fill(e.a[1][0], e, evs):
                    return True
        # on this path the edge looked at has an end that no chain uses
        lab = getattr(self, "labels", None)
        for e in evs:
            if e.kind == "decide":
                c, p = self.atom(*e.a)
                if not p and c[0] == "cmp" and c[1] == "in" and c[3] == lab and c[2][0] == "item" and c[2][1][0] == "elem" and self.edges(c[2][1][1], self.tgt):
                    return True
        return False

    def fill(self, t, e, evs):
        if t[0] == "comp" and t[2][0] == "tuple" and len(t[2][1]) == 2:
            for c in t[5]:
                c, p = self.atom(c, True)
                if p or c[0] != "cmp" or c[1] != "==" or {c[2], c[3]} != set(t[2][1]):
                    return False
            return self.joined(t[2][1][0], t[2][1][1], e)
        if t[0] == "call" and nm(t[1]) == "product" and len(t[2]) == 2:
            return self.joined(elem(t[2][0]), elem(t[2][1]), e)
        return False

    def joined(self, a, b, e):
        if a[0] != "elem" or b[0] != "elem":
            return False
        la, lb = self.label(bare(a[1])), self.label(bare(b[1]))
        if la is None or lb is None or la[0] != lb[0]:
            return False
        lab = getattr(self, "labels", None)
        if lab is not None and la[0] != lab:
            return False
        p, q = la[1], lb[1]
        if not (p[0] == "item" and q[0] == "item" and p[1] == q[1] and {p[2], q[2]} == {0, 1} and p[1][0] == "elem"):
            return False
        es = bare(p[1][1])
        if es[0] == "attr" and es[2] == "edges":
            g = es[1]
        elif es[0] == "call" and es[1][0] == "attr" and es[1][2] == "edges" and not es[3]:
            g = es[1][1]
            if es[2] and bare(es[2][0]) != la[0]:
                return False
        else:
            return False
        if g[0] == "call" and g[1][0] == "attr" and g[1][2] == "subgraph" and len(g[2]) == 1 and bare(g[2][0]) == la[0]:
            g = g[1][1]
        if not self.graph(g, self.tgt):
            return False
        # not only for some of the edges
        if e is not None:
            for c, pol in e.conds:
                c, pol = self.atom(c, pol)
                if c[0] in ("for", "except") or c[0] == "and" and pol and all((self.atom(y, True)) in [self.atom(*z) for z in e.conds] for y in c[1]) or not (self.about(c, p) or self.about(c, q)):
                    continue
                if not (pol and c[0] == "cmp" and c[1] == "in" and c[2] in (p, q) and c[3] == la[0]):
                    return False
        return True

    def nothing(self, t, call):
        """True: the term says that the diagnosis found nothing, False: that it found something"""
        none, zero = ("const", None), ("const", 0)
        if t[0] == "cmp" and t[1] in ("is", "==") and t[3] == none or t[0] == "cmp" and t[1] in ("is", "==") and t[2] == none:
            n = t[2] if t[3] == none else t[3]
            return True if n[0] == "call" and n[1] == ("name", "next") and len(n[2]) == 2 and bare(n[2][0]) == call and n[2][1] == none else None
        if t[0] == "call" and t[1] == ("name", "next") and len(t[2]) == 2 and bare(t[2][0]) == call and not (t[2][1] != none):
            return False
        if t[0] == "call" and t[1] == ("name", "next") and len(t[2]) == 2 and t[2][0][0] == "comp" and t[2][0][4] == (call,) and not t[2][0][5] and \
                t[2][0][2][0] == t[2][1][0] == "const":
            return {(False, True): True, (True, False): False}.get((bool(t[2][0][2][1]), bool(t[2][1][1])))
        if t[0] == "call" and t[1] in (("name", "any"), ("name", "all"), ("name", "list"), ("name", "tuple"), ("name", "bool"), ("name", "len"), ("name", "set")) and t[2]:
            f, x = t[1][1], t[2][0]
            if f in ("bool", "len") or x[0] == "call" and x[1][0] == "name" and x[1][1] in ("list", "tuple"):
                y = bare(x)
                if y == call and x != call and f != "all":
                    return False
                x = x if f in ("any", "all") else y
            if x == call and f in ("any", "list", "tuple", "set"):
                return False
            if x[0] == "comp" and x[4] == (call,) and not x[5]:
                if f in ("list", "tuple", "bool", "len", "set"):
                    return False
                if x[2][0] == "const" and bool(x[2][1]) == (f == "any"):
                    return f == "all"
        if t[0] == "len" and bare(t[1]) == call and t[1] != call:
            return False
        if t[0] == "comp" and t[4] == (call,) and not t[5] and t[1] in ("list", "set"):
            return False
        if t[0] == "cmp" and t[1] == "==" and t[3] in (zero, ("list", ()), ("tuple", ())):
            a = t[2]
            if a[0] == "call" and a[1] == ("name", "sum") and a[2] and a[2][0][0] == "comp" and a[2][0][2] == ("const", 1) and a[2][0][4] == (call,) and not a[2][0][5]:
                return True
            return True if self.nothing(a, call) is False else None
        return None

    # ---------------------------------------------------------------- the two users
    def users(self):
        fn = self.m.functions[V]
        a = [("param", p) for p in EveryPath.params(fn)[:3]]
        I = Interp(self.m)
        I.opaque |= {("name", D)}
        evs = I.run(fn)
        call = ("call", ("name", D), tuple(a), ())
        asked = [e for e in evs if e.kind == "call" and e.a[0] == ("name", D)]
        self.chk.ob("verdict", V + ": asks about its arguments", bool(asked) and all(self.args(e, a) for e in asked), self.m.where(fn), "")
        call = asked[0].a[3] if asked else call
        rets = [e for e in evs if e.kind == "return" and len(e.stack) == 1]
        ends = any(c[0][0] == "except" and "StopIteration" in repr(c[0]) for e in rets for c in e.conds) and \
            any(e.kind == "call" and e.a[0] == ("name", "next") and len(e.a[1]) == 1 and bare(e.a[1][0]) == call for e in evs)
        for e in rets:
            if set(alts(e.a[0])) == {("const", True), ("const", False)} and not any(c[0][0] == "for" for c in e.conds):
                for y in evs:
                    if y.kind == "store_name" and y.a[-1] == ("const", False) and any(c[0][0] == "for" for c in y.conds):
                        self.chk.ob("verdict", V + ": false exactly when something is wrong", all(c[0][0] == "for" and elemsof(c[0][1], call) for c in y.conds), self.m.where(y.node),
                                    "false only when %s" % show([c for c in y.conds if c[0][0] != "for" or not elemsof(c[0][1], call)][0][0])[:80] if any(c[0][0] != "for" for c in y.conds) else "")
                continue
            for t in alts(e.a[0]):
                if ends and t[0] == "const":
                    stop = [c for c in e.conds if c[0][0] == "except" and "StopIteration" in repr(c[0])]
                    self.chk.ob("verdict", V + ": false exactly when something is wrong", bool(stop) == bool(t[1]) and len(stop) == len([c for c in e.conds if c[0][0] != "not"]),
                                self.m.where(e.node), "returns %s" % show(t))
                    continue
                inloop = [c for c in e.conds if c[0][0] == "for"]
                rest = [c for c in e.conds if c[0][0] not in ("for",)]
                if t == ("const", False):
                    ok = bool(inloop) and all(elemsof(c[0][1], call) for c in inloop) and not rest
                elif t == ("const", True):
                    ok = not rest and not inloop
                else:
                    t, p = self.atom(t, True)
                    ok = self.nothing(t, call) == p if self.nothing(t, call) is not None else not p and t[0] == "cmp" and t[1] == "in"
                self.chk.ob("verdict", V + ": false exactly when something is wrong", ok, self.m.where(e.node), "returns %s%s" % (show(t)[:60], " only when " + show(rest[0][0])[:80] if rest else ""))
        vals = {t for e in rets for t in alts(e.a[0])}
        self.chk.ob("verdict", V + ": both answers", len(vals) > 1 or vals and list(vals)[0][0] != "const", self.m.where(fn), "")
        fn = self.m.functions[W]
        ps = EveryPath.params(fn)
        a = [("param", p) for p in ps[:3]]
        I = Interp(self.m)
        I.opaque |= {("name", D)}
        evs = I.run(fn)
        asked = [e for e in evs if e.kind == "call" and e.a[0] == ("name", D)]
        self.chk.ob("verdict", W + ": asks about its arguments", bool(asked) and all(self.args(e, a) for e in asked), self.m.where(fn), "")
        if not asked:
            return
        call = asked[0].a[3]
        raises = [e for e in evs if e.kind == "raise"]
        self.chk.ob("verdict", W + ": raises", bool(raises), self.m.where(fn), "nothing is ever raised")
        err = ("elem", call)
        for e in raises:
            t = e.a[0]
            cls = (("item", err, 0), ("sub", err, ("const", 0)))
            ok = t[0] == "call" and t[1] in cls and len(t[2]) == 1 and t[2][0][0] == "star" and self.rest(t[2][0][1], err) and not t[3]
            self.chk.ob("verdict", W + ": raises what was found", ok, self.m.where(e.node), "raises %s" % show(t)[:100])
            conds = [self.atom(*c) for c in e.conds if c[0][0] != "for"]
            bad = [c for c in conds if not (not c[1] and c[0][0] == "cmp" and c[0][1] == "in" and c[0][2] in cls and bare(c[0][3]) == ("param", ps[3]))]
            self.chk.ob("verdict", W + ": unless it is to be ignored", not bad and len(conds) >= 1, self.m.where(e.node), "an error is only raised when %s" % (show(bad[0][0])[:80] if bad else "always, the ones to ignore included"))
        for e in evs:
            if e.kind == "return" and len(e.stack) == 1:
                conds = [c for c in e.conds]
                ok = alts(e.a[0]) == [("const", True)] and not [c for c in conds if c[0][0] == "for"] and not [c for c in conds if c[0][0] != "for"]
                self.chk.ob("verdict", W + ": true after every error was looked at", ok, self.m.where(e.node), "")
            if e.kind == "break":
                self.chk.ob("verdict", W + ": true after every error was looked at", False, self.m.where(e.node), "the errors after the first are not looked at")

    def args(self, e, a):
        got = list(e.a[1])
        ps = EveryPath.params(self.fn)
        kw = dict(e.a[2])
        for p in ps[len(got):3]:
            if p in kw:
                got.append(kw[p])
        return got == a

    @staticmethod
    def rest(t, err):
        if t[0] == "sub" and t[1] == err and t[2][0] == "slice":
            return t[2][1] == ("const", 1) and t[2][2] == ("const", None)
        return t[0] in ("rest", "starred", "item") and any(y == err for y in subterms(t)) and t != ("item", err, 0)

    # ---------------------------------------------------------------- the exceptions
    def exceptions(self):
        m = pyfront.load(EXC)
        want = {"MissingChainError": {"source_node": 0}, "DisconnectedChainError": {"source_node": 0}, "InvalidNodeError": {"source_node": 0, "target_node": 1},
                "ChainOverlapError": {"target_node": 0, "source_nodes": (1, 2)}, "MissingEdgeError": {"source_nodes": (0, 1)}}
        for c, attrs in sorted(want.items()):
            if c not in m.classes:
                raise AnalysisBroken("%s has no class %s" % (EXC, c))
            node = [n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef) and n.name == c][0]
            bases = set()
            todo = [node]
            while todo:
                n = todo.pop()
                for b in n.bases:
                    s = ast.unparse(b)
                    bases.add(s)
                    todo += [k for k in ast.walk(m.tree) if isinstance(k, ast.ClassDef) and k.name == s and s not in ("Exception",)]
            self.chk.ob("exceptions", c + " is an EmbeddingError", "EmbeddingError" in bases, m.where(node), "")
            q = c + ".__init__"
            if q not in m.functions:
                self.chk.ob("exceptions", c + " keeps its arguments", False, m.where(node), "no constructor")
                continue
            fn = m.functions[q]
            ps = [("param", a.arg) for a in fn.args.args[1:]]
            I = Interp(m)
            evs = I.run(fn)
            got = {e.a[1]: e.a[2] for e in evs if e.kind == "store_attr" and not [x for x in e.conds if x[0][0] != "for"]}
            for a, i in sorted(attrs.items()):
                w = ps[i] if isinstance(i, int) and i < len(ps) else ("tuple", tuple(ps[j] for j in i)) if not isinstance(i, int) and max(i) < len(ps) else None
                v = got.get(a)
                if v is not None and v[0] == "list":
                    v = ("tuple", v[1])
                self.chk.ob("exceptions", "%s.%s" % (c, a), w is not None and v == w, m.where(fn), "is %s" % (show(v)[:60] if v else "never set"))

    def run(self):
        self.X, self.embedded = ("none",), set()
        chk, self.chk = self.chk, Quiet()
        self.diagnose()            # once to learn which containers are which
        self.chk = chk
        self.diagnose()
        self.users()
        self.exceptions()
        if not getattr(self, "full", 0):
            self.ob("edges", "reported exactly when no target edge", False, self.fn, "no path reports a missing edge")


def elemsof(it, call):
    return it == call or bare(it) == call or it[0] == "call" and it[1] == ("name", "enumerate") and it[2][:1] == (call,)


def mentions_raw(t, p):
    """p used other than inside the call that makes a graph of it"""
    if t == p:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "call" and nm(t[1]) == "Graph":
        return False
    return any(mentions_raw(x, p) for x in t if isinstance(x, tuple))


def make():
    chk = Check("C19", "path enumeration of the diagnosis generator against the definition of every error",
                "Every path through the diagnosis of one source node, one node of its chain, one shared target node and one source edge, for graphs and edge "
                "lists; the two functions built on it; the constructors of the errors.",
                ["networkx's connectivity, subgraph and has_edge do what they say", "graphs are undirected"])
    chk.rule("missing-chain", "reported for a source node exactly when it has no chain or an empty one")
    chk.rule("invalid-node", "reported for a node of a chain exactly when it is not in the target")
    chk.rule("disconnected", "reported for a chain inside the target exactly when the target does not connect it")
    chk.rule("overlap", "reported for every target node that several chains use, for all of them")
    chk.rule("edges", "reported for a source edge between embedded nodes exactly when no target edge joins their chains")
    chk.rule("complete", "every source node and edge is looked at, to the end")
    chk.rule("form", "an error is an exception class and its arguments")
    chk.rule("inputs", "edge lists are made into graphs first")
    chk.rule("verdict", "is_valid_embedding and verify_embedding answer from all errors reported")
    chk.rule("exceptions", "an error keeps the nodes it was given in the right roles")
    C19(chk).run()
    chk.need("missing-chain", 2)
    chk.need("edges", 4)
    chk.need("verdict", 6)
    chk.need("exceptions", 10)
    return chk


if __name__ == "__main__":
    main(make)
