"""C23: multiple and sublattice embeddings are disjoint, valid and bounded, and their options take effect."""
import ast, operator, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import alts, subterms, show, method, const_truth, mentions
from paths import PathInterp, EveryPath, Cut

pyai.CAP = 60
REL = "minorminer/utils/parallel_embeddings.py"
FME, FSE = "find_multiple_embeddings", "find_sublattice_embeddings"
VALID = ("_is_valid_embedding", "is_valid_embedding", "valid_embedding", "verify_embedding")
FILTERS = ("embedding_feasibility_filter", "lattice_size_lower_bound")
CLOCKS = ("perf_counter", "monotonic", "time", "perf_counter_ns", "monotonic_ns")
P = lambda n: ("param", n)


def name(t):
    return t[1][-1] if t[0] == "call" and isinstance(t[1][-1], str) else None


def param_in(t, p):
    return any(x == P(p) for x in subterms(t))


def lin(t, rename=()):
    """linear form {atom: coefficient}, constant under None"""
    if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {None: t[1]}
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, b = dict(lin(t[2])), lin(t[3])
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in a.items() if v}
    if t[0] == "call" and t[1] in (("name", "int"), ("name", "float")) and len(t[2]) == 1:
        return lin(t[2][0])
    return {t: 1}


def sub(a, b):
    a = dict(a)
    for k, v in b.items():
        a[k] = a.get(k, 0) - v
    return {k: v for k, v in a.items() if v}


def less(c, truth):
    """the decided comparison as (form, strict): form < 0 or form <= 0; None when it is not an inequality"""
    while c[0] == "not":
        c, truth = c[1], not truth
    if c[0] != "cmp" or c[1] not in ("<", "<="):
        return None
    f = sub(lin(c[2]), lin(c[3]))
    if truth:
        return f, c[1] == "<"
    return {k: -v for k, v in f.items()}, c[1] == "<="


class Paths(PathInterp):
    """clock readings are told apart by where they are taken; the length of the result list is what was put into it"""

    def __init__(self, m, assumed, **kw):
        PathInterp.__init__(self, m, assume=self.known, **kw)
        self.assumed = assumed
        self.opaque |= {("name", n) for n in (FME, FSE, "shuffle_graph", "_mapped_proposal", "_local_graph") + VALID + FILTERS}
        self.serialno = 0

    def paths(self, fn, bind=None, cls=None):
        self.kept = {}
        for x in PathInterp.paths(self, fn, bind, cls):
            yield x
            self.kept = {}
            self.serialno = 0

    def x_Call(self, e, st, fr):
        t = PathInterp.x_Call(self, e, st, fr)
        if t[0] == "call" and t[1][-1] in CLOCKS and not t[2]:
            self.serialno += 1
            return ("clock", self.serialno, self.inloop > 0)
        if t[0] == "call" and t[1] == ("name", "len") and len(t[2]) == 1 and self.empty(t[2][0]):
            return ("const", 0)
        if t[0] == "call" and t[1][0] == "name" and t[1][1] == "len" and len(t[2]) == 1 and t[2][0] in self.kept:
            k = self.kept[t[2][0]]
            return ("const", k) if k == 0 else ("len", t[2][0], k)
        if t[0] == "call" and t[1][0] == "attr" and t[1][1][0] in ("new", "list") and t[1][2] in ("append", "extend"):
            self.kept[t[1][1]] = self.kept.get(t[1][1], 0) + 1
        return t

    def empty(self, t):
        """a container made empty to which nothing has happened"""
        return (t[0] == "new" and t not in self.kept or t in (("dict", ()), ("tuple", ()))) and not any(
            e.kind == "store_sub" and e.a[0] == t or e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == t for e in self.events)

    def x_List(self, e, st, fr):
        t = PathInterp.x_List(self, e, st, fr)
        if t[0] == "new" and not self.inloop:
            self.kept[t] = 0
        return t

    def stmt(self, s, st, fr):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
            old = self.ev(pyai.loadof(s.target), st, fr)
            if old in self.kept:
                v = self.ev(s.value, st, fr)
                self.kept[old] += 1
                self.emit("call", (("attr", old, "extend"), (v,), (), ("call", ("attr", old, "extend"), (v,), ())), st, s, fr)
                return st
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
            old = self.ev(s.value.left, st, fr)
            if old in self.kept and len(s.targets) == 1 and ast.unparse(s.targets[0]) == ast.unparse(s.value.left):
                v = self.ev(s.value.right, st, fr)
                self.kept[old] += 1
                self.emit("call", (("attr", old, "extend"), (v,), (), ("call", ("attr", old, "extend"), (v,), ())), st, s, fr)
                return st
        return PathInterp.stmt(self, s, st, fr)

    def known(self, I, c, st):
        if self.empty(c):
            return False
        if c[0] == "cmp" and c[2][0] == c[3][0] == "const" and c[1] in ("==", "<", "<="):
            try:
                return {"==": operator.eq, "<": operator.lt, "<=": operator.le}[c[1]](c[2][1], c[3][1])
            except TypeError:
                return None
        if c in self.kept:
            return True if self.kept[c] and self.certain(c) else None if self.kept[c] else False
        if c[0] == "cmp" and c[2][0] == "len" and c[3] == ("const", 0) and c[1] == "==":
            return False if self.certain(c[2][1]) else None
        if c[0] == "cmp" and c[1] == "<" and c[2] == ("const", 0) and c[3][0] == "len":
            return True if self.certain(c[3][1]) else None
        if c[0] == "len":
            return True if self.certain(c[1]) else None
        for a in self.assumed:
            v = a(c)
            if v is not None:
                return v
        return None

    def certain(self, lst):
        """something was certainly put into the list"""
        return any(e.kind == "call" and e.a[0] == ("attr", lst, "append") for e in self.events)


def flag(p, value):
    """what the tests of a boolean parameter give when it has that value"""
    def f(c):
        if c == P(p):
            return value
        if c[0] == "cmp" and c[1] in ("is", "==") and c[2] == P(p) and c[3][0] == "const" and isinstance(c[3][1], bool):
            return c[3][1] is value
        return None
    return f


def given(p):
    def f(c):
        if c[0] == "cmp" and c[1] == "is" and c[2] == P(p) and c[3] == ("const", None):
            return False
        if c[0] == "cmp" and c[1] == "==" and c[2] == P(p):
            return False
        return None
    return f


def callbind(fn, call):
    kws = []
    for k, v in call[3]:
        d = pyai.dict_items(v) if k == "**" else None
        kws += list(d.items()) if d is not None else [(k, v)]
    return pyai.bind(fn, call[2], kws, None)


def arg(call, fn, p):
    """term of parameter p in a call of fn (its node), None when absent"""
    b = callbind(fn, call)
    return None if b is None else b.get(p)


def stripconv(t):
    while t[0] == "call" and t[1][0] == "name" and t[1][1] in ("list", "tuple", "set", "dict", "frozenset", "iter") and len(t[2]) == 1:
        t = t[2][0]
    return t


def under(g, views=True):
    """graphs a graph is a view of (itself included)"""
    out = set()
    todo = list(alts(g))
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if views and x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("subgraph", "edge_subgraph"):
            todo += alts(x[1][1])
        elif views and x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("subgraph_view", "induced_subgraph", "restricted_view", "freeze") and x[2]:
            todo += alts(x[2][0])
    return out


class C23(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        for n in (FME, FSE):
            if n not in self.m.functions:
                raise AnalysisBroken("%s has no function %s" % (REL, n))
        self.fns = {("name", n): f for n, f in self.m.functions.items()}
        self.bad = {}

    # ---------------------------------------------------------------- results per obligation, joined over paths
    def ob(self, rule, construct, ok, node, detail=""):
        k = (rule, construct)
        cur = self.bad.get(k)
        if cur is None or cur[0] and not ok:
            self.bad[k] = (bool(ok), node, detail if not ok else "")

    def flush(self):
        for (rule, construct), (ok, node, detail) in sorted(self.bad.items(), key=lambda x: x[0]):
            self.chk.ob(rule, construct, ok, self.m.where(node), detail)

    # ---------------------------------------------------------------- classification of calls
    def is_embedder(self, t):
        return t[0] == "call" and any(x == P("embedder") or x == ("name", "find_subgraph") or x[0] == "import" and x[2] == "find_subgraph" for x in alts(t[1]))

    def is_nested(self, t):
        return t[0] == "call" and t[1] in (("name", FME), ("name", FSE))

    def search(self, t):
        """(S, T) of a call that searches for embeddings, else None"""
        if self.is_embedder(t):
            kw = dict(t[3])
            a = list(t[2])
            return (a[0] if a else kw.get("S")), (a[1] if len(a) > 1 else kw.get("T"))
        if self.is_nested(t):
            fn = self.fns[t[1]]
            return arg(t, fn, "S"), arg(t, fn, "T")
        return None

    # ---------------------------------------------------------------- what a removal takes away
    def depth_of(self, t, emb):
        """how many levels of the embedding's values an iterable of nodes is: 1 = values themselves, 2 = their members"""
        t = stripconv(t)
        vals = [("sub", e, ("elem", e)) for e in emb]
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "values" and t[1][1] in emb:
            return 1
        if t[0] == "comp":
            x = t[2]
            if x in vals:
                return 1
            if any(x == ("elem", v) for v in vals):
                return 2
            if any(x == ("item", ("elem", ("call", ("attr", e, "items"), (), ())), 1) for e in emb):
                return 1
            return None
        if t[0] == "gen":
            return 1 if t[2] in vals else 2 if any(t[2] == ("elem", v) for v in vals) else None
        if t in self.carried:
            return self.carried[t]
        n = name(t)
        if n in ("from_iterable", "fromiter") and t[2]:
            d = self.depth_of(t[2][0], emb)
            return None if d is None else d + 1
        if n in ("chain", "union", "concat") and t[2] and t[2][0][0] == "star":
            d = self.depth_of(t[2][0][1], emb)
            return None if d is None else d + 1
        if n == "sum" and t[2]:
            d = self.depth_of(t[2][0], emb)
            return None if d is None else d + 1
        for v in vals:
            if t == v:
                return 2
            if t == ("elem", v):
                return 3
        return None

    carried = {}

    def carry(self, evs, stop, emb):
        """containers filled with the nodes of the embedding on this path"""
        self.carried = {}
        vals = [("sub", e, ("elem", e)) for e in emb]
        for e in evs:
            if e is stop:
                break
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1][0] == "new" and e.a[1]:
                x, d = e.a[1][0], None
                if e.a[0][2] in ("update", "extend"):
                    d = self.depth_of(x, emb)
                elif e.a[0][2] in ("add", "append"):
                    d = 1 if x in vals else 2 if any(x == ("elem", v) for v in vals) else None
                if d is not None:
                    self.carried[e.a[0][1]] = d

    def keeps(self, e):
        """(single, term) of a keep event"""
        n, x = e.a[0][2], e.a[1][0]
        if n in ("append", "insert"):
            return [(True, y) for y in alts(e.a[1][-1])]
        out = []
        for y in alts(x):
            y = stripconv(y)
            if y[0] in ("list", "tuple", "set"):
                out += [(True, z) for z in y[1]]
            elif y[0] == "new":
                pass
            else:
                out.append((False, y))
        return out

    def member(self, single, x):
        """terms that stand for one embedding of what was kept"""
        if single:
            return {x}
        return {("elem", x), pyai.elem(x)}

    # ---------------------------------------------------------------- one function, one setting of its flags
    def analyse(self, fn, label, flags, loopy=True):
        assumed = [flag(p, v) for p, v in flags] + [given("max_num_emb")]
        I = Paths(self.m, assumed, rounds=2)
        # the second round only matters up to its first search
        I.stop = lambda i, e: i.round >= 2 and e.kind == "call" and (self.search(e.a[3]) is not None or name(e.a[3]) in VALID)
        bind = {}
        for p, v in flags:
            if p in PathInterp.params(fn):
                bind[p] = ("const", v)
        n = 0
        two = dict(flags).get("one_to_iterable")
        for evs, cut in I.paths(fn, bind):
            n += 1
            self.path(fn, label, evs, cut, I, two, dict(flags))
        self.chk.count("paths of %s" % fn.name, n)
        if n < 4:
            raise AnalysisBroken("%s: %d paths through its search loop" % (fn.name, n))

    def result(self, I, evs):
        lists = set()
        for e in evs:
            if e.kind == "return" and len(e.stack) == 1:
                lists |= {x for y in alts(e.a[0]) for x in [self.base(y)] if x is not None}
        return lists or self.lists

    def base(self, t):
        while t[0] in ("sub", "call"):
            if t[0] == "sub":
                t = t[1]
            elif t[1][0] == "name" and t[1][1] in ("list", "tuple") and t[2]:
                t = t[2][0]
            else:
                return None
        return t if t[0] in ("new", "list") else None

    def path(self, fn, label, evs, cut, I, two, flags):
        lists = self.lists_of(fn)
        rounds = {}
        cur, loop, over = 0, None, None
        for e in evs:
            if e.kind == "round" and (loop is None or e.node is loop):
                loop, cur = e.node, e.a[0]
                rounds[cur] = [e]
                over = None
            elif e.kind == "over" and e.node is loop:
                over = (cur, e.a[0])
            elif loop is not None and cur and over is None:
                rounds[cur].append(e)
        if loop is None:
            return
        one = rounds.get(1, [])
        kept = [e for e in one if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("append", "extend", "insert") and e.a[0][1] in lists and e.a[1]]
        self.guards(fn, one, flags)
        if not kept:
            return
        ended = over is not None and over[0] == 1 or (2 not in rounds)
        # --- (b) valid: result of a search on the working graph, or checked
        nxt = None
        for e in rounds.get(2, []):
            if e.kind == "call":
                s = self.search(e.a[3])
                if s is not None:
                    nxt = (e, s[1])
                    break
                if name(e.a[3]) in VALID and len(e.a[3][2]) >= 3:
                    nxt = (e, e.a[3][2][2])
                    break
        for e in kept:
            for single, x in self.keeps(e):
                self.valid(fn, label, one, e, single, x, two)
        # --- (c) bounded
        self.bounded(fn, label, rounds, one, kept, nxt, ended or nxt is None)
        # --- (a) disjoint
        if ended or nxt is None:
            return
        if self.last_round(one, evs):
            return
        allev = one + rounds.get(2, [])
        removed = []
        stopat = nxt[0]
        for e in allev:
            if e is stopat:
                break
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("remove_nodes_from", "remove_node", "difference_update") and e.a[1]:
                removed.append(e)
        want = 2 if two else 1
        for e in kept:
            for single, x in self.keeps(e):
                mem = self.member(single, x)
                mem |= {("elem", l) for l in lists} | {("sub", l, ("const", -1)) for l in lists}
                self.carry(allev, stopat, mem)
                hit = False
                why = "nothing removes its nodes before the next search"
                for r in removed:
                    d = self.depth_of(r.a[1][0], mem)
                    if d is not None and r.a[0][2] == "remove_node":
                        d -= 1
                    if d is None:
                        if any(mentions(r.a[1][0], y) for y in mem):
                            why = "its nodes are not removed as a whole: %s" % show(r.a[1][0])[:120]
                        continue
                    if d != want:
                        why = "%s are removed instead of the target nodes%s" % (("whole chains", "members of nodes")[d > want], " (one_to_iterable=%s)" % bool(two))
                        continue
                    rec, nextg = set(alts(r.a[0][1])), under(nxt[1])
                    if not rec <= nextg:
                        why = "the nodes are removed from another graph than the next search uses"
                        continue
                    hit = True
                    break
                if not hit and any(mentions(nxt[1], y) for y in mem | set(lists) | {c for c, d in self.carried.items() if d == want}):
                    hit = True        # the next graph is built from what was kept
                self.ob("disjoint", "%s: %s" % (fn.name, label), hit, e.node, why)

    def lists_of(self, fn):
        got = getattr(self, "_lists", {}).get(fn.name)
        if got is None:
            I = pyai.Interp(self.m)
            I.opaque |= {("name", n) for n in (FME, FSE)}
            I.run(fn)
            got = set()
            for y in subterms(I.ret):
                if y[0] in ("new",) and y[1] == "list":
                    got.add(y)
            self._lists = getattr(self, "_lists", {})
            self._lists[fn.name] = got
            if not got:
                raise AnalysisBroken("%s: the list of embeddings it returns was not found" % fn.name)
        return got

    def last_round(self, one, evs):
        """the path has decided that there is no further round: at most one embedding is wanted"""
        it = one[0].a[1]
        if it is None:
            return False
        m = it if it[0] == "call" and it[1] == ("name", "range") else None
        if m is None or len(m[2]) != 1:
            return False
        for n in [m[2][0]] + alts(m[2][0]):
            for e in one:
                if e.kind == "decide":
                    l = less(*e.a)
                    if l is not None:
                        f, strict = l
                        if f == {n: 1, None: -1} and not strict or f == {n: 1, None: -2} and strict or f == {n: 1} and strict:
                            return True
                    c, t = e.a
                    while c[0] == "not":
                        c, t = c[1], not t
                    if t and c[0] == "cmp" and c[1] == "==" and c[2] == n and c[3] == ("const", 1):
                        return True
        return False

    # ---------------------------------------------------------------- (b)
    def valid(self, fn, label, one, keep, single, x, two):
        cons = "%s: what is kept" % fn.name
        src = None
        y = stripconv(x)
        while y[0] == "sub" and y[2][0] in ("const", "slice") or y[0] == "elem":
            y = y[1]
        if y[0] == "comp" and y[1] == "list":
            y2 = y[2]
            y = y2[1] if y2[0] == "elem" else y2
        if y[0] == "call" and self.search(y) is not None:
            src = y
        if src is not None:
            if self.is_embedder(src):
                empty = self.nonempty(one, src, keep)
                self.ob("non-empty", cons, empty, keep.node, "what the embedder returns is kept without testing that it is an embedding")
            self.ob("found-or-checked", cons, True, keep.node)
            return
        # a proposal: checked by the same path
        ok, why = False, "neither the result of a search nor checked: %s" % show(x)[:120]
        for e in one:
            if e is keep:
                break
            if e.kind == "decide":
                c, t = e.a
                while c[0] == "not":
                    c, t = c[1], not t
                if t and name(c) in VALID and c[2] and x in alts(c[2][0]):
                    ok, why = self.checkargs(fn, c, two)
                elif not t and name(c) in VALID and c[2] and c[2][0] == x:
                    why = "kept although the check says that it is not valid"
        self.ob("found-or-checked", cons, ok, keep.node, why)

    def checkargs(self, fn, c, two):
        a = list(c[2]) + [None] * 4
        kw = dict(c[3])
        S, T, o = a[1] or kw.get("S"), a[2] or kw.get("T"), a[3] or kw.get("one_to_iterable")
        if S != P("S"):
            return False, "checked against something else than the source graph"
        if T is None or not any(param_in(g, "T") for g in alts(T)) and not any(name(g) == "_local_graph" for g in alts(T)):
            return False, "checked against something else than the target graph: %s" % show(T)[:80]
        if any(g == P("T") for g in alts(T)) and len(alts(T)) == 1:
            return False, "checked against the whole target graph, in which used nodes are still there"
        if name(c) == "_is_valid_embedding":
            if two and o is not None and const_truth(o) is not True or not two and (o is None or const_truth(o) is not False):
                return False, "checked for the other kind of embedding"
        return True, ""

    def nonempty(self, one, src, keep):
        for e in one:
            if e is keep:
                return False
            if e.kind != "decide":
                continue
            c, t = e.a
            while c[0] == "not":
                c, t = c[1], not t
            c = unwrap(c, src)
            if t and (c == src or c == ("call", ("name", "len"), (src,), ()) or c == ("call", ("name", "bool"), (src,), ())):
                return True
            if c[0] == "cmp" and c[2] == ("call", ("name", "len"), (src,), ()) and c[3][0] == "const":
                if c[1] == "==" and (not t) == (c[3][1] == 0):
                    return True
            l = less(c, t)
            if l is not None and l[0] in ({("call", ("name", "len"), (src,), ()): -1}, {("call", ("name", "len"), (src,), ()): -1, None: 1}):
                return True
            if c[0] == "cmp" and c[1] == "==" and c[2] == src and not t and c[3] in (("dict", ()),) or c[0] == "cmp" and c[1] == "==" and not t and c[2] == src and c[3][0] == "new":
                return True
        return False

    # ---------------------------------------------------------------- (c)
    def bounded(self, fn, label, rounds, one, kept, nxt, ended):
        cons = "%s: number of embeddings" % fn.name
        it = one[0].a[1]
        lists = self.lists_of(fn)

        def limit(n):
            about = [x for x in alts(n) if param_in(x, "max_num_emb")]
            return bool(about) and all(self.at_most(x) for x in about)
        if it is not None and it[0] == "call" and it[1] == ("name", "range") and len(it[2]) == 1 and limit(it[2][0]):
            single = [s for e in kept for s, x in self.keeps(e)]
            self.ob("bounded", cons, len(single) <= 1 and all(single) or self.bulk(fn, kept, lists, limit, nxt), kept[-1].node, "more than one embedding can be kept in a round of a loop of max_num_emb rounds")
            return
        ok = self.bulk(fn, kept, lists, limit, nxt)
        why = "a nested search may return more than what is still wanted"
        if ok and not ended:
            ok = self.compared(rounds, kept, lists, limit)
            why = "the search goes on without comparing the number of embeddings with max_num_emb"
        self.ob("bounded", cons, ok, kept[-1].node, why)

    def at_most(self, x):
        """x cannot exceed max_num_emb"""
        x = stripconv(x)
        if x[0] == "call" and x[1] in (("name", "min"), ("name", "sorted")) and x[2]:
            xs = [y for a in x[2] for y in ([a] if a[0] not in ("tuple", "list") else a[1])]
            return any(all(self.at_most(z) for z in alts(y)) for y in xs)
        if x[0] == "call" and x[1] == ("name", "max"):
            return all(a[0] == "const" or self.at_most(a) for a in x[2])
        if x[0] == "call" and x[1][-1] in ("round", "floor", "trunc", "int", "index") and x[2]:
            return all(self.at_most(a) for a in alts(x[2][0]))
        if x[0] == "op" and x[1] == "-":
            return self.at_most(x[2])
        if x[0] == "op" and x[1] == "//":
            return self.at_most(x[2])
        return x[0] != "op" and param_in(x, "max_num_emb")

    def bulk(self, fn, kept, lists, limit, nxt):
        for e in kept:
            for single, x in self.keeps(e):
                if single:
                    continue
                y = x
                while y[0] == "sub":
                    if y[2][0] == "slice" and y[2][2] is not None and limit(y[2][2]):
                        break
                    y = y[1]
                else:
                    if self.is_nested(y):
                        # the search of the next round must not be asked for what was found already
                        calls = [y] + ([nxt[0].a[3]] if nxt is not None and self.is_nested(nxt[0].a[3]) else [])
                        for i, c in enumerate(calls):
                            n = arg(c, self.fns[c[1]], "max_num_emb")
                            f = lin(n) if n is not None else {}
                            cnt = [k for k in f if k is not None and k[0] == "len" and k[1] in lists and f[k] == -1]
                            rest = [k for k in f if k is not None and k not in cnt]
                            if not (len(cnt) == (i > 0) and len(rest) == 1 and f[rest[0]] == 1 and limit(rest[0]) and f.get(None, 0) <= 0):
                                return False
                    else:
                        return False
        return True

    def compared(self, rounds, kept, lists, limit):
        seq = rounds[1] + rounds.get(2, [])
        seen = False
        for e in seq:
            if e is kept[-1]:
                seen = True
            if seen and e.kind == "decide":
                l = less(*e.a)
                if l is None:
                    c, t = e.a
                    while c[0] == "not":
                        c, t = c[1], not t
                    continue
                f, strict = l
                cnt = [k for k in f if k is not None and (k[0] == "len" and k[1] in lists)]
                rest = [k for k in f if k is not None and k not in cnt]
                if len(cnt) == 1 and f[cnt[0]] == 1 and len(rest) == 1 and f[rest[0]] == -1 and limit(rest[0]):
                    c = f.get(None, 0)
                    # len + c - N < 0
                    if strict and c >= 0 or not strict and c >= 1:
                        return True
        return False

    # ---------------------------------------------------------------- (e) and the filter
    def guards(self, fn, one, flags):
        late = None
        for e in one:
            if e.kind == "decide":
                l = less(*e.a)
                if l is not None:
                    f, strict = l
                    now = [k for k in f if k is not None and k[0] == "clock" and k[2] and f[k] == 1]
                    start = [k for k in f if k is not None and k[0] == "clock" and not k[2] and f[k] == -1]
                    tm = [k for k in f if k is not None and k == P("timeout") and f[k] == -1]
                    if now and start and tm and f.get(None, 0) <= 0:
                        late = e
                    neg = [k for k in f if k is not None and k[0] == "clock" and k[2] and f[k] == -1]
            if e.kind == "call":
                t = e.a[3]
                if self.is_embedder(t) or self.is_nested(t) or name(t) == "_mapped_proposal":
                    self.ob("deadline", "%s: %s" % (fn.name, name(t) or "embedder"), late is not None, e.node,
                            "reached without having found that the time given is not over")

    # ---------------------------------------------------------------- (d) options, on the joined run
    def options(self, fn, flags, label):
        I = pyai.Interp(self.m)
        I.opaque |= {("name", n) for n in (FME, FSE, "shuffle_graph", "_mapped_proposal", "_local_graph", "_is_valid_embedding") + FILTERS}
        shuffled = dict(flags).get("shuffle_all_graphs")
        bind = {p: ("const", v) for p, v in flags if p in PathInterp.params(fn)}
        evs = list(I.run(fn, bind))
        mine = set(PathInterp.params(fn))
        nst = {}
        for e in evs:
            if e.kind != "call":
                continue
            t = e.a[3]
            if self.is_nested(t):
                callee = self.fns[t[1]]
                b = callbind(callee, t)
                if b is None:
                    raise AnalysisBroken("%s: arguments of %s cannot be matched" % (fn.name, t[1][1]))
                S, T = b.get("S"), b.get("T")
                whole = T is not None and any(self.from_target(x) for x in alts(T))
                where = "the target" if whole and any(x == P("T") for x in alts(T)) else "a part of the target" if whole else "the tile"
                for p in PathInterp.params(callee):
                    if p not in mine or p in ("S", "T"):
                        continue
                    v = b.get(p)
                    cons = "%s -> %s on %s: %s" % (fn.name, t[1][1], where, p)
                    if v is None:
                        self.ob("options", cons, False, e.node, "%s is not passed on" % p)
                        continue
                    if p in dict(flags):
                        want = ("const", dict(flags)[p])
                        ok = all(x == want for x in alts(v)) or p == "use_filter" and (not whole or any(x == want for x in alts(v)))
                        if p == "shuffle_all_graphs" and S is not None and mentions_call(S, "shuffle_graph"):
                            ok = True
                    else:
                        ok = any(param_in(x, p) for x in alts(v)) or not whole and p in ("max_num_emb", "use_filter")
                        if not ok and p == "seed":
                            ok = any(mentions_call(x, "default_rng") and param_in(x, p) for x in alts(v))
                    if p == "timeout":
                        ok = ok and remaining(v)
                    self.ob("options", cons, ok, e.node, "%s is %s" % (p, show(v)[:100]))
            if self.is_embedder(t):
                kw = [v for k, v in t[3] if k == "**"]
                ok = any(param_in(v, "embedder_kwargs") for v in kw)
                self.ob("options", "%s: embedder_kwargs" % fn.name, ok, e.node, "the embedder is called without embedder_kwargs")
                if self.is_embedder(t) and not any(x == P("embedder") for x in alts(t[1])):
                    self.ob("options", "%s: embedder" % fn.name, False, e.node, "the embedder given is not used")
                if shuffled:
                    S, T = self.search(t)
                    for lbl, g in (("S", S), ("T", T)):
                        ok = g is not None and all(mentions_call(x, "shuffle_graph") and param_in(x, lbl) for x in alts(g))
                        self.ob("shuffled", "%s: %s" % (fn.name, lbl), ok, e.node, "with shuffle_all_graphs the embedder is given %s" % show(g)[:100])
                else:
                    S, T = self.search(t)
                    for lbl, g in (("S", S), ("T", T)):
                        ok = g is not None and all(param_in(x, lbl) for x in alts(g))
                        self.ob("searched", "%s: %s" % (fn.name, lbl), ok, e.node, "the embedder is given %s" % show(g)[:100])
            if name(t) in FILTERS:
                two = dict(flags).get("one_to_iterable")
                kw = dict(t[3])
                if name(t) == FILTERS[0]:
                    o = t[2][2] if len(t[2]) > 2 else kw.get("one_to_one")
                    T = t[2][1] if len(t[2]) > 1 else kw.get("T")
                else:
                    o = t[2][2] if len(t[2]) > 2 else kw.get("one_to_one")
                    T = None
                ok = o is not None and const_truth(o) is (not two)
                self.ob("filter", "%s: %s is told the kind of embedding" % (fn.name, name(t)), ok, e.node, "one_to_one is %s with one_to_iterable=%s" % (show(o)[:60] if o else None, two))
                on = any(p and param_in(c, "use_filter") for c, p in e.conds)
                self.ob("filter", "%s: %s only with use_filter" % (fn.name, name(t)), on, e.node, "the filter is applied whatever use_filter says")
        if dict(flags).get("use_filter") is None:
            pass
        return evs

    def from_target(self, x):
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y == P("T") or name(y) == "_local_graph":
                return True
            if y[0] == "alt":
                todo += alts(y)
            elif y[0] == "call" and y[1][0] == "attr" and y[1][2] in ("subgraph", "copy", "edge_subgraph"):
                todo.append(y[1][1])
            elif y[0] == "call" and y[2] and name(y) in ("deepcopy", "copy", "Graph", "subgraph_view", "induced_subgraph", "shuffle_graph"):
                todo.append(y[2][0])
        return False

    # ---------------------------------------------------------------- randomness
    def mappings(self, t):
        t = stripconv(t)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("permutation", "permuted", "sample", "islice") and t[2]:
            return self.mappings(t[2][0])
        if t[0] == "comp" and t[4]:
            return any(self.mappings(x) for x in t[4])
        return t[0] == "call" and any(x[-1] == "sublattice_mappings" or isinstance(x[-1], str) and x[-1].endswith("sublattice_mappings") for x in alts(t[1]))

    def randomness(self, fn):
        I = pyai.Interp(self.m)
        I.opaque |= {("name", n) for n in (FME, FSE, "shuffle_graph")}
        if "shuffle_sublattice_order" in PathInterp.params(fn):
            evs = I.run(fn, {"shuffle_sublattice_order": ("const", True)})
            ok, node = False, fn
            shuffles = [e for e in evs if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("shuffle", "permutation", "permuted", "choice", "sample")]
            its = set()
            for e in evs:
                for c, p in e.conds:
                    if c[0] == "for" and any(self.mappings(x) for x in alts(c[1])):
                        its.add(c[1])
            if not its:
                raise AnalysisBroken("%s: the loop over the sublattice mappings was not found" % fn.name)
            for it in its:
                while it[0] == "call" and it[1] == ("name", "iter") and it[2]:
                    it = it[2][0]
                ok = any(e.a[1] and e.a[1][0] == it or mentions(it, e.a[3]) for e in shuffles) or any(
                    e.a[1] and set(alts(it)) <= set(alts(e.a[1][0])) for e in shuffles)
                self.ob("shuffled", "%s: sublattices" % fn.name, ok, node, "with shuffle_sublattice_order the sublattices are tried in the order %s" % show(it)[:100])
            self.ob("shuffled", "%s: sublattices only on request" % fn.name, not any(
                e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("shuffle", "permutation") for e in
                list(I.run(fn, {"shuffle_sublattice_order": ("const", False), "shuffle_all_graphs": ("const", False)}))), fn, "")
        for e in I.run(fn):
            if e.kind == "call" and e.a[0][-1] in ("default_rng", "RandomState"):
                given = [x for a in list(e.a[1]) + [v for k, v in e.a[2]] for x in alts(a)]
                ok = bool(given) and all(param_in(x, "seed") for x in given)
                self.ob("seeded", "%s: generator" % fn.name, ok, e.node, "a generator that does not come from seed")
            if e.kind == "call" and e.a[0] == ("name", "shuffle_graph"):
                b = callbind(self.fns[e.a[0]], e.a[3]) if e.a[0] in self.fns else None
                s = (b or {}).get("seed")
                self.ob("seeded", "%s: shuffle_graph" % fn.name, s is not None and param_in(s, "seed"), e.node, "shuffle_graph is not given the seed")

    def shuffle_graph(self):
        fn = self.m.functions.get("shuffle_graph")
        if fn is None:
            raise AnalysisBroken("shuffle_graph is gone")
        I = pyai.Interp(self.m)
        evs = I.run(fn)

        def content(t, what):
            for x in alts(t):
                while x[0] == "call" and (x[1][0] == "name" and x[1][1] in ("list", "tuple", "sorted") and x[2] or x[1][0] == "attr" and x[1][2] in ("permutation", "sample", "permuted") and x[2]):
                    x = x[2][0]
                if x[0] == "comp" and not x[5] and x[2] == ("elem", x[4][0]):
                    x = x[4][0]
                if x[0] == "comp" and not x[5] and x[2][0] == "sub":
                    x = x[2][1]
                    while x[0] == "call" and x[1][0] == "name" and x[1][1] in ("list", "tuple") and x[2]:
                        x = x[2][0]
                if x[0] == "call" and not x[2] and not x[3]:
                    x = x[1]
                if what == "nodes" and x == P("G"):
                    continue
                if x != ("attr", P("G"), what):
                    return False
            return True
        outs = {x for x in alts(I.ret)}
        got = {"nodes": False, "edges": False}
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] in outs and e.a[0][2] in ("add_node", "add_edge") and e.a[1]:
                fs = [c for c, p in e.conds if c[0] != "for"]
                what = "nodes" if e.a[0][2] == "add_node" else "edges"
                x = e.a[1][0]
                if what == "edges" and len(e.a[1]) > 1:
                    x = x[1] if x[0] == "item" and x[2] == 0 and e.a[1][1] == ("item", x[1], 1) else ("none",)
                if what == "edges" and e.a[1][0][0] == "star":
                    x = e.a[1][0][1]
                if not fs and x[0] == "elem" and content(x[1], what):
                    got[what] = True
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] in outs and not any(c[0] not in ("for",) for c, p in e.conds):
                if e.a[0][2] in ("add_nodes_from", "add_edges_from") and e.a[1]:
                    what = "nodes" if "nodes" in e.a[0][2] else "edges"
                    if content(e.a[1][0], what):
                        got[what] = True
        for w in ("nodes", "edges"):
            self.ob("same-graph", "shuffle_graph: %s" % w, got[w], fn, "the shuffled graph is not given all the %s of the graph" % w)
        sh = [e for e in evs if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("shuffle", "permutation", "permuted")]
        self.ob("seeded", "shuffle_graph: generator", all(param_in(e.a[0], "seed") for e in sh) and len(sh) >= 2, fn, "nodes and edges are not both shuffled with a generator made from seed")

    def local_graph(self):
        """the graph the sublattices are cut out of has the nodes and edges of the target given"""
        fn = self.m.functions.get("_local_graph")
        if fn is None or "T" not in PathInterp.params(fn):
            return
        T = ("sym", "T")
        I = EveryPath(self.m, rounds=1, assume=lambda i, c, st: False if c[0] == "cmp" and c[1] == "is" and c[2:] in (
            (T, ("const", None)), (("const", None), T)) else None)
        seen = {}
        for evs, end in I.paths(fn, {"T": T}):
            if I.ret is None:
                continue
            for t in alts(I.ret):
                x = t
                while x[0] == "call" and (x[1][0] == "attr" and x[1][2] == "copy" or name(x) in ("deepcopy", "copy", "Graph")):
                    x = x[1][1] if x[1][0] == "attr" and x[1][2] == "copy" and not x[2] else x[2][0] if x[2] else ("none",)
                if x == T:
                    seen.setdefault("copied", (True, ""))
                    continue
                if x[0] == "const" or x[0] != "call" or not str(x[1][-1]).endswith("_graph"):
                    continue
                kw = {}

                def add(d):
                    for y in alts(d):
                        if y[0] == "dict":
                            for k, v in y[1]:
                                if k == ("**",):
                                    add(v)
                                elif k[0] == "const":
                                    kw[k[1]] = v
                        elif y[0] == "call" and (y[1] == ("name", "dict") or y[1][0] == "attr" and y[1][2] == "copy"):
                            for z in y[2][:1]:
                                add(z)
                            for k, v in y[3]:
                                if k == "**":
                                    add(v)
                                else:
                                    kw[k] = v
                        for e in evs:
                            if e.kind == "store_sub" and e.a[0] == y and e.a[1][0] == "const":
                                kw[e.a[1][1]] = e.a[2]
                            if e.kind == "call" and e.a[0] == ("attr", y, "update") and y != x:
                                for z in e.a[1]:
                                    add(z)
                                kw.update((k, v) for k, v in e.a[2] if k != "**")
                for k, v in x[3]:
                    if k == "**":
                        add(v)
                    else:
                        kw[k] = v
                for key, what in (("node_list", "nodes"), ("edge_list", "edges")):
                    v = kw.get(key)
                    c = v
                    while c is not None and c[0] == "call" and (c[1][0] == "name" and c[2] or c[1][0] == "attr" and not c[2]):
                        c = c[2][0] if c[1][0] == "name" else c[1]
                    ok = c == ("attr", T, what) or what == "nodes" and c == T
                    cons = "%s: %s" % (x[1][-1], what)
                    if cons not in seen or not ok:
                        seen[cons] = (ok, "" if ok else "built for the target given with %s %s" % (key, "left out" if v is None else show(v)[:80]))
        for cons, (ok, why) in sorted(seen.items()):
            self.ob("same-graph", "_local_graph: %s" % cons, ok, fn, why)

    def run(self):
        self.local_graph()
        for two in (False, True):
            for sh in (False, True):
                self.analyse(self.m.functions[FME], "one_to_iterable=%s" % two, [("one_to_iterable", two), ("shuffle_all_graphs", sh)])
            self.analyse(self.m.functions[FSE], "one_to_iterable=%s" % two, [("one_to_iterable", two)])
            for n in (FME, FSE):
                for sh in (False, True):
                    self.options(self.m.functions[n], [("one_to_iterable", two), ("shuffle_all_graphs", sh)], "")
        for n in (FME, FSE):
            self.randomness(self.m.functions[n])
        self.shuffle_graph()
        self.flush()


def unwrap(t, src):
    """t with copies of src replaced by src"""
    if t != src and len(t) == 4 and t[0] == "call" and stripconv(t) == src:
        return src
    if isinstance(t, tuple):
        return tuple(unwrap(x, src) if isinstance(x, tuple) else x for x in t)
    return t


def mentions_call(t, n):
    return any(name(x) == n for x in subterms(t))


def remaining(v):
    """the time that is left: the deadline less the clock"""
    for x in alts(v):
        if x[0] == "call" and x[1] == ("name", "max"):
            x = [a for a in x[2] if a[0] != "const"][0] if [a for a in x[2] if a[0] != "const"] else x
        if not (x[0] == "op" and x[1] == "-" and param_in(x[2], "timeout") and not param_in(x[3], "timeout") and any(
                y[0] == "call" and y[1][-1] in CLOCKS for y in subterms(x[3]))):
            return False
    return True


def make():
    chk = Check("C23", "path enumeration over provenance terms of the search loops",
                "Every path through the search loops of find_multiple_embeddings and find_sublattice_embeddings, for both kinds of embedding: "
                "what is kept, where it comes from, what is removed from which graph before the next search, and the tests passed; every "
                "nested search with every option.",
                ["networkx remove_nodes_from ignores nodes that are not there", "the embedder returns an embedding of its first in its second argument, or something empty"])
    chk.rule("disjoint", "the target nodes of what is kept are removed from the graph of the next search")
    chk.rule("found-or-checked", "what is kept was returned by a search or checked against source and working graph")
    chk.rule("non-empty", "what an embedder returns is only kept when it is an embedding")
    chk.rule("bounded", "no more than max_num_emb embeddings are returned")
    chk.rule("deadline", "nothing is searched after the time given")
    chk.rule("options", "every option reaches the nested searches and the embedder")
    chk.rule("shuffled", "the shuffling options shuffle what they say")
    chk.rule("searched", "the embedder is given the source and (what is left of) the target")
    chk.rule("filter", "the feasibility filter is used only on request and for the right kind of embedding")
    chk.rule("seeded", "random choices come from the seed")
    chk.rule("same-graph", "a shuffled graph, and the lattice graph made for a target, has the nodes and edges of the graph given")
    C23(chk).run()
    chk.need("disjoint", 4)
    chk.need("found-or-checked", 2)
    chk.need("bounded", 2)
    chk.need("deadline", 2)
    chk.need("options", 20)
    return chk


if __name__ == "__main__":
    main(make)
