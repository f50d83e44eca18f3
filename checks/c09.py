"""C09: find_embedding's return contract."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS, LOOPS
from cname import cname
from flow import AI, Mods, path, strip_casts
import pyfront
from pyai import Interp, alts, conv, subterms, show, mentions, method, elem

BOOLISH = {"bool", "int"}


def strip(t):
    while t[0] == "call" and t[1] in (("name", "bool"), ("name", "int")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def overlap_cond(c, IN):
    """condition on the return_overlap option"""
    c = strip(c)
    if c[0] == "attr" and c[2] == "return_overlap":
        return True
    if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "get" and c[2] and c[2][0] == ("const", "return_overlap"):
        return True
    if c[0] == "sub" and c[2] == ("const", "return_overlap"):
        return True
    if c[0] == "cmp" and c[1] == "==" and c[3] in (("const", True), ("const", 1)):
        return overlap_cond(c[2], IN)
    return False


def is_dict(t):
    return t[0] == "new" and t[1] == "dict" or t == ("dict", ()) or t[0] == "comp" and t[1] == "dict"


def find_python(chk, m, q, native_call):
    fn = m.functions.get(q)
    if fn is None:
        raise AnalysisBroken("%s vanished" % q)
    I = Interp(m)
    for op in ("_read_graph", "_get_chainmap", "_input_parser"):
        I.opaque.add(("name", op))
    I.run(fn)
    rets = [e for e in I.events if e.kind == "return" and e.stack[-1] is fn]
    if not rets:
        raise AnalysisBroken("%s returns nothing" % q)
    chk.count("return statements analysed", len(rets))
    dicts = []
    normal = 0
    for e in rets:
        exc = [c for c, p in e.conds if c[0] == "except"]
        ov = [p for c, p in e.conds if overlap_cond(c, None)]
        v = e.a[0]
        # value per outcome of the option: an if-expression leaves its alternatives in the term, a statement in the guards
        shapes = []
        for a in alts(v):
            if a[0] == "tuple":
                shapes.append(("pair", a))
            elif is_dict(a):
                shapes.append(("map", a))
            else:
                shapes.append(("?", a))
        kinds = sorted({s for s, _ in shapes})
        where = m.where(e.node)
        if "?" in kinds:
            chk.ob("shape", "%s: return %s" % (q, show(v)[:60]), False, where, "returns neither a dict nor a pair")
            continue
        if len(set(ov)) == 1 and len(kinds) == 1:
            chk.ob("shape", "%s: %s%s" % (q, "pair" if kinds == ["pair"] else "dict", " (empty source)" if exc else ""),
                   (kinds == ["pair"]) == ov[0], where, "return_overlap=%s returns a %s" % (ov[0], kinds[0]))
        else:
            # the shape is chosen inside the returned expression or in a helper
            good, why = not ov, ""
            for s, a in shapes:
                sel = [x for x in I.events if x.kind in ("choice", "return", "store_name") and x is not e and x.a[-1] == a]
                pols = {p for x in sel for c, p in x.conds if overlap_cond(c, None)}
                extra = [show(c) for x in sel for c, p in x.conds if not overlap_cond(c, None) and (c, p) not in e.conds and c[0] not in ("except", "for", "while")]
                if not pols and not extra:
                    # a default that is overwritten in the other case
                    mine = {x.a[0] for x in sel if x.kind == "store_name"}
                    last = max([I.events.index(x) for x in sel] or [0])
                    for s2, b in shapes:
                        for x in I.events[last:]:
                            if s2 != s and x.kind == "store_name" and x.a[-1] == b and x.a[0] in mine:
                                pols |= {not p for c, p in x.conds if overlap_cond(c, None)}
                if pols != {s == "pair"} or extra:
                    good, why = False, "a %s is returned %s" % ("pair" if s == "pair" else "dict", "also if %s" % extra if extra else "whatever return_overlap says")
            chk.ob("shape", "%s: pair iff return_overlap%s" % (q, " (empty source)" if exc else ""), good, where, why)
        others = [show(c) for c, p in e.conds if not overlap_cond(c, None) and c[0] not in ("except", "for", "while")]
        chk.ob("shape", "%s: return %s, always" % (q, kinds[0]), not others, where, "another condition decides the result: %s" % others)
        maps = [a for s, a in shapes if s == "map"]
        if maps and not exc:
            dicts.append((tuple(maps), e))
        for s, a in shapes:
            mp = a[1][0] if s == "pair" else a
            if s == "pair":
                ok = len(a[1]) == 2 and all(is_dict(x) for x in alts(mp))
                chk.ob("shape", "%s: the pair is (embedding, flag)" % q, ok, where, "returns %s" % show(a))
                if len(a[1]) == 2:
                    f = strip(a[1][1])
                    good = (f == ("const", 1) or f == ("const", True)) if exc else native_call(f)
                    chk.ob("flag", "%s: flag%s" % (q, " (empty source)" if exc else ""), good, where, "the flag is %s" % show(a[1][1]))
            if exc:
                chk.ob("filled", q + ": empty source gives an empty embedding", mp == ("dict", ()) or mp[0] == "new" and not any(
                    x.kind == "store_sub" and x.a[0] == mp for x in I.events), where, "")
            elif s == "pair":
                dicts.append((tuple(alts(mp)), e))
        if not exc:
            normal += 1
    if not normal:
        raise AnalysisBroken("%s: no ordinary return" % q)
    return fn, I, dicts


def filled(chk, m, q, I, fn, dicts, guard_ok, is_size, chain_of):
    """the mapping holds every non-pin chain, as a list of target labels under its source label"""
    done = set()
    for mps, ret in dicts:
        fills = []
        for mp in mps:
            if mp[0] == "comp":
                sel = [list(x.conds) for x in I.events if x.kind in ("choice", "store_name") and x.a[-1] == mp] or [list(ret.conds)]
                cs = [c for c in sel[0] if all(c in o for o in sel)]
                cs = max(sel, key=len) if len(sel) > 1 else cs
                fills.append((mp[2], mp[3], [c for c in cs if not overlap_cond(c[0], None)] + [(("for", it, (0, 0)), True) for it in mp[4]] +
                              [(c, True) for c in mp[5]], ret.node))
            for e in I.events:
                if e.kind == "store_sub" and (e.a[0] == mp or e.a[0][0] == "alt" and mp in alts(e.a[0])):
                    fills.append((e.a[1], e.a[2], list(e.conds), e.node))
        if mps in done:
            continue
        done.add(mps)
        if not fills:
            chk.ob("filled", q + ": mapping", False, m.where(fn), "the result is never filled")
        for k, v, conds, node in fills:
            where = m.where(node)
            lab = method(k, "label")
            idx = lab[1][0] if lab and lab[1] else None
            chk.ob("filled", q + ": keys", lab is not None and lab[0][0] == "attr" and lab[0][2] == "SL", where, "keys are %s" % show(k))
            lists = v[0] == "comp" and v[1] == "list" or v[0] == "call" and v[1] == ("name", "list") or v[0] == "list"
            chk.ob("filled", q + ": values are lists", lists, where, "values are %s" % show(v)[:80])
            fors = [c for c, p in conds if c[0] == "for"]
            rng = None
            for f in fors:
                it = f[1]
                if it[0] == "call" and it[1] == ("name", "range") and len(it[2]) == 1 and idx == elem(it):
                    rng = it[2][0]
                elif it[0] == "call" and it[1] == ("name", "range") and len(it[2]) == 2 and it[2][0] == ("const", 0) and idx == elem(it):
                    rng = it[2][1]
            pin = rng is not None and strip(rng)[0] == "op" and strip(rng)[1] == "-" and is_size(strip(strip(rng)[2])) and \
                strip(strip(rng)[3])[0] == "attr" and strip(strip(rng)[3])[2] == "pincount"
            chk.ob("filled", q + ": every variable but the pins", pin, where, "fills the entries of %s" % (show(rng) if rng is not None else [show(f[1]) for f in fors]))
            if v[0] == "call" and v[1] == ("name", "list") and len(v[2]) == 1 and v[2][0][0] == "comp":
                v = v[2][0]
            it = v[4][0] if v[0] == "comp" and v[4] else v[2][0] if v[0] == "call" and v[2] else None
            src = chain_of(it, idx, node, conds) if it is not None else False
            chk.ob("filled", q + ": chain of its own variable", src, where, "the chain is %s" % (show(it) if it is not None else "?"))
            extra = [c for c in (v[5] if v[0] == "comp" else ())]
            chk.ob("filled", q + ": whole chain", not extra, where, "qubits are dropped if %s" % [show(x) for x in extra])
            bad = []
            for c, p in conds:
                if c[0] in ("for", "while", "except"):
                    continue
                if not guard_ok(c, p):
                    bad.append(("" if p else "not ") + show(c))
            chk.ob("filled", q + ": no other condition", not bad, where, "filled only if %s" % bad)


def python(chk):
    m = pyfront.load("minorminer/_minorminer.pyx")

    # the function
    def is_native(t):
        return t[0] == "call" and t[1] == ("name", "findEmbedding")
    fn, I, dicts = find_python(chk, m, "find_embedding", is_native)
    calls = [e for e in I.events if e.kind == "call" and e.a[0] == ("name", "findEmbedding")]
    if not calls:
        raise AnalysisBroken("find_embedding no longer calls the native search")
    chains = {e.a[1][3] for e in calls if len(e.a[1]) > 3}

    def is_size(t):
        return t[0] == "call" and (t[1][0] == "attr" and t[1][1] in chains and t[1][2] == "size" or t[1] == ("name", "len") and t[2][0] in chains)

    def guard(c, p):
        c = strip(c)
        if c[0] == "cmp" and c[1] == "<" and c[2] == ("const", 0):
            c = strip(c[3])
        if c[0] == "cmp" and c[1] == "==" and c[3] == ("const", 0):
            c, p = strip(c[2]), not p
        if is_size(c):
            return p
        if c[0] == "call" and c[1][0] == "attr" and c[1][1] in chains and c[1][2] == "empty":
            return not p
        return False

    def chain(it, idx, node, conds):
        return it[0] == "sub" and it[1] in chains and it[2] == idx
    filled(chk, m, "find_embedding", I, fn, dicts, guard, is_size, chain)

    # the miner
    def is_native2(t):
        return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "heuristicEmbedding"
    fn, I, dicts = find_python(chk, m, "miner.find_embedding", is_native2)

    def is_size2(t):
        return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "num_vars"

    def guard2(c, p):
        c = strip(c)
        return p and c[0] == "or" and len(c[1]) == 2 and any(overlap_cond(x, None) for x in c[1]) and any(is_native2(strip(x)) for x in c[1])

    def chain2(I):
        def f(it, idx, node, conds):
            gets = [i for i, e in enumerate(I.events) if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "get_chain" and
                    len(e.a[1]) == 2 and e.a[1][0] == idx and e.a[1][1] == it]
            if not gets:
                return False
            # the vector is emptied in the same round before it is filled
            g = I.events[gets[-1]]
            clears = [i for i, e in enumerate(I.events[:gets[-1]]) if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "clear" and
                      e.a[0][1] == it and [c for c in e.conds if c[0][0] == "for"] == [c for c in g.conds if c[0][0] == "for"]]
            return bool(clears)
        return f
    filled(chk, m, "miner.find_embedding", I, fn, dicts, guard2, is_size2, chain2(I))

    # an empty source graph, and nothing else, is reported as such
    fn = m.functions.get("_input_parser.__init__")
    I = Interp(m)
    I.opaque |= {("name", "_read_graph"), ("name", "_get_chainmap")}
    I.run(fn)
    es = [e for e in I.events if e.kind == "raise" and (e.a[0] == ("name", "EmptySourceGraphError") or e.a[0][0] == "call" and e.a[0][1] == ("name", "EmptySourceGraphError"))]
    if not es:
        raise AnalysisBroken("EmptySourceGraphError is never raised")
    for e in es:
        before = I.events[:I.events.index(e)]
        raised = {(c, not p) for x in before if x.kind == "raise" for c, p in x.conds}
        own = [(c, p) for c, p in e.conds if c[0] not in ("for", "except") and (c, p) not in raised]
        ok = len(own) == 1 and empty_of(own[0], "Sg")
        chk.ob("empty-source", "_input_parser: EmptySourceGraphError", ok, m.where(e.node), "raised if %s" % [show(c) for c, p in own])
        first = [x for x in I.events[:I.events.index(e)] if x.kind == "raise" and any(mentions(c, ("param", "T")) or "Tg" in show(c) for c, p in x.conds)]
        chk.ob("empty-source", "_input_parser: before the target is judged", not first, m.where(e.node), "an empty source is reported only for some targets")
    for q in ("find_embedding", "miner.__cinit__"):
        f = m.functions.get(q)
        if f is None:
            raise AnalysisBroken("%s vanished" % q)
        hs = [h for n in ast.walk(f) if isinstance(n, ast.Try) for h in n.handlers if h.type is not None and "EmptySourceGraphError" in ast.unparse(h.type)]
        chk.ob("empty-source", q + ": handles it", bool(hs), m.where(f), "an empty source graph escapes as an internal exception")


def empty_of(cp, g):
    c, p = cp
    c = strip(c)
    if c[0] == "cmp" and c[1] == "==" and c[3] == ("const", 0):
        c, p = strip(c[2]), not p
    if c[0] == "call" and c[1] == ("name", "len"):
        c = c[2][0]
    if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "num_nodes" and c[1][1][0] == "attr" and c[1][1][2] == g:
        return p is False
    return p is False and c[0] == "call" and c[1] == ("name", "_read_graph") and c[2] and c[2][0][0] == "attr" and c[2][0][2] == g or (
        p is False and c[0] == "attr" and c[2] == g[0] + "L")


# ------------------------------------------------------------------ native

def full_range(loop):
    """(variable decl, bound text) of a loop over 0..bound-1, in either direction, or None"""
    if loop.k == "ForStmt":
        init, cond, inc, body = (list(loop.kids) + [None] * 4)[:4]
        vs = [x for x in (init.walk() if init is not None else ()) if x.k == "Var"]
        if len(vs) != 1 or cond is None:
            return None
        v = vs[0]
        c = strip_casts(cond)
        i0 = strip_casts(v.kids[0]) if v.kids else None
        if c.k == "UnaryOperator" and c.op == "--" and c.post and inc is None and i0 is not None:
            return v.d, i0.text()
        if c.k == "BinaryOperator" and c.op in ("<", "!=") and inc is not None and i0 is not None and i0.k == "IntegerLiteral" and int(i0.v) == 0:
            l = strip_casts(c.kids[0])
            if l.k == "DeclRefExpr" and l.d == v.d and strip_casts(inc).op == "++":
                return v.d, strip_casts(c.kids[1]).text()
        if c.k == "BinaryOperator" and c.op in (">=", ">") and inc is not None and i0 is not None and i0.k == "BinaryOperator" and i0.op == "-":
            if strip_casts(inc).op == "--" and strip_casts(i0.kids[1]).text() == "1" and strip_casts(c.kids[1]).text() in ("0", "-1"):
                if (c.op == ">=") == (strip_casts(c.kids[1]).text() == "0"):
                    return v.d, strip_casts(i0.kids[0]).text()
    if loop.k == "CXXForRangeStmt":
        r = strip_casts(loop.kids[0]) if loop.kids[0] is not None else None
        return loop.kids[1].d, "each " + (r.text() if r is not None else "?")
    return None


def is_flag(n):
    n = strip_casts(n)
    return n is not None and n.k == "MemberExpr" and n.n == "embedded"


class FlagRun(AI):
    """a function that may write the success flag or the best embedding, for one candidate status and one flag value on entry"""

    def __init__(self, P, f, mods, status):
        AI.__init__(self, P, f, mods, {"embedded"})
        self.status = status
        self.bad = []
        self.cands = {}
        self.measured = set()
        for n in f.nodes():
            if n.k in CALLS and n.n == "statistics" and n.k == "CXXMemberCallExpr" and n.kids[0].kids:
                self.measured.add(path(n.kids[0].kids[0]))

    def call_value(self, n, ts, env):
        if n.n == "statistics":
            return self.status
        return None

    def flagkey(self, env):
        return next((k for k in env if k[0] == "f" and k[2] == "embedded"), None)

    def step(self, ts, env, n):
        if n.k == "BinaryOperator" and n.op == "=" and is_flag(n.kids[0]):
            v = self.truth(self.value(n.kids[1], ts, env))
            if v is not False:
                if not self.measured:
                    self.bad.append((n, "the success flag is set without examining a candidate"))
                elif self.status == 0:
                    self.bad.append((n, "the success flag is set for a candidate that may overlap"))
                return (("owed", env),)
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.kids) > 2:
            l, r = strip_casts(n.kids[1]), strip_casts(n.kids[2])
            if l is not None and l.k == "MemberExpr" and l.n == "bestEmbedding":
                k = self.flagkey(env)
                if path(r) in self.measured and path(r) is not None:
                    if self.status == 0 and self.truth(env.get(k)) is not False:
                        self.bad.append((n, "an overlapping candidate replaces the embedding the success flag stands for"))
                    return (("kept", env),)
                if self.truth(env.get(k)) is not False:
                    self.bad.append((n, "the returned embedding is replaced by one whose status is unknown"))
        return ((ts, env),)

    def assign(self, env, n, ts):
        env = AI.assign(self, env, n, ts)
        if n.k in CALLS and any(resets_flag(self.P, t, 0) for t in self.P.targets(n)):
            for x in self.fn.nodes():
                if is_flag(x) and path(strip_casts(x)) is not None:
                    env = self.put(env, path(strip_casts(x)), 0)
        return env


class Populated(AI):
    """bestEmbedding is written (here, or by a function that keeps candidates) before every return"""

    def __init__(self, P, f, mods):
        AI.__init__(self, P, f)
        self.only = set()
        self.M = mods

    def step(self, ts, env, n):
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.kids) > 1 and strip_casts(n.kids[1]) is not None and \
                strip_casts(n.kids[1]).k == "MemberExpr" and strip_casts(n.kids[1]).n == "bestEmbedding":
            return ((True, env),)
        if n.k in CALLS and not ts and n.k != "CXXOperatorCallExpr":
            for t in self.P.targets(n):
                if t.defined and t.root is not None and "pathfinder" in t.p and any(
                        x.k == "CXXOperatorCallExpr" and x.op == "=" and len(x.kids) > 1 and strip_casts(x.kids[1]) is not None and
                        strip_casts(x.kids[1]).k == "MemberExpr" and strip_casts(x.kids[1]).n == "bestEmbedding" for x in t.nodes()):
                    return ((True, env),)
        return ((ts, env),)


def flag_runs(chk, P, mods, lib):
    found = 0
    inside = P.reachable([f for f in lib if f.n == "heuristicEmbedding" and "pathfinder_base" in f.p])
    for f in lib:
        if f.id not in inside:
            # outside a search the flag may only be cleared
            for n in f.nodes():
                if n.k == "BinaryOperator" and n.op == "=" and is_flag(n.kids[0]) and not deep_zero(n):
                    chk.ob("flag", cname(f) + " sets the success flag", False, n.at(), "the success flag is set outside the search")
            continue
        writes = [n for n in f.nodes() if n.k == "BinaryOperator" and n.op == "=" and is_flag(n.kids[0]) and
                  AI.truth(AI(P, f).value(n.kids[1], None, {})) is not False]
        keeps = [n for n in f.nodes() if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.kids) > 2 and strip_casts(n.kids[1]) is not None and
                 strip_casts(n.kids[1]).k == "MemberExpr" and strip_casts(n.kids[1]).n == "bestEmbedding"]
        if not keeps and all(deep_zero(n) for n in writes):
            continue
        found += 1
        keys = {path(strip_casts(x)) for x in f.nodes() if is_flag(x)} - {None}
        bad = {}
        owed = False
        for status in (0, 1):
            for flag in (0, 1):
                a = FlagRun(P, f, mods, status).run("-", {k: flag for k in keys})
                for n, why in a.bad:
                    bad[n.i] = (n, why)
                owed = owed or any(ts == "owed" for ts, e, r in a.exits)
        for n in writes + keeps:
            chk.ob("flag", "%s: %s" % (cname(f), n.text()[:40]), n.i not in bad, n.at(), bad.get(n.i, (0, ""))[1])
        if writes:
            chk.ob("flag", cname(f) + ": the embedding that raised the flag is kept", not owed, f.at(),
                   "the flag rises but the returned chains stay those of an older embedding")
    if not found:
        raise AnalysisBroken("nothing keeps a best embedding")


def deep_zero(n):
    r = n.kids[1]
    while strip_casts(r) is not None and strip_casts(r).k == "BinaryOperator" and strip_casts(r).op == "=":
        r = strip_casts(r).kids[1]
    r = strip_casts(r)
    return r is not None and r.k == "IntegerLiteral" and int(r.v) == 0


def native(chk):
    P = program("_minorminer")
    mods = Mods(P)
    lib = [f for f in P.lib() if f.root is not None]
    # -- statistics: 1 only without overlap
    st = [f for f in lib if f.n == "statistics" and "::embedding" in f.p]
    if not st:
        raise AnalysisBroken("embedding::statistics vanished")
    for f in st:
        statistics(chk, P, f)
    # -- writers of the success flag
    for f in lib:
        for n in f.nodes():
            if n.k in ("CompoundAssignOperator", "UnaryOperator") and n.op in ("|=", "+=", "++", "--", "-=", "&=", "^=", "&") and is_flag(n.kids[0]):
                chk.ob("flag", cname(f) + " writes the success flag", False, n.at(), "the success flag is changed by " + n.op)
    flag_runs(chk, P, mods, lib)
    # -- heuristicEmbedding's value
    for f in lib:
        if f.n != "heuristicEmbedding" or "pathfinder" not in f.p:
            continue
        for n in f.nodes():
            if n.k == "ReturnStmt" and n.kids:
                chk.ob("flag", cname(f) + ": return " + n.kids[0].text(), returns_flag(P, f, n), n.at(), "the result is not the success flag")
        if "pathfinder_wrapper" in f.p:
            continue
        # the flag is reset before anything is searched
        resets = [n for n in f.nodes() if n.k in CALLS and any(resets_flag(P, t, 0) for t in P.targets(n))]
        ok = bool(resets)
        if ok:
            searches = [n for n in f.nodes() if n.k in CALLS and any(t.n.endswith("_pass") or t.n == "check_improvement" for t in P.targets(n))]
            ok = bool(searches) and all(any(f.cfg.dominates(r, s) for r in resets) for s in searches)
        chk.ob("flag", cname(f) + ": reset for every search", ok, f.at(), "a stale success flag of an earlier search can be returned")
        a = Populated(P, f, mods).run(False)
        chk.ob("filled", cname(f) + ": an embedding of this search is in place at every return", all(ts for ts, e, r in a.exits), f.at(),
               "a path returns without any embedding of this search having been kept")
    # -- findEmbedding
    fe = [f for f in lib if f.p == "find_embedding::findEmbedding"]
    if not fe:
        raise AnalysisBroken("findEmbedding vanished")
    for f in fe:
        entry(chk, P, f)
    gc = [f for f in lib if f.n == "get_chain" and "pathfinder_base" in f.p]
    for f in gc:
        rets = [n for n in f.nodes() if n.k == "ReturnStmt"]
        ok = bool(rets) and all(any(x.k == "MemberExpr" and x.n == "bestEmbedding" for x in r.walk()) and any(
            x.k == "DeclRefExpr" and x.dk == "ParmVar" for x in r.walk()) for r in rets)
        chk.ob("filled", cname(f), ok, f.at(), "chains are not read from the best embedding")
    chk.need("flag", 20)


def resets_flag(P, t, depth):
    if not t.defined or t.root is None or depth > 3:
        return False
    for n in t.nodes():
        if n.k == "BinaryOperator" and n.op == "=" and any(x.k == "MemberExpr" and x.n == "embedded" for x in n.kids[0].walk()):
            r = n.kids[1]
            while strip_casts(r) is not None and strip_casts(r).k == "BinaryOperator" and strip_casts(r).op == "=":
                r = strip_casts(r).kids[1]
            if strip_casts(r) is not None and strip_casts(r).k == "IntegerLiteral" and int(strip_casts(r).v) == 0:
                return True
    return False


def returns_flag(P, f, ret):
    e = strip_casts(ret.kids[0])
    if e.k == "IntegerLiteral":
        return int(e.v) == 0
    if e.k == "MemberExpr":
        return e.n == "embedded"
    if e.k in CALLS:
        return any(t.n == "heuristicEmbedding" for t in P.targets(e)) or e.n == "heuristicEmbedding"
    if e.k == "BinaryOperator" and e.op in ("!=", ">"):
        return strip_casts(e.kids[0]).k == "MemberExpr" and strip_casts(e.kids[0]).n == "embedded" and strip_casts(e.kids[1]).text() == "0"
    if e.k == "ConditionalOperator":
        c = strip_casts(e.kids[0])
        return c.k == "MemberExpr" and c.n == "embedded" and strip_casts(e.kids[1]).text() == "1" and strip_casts(e.kids[2]).text() == "0"
    if e.k == "DeclRefExpr":
        for n in f.nodes():
            if n.k == "Var" and n.d == e.d and n.kids:
                x = strip_casts(n.kids[0])
                if x.k == "MemberExpr" and x.n == "embedded":
                    return True
                if x.k in CALLS and x.n == "heuristicEmbedding":
                    return True
    return False


def statistics(chk, P, f):
    nm = cname(f)
    rets = [n for n in f.nodes() if n.k == "ReturnStmt" and n.kids]
    pos = []
    for r in rets:
        e = strip_casts(r.kids[0])
        if e.k == "IntegerLiteral" and int(e.v) == 0 or e.k == "CXXBoolLiteralExpr" and e.v == "false":
            continue
        pos.append((r, e))
    loops = []
    for n in f.nodes():
        if n.k not in LOOPS:
            continue
        rg = full_range(n)
        if rg is None:
            continue
        body = n.kids[-1]
        reads = [x for x in n.walk() if x.k == "MemberExpr" and x.n == "qub_weight"]
        if not reads:
            continue
        full = rg[1] in ("num_qubits", "this->num_qubits", "qub_weight.size()") or rg[1].startswith("each ") and "qub_weight" in rg[1]
        quits = [x for x in body.walk() if x.k in ("BreakStmt", "ContinueStmt", "GotoStmt") and x.within(body)]
        loops.append((n, full and not quits, rg))
    chk.ob("flag", nm + ": looks at every qubit", any(ok for n, ok, rg in loops), f.at(), "no loop examines the occupancy of all qubits")
    if not pos:
        chk.ob("flag", nm + ": reports success", False, f.at(), "never returns success")
    for r, e in pos:
        ok = False
        why = "success is returned without having compared the largest occupancy with 1"
        for n, full, rg in loops:
            if not full:
                continue
            # a running maximum of qub_weight, or an early 'return 0'
            w = {x.d for x in n.walk() if x.k == "Var" and x.kids and any(y.k == "MemberExpr" and y.n == "qub_weight" for y in x.kids[0].walk())}
            if n.k == "CXXForRangeStmt":
                w.add(n.kids[1].d)

            def occ(x):
                x = strip_casts(x)
                return x is not None and (x.k == "DeclRefExpr" and x.d in w or any(y.k == "MemberExpr" and y.n == "qub_weight" for y in x.walk()))
            maxes = set()
            for x in n.walk():
                if x.k == "BinaryOperator" and x.op == "=":
                    l, rr = strip_casts(x.kids[0]), strip_casts(x.kids[1])
                    if l.k == "DeclRefExpr" and rr.k in CALLS and rr.n == "max" and any(occ(a) for a in rr.kids[1:]) and any(
                            strip_casts(a) is not None and strip_casts(a).k == "DeclRefExpr" and strip_casts(a).d == l.d for a in rr.kids[1:]) and not under_if(x, n):
                        maxes.add(l.d)
                    if l.k == "DeclRefExpr" and occ(rr) and any(y.k == "IfStmt" and is_gt(y, rr, l) for y in x.up() if y.within(n)):
                        maxes.add(l.d)
            early = [x for x in n.walk() if x.k == "ReturnStmt" and strip_casts(x.kids[0]).text() in ("0", "false") and any(
                y.k == "IfStmt" and gt_one(cond_of(y), occ) for y in x.up() if y.within(n))]
            if early:
                ok = True
                continue

            def top(x):
                x = strip_casts(x)
                return x is not None and x.k == "DeclRefExpr" and x.d in maxes
            if e.k == "BinaryOperator" and e.op in ("<", "<=") and top(e.kids[0]):
                b = strip_casts(e.kids[1]).text()
                ok = (e.op, b) in (("<", "2"), ("<=", "1"))
                continue
            a = OneCheck(P, f, top, r, n)
            ok = ok or a.go()
        chk.ob("flag", nm + ": success means no overlap", ok, r.at(), why)


def under_if(x, stop):
    for y in x.up():
        if y is stop:
            return False
        if y.k in ("IfStmt", "ConditionalOperator", "SwitchStmt"):
            return True
    return False


def cond_of(i):
    return next((k for k in i.kids[1:2] if k is not None), None)


def is_gt(y, a, b):
    c = strip_casts(cond_of(y)) if cond_of(y) is not None else None
    if c is None or c.k != "BinaryOperator":
        return False
    l, r = strip_casts(c.kids[0]).text(), strip_casts(c.kids[1]).text()
    return c.op in (">", ">=") and l == a.text() and r == b.text() or c.op in ("<", "<=") and l == b.text() and r == a.text()


def gt_one(c, occ):
    c = strip_casts(c) if c is not None else None
    if c is None or c.k != "BinaryOperator":
        return False
    r = strip_casts(c.kids[1]).text()
    return occ(c.kids[0]) and (c.op, r) in ((">", "1"), (">=", "2"))


def resolve(f, c, truth):
    """a condition with negations and once-initialised locals looked through"""
    for _ in range(8):
        c = strip_casts(c)
        if c is None:
            break
        if c.k == "UnaryOperator" and c.op == "!":
            c, truth = c.kids[0], not truth
        elif c.k == "DeclRefExpr" and c.dk == "Var":
            init = [n for n in f.nodes() if n.k == "Var" and n.d == c.d and n.kids]
            if not init or written(f, c.d):
                break
            c = init[0].kids[0]
        else:
            break
    return strip_casts(c), truth


def written(f, d):
    for n in f.nodes():
        if (n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") or
                n.k == "UnaryOperator" and n.op in ("++", "--", "&")) and strip_casts(n.kids[0]) is not None and \
                strip_casts(n.kids[0]).k == "DeclRefExpr" and strip_casts(n.kids[0]).d == d:
            return True
    return False


class OneCheck(AI):
    """every path to the return leaves the loop and takes a branch establishing max <= 1, without changing the maximum in between"""

    def __init__(self, P, f, top, site, loop):
        AI.__init__(self, P, f)
        self.only = set()
        self.top, self.site, self.loop, self.hits = top, site, loop, []

    def branch(self, ts, env, c, truth):
        c, truth = resolve(self.fn, c, truth)
        if c is not None and c.k == "BinaryOperator" and self.top(c.kids[0]) and not c.within(self.loop):
            r = strip_casts(c.kids[1]).text()
            if (c.op, r, truth) in ((">", "1", False), (">=", "2", False), ("<", "2", True), ("<=", "1", True)):
                return (("le1", env),)
        return ((ts, env),)

    def step(self, ts, env, n):
        if n is self.site:
            self.hits.append(ts == "le1")
        if n.within(self.loop):
            return (("-", env),)
        if ts == "-" and n.k == "BinaryOperator" and n.op == "=" and self.top(n.kids[0]):
            return (("spoilt", env),)
        return ((ts, env),)

    def go(self):
        self.run("-")
        return bool(self.hits) and all(self.hits)


def ev_bool(n, env):
    n = strip_casts(n)
    if n is None:
        return None
    if n.k in ("ParenExpr", "ExprWithCleanups") and n.kids:
        return ev_bool(n.kids[0], env)
    if n.k == "MemberExpr" and n.n in env:
        return env[n.n]
    if n.k == "DeclRefExpr" and n.d in env:
        return env[n.d]
    if n.k == "IntegerLiteral":
        return int(n.v) != 0
    if n.k == "UnaryOperator" and n.op == "!":
        v = ev_bool(n.kids[0], env)
        return None if v is None else not v
    if n.k == "BinaryOperator" and n.op in ("&&", "||", "|", "&"):
        a, b = ev_bool(n.kids[0], env), ev_bool(n.kids[1], env)
        if a is None or b is None:
            return None
        return (a and b) if n.op in ("&&", "&") else (a or b)
    if n.k == "BinaryOperator" and n.op in ("!=", "==", ">"):
        a, z = ev_bool(n.kids[0], env), strip_casts(n.kids[1])
        if a is not None and z.k == "IntegerLiteral" and int(z.v) == 0:
            return a if n.op in ("!=", ">") else not a
        if a is not None and z.k == "IntegerLiteral" and int(z.v) == 1 and n.op == "==":
            return a
    return None


def consts(f, env):
    """locals computed once from known flags"""
    writes = {}
    for n in f.nodes():
        if n.k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") or n.op in ("++", "--", "&")) and \
                strip_casts(n.kids[0]) is not None and strip_casts(n.kids[0]).k == "DeclRefExpr":
            writes[strip_casts(n.kids[0]).d] = True
    for n in f.nodes():
        if n.k == "Var" and n.kids and n.d not in writes and n.d not in env:
            v = ev_bool(n.kids[0], env)
            if v is not None:
                env[n.d] = v


class Fill(AI):
    """path analysis of findEmbedding for one (return_overlap, success)"""

    def __init__(self, P, f, env, fills):
        AI.__init__(self, P, f)
        self.only = set()
        self.vals, self.fills = env, fills

    def refine(self, n, want, ts, env):
        v = ev_bool(n, self.vals)
        if v is not None and v != want:
            return None
        return env

    def step(self, ts, env, n):
        if n.i in self.fills:
            return ((ts | {self.fills[n.i]}, env),)
        return ((ts, env),)


def entry(chk, P, f):
    nm = cname(f)
    out = [p["d"] for p in f.params if "vector<vector" in f.ptype(f.params.index(p)).replace("std::", "")]
    suc = {v.d for v in f.nodes() if v.k == "Var" and v.kids and any(x.k in CALLS and x.n == "heuristicEmbedding" for x in v.kids[0].walk())}
    if not out or not suc:
        raise AnalysisBroken("findEmbedding: cannot find the output chains or the status")
    for n in f.nodes():
        if n.k == "ReturnStmt" and n.kids:
            e = strip_casts(n.kids[0])
            chk.ob("flag", nm + ": return " + e.text(), e.k == "DeclRefExpr" and e.d in suc, n.at(), "does not return the search's status")
    fills, loops = {}, []
    for n in f.nodes():
        if n.k in LOOPS:
            gets = [x for x in n.walk() if x.k in CALLS and x.n == "get_chain"]
            if not gets:
                continue
            rg = full_range(n)
            g = gets[0]
            ok = rg is not None and rg[1] in ("var_g.num_nodes()", "pf.num_vars()", "chains.size()")
            a = [strip_casts(x) for x in g.kids[1:]]
            ok = ok and len(a) == 2 and a[0].k == "DeclRefExpr" and a[0].d == rg[0]
            idx = [x for x in (g.kids[2].walk() if len(g.kids) > 2 else ()) if x.k == "DeclRefExpr"]
            ok = ok and {x.d for x in idx} >= {out[0], rg[0]} and {x.d for x in idx if x.dk in ("Var", "ParmVar")} <= {out[0], rg[0]}
            quits = [x for x in n.walk() if x.k in ("BreakStmt", "ContinueStmt", "ReturnStmt", "IfStmt")]
            loops.append(n)
            chk.ob("filled", nm + ": every variable's chain", bool(ok) and not quits, n.at(), "not every chain is read into its own place")
            fills[g.i] = "get"
        elif n.k in CALLS and n.n in ("clear", "resize", "assign") and any(x.k == "DeclRefExpr" and x.d == out[0] for x in (n.kids[0].walk() if n.kids else ())):
            fills[n.i] = n.n
    if not loops:
        chk.ob("filled", nm + ": reads the chains", False, f.at(), "the chains are never read")
        return
    # fill exactly when asked for
    for ro in (False, True):
        for s in (False, True):
            env = {"return_overlap": ro}
            for d in suc:
                env[d] = s
            consts(f, env)
            a = Fill(P, f, env, fills).run(frozenset())
            want = ro or s
            sts = [ts for ts, e, r in a.exits]
            ok = bool(sts) and all(("resize" in t or "assign" in t) if want else ("resize" not in t and "assign" not in t and "get" not in t) for t in sts) and (
                not want or any("get" in t for t in sts))
            chk.ob("filled", "%s: chains for return_overlap=%s, success=%s" % (nm, ro, s), ok, f.at(),
                   "the chains are %s" % ("not returned" if want else "returned"))


def run():
    chk = Check("C09", "provenance dataflow over every return of the Python entry points; path-sensitive typestate of the success flag in the C++ core",
                "Every return statement of find_embedding and miner.find_embedding with the guards and terms it returns; every write of the "
                "success flag, every return of the native search, and the reading out of the chains.",
                ["bint options keep their truth value through Cython's conversion"])
    chk.rule("shape", "a dict without return_overlap, a pair (dict, flag) with it, on every return")
    chk.rule("flag", "the flag is the native search's success flag, which rises only for a candidate whose largest qubit occupancy is 1, and that candidate is the one returned")
    chk.rule("filled", "the mapping holds the list of every non-pin variable's own chain, exactly when the search succeeded or return_overlap was asked for")
    chk.rule("empty-source", "an empty source graph is recognised, before the target is judged, and gives the empty embedding with flag 1")
    python(chk)
    native(chk)
    return chk


if __name__ == "__main__":
    main(run)
