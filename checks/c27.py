"""C27: the busclique tables keep the best embedding they were given for every size, and answer with it."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import Interp, alts, subterms, show, mentions

REL = "minorminer/busclique.pyx"
CACHE = "busgraph_cache"
SELF = ("param", "self")
OWN = ("attr", SELF, "_cliques")
GIVEN = ("param", "cache")
ENSURE = ("_ensure_clique_cache", "_ensure_biclique_cache", "_fetch_cache", "topology_identifier")


def named(t, *names):
    return t[0] == "call" and isinstance(t[1][-1], str) and t[1][-1] in names


def plus_one(t):
    return t[0] == "op" and len(t) == 4 and t[1] == "+" and ("const", 1) in t[2:4]


class C27(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        self.seen = {}

    def fn(self, q):
        f = self.m.functions.get(q)
        if f is None:
            raise AnalysisBroken("%s has no %s" % (REL, q))
        return f

    def events(self, q, *opaque):
        I = Interp(self.m)
        I.opaque |= {("attr", SELF, n) for n in ENSURE} | {("name", "_num_nodes")} | {("name", n) for n in opaque}
        if CACHE + "." in q:
            for f in self.m.functions:
                if f.startswith(CACHE + ".") and not f.split(".")[1].startswith("_"):
                    I.opaque.add(("attr", SELF, f.split(".")[1]))
        return I.run(self.fn(q))

    def ob(self, rule, what, ok, node, why=""):
        k = (rule, what)
        if k not in self.seen or not ok and self.seen[k][0]:
            self.seen[k] = (bool(ok), node, why)

    @staticmethod
    def owners(t):
        out = set()
        for x in subterms(t):
            if x == OWN:
                out.add("own")
            elif x == GIVEN:
                out.add("given")
        return out

    def raws(self, t):
        """whose embeddings a measure is taken of"""
        out = set()
        for x in subterms(t):
            if x[0] == "sub" and x[2] == ("const", "raw"):
                out |= self.owners(x[1])
        return out

    @staticmethod
    def negated(t):
        return t[0] in ("op", "uop", "neg") and len(t) == 3 and t[1] in ("USub", "-") or t[0] == "op" and t[1] == "-" and t[2] == ("const", 0)

    # ---------------------------------------------------------------- merging
    def merge(self):
        q = CACHE + ".merge_clique_cache"
        evs = self.events(q)
        n = 0
        kept = {}
        for e in evs:
            if e.kind == "call":
                for x in subterms(("tuple", tuple(e.a[1]))):
                    if x[0] == "sub" and x[1][0] == "sub" and x[1][2] == ("const", "raw") and len(self.owners(x[1])) == 1 and x[2][0] in ("call", "sub"):
                        key = x[2]
                        base = key[1][1] if key[0] == "call" and key[1][0] == "attr" and key[1][2] == "get" else key[1] if key[0] == "sub" else None
                        if base is not None and base[0] == "sub" and base[2] in (("const", "size"), ("const", "length")) and len(self.owners(base)) == 1:
                            self.ob("merge", "%s: an index is looked up in its own table" % q, self.owners(base) == self.owners(x[1]), e.node,
                                    "an index of the %s table is looked up in the %s one" % (self.owners(base).pop(), self.owners(x[1]).pop()))
        for e in evs:
            if not (e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "setdefault" and len(e.a[1]) == 2):
                continue
            k = e.a[1][0]
            pos = k[1][0] if k[0] == "tuple" and k[1] else k
            base = pos[1][1] if pos[0] == "call" and pos[1][0] == "attr" and pos[1][2] == "get" else pos[1] if pos[0] == "sub" else None
            if base is None or base[0] != "sub" or base[2] not in (("const", "size"), ("const", "length")):
                continue
            what = base[2][1]
            own = self.owners(base)
            if len(own) != 1:
                continue
            own = own.pop()
            kept.setdefault((what, own), []).append((e, any(x[0] == "cmp" and x[1] in ("<", "<=") for c, p in e.conds for x in [c[1] if c[0] == "not" else c])))
            for c, p in e.conds:
                while c[0] == "not":
                    c, p = c[1], not p
                if c[0] != "cmp" or c[1] not in ("<", "<="):
                    continue
                a, b, strict = c[2], c[3], c[1] == "<"
                if not p:
                    a, b, strict = b, a, not strict
                # a < b or a <= b
                ra, rb = self.raws(a), self.raws(b)
                if len(ra) != 1 or len(rb) != 1 or ra == rb:
                    continue
                better = self.better(a, b, what)
                if better == "both":
                    n += 1
                    self.ob("merge", "%s: the better embedding of a %s" % (q, what), False, e.node, "a longer chain and a higher quality are taken to mean the same")
                    continue
                if better is None:
                    continue
                n += 1
                win = rb if better == "more" else ra
                if own in win:
                    ok = strict or own == "own"
                    why = "an embedding that is only as good replaces the one there"
                else:
                    ok, why = False, "the worse embedding is kept"
                self.ob("merge", "%s: the better embedding of a %s" % (q, what), ok, e.node, why)
                for x in subterms(("tuple", (a, b))):
                    if what == "size" and named(x, "len") and x[2] and x[2][0][0] == "sub" and x[2][0][1][0] == "sub" and x[2][0][2][0] != "slice":
                        i = x[2][0][2]
                        self.ob("merge", "%s: measured by the longest of the chains used" % q, i[0] == "op" and i[1] == "-" and i[3] == ("const", 1), e.node,
                                "measured by the chain at %s" % show(i)[:60])
        for (what, own), es in kept.items():
            if any((what, o) in kept for o in {"own", "given"} - {own}):
                self.ob("merge", "%s: what only the %s table has of each %s" % (q, own, what), any(not cmp for e, cmp in es), es[0][0].node,
                        "is only kept where it is better than another")
        for e in evs:
            if e.kind == "store_attr" and e.a[:2] == (SELF, "_cliques") and e.a[2][0] == "dict":
                parts = dict(e.a[2][1])
                for w in ("size", "length"):
                    d = parts.get(("const", w))
                    for s in evs:
                        if d is not None and s.kind == "store_sub" and s.a[0] == d and s.a[1][0] == "elem":
                            it = s.a[1][1]
                            cut = [x for x in subterms(it) if named(x, "intersection", "difference") or x[0] == "op" and x[1] in ("&", "-")]
                            self.ob("merge", "%s: every %s of both tables" % (q, w), self.owners(it) == {"own", "given"} and not cut, s.node,
                                    "goes over %s" % show(it)[:100])
                            n += 1
        self.chk.count("decisions of a merge", n)
        if not n:
            self.chk.short.append("%s: no decision found" % q)

    def better(self, a, b, what):
        out = set()
        for t in list(alts(a)) + list(alts(b)):
            if t[0] == "const":
                continue
            if t[0] == "call" and t[1][0] == "param":
                out.add("more")
            elif self.negated(t):
                out.add("more" if what == "size" else "less")
            elif named(t, "len", "max"):
                out.add("less" if what == "size" else "more")
            else:
                return None
        return out.pop() if len(out) == 1 else "both" if out else None

    # ---------------------------------------------------------------- tables made from a search
    def made(self):
        q = "_make_clique_cache"
        evs = self.events(q)
        for r in [e for e in evs if e.kind == "return" and e.a[0][0] == "dict"]:
            parts = dict(r.a[0][1])
            size = parts.get(("const", "size"))
            for e in evs:
                if size is None:
                    continue
                if e.kind == "store_sub" and e.a[0] == size:
                    ok = any(c[0] == "cmp" and c[3] == size and (c[1] == "in" and not p or c[1] == "not in" and p) or c[0] == "cmp" and c[1] in ("is", "==") and
                             mentions(c, size) and p for c, p in e.conds)
                    self.ob("table", q + ": the shortest chains come first and stay", ok, e.node, "a size found before is overwritten by one with longer chains")
                    key = e.a[1]
                elif e.kind == "call" and e.a[0] == ("attr", size, "setdefault"):
                    self.ob("table", q + ": the shortest chains come first and stay", True, e.node)
                    key = e.a[1][0]
                else:
                    continue
                if key[0] == "elem" and named(key[1], "range"):
                    r0 = key[1][2]
                    down = len(r0) == 3 and r0[2][0] in ("const", "op", "neg", "uop") and (r0[2] == ("const", -1) or self.negated(r0[2]))
                    top = r0[0] if down else r0[-1] if len(r0) < 3 else r0[1]
                    low = r0[1] if down else r0[0] if len(r0) > 1 else ("const", 0)
                    least = (low[1] + (1 if down else 0)) if low[0] == "const" and isinstance(low[1], int) else None
                    short = any(x[0] == "op" and x[1] == "-" for x in alts(top)) or not down and not plus_one(top)
                    self.ob("table", q + ": every size up to the largest", not short and (least is None or least <= 1), e.node, "goes over %s" % show(key[1])[:100])
        q = "_make_biclique_cache"
        keep = "_keep_biclique_key"
        evs = self.events(q, keep)
        n = 0
        for e in evs:
            if e.kind == "store_sub":
                for c, p in e.conds:
                    while c[0] == "not":
                        c, p = c[1], not p
                    if c[0] == "call" and c[1] == ("name", keep) and len(c[2]) >= 2:
                        n += 1
                        kept = c[2][0] if p else c[2][1]
                        self.ob("table", q + ": the better biclique of a size", e.a[2] == kept or e.a[2] not in c[2][:2], e.node, "the worse of the two is kept")
            for t in e.a:
                for x in subterms(t) if isinstance(t, tuple) else ():
                    if x[0] == "dict" and any(k == ("const", "max_side") for k, v in x[1]):
                        for y in alts(dict(x[1])[("const", "max_side")]):
                            for k, v in y[1] if y[0] == "dict" else ():
                                self.ob("table", q + ": the largest side", not named(v, "min", "len"), e.node, "not the largest is noted")
                        for y in subterms(dict(x[1])[("const", "max_side")]):
                            self.ob("table", q + ": the largest side", not named(y, "min", "amin"), e.node, "the smallest is noted")
            if e.kind == "store_sub" and e.a[0][0] == "dict" and any(k == ("const", None) for k, v in e.a[0][1]):
                self.ob("table", q + ": the largest side", not named(e.a[2], "min", "len"), e.node, "not the largest is noted")
        if keep in self.m.functions:
            f = self.fn(keep)
            ps = Interp.params(f)
            k0, k1 = ("param", ps[0]), ("param", ps[1])
            for e in self.events(keep):
                if e.kind != "return" or e.a[0][0] != "const":
                    continue
                for c, p in e.conds:
                    if not p:
                        continue
                    for y in c[1] if c[0] == "or" else [c]:
                        if y[0] == "cmp" and y[1] in ("<", "<=") and y[2][0] == "item" and y[3][0] == "item" and y[2][2] == 1 == y[3][2] and \
                                not any(k[0] == "cmp" and mentions(k, y[2][1]) for k, _ in e.conds if k is not c):
                            self.ob("table", keep + ": the longest chains decide", False, e.node, "the shortest chains alone decide")
                    for y in ([c] if c[0] == "cmp" else [z for z in c[1]] if c[0] in ("or", "and") else []):
                        if y[0] == "cmp" and y[1] == "<" and y[2][0] == "item" and y[3][0] == "item" and y[2][2] == 0 == y[3][2]:
                            first = mentions(y[2], k0) and mentions(y[3], k1)
                            self.ob("table", keep + ": the shorter longest chain is better", first == bool(e.a[0][1]), e.node, "the longer one is preferred")
        for e in evs:
            if e.kind == "call" and e.a[0] == ("name", keep) and len(e.a[1]) == 3:
                for y in subterms(e.a[1][2]):
                    if y[0] == "comp" and y[1] == "dict" and y[3][0] == "tuple" and y[3][1]:
                        self.ob("table", q + ": measured by the longest chain", not named(y[3][1][0], "min"), e.node, "measured by the shortest chain first")
        self.chk.count("replacements in the biclique table", n)

    # ---------------------------------------------------------------- answers
    def answers(self):
        q = CACHE + ".largest_clique"
        for e in self.events(q):
            if e.kind == "call" and named(e.a[3], "relabel") and e.a[1]:
                bad = [x for x in subterms(e.a[1][0]) if named(x, "min")]
                self.ob("answer", q + ": the largest", not bad, e.node, "the smallest is handed out")
                for x in subterms(e.a[1][0]):
                    if x[0] == "sub" and x[1][0] == "sub" and x[1][2] == ("const", "raw"):
                        odd = [y for y in alts(x[2]) if y[0] == "const" or self.negated(y) or named(y, "max", "min") and not dict(y[3])]
                        self.ob("answer", q + ": by its size", not odd, e.node, "the embedding at %s is handed out" % (show(odd[0])[:60] if odd else ""))
        q = CACHE + ".find_clique_embedding"
        P = ("param", [p for p in Interp.params(self.fn(q)) if p != "self"][0])
        for e in self.events(q):
            for c, p in e.conds:
                while c[0] == "not":
                    c, p = c[1], not p
                if named(c, "get") and mentions(c, ("const", "size")):
                    self.ob("answer", q + ": the first embedding counts as well", False, e.node, "an index of 0 is taken for none")
            if e.kind == "call" and named(e.a[3], "relabel") and e.a[1]:
                for x in subterms(e.a[1][0]):
                    if x[0] == "sub" and x[1][0] == "sub" and x[1][2] == ("const", "raw"):
                        odd = [y for y in alts(x[2]) if not mentions(y, P)]
                        self.ob("answer", q + ": of the size asked for", not odd, e.node, "the embedding at %s is handed out" % (show(odd[0])[:60] if odd else ""))
        q = CACHE + ".largest_clique_by_chainlength"
        L = ("param", [p for p in Interp.params(self.fn(q)) if p != "self"][0])
        for e in self.events(q):
            if not (e.kind == "call" and named(e.a[3], "relabel") and e.a[1]):
                continue
            for x in subterms(e.a[1][0]):
                if x[0] == "comp":
                    for c in x[5]:
                        if c[0] == "cmp" and c[1] in ("<", "<=") and mentions(c, L):
                            self.ob("answer", q + ": chains up to the length asked for", c[3] == L and c[1] == "<=" and not mentions(c[2], L) or
                                    plus_one(c[3]) and c[1] == "<" and L in c[3][2:4], e.node, "looks at embeddings with %s" % show(c)[:120])
                if named(x, "min") and x[2] and mentions(x[2][0], ("const", "length")):
                    self.ob("answer", q + ": the largest", False, e.node, "the smallest of the embeddings is handed out")
                if named(x, "max") and x[2] and x[2][0][0] == "comp" and not mentions(x[2][0][2], ("const", "raw")):
                    key = dict(x[3]).get("key")
                    self.ob("answer", q + ": the largest", key is not None and self.body(key, "len"), e.node, "the embeddings are not compared by their sizes")
        q = CACHE + ".largest_balanced_biclique"
        for e in self.events(q):
            if not (e.kind == "call" and named(e.a[3], "relabel") and e.a[1]):
                continue
            for x in subterms(e.a[1][0]):
                if named(x, "max", "min") and len(x[2]) == 1 and x[2][0][0] == "sub" and x[2][0][2] == ("const", "raw"):
                    key = dict(x[3]).get("key")
                    self.ob("answer", q + ": the largest smaller side", named(x, "max") and key is not None and (key == ("name", "min") or self.body(key, "min")), e.node,
                            "the biclique is chosen by %s" % (show(key)[:40] if key is not None else "its position"))
                if x[0] == "sub" and x[2][0] == "slice" and named(x[1], "sorted") and mentions(x[1], ("const", "raw")):
                    self.ob("answer", q + ": as many of each side", not self.one_item(x[2][2] if len(x[2]) > 2 else x[2][-1]), e.node,
                            "a side is cut to the length of one of the two")
                if named(x, "sorted") and x[2] and x[2][0][0] == "sub" and x[2][0][2][0] == "slice" and mentions(x[2][0], ("const", "raw")):
                    kw = dict(x[3])
                    self.ob("answer", q + ": the shortest chains of each side", kw.get("key") == ("name", "len") or self.body(kw.get("key"), "len"), e.node, "chains are not sorted by length")
                    self.ob("answer", q + ": the shortest chains of each side", kw.get("reverse") in (None, ("const", False)), e.node, "the longest chains are kept")
        self.search()

    def body(self, key, want):
        """does a key function call this?"""
        if key is None:
            return False
        if key[0] == "func":
            for n in ast.walk(self.m.tree):
                if isinstance(n, (ast.Lambda, ast.FunctionDef)) and (n.lineno, n.col_offset) == key[2]:
                    return any(isinstance(x, ast.Name) and x.id == want for x in ast.walk(n))
        if key[0] == "name" and key[1] in ("len", "min", "max", "sum", "sorted", "abs", "tuple", "list"):
            return key[1] == want
        return key[0] != "func"

    @staticmethod
    def one_item(t):
        a = list(alts(t))
        return len(a) == 1 and a[0][0] == "item"

    def search(self):
        q = CACHE + ".find_biclique_embedding"
        n = 0
        for e in self.events(q):
            if not (e.kind == "call" and named(e.a[3], "relabel") and e.a[1]):
                continue
            for c, p in e.conds:
                if c[0] == "for" and named(c[1], "range"):
                    r = c[1][2]
                    lo, hi = (r[0], r[1]) if len(r) > 1 else (("const", 0), r[0])
                    n += 1
                    self.ob("answer", q + ": every size up to the largest", all(plus_one(x) or not mentions(x, ("const", "max_side")) for x in alts(hi)), e.node, "stops before the largest: %s" % show(hi)[-80:])
                    self.ob("answer", q + ": from the size asked for on", not any(plus_one(x) for x in alts(lo)), e.node, "starts above the size asked for: %s" % show(lo)[-80:])
                while c[0] == "not":
                    c, p = c[1], not p
                if c[0] == "cmp" and c[1] in ("<", "<=") and mentions(c, ("const", "max_side")):
                    a, b, strict = c[2], c[3], c[1] == "<"
                    if not p:
                        a, b, strict = b, a, not strict
                    # a < b or a <= b holds where something is found
                    if mentions(b, ("const", "max_side")) and not mentions(a, ("const", "max_side")) and not plus_one(b) and a[0] != "const" and \
                            not any(x[0] in ("op", "elem", "loop") for x in alts(a)):
                        n += 1
                        self.ob("answer", q + ": a side exactly as long will do", not strict, e.node, "bicliques with a side exactly as long as asked for are passed over")
        self.chk.count("steps of the biclique search", n)

    # ---------------------------------------------------------------- insertion and the whole table
    def insertion(self):
        q = CACHE + ".insert_clique_embedding"
        evs = self.events(q, "_make_clique_cache")
        n = 0
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "setdefault" and e.a[0][1] == ("sub", OWN, ("const", "size")):
                self.ob("insert", q + ": direct insertion replaces", False, e.node, "the embedding there stays")
            if e.kind == "store_sub" and e.a[0] == ("sub", OWN, ("const", "size")):
                n += 1
                bad = [c for c, p in e.conds if mentions(c, ("const", "size"))]
                self.ob("insert", q + ": direct insertion replaces", not bad, e.node, "only if %s" % (show(bad[0])[:80] if bad else ""))
            if e.kind == "store_sub" and e.a[0] == ("sub", OWN, ("const", "length")):
                n += 1
                for c, p in e.conds:
                    for y in subterms(c):
                        if y[0] == "cmp" and y[1] in ("<", "<=") and named(y[2], "len") and named(y[3], "len"):
                            ra, rb = mentions(y[2], ("const", "raw")), mentions(y[3], ("const", "raw"))
                            if ra != rb:
                                self.ob("insert", q + ": the larger embedding of a chain length", ra == p, e.node, "the smaller of the two is kept")
            for t in e.a if e.kind == "call" and named(e.a[3], "_make_clique_cache") else ():
                for x in subterms(t) if isinstance(t, tuple) else ():
                    if x[0] == "comp":
                        for c in x[5]:
                            if c[0] == "cmp" and c[1] in ("<", "<=", "==") and named(c[2], "len"):
                                self.ob("insert", q + ": chains up to each length", c[1] == "<=" or plus_one(c[3]), e.node, "chains of exactly that length are left out")
                        for it in x[4]:
                            if named(it, "range") and mentions(it, ("name", "max")):
                                n += 1
                                self.ob("insert", q + ": every length up to the longest", plus_one(it[2][-1]), e.node, "the longest chains are left out")
        sorts = [e for e in evs if e.kind == "call" and (named(e.a[3], "sorted") or e.a[0][0] == "attr" and e.a[0][2] == "sort")]
        self.ob("insert", q + ": chains are sorted by length", bool(sorts) and all(dict(e.a[2]).get("key") is not None and self.body(dict(e.a[2])["key"], "len") for e in sorts),
                sorts[0].node if sorts else self.fn(q), "stored in another order")
        for e in evs:
            if e.kind == "call" and e.a[0] == ("attr", SELF, "merge_clique_cache"):
                v = dict(e.a[2]).get("quality_function", e.a[1][1] if len(e.a[1]) > 1 else None)
                if v is None or not dict(e.a[2]).get(None):
                    self.ob("insert", q + ": by the quality asked for", v is not None and mentions(v, ("param", "quality_function")), e.node, "the merge is not told quality_function")
        self.chk.count("steps of an insertion", n)
        q = CACHE + ".update_clique_cache"
        for e in self.events(q):
            if e.kind == "call" and e.a[0] == ("attr", SELF, "insert_clique_embedding"):
                ps = [p for p in Interp.params(self.fn(CACHE + ".insert_clique_embedding")) if p != "self"]
                i = ps.index("direct") if "direct" in ps else 99
                v = dict(e.a[2]).get("direct", e.a[1][i] if len(e.a[1]) > i else ("const", False))
                if None not in dict(e.a[2]):
                    self.ob("insert", q + ": an update replaces what is there", v != ("const", False), e.node, "is only merged in where it is better")
        q = CACHE + ".get_clique_cache"
        for e in self.events(q):
            if e.kind == "store_name" or e.kind == "return":
                for t in e.a:
                    for x in subterms(t) if isinstance(t, tuple) else ():
                        if named(x, "range") and mentions(x, ("const", "size")):
                            self.ob("insert", q + ": every size", plus_one(x[2][-1]), e.node, "the largest clique is left out")
        q = "mine_clique_embeddings"
        evs = self.events(q, "_regularize_embedding")
        Q = ("param", "quality_function")
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("merge_clique_cache", "insert_clique_embedding"):
                v = dict(e.a[2]).get("quality_function", e.a[1][2 if e.a[0][2][0] == "i" else 1] if len(e.a[1]) > (2 if e.a[0][2][0] == "i" else 1) else None)
                nothing = e.a[0][2][0] == "i" and e.a[1] and e.a[1][0][0] in ("new", "dict") and not any(x[0] not in ("new", "dict") for x in subterms(e.a[1][0]) if x[0] in ("param", "call"))
                if not nothing:
                    self.ob("insert", q + ": by the quality asked for", v is not None and mentions(v, Q), e.node, "%s is not told quality_function" % e.a[0][2])
            if e.kind == "call" and named(e.a[3], "range") and len(e.a[1]) > 1 and any(x == ("param", "heuristic_bound") for x in alts(e.a[1][1])):
                self.ob("insert", q + ": up to the bound", False, e.node, "the bound itself is left out")
            if e.kind == "call" and named(e.a[3], "range") and any(named(x, "largest_clique") for a in e.a[1] for x in subterms(a)):
                self.ob("insert", q + ": every size found", plus_one(e.a[1][-1]), e.node, "the largest size is left out")

    def run(self):
        old = pyai.CAP
        pyai.CAP = 40
        try:
            self.merge()
            self.made()
            self.answers()
            self.insertion()
        finally:
            pyai.CAP = old
        for (rule, what), (ok, node, why) in sorted(self.seen.items(), key=lambda x: x[0]):
            self.chk.ob(rule, what, ok, self.m.where(node), why)


def make():
    chk = Check("C27", "provenance terms of the table operations, with each comparison's direction and each range's bounds judged",
                "Every comparison that decides between two embeddings, every range over sizes or lengths and every choice of an answer in "
                "busgraph_cache, the two table builders and mine_clique_embeddings.",
                ["chains of a stored embedding are sorted by length", "tables handed over by the native search list lengths in increasing order"])
    chk.rule("merge", "a merge goes over every size and length of both tables and keeps the better embedding, the old one if equal")
    chk.rule("table", "a table made from a search has, for every size up to the largest, the embedding with the shortest longest chain")
    chk.rule("answer", "an answer is the best entry that satisfies the request, entries exactly at the limit included")
    chk.rule("insert", "what is inserted, dumped or mined is taken in full and by the quality asked for")
    C27(chk).run()
    chk.need("merge", 2)
    chk.need("table", 2)
    chk.need("answer", 3)
    chk.need("insert", 3)
    return chk


if __name__ == "__main__":
    main(make)
