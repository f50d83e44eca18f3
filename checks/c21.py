"""C21: layout.find_embedding hands on exactly what the user gave and what it computed."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront
from pyai import Interp, alts, subterms, show, elem, method
from paths import EveryPath, pure
from itertools import product

REL = "minorminer/layout/__init__.py"
LAY, PLC = ("dim", "center", "scale"), ("scale_ratio", "subset_size", "num_neighbors")
NONE_IS_DEFAULT = ("dim", "center", "scale", "scale_ratio")
FAMILIES = {"chimera", "pegasus", "zephyr"}
CLOCKS = ("perf_counter", "monotonic", "time", "default_timer", "process_time")
CLASSES = ("Layout", "Placement", "graph_layout", "dnx_layout", "p_norm", "closest", "intersection")


def nm(t):
    return t[-1] if isinstance(t[-1], str) else None


class Paths(EveryPath):
    """membership of a key in the keywords is merged, everything else decided; every clock reading is its own value"""
    loop = Interp.loop
    LIMIT = 20000

    def __init__(self, m, kw, **k):
        EveryPath.__init__(self, m, **k)
        self.kw = kw
        self.opaque |= {("name", n) for n in CLASSES}

    def run(self, fn, bind=None, cls=None):
        self.serialno = 0
        return EveryPath.run(self, fn, bind, cls)

    def about_keys(self, c):
        c = c[1] if c[0] == "not" else c
        return c[0] == "cmp" and c[1] == "in" and self.kw in subterms(c[3]) and all(x[0] == "const" and x[1] in LAY + PLC for x in alts(c[2]))

    def branch(self, test, body, orelse, st, fr):
        self.mute += 1
        c = self.ev(test, st.copy(), fr)
        self.mute -= 1
        if self.about_keys(c):
            return Interp.branch(self, test, body, orelse, st, fr)
        return EveryPath.branch(self, test, body, orelse, st, fr)

    def x_Call(self, e, st, fr):
        t = EveryPath.x_Call(self, e, st, fr)
        if t[0] == "call" and t[1][-1] in CLOCKS and not t[2]:
            if not self.mute:
                self.serialno += 1
            t = ("clock", self.serialno)
            self.emit("clock", (t,), st, e, fr)
        return t


def lin(t):
    """a term as a sum of atoms"""
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, b = lin(t[2]), lin(t[3])
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in a.items() if v}
    if t[0] == "op" and t[1] == "-" and len(t) == 3 or t[0] == "neg":
        return {k: -v for k, v in lin(t[-1]).items()}
    if t == ("const", 0):
        return {}
    return {t: 1}


class C21(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        if "find_embedding" not in self.m.functions:
            raise AnalysisBroken("%s has no find_embedding" % REL)
        self.fn = self.m.functions["find_embedding"]
        ps = EveryPath.params(self.fn)
        self.S, self.T = ("param", ps[0]), ("param", ps[1])
        self.layout, self.placement = ("param", "layout"), ("param", "placement")
        if self.fn.args.kwarg is None:
            raise AnalysisBroken("find_embedding takes no keywords")
        self.kw = ("param", "**" + self.fn.args.kwarg.arg)

    def own(self, t):
        """the caller's keywords (or a copy)"""
        if t == self.kw:
            return True
        if t[0] == "call" and t[1] == ("name", "dict") and t[2] == (self.kw,) and not t[3]:
            return True
        return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and self.own(t[1][1])

    # ------------------------------------------------------------ where the keywords go
    def popped(self, t):
        """(keys, has a None default, other default) for kwargs.pop(key[, default])"""
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "get") and self.own(t[1][1]) and t[2]:
            return t[2][0], t[2][1:], t[1][2]
        if t[0] == "sub" and self.own(t[1]):
            return t[2], (), "get"
        return None

    def fill(self, d, events, rep):
        """keys of a dict of passed-on keywords: {key: ok}"""
        out = {}

        def add(k, v, conds, node):
            for c in alts(k):
                p = self.popped(v)
                if c[0] != "const" or p is None or p[0] != k:
                    rep(node, "%s gets %s" % (show(c), show(v)[:60]))
                    continue
                if c[1] in out:
                    rep(node, "%s is passed on twice" % c[1])
                there = any(self.holds(x, pol, k) for x, pol in conds)
                rest = [(x, pol) for x, pol in conds if not self.holds(x, pol, k) and x[0] != "for"]
                if p[1] and p[1] != (("const", None),):
                    rep(node, "%s gets a default of its own" % c[1])
                if p[1] and not there and c[1] not in NONE_IS_DEFAULT:
                    rep(node, "%s is passed as None when it was not given" % c[1])
                if p[2] == "get" and not p[1] and not there and c[1] not in NONE_IS_DEFAULT:
                    rep(node, "%s is passed as None when it was not given" % c[1])
                for x, pol in rest:
                    if not self.free(x):
                        rep(node, "%s is passed on only if %s" % (c[1], show(x)[:60]))
                out[c[1]] = node
        if d[0] == "dict":
            for k, v in d[1]:
                if k == ("**",):
                    for a, b in self.fill(v, events, rep).items():
                        out[a] = b
                else:
                    add(k, v, (), None)
        elif d[0] == "comp" and d[1] == "dict":
            add(d[2], d[3], tuple((x, True) for x in d[5]), None)
        elif d[0] == "call" and d[1] == ("name", "dict"):
            for n, v in d[3]:
                add(("const", n), v, (), None)
            for a in d[2]:
                out.update(self.fill(a, events, rep))
        elif d[0] != "new":
            rep(None, "keywords come from %s" % show(d)[:60])
        for e in events:
            if e.kind == "store_sub" and e.a[0] == d:
                add(e.a[1], e.a[2], tuple(c for c in e.conds if self.keyed(c[0])), e.node)
            elif e.kind == "call" and e.a[0] == ("attr", d, "setdefault") and len(e.a[1]) == 2:
                add(e.a[1][0], e.a[1][1], tuple(c for c in e.conds if self.keyed(c[0])), e.node)
            elif e.kind == "call" and e.a[0] == ("attr", d, "update"):
                for a in e.a[1]:
                    out.update(self.fill(a, events, rep))
            elif e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == d and e.a[0][2] in ("pop", "clear", "popitem") or e.kind == "del_sub" and e.a[0] == d:
                rep(e.node, "a keyword is dropped again")
        return out

    def keyed(self, x):
        return self.kw in set(subterms(x))

    def holds(self, x, pol, k):
        if x[0] == "not":
            return self.holds(x[1], not pol, k)
        return pol and x[0] == "cmp" and x[1] == "in" and x[2] == k and (self.own(x[3]) or self.keyed(x[3]))

    def free(self, x):
        """a condition that does not keep a key from being passed on"""
        return not self.keyed(x) or nm(x) == "timeout" or any(y == ("const", "timeout") for y in subterms(x))

    # ------------------------------------------------------------ the layouts
    def entry(self, t, i):
        if t[0] == "call" and t[1] in (("name", "tuple"), ("name", "list")) and len(t[2]) == 1:
            t = t[2][0]
        return t == ("item", self.layout, i) or t == ("sub", self.layout, ("const", i)) or t == ("sub", self.layout, ("const", i - 2))

    def is_layout(self, t, i):
        """the caller's layout for graph i"""
        return t == self.layout or self.entry(t, i)

    def facts(self, conds):
        """what the path decided"""
        f = {}
        for c, p in conds:
            while c[0] == "not":
                c, p = c[1], not p
            if c[0] == "call" and c[1] == ("name", "isinstance") and len(c[2]) == 2:
                x, k = c[2]
                names = {y[1].split(".")[-1] if y[0] == "name" else y[-1] for y in (k[1] if k[0] == "tuple" else (k,))}
                if x == self.layout and names & {"tuple", "list", "Sequence", "Iterable"}:
                    f["pair"] = p
                elif names == {"Layout"}:
                    if x == self.layout:
                        f["S obj"] = f["T obj"] = p
                        if p:
                            f["pair"] = False
                    for i, g in ((0, "S"), (1, "T")):
                        if self.entry(x, i):
                            f[g + " obj"] = p
            elif c[0] == "cmp" and c[1] == "==" and ("call", ("name", "len"), (self.layout,), ()) in c[2:] and ("const", 2) in c[2:]:
                f["two"] = p
            elif c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None) and self.is_layout(c[2], 1):
                f["T none"] = p
            elif c[0] == "cmp" and c[1] == "is" and {c[2], c[3]} & {self.layout} and all(self.is_layout(x, 1) for x in c[2:4]):
                f["T same"] = p
            elif self.family(c):
                f["family"] = p
            elif c[0] == "cmp" and c[1] == "==" and any(x[0] == "const" and x[1] in FAMILIES for x in c[2:4]) and any(self.famterm(x) for x in c[2:4]):
                k = [x[1] for x in c[2:4] if x[0] == "const"][0]
                if p:
                    f["family"] = True
                else:
                    f.setdefault("not", set()).add(k)
                    if f["not"] == FAMILIES:
                        f["family"] = False
        return f

    def famterm(self, x):
        return any(y == ("const", "family") for y in subterms(x)) and self.T in set(subterms(x))

    def family(self, c):
        if c[0] == "cmp" and c[1] == "in" and self.famterm(c[2]):
            k = c[3]
            if k[0] in ("tuple", "list", "set") and {x[1] for x in k[1] if x[0] == "const"} == FAMILIES:
                return True
            if k[0] in ("tuple", "list", "set") and all(x[0] == "const" for x in k[1]):
                return False
            raise AnalysisBroken("the D-Wave families asked for are %s" % show(k)[:80])
        return False

    def want(self, g, f):
        """the layouts graph g may get, over what the path left open"""
        out = set()
        keys = ("pair", "S obj", "T obj", "T none", "T same", "family")
        for vals in product((True, False), repeat=len(keys)):
            v = dict(zip(keys, vals))
            if any(k in f and f[k] != v[k] for k in keys):
                continue
            if not v["pair"] and v["S obj"] != v["T obj"]:
                continue
            if v["T same"] == v["pair"]:
                continue
            if v["T none"] and v["T obj"]:
                continue
            if v[g + " obj"]:
                out.add(("as is", v["pair"]))
            elif g == "T" and v["family"] and (v["T none"] or v["T same"]):
                out.add(("graph_layout", v["pair"]))
            else:
                out.add(("computed", v["pair"]))
        return out

    def got(self, g, t, events):
        """how the layout handed on for g was made: (kind, from the pair)"""
        i = 0 if g == "S" else 1
        G = self.S if g == "S" else self.T
        if t == self.layout:
            return ("as is", False), None
        if self.entry(t, i):
            return ("as is", True), None
        if t[0] == "call" and nm(t[1]) == "Layout":
            graph = t[2][0] if t[2] else dict(t[3]).get("G")
            kws = dict((k, v) for k, v in t[3] if k != "**")
            lay = t[2][1] if len(t[2]) > 1 else kws.get("layout")
            if graph != G:
                return ("Layout of %s" % show(graph)[:40], None), t
            if len(t[2]) > 2 or set(kws) - {"layout", "G"} - set(LAY):
                return ("Layout with extra arguments", None), t
            if lay == self.layout:
                return ("computed", False), t
            if lay is not None and self.entry(lay, i):
                return ("computed", True), t
            if lay is not None and nm(lay) in ("graph_layout", "dnx_layout"):
                return ("graph_layout", None), t
            if lay is None or lay == ("const", None):
                return ("computed", "none"), t
            return ("Layout by %s" % show(lay)[:40], None), t
        return (show(t)[:60], None), None

    # ------------------------------------------------------------
    def check(self):
        chk = self.chk
        bad = {r: {} for r in chk.rules}

        def rep(rule, what, node=None):
            bad[rule].setdefault(what, self.m.where(node) if node is not None else self.m.where(self.fn))
        I = Paths(self.m, self.kw, stop=lambda I, e: e.kind == "raise")
        n = 0
        hints, ends, seen = set(), set(), set()
        for events, cut in I.paths(self.fn):
            n += 1
            raised = [e for e in events if e.kind == "raise"]
            decided = tuple((e.a[0], e.a[1]) for e in events if e.kind == "decide")
            allconds = decided + tuple(c for c in (events[-1].conds if events else ()) if c not in decided)
            if any((c, not p) in decided and pure(c) for c, p in decided):
                n -= 1
                continue
            calls = [e for e in events if e.kind == "call"]
            search = [e for e in calls if nm(e.a[0]) == "find_embedding" and e.a[0] != ("name", "find_embedding")]
            f = self.facts(allconds)
            if not self.want("S", f) and not (f.get("pair") and f.get("two") is False):
                n -= 1          # contradictory
                continue
            hint = possible = None
            other = set()
            for c, p in allconds:
                while c[0] == "not":
                    c, p = c[1], not p
                if c[0] == "cmp" and c[1] == "==" and ("param", "mm_hint_type") in c[2:4]:
                    v = [x[1] for x in c[2:4] if x[0] == "const"]
                    if p:
                        hint = v[0] if v else None
                    else:
                        other |= set(v)
                elif c[0] == "cmp" and c[1] == "in" and c[2] == ("param", "mm_hint_type") and c[3][0] in ("tuple", "list", "set", "dict"):
                    v = {x[1] for x in (c[3][1] if c[3][0] != "dict" else [y[0] for y in c[3][1]]) if x[0] == "const"}
                    if p:
                        possible = v if possible is None else possible & v
                    else:
                        other |= v
            if possible is not None and hint is None:
                if not possible - other:
                    continue
                if len(possible - other) == 1:
                    hint = list(possible - other)[0]
            if hint in other:
                continue
            last = raised[-1] if raised else None
            exc = None
            if last is not None and last.a:
                t = last.a[0]
                exc = nm(t[1]) if t[0] == "call" else nm(t)
            if f.get("pair") and f.get("two") is False:
                seen.add("wrong length")
                if exc != "ValueError" or search:
                    rep("layouts", "a layout pair of another length than two is not refused with ValueError")
                continue
            plc = [e for e in calls if nm(e.a[0]) == "Placement"]
            # ---- time
            clocks = [(i, e.a[0]) for i, e in enumerate(events) if e.kind == "clock"]
            lays = [i for i, e in enumerate(events) if e.kind == "call" and nm(e.a[0]) in ("Layout",)]
            work = lays + [i for i, e in enumerate(events) if e.kind == "call" and nm(e.a[0]) == "Placement"]
            if len(plc) != 1 and (search or exc == "TimeoutError"):
                rep("placement", "%d placements are made on a path" % len(plc))
                continue
            limited = self.limited(allconds)
            store = [e for e in events if e.kind == "store_sub" and self.own(e.a[0])]
            if exc == "TimeoutError":
                seen.add("timeout raised")
                if search:
                    rep("timeout", "the search runs before the TimeoutError")
                if limited is not True:
                    rep("timeout", "TimeoutError without a timeout given", last.node)
                if self.over(allconds, clocks, work) is not True:
                    rep("timeout", "TimeoutError while there is time left", last.node)
                continue
            for e in store:
                if e.a[1] != ("const", "timeout"):
                    rep("keywords", "%s of the caller's keywords is overwritten" % show(e.a[1]), e.node)
            if search:
                tos = [e for e in store if e.a[1] == ("const", "timeout")]
                extra = dict((k, v) for k, v in search[0].a[2] if k == "timeout")
                given = tos[-1].a[2] if tos else extra.get("timeout")
                if limited is None and given is None:
                    rep("timeout", "the time spent is never taken off the timeout")
                elif limited is False and given is not None and not self.none(given):
                    rep("timeout", "a timeout is set where none was given")
                elif limited:
                    seen.add("timeout passed")
                    if given is None:
                        rep("timeout", "the time spent is not taken off the timeout")
                    else:
                        why = self.remaining(given, clocks, work)
                        if why:
                            rep("timeout", why, tos[-1].node if tos else search[0].node)
                        if self.over(allconds, clocks, work) is not False:
                            rep("timeout", "the search is started although no time may be left", search[0].node)
                        if tos and events.index(tos[-1]) > events.index(search[0]):
                            rep("timeout", "the timeout is reduced after the search", tos[-1].node)
            # ---- the hint type
            if not search:
                if exc == "ValueError" and hint is None and {"initial_chains", "suspend_chains"} <= other:
                    seen.add("bad hint")
                elif exc is not None:
                    rep("hints", "%s is raised for %s" % (exc, hint or "other hint types"), last.node)
                elif not raised:
                    rep("hints", "returns without a search")
                continue
            if len(search) > 1:
                rep("hints", "several searches", search[1].node)
            s = search[0]
            if raised and exc is not None:
                rep("hints", "%s after the search" % exc, last.node)
                continue
            kws = dict((k, v) for k, v in s.a[2] if k != "**")
            stars = [v for k, v in s.a[2] if k == "**"]
            args = dict(zip(("S", "T"), s.a[1]))
            for k in ("S", "T"):
                if k in kws:
                    args[k] = kws.pop(k)
            kws.pop("timeout", None)
            if args.get("S") != self.S or args.get("T") != self.T or len(s.a[1]) > 2:
                rep("hints", "the search is not given S and T in this order", s.node)
            star = []
            for d in stars:
                self.expand(d, kws, star)
            if len(star) != 1 or not self.own(star[0]):
                rep("keywords", "the search is not given the caller's remaining keywords", s.node)
            if hint not in ("initial_chains", "suspend_chains") or set(kws) != {hint}:
                rep("hints", "with %s the search is given %s" % (hint, ", ".join(sorted(map(str, kws))) or "no hint"), s.node)
                continue
            hints.add(hint)
            pt = plc[0].a[3]
            v = kws[hint]
            if hint == "initial_chains":
                ok = self.is_placement(v, pt)
            else:
                ok = self.is_suspend(v, pt, events)
            if not ok:
                rep("hints", "%s is %s" % (hint, show(v)[:80]), s.node)
            # ---- placement
            pk = dict((k, v) for k, v in plc[0].a[2] if k != "**")
            pa = list(plc[0].a[1])
            names = ("S_layout", "T_layout", "placement", "scale_ratio")
            for k, v in zip(names, pa):
                pk[k] = v
            if len(pa) > 3 or pk.get("placement") != self.placement or "S_layout" not in pk or "T_layout" not in pk:
                rep("placement", "the placement is not computed from (S's layout, T's layout, the caller's placement)", plc[0].node)
                continue
            out = {}
            for g in "ST":
                lt = pk[g + "_layout"]
                kind, call = self.got(g, lt, events)
                w = self.want(g, f)
                if kind[1] == "none":
                    ok = all(x[0] == "computed" for x in w) and f.get("T none") is True and g == "T"
                else:
                    ok = bool(w) and all(kind[0] == a and kind[1] in (None, b) for a, b in w)
                if not ok:
                    rep("layouts", "%s gets a layout %s where %s was asked for" % (g, self.word(kind), " or ".join(sorted(self.word(x) for x in w))),
                        plc[0].node)
                seen.add((g, kind[0]))
                if call is not None:
                    got = {}
                    for k, v in call[3]:
                        if k == "**":
                            got.update(self.fill(v, events, lambda node, w: rep("keywords", w, node)))
                        elif k in LAY:
                            got.update(self.fill(("dict", ((("const", k), v),)), events, lambda node, w: rep("keywords", w, node)))
                    if set(got) != set(LAY):
                        rep("keywords", "the layout of %s gets the keywords %s" % (g, ", ".join(sorted(map(str, got)))))
                    out[g] = lt
                else:
                    out[g] = lt
            got = {}
            for k, v in plc[0].a[2]:
                if k == "**":
                    got.update(self.fill(v, events, lambda node, w: rep("keywords", w, node)))
                elif k not in ("S_layout", "T_layout", "placement"):
                    got.update(self.fill(("dict", ((("const", k), v),)), events, lambda node, w: rep("keywords", w, node)))
            if set(got) != set(PLC):
                rep("keywords", "the placement gets the keywords %s" % ", ".join(sorted(map(str, got))))
            # ---- what is taken out of the keywords
            taken = set()
            for i, e in enumerate(events):
                if e.kind == "call" and e.a[0][0] == "attr" and self.own(e.a[0][1]) and e.a[0][2] in ("pop", "popitem", "clear", "setdefault", "update"):
                    if e.a[0][2] != "pop":
                        rep("keywords", "%s of the caller's keywords" % e.a[0][2], e.node)
                        continue
                    for c in alts(e.a[1][0]):
                        taken.add(c[1] if c[0] == "const" else show(c))
                    if i > events.index(s):
                        rep("keywords", "a keyword is taken out after the search", e.node)
                elif e.kind == "del_sub" and self.own(e.a[0]):
                    taken |= {c[1] for c in alts(e.a[1]) if c[0] == "const"}
            taken.discard("timeout")
            if taken != set(LAY + PLC):
                rep("keywords", "taken out of the search's keywords: %s" % ", ".join(sorted(map(str, taken))))
            # ---- what is returned
            r = I.ret
            rl = None
            for c, p in allconds:
                while c[0] == "not":
                    c, p = c[1], not p
                if c == ("param", "return_layouts"):
                    rl = p
            if rl is None:
                rep("result", "return_layouts is not asked")
            elif rl:
                ok = r is not None and r[0] == "tuple" and len(r[1]) == 2 and r[1][0] == s.a[3] and r[1][1] == ("tuple", (out.get("S"), out.get("T")))
                if not ok:
                    rep("result", "with return_layouts the result is %s" % show(r)[:120])
            elif r != s.a[3]:
                rep("result", "the result is %s" % show(r)[:120])
            ends.add(rl)
            for e in events:
                if e.kind == "call" and any(x == ("attr", self.T, "graph") for x in subterms(e.a[3])) and not any(
                        p and c[0] == "call" and c[1] == ("name", "hasattr") and c[2][:1] == (self.T,) for c, p in e.conds):
                    rep("layouts", "T.graph is read though T may be a list of edges", e.node)
        chk.count("paths through find_embedding", n)
        names = {"layouts": ["as given, computed or the D-Wave layout", "a pair of another length is refused", "T may be edges"],
                 "placement": ["one placement, from both layouts and the caller's placement"],
                 "keywords": ["dim, center, scale", "scale_ratio, subset_size, num_neighbors", "all others"],
                 "hints": ["initial_chains", "suspend_chains", "anything else is refused"],
                 "timeout": ["TimeoutError when nothing is left", "the rest of the time", "none where none was given"],
                 "result": ["the embedding", "the embedding and both layouts"]}
        for r in chk.rules:
            for w, where in sorted(bad[r].items()):
                chk.ob(r, "find_embedding: " + w, False, where, w)
            if not bad[r]:
                for w in names[r]:
                    chk.ob(r, "find_embedding: " + w, True, self.m.where(self.fn))
        if not any(bad.values()):
            for w in ("wrong length", "timeout raised", "timeout passed", "bad hint", ("S", "as is"), ("S", "computed"), ("T", "as is"), ("T", "computed"),
                      ("T", "graph_layout")):
                if w not in seen:
                    chk.ob({"wrong length": "layouts", "timeout raised": "timeout", "timeout passed": "timeout", "bad hint": "hints"}.get(w, "layouts"),
                           "find_embedding: never %s" % (w if isinstance(w, str) else " ".join(w)), False, self.m.where(self.fn),
                           "no path on which this happens")
            if hints != {"initial_chains", "suspend_chains"}:
                chk.ob("hints", "find_embedding: both hint types", False, self.m.where(self.fn), "only %s" % hints)
            if ends != {True, False}:
                chk.ob("result", "find_embedding: with and without layouts", False, self.m.where(self.fn), "")

    @staticmethod
    def word(k):
        return k[0] + {True: " from the pair", False: " from the single layout"}.get(k[1], "")

    def expand(self, d, kws, star):
        if d[0] == "dict":
            for k, v in d[1]:
                if k == ("**",):
                    self.expand(v, kws, star)
                elif k[0] == "const":
                    kws[k[1]] = v
                elif k == ("param", "mm_hint_type"):
                    kws["?"] = v
        else:
            star.append(d)

    def is_placement(self, v, pt):
        if v == pt or v == ("attr", pt, "placement"):
            return True
        return v[0] == "call" and v[1] == ("name", "dict") and len(v[2]) == 1 and not v[3] and self.is_placement(v[2][0], pt)

    def is_suspend(self, v, pt, events):
        """{v: [C]} for every entry of the placement"""
        if v[0] == "comp" and v[1] == "dict" and len(v[4]) == 1 and not v[5]:
            it = v[4][0]
            m = method(it, "items")
            base = m[0] if m else it
            if not self.is_placement(base, pt):
                return False
            e = elem(it)
            if v[3][0] not in ("list", "tuple", "new") or v[3][0] != "new" and len(v[3][1]) != 1:
                return False
            x = v[3][1][0] if v[3][0] != "new" else None
            from pyai import item
            if m:
                return v[2] == item(e, 0, 2) and x == item(e, 1, 2)
            return v[2] == e and x == ("sub", base, e)
        if v[0] == "new":
            st = [e for e in events if e.kind == "store_sub" and e.a[0] == v]
            if len(st) == 1:
                from pyai import item
                k, x = st[0].a[1:3]
                fors = [c[0][1] for c in st[0].conds if c[0][0] == "for"]
                if x[0] in ("list", "tuple") and len(x[1]) == 1 and fors:
                    it = fors[-1]
                    return self.is_suspend(("comp", "dict", k, x, (it,), ()), pt, events)
        return False

    # ------------------------------------------------------------ time
    def timeout_term(self, t):
        p = self.popped(t)
        return p is not None and p[0] == ("const", "timeout") and p[1] in ((), (("const", None),))

    def none(self, t):
        return t == ("const", None) or self.timeout_term(t)

    def limited(self, conds):
        r = None
        for c, p in conds:
            while c[0] == "not":
                c, p = c[1], not p
            if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None) and self.timeout_term(c[2]):
                r = not p
            elif c[0] == "cmp" and c[1] == "in" and c[2] == ("const", "timeout") and self.own(c[3]):
                if not p:
                    r = False
        return r

    def spent(self, f, clocks, work):
        """f is timeout - (now - start), the clocks read before and after the work"""
        pos = dict((t, i) for i, t in clocks)
        ck = {k: v for k, v in f.items() if k[0] == "clock"}
        rest = {k: v for k, v in f.items() if k[0] != "clock"}
        if len(rest) != 1 or not all(self.timeout_term(k) and v == 1 for k, v in rest.items()):
            return "the remaining time does not come from the timeout alone"
        if sorted(ck.values()) != [-1, 1]:
            return "the remaining time is not the timeout less one elapsed span"
        start = [k for k in ck if ck[k] == 1][0]
        now = [k for k in ck if ck[k] == -1][0]
        if work and (pos.get(start, 10**9) > min(work) or pos.get(now, -1) < max(work)):
            return "the clock is not read before the layouts and after the placement"
        return None

    def remaining(self, t, clocks, work):
        return self.spent(lin(t), clocks, work)

    def over(self, conds, clocks, work):
        """no time is left / time is left / undecided"""
        for c, p in conds:
            while c[0] == "not":
                c, p = c[1], not p
            if c[0] != "cmp" or c[1] not in ("<", "<="):
                continue
            f = lin(c[2])
            for k, v in lin(c[3]).items():
                f[k] = f.get(k, 0) - v
            f = {k: v for k, v in f.items() if v}
            if not any(k[0] == "clock" for k in f):
                continue
            neg = {k: -v for k, v in f.items()}
            if c[1] == "<=" and self.spent(f, clocks, work) is None:      # left <= 0
                return p
            if c[1] == "<" and self.spent(neg, clocks, work) is None:     # 0 < left
                return not p
            if c[1] == "<" and self.spent(f, clocks, work) is None:       # left < 0: nothing left slips through
                return True if p else None
        return None


def make():
    chk = Check("C21", "path enumeration of layout.find_embedding with keyword-flow tracking",
                "every path through the function and its helpers: which layout each graph gets, where every keyword goes, what the search is given")
    chk.rule("layouts", "each graph gets the layout asked for: an object as it is, a function or mapping computed for its own graph, the D-Wave layout "
             "only for a D-Wave target without one of its own")
    chk.rule("placement", "the placement is computed once, from S's and T's layout and the caller's placement")
    chk.rule("keywords", "dim, center and scale go to the layouts, scale_ratio, subset_size and num_neighbors to the placement, all others to the search, "
             "each unchanged and only if given")
    chk.rule("hints", "the placement reaches the search as the hint asked for, with S and T; other hint types are refused")
    chk.rule("timeout", "the search gets the timeout less the time from before the layouts to after the placement; TimeoutError when nothing is left")
    chk.rule("result", "the search's result is returned, with both layouts when asked for")
    C21(chk).check()
    return chk


if __name__ == "__main__":
    main(make)
