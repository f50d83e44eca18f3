"""C01: search options take effect and have their documented defaults."""
import ast, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS, LOOPS
from cname import cname
from flow import strip_casts
import pyfront
from pyai import Interp, alts, conv, subterms, show, module_imports, keywords, defaults, own_nodes, const_truth

OP = "find_embedding::optional_parameters"
CHAINS = {"fixed_chains", "initial_chains", "restrict_chains"}
PY_ONLY = {"suspend_chains"}


def documented(fn):
    """{option: (type, default text or None)} of find_embedding's docstring"""
    doc = ast.get_docstring(fn) or ""
    i = doc.find("Optional Parameters")
    if i < 0:
        raise AnalysisBroken("find_embedding's docstring lost its list of optional parameters")
    out = {}
    for m in re.finditer(r"^ {4}(\w+) \(([^)]*)\):", doc[i:], re.M):
        kind = m.group(2)
        d = re.search(r"(?:default|%s)\s*=\s*([^,)\s]+)" % m.group(1), kind)
        out[m.group(1)] = (kind.split(",")[0], d.group(1) if d else None)
    if len(out) < 10:
        raise AnalysisBroken("could not read the documented options: %s" % sorted(out))
    return out


def lit(text):
    return ast.literal_eval(text)


def params_of(t, P):
    """names of the options whose value the term depends on"""
    out = set()
    for x in subterms(t):
        if x[0] == "call" and x[1][0] == "attr" and x[1][1] in P and x[1][2] in ("get", "pop") and x[2] and x[2][0][0] == "const":
            out.add(x[2][0][1])
        elif x[0] == "sub" and x[1] in P and x[2][0] == "const":
            out.add(x[2][1])
    return out


def exactly(t, P):
    """the option the term is the value of (under conversions), or None"""
    t = conv(t)
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] in P and t[1][2] in ("get", "pop") and t[2] and t[2][0][0] == "const":
        if len(t[2]) > 1 and t[2][1] not in (("const", None),) and t[2][1][0] not in ("const", "tuple", "new"):
            return None
        return t[2][0][1]
    if t[0] == "sub" and t[1] in P and t[2][0] == "const":
        return t[2][1]
    return None


def presence(c, pol, P, opt):
    """is the condition only about the option being given (and not None)?  -> True/False/None (not about it)"""
    if c[0] == "cmp" and c[1] == "is" and c[3] == ("const", None) and exactly(c[2], P) == opt:
        return pol is False
    if c[0] == "cmp" and c[1] == "in" and c[2] == ("const", opt) and conv(c[3]) in P:
        return pol is True
    return None


def wrapper(chk, docs):
    m = pyfront.load("minorminer/minorminer.py")
    imp = module_imports(m)
    fn = m.functions.get("find_embedding")
    if fn is None:
        raise AnalysisBroken("minorminer.find_embedding vanished")
    I = Interp(m)
    I.run(fn)
    calls = [e for e in I.events if e.kind == "call" and e.a[0][0] == "name" and imp.get(e.a[0][1], ("", ""))[1] == "find_embedding"]
    if not calls:
        raise AnalysisBroken("minorminer.find_embedding no longer calls the compiled find_embedding")
    chk.count("calls of the compiled find_embedding", len(calls))
    rets = [e for e in I.events if e.kind == "return"]
    chk.ob("forwarded", "find_embedding returns the search's result", bool(rets) and all(r.a[0] in [c.a[3] for c in calls] for r in rets),
           m.where(fn), "returns something else than what the search returned")
    dfl = defaults(fn)
    for c in calls:
        kws = keywords(c.a[2], I.events)
        if kws is None:
            raise AnalysisBroken("cannot resolve the keywords of %s" % m.where(c.node))
        pos = list(c.a[1]) + [kws.get(n) for n in ("S", "T")][len(c.a[1]):]
        chk.ob("forwarded", "find_embedding: S, T", pos[:2] == [("param", "S"), ("param", "T")], m.where(c.node), "graphs are not passed as given")
        chk.ob("forwarded", "find_embedding: always", not c.conds, m.where(c.node), "the search is called only if %s" % [show(x) for x, _ in c.conds])
        for o in sorted(docs):
            v = kws.get(o)
            chk.ob("forwarded", "find_embedding: " + o, v == ("param", o), m.where(c.node),
                   "%s is passed as %s" % (o, show(v) if v else "nothing"))
        for o in sorted(set(kws) - set(docs) - {"S", "T"}):
            chk.ob("forwarded", "find_embedding: extra " + o, False, m.where(c.node), "passes an undocumented option")
    have = set(Interp.params(fn)) - {"S", "T"}
    chk.ob("documented-set", "minorminer.find_embedding's parameters", have == set(docs), m.where(fn),
           "differs from the documentation: %s" % sorted(have ^ set(docs)))
    for o in sorted(docs):
        d = dfl.get(o)
        try:
            v = ast.literal_eval(d) if d is not None else "none"
        except ValueError:
            v = "not a literal"
        want = docs[o][1]
        if o in CHAINS | PY_ONLY:
            ok = v != "none" and (v is None or not v)
            ok = ok and (v is not None or o in PY_ONLY)
        else:
            ok = want is not None and type(v) in (type(lit(want)), bool, int, float, type(None)) and v == lit(want) and (v is None) == (lit(want) is None)
        chk.ob("defaults-agree", "wrapper default of " + o, ok, m.where(fn), "signature default %r, documented %s" % (v, want))
    # nothing else hides or changes find_embedding in the package's namespace
    pk = pyfront.load("minorminer/__init__.py")
    pi = [n for n in ast.walk(pk.tree) if isinstance(n, ast.ImportFrom) and any(a.name in ("find_embedding", "*") for a in n.names)]
    chk.ob("forwarded", "minorminer.find_embedding is the wrapper", any((n.module or "").endswith("minorminer.minorminer") or (
        n.module or "") == "minorminer" and n.level for n in pi) and "find_embedding" not in pk.functions, pk.where(pk.tree.body[0]), "")


def native_defaults(Pg, chk):
    ctors = [f for f in Pg.lib() if f.p == OP + "::optional_parameters" and f.kind == "ctor"]
    plain = [f for f in ctors if not f.params]
    if not plain:
        raise AnalysisBroken("optional_parameters lost its default constructor")
    out = {}
    for it in plain[0].j["inits"]:
        if it.get("field"):
            out[it["field"]] = it["e"]
    return ctors, plain[0], out


def init_value(e):
    """python value of a field initializer, 'max' for numeric_limits max, 'empty' for a default-constructed container"""
    if e["k"] in ("CXXDefaultInitExpr", "InitListExpr", "ImplicitCastExpr", "ParenExpr", "CXXFunctionalCastExpr") and e.get("c"):
        return init_value(e["c"][0])
    if e["k"] == "IntegerLiteral":
        return int(e["v"])
    if e["k"] == "FloatingLiteral":
        return float(e["v"])
    if e["k"] == "CXXBoolLiteralExpr":
        return e["v"] in ("true", True, 1)
    if e["k"] == "UnaryOperator" and e.get("op") == "-":
        return -init_value(e["c"][0])
    if e["k"] == "CallExpr" and "numeric_limits" in (e.get("q") or "") and e.get("n") in ("max", "infinity"):
        return "max"
    if e["k"] == "CXXConstructExpr" and not [c for c in e.get("c", ()) if c and c["k"] != "CXXDefaultArgExpr"]:
        return "empty"
    if e.get("c") and len(e["c"]) == 1 and e["k"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr"):
        return init_value(e["c"][0])
    return "unknown " + e["k"]


def whole(t, P):
    """the term is all of the caller's names"""
    while True:
        if t in P:
            return True
        if t[0] == "call" and t[1][0] == "name" and t[1][1] in ("list", "tuple", "set", "frozenset", "sorted", "iter", "reversed", "enumerate", "dict") and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "items", "copy") and not t[2]:
            t = t[1][1]
        else:
            return False


def parser(chk, docs, native, real=frozenset()):
    m = pyfront.load("minorminer/_minorminer.pyx")
    fn = m.functions.get("_input_parser.__init__")
    if fn is None:
        raise AnalysisBroken("_input_parser.__init__ vanished")
    I = Interp(m)
    for op in ("_read_graph", "_get_chainmap"):
        if op in m.functions:
            I.opaque.add(("name", op))
    I.run(fn)
    ps = Interp.params(fn)
    if len(ps) != 4:
        raise AnalysisBroken("_input_parser.__init__ takes %s" % ps)
    P = {("param", ps[3])}
    P |= {("call", ("name", "dict"), (("param", ps[3]),), ())}
    OPTS = ("attr", ("param", ps[0]), "opts")
    raises = [e for e in I.events if e.kind == "raise"]
    refuted = {(c, not p) for e in raises for c, p in e.conds}
    chk.count("events in _input_parser.__init__", len(I.events))

    # -- names
    rej = []
    for e in raises:
        for c, p in e.conds:
            sets = [x for x in subterms(c) if x[0] in ("set", "tuple", "list") and len(x[1]) >= 10 and all(y[0] == "const" for y in x[1])]
            mention = any(x in P for x in subterms(c))
            if sets and mention and not (c[0] == "for"):
                rej.append((e, c, p, sets[0]))
    if not rej:
        chk.ob("unknown-rejected", "_input_parser: unknown names", False, m.where(fn), "no option name is rejected any more")
    for e, c, p, s in rej[:1]:
        names = {x[1] for x in s[1]}
        chk.ob("documented-set", "_input_parser's names", names == set(docs), m.where(e.node), "differs from the documentation: %s" % sorted(names ^ set(docs)))
        poly = (c[0] == "cmp" and c[1] == "in" and p is False) or (c[0] == "op" and c[1] == "-" and p is True) or (
            c[0] == "call" and c[1][0] == "attr" and (c[1][2] == "issubset" and p is False or c[1][2] == "difference" and p is True)) or (
            c[0] == "cmp" and c[1] == "<=" and p is False) or (c[0] == "comp" and p is True) or (
            c[0] == "call" and c[1] in (("name", "any"),) and p is True) or (c[0] == "call" and c[1] == ("name", "all") and p is False)
        part = [x for x in subterms(("tuple", (c,) + tuple(y for y, q in e.conds if y[0] == "for")))
                if x[0] in ("elem", "for") and isinstance(x[1], tuple) and any(y in P for y in subterms(x[1])) and not whole(x[1], P)]
        chk.ob("unknown-rejected", "_input_parser: every name given is looked at", not part, m.where(e.node),
               "looks at %s only" % (show(part[0][1])[:80] if part else ""))
        others = [x for x, q in e.conds if x is not c and x[0] != "for" and (x, q) not in refuted]
        first = min(i for i, x in enumerate(I.events) if x is e)
        early = [x for x in I.events[:first] if x.kind in ("store_attr",) and x.a[0] == OPTS]
        chk.ob("unknown-rejected", "_input_parser: unknown names", poly and not others, m.where(e.node),
               "rejection depends on %s" % ([show(x) for x in others] or show(c)))

    # -- scalar options
    stores = {}
    for e in I.events:
        if e.kind == "store_attr" and e.a[0] == OPTS:
            stores.setdefault(e.a[1], []).append((e, e.a[2]))
        elif e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == OPTS and e.a[0][2] == "seed" and e.a[1]:
            stores.setdefault("random_seed", []).append((e, e.a[1][0]))
    for o in sorted(set(docs) - CHAINS - PY_ONLY):
        ss = stores.get(o, [])
        where = m.where(ss[0][0].node) if ss else m.where(fn)
        if o != "random_seed":
            chk.ob("option-stored", o, o in native, where, "the native parameters have no field " + o)
        got = []
        for e, v in ss:
            conds = [(c, p) for c, p in e.conds if not (c[0] in ("for", "while")) and (c, p) not in refuted]
            srcs = {x for a in alts(v) for x in params_of(a, P)}
            if o == "interactive":
                okc = all(presence(c, p, P, o) is not None or exactly(c, P) == o or (
                    c[0] == "or" and all(presence(*flip(x), P, o) is not None or exactly(flip(x)[0], P) == o for x in c[1])) for c, p in conds)
                truth = truth_of(conds, P, o)
                vv = conv(v)
                ok = okc and (exactly(v, P) == o or vv[0] == "const" and truth is not None and bool(vv[1]) == truth)
                chk.ob("option-value", o + " = " + show(v), ok, m.where(e.node), "stored under %s" % [(show(c), p) for c, p in conds])
                got.append(truth)
                continue
            if not srcs:
                # a value that is not the caller's: only where the option is absent
                absent = [1 for c, p in conds if presence(c, not p, P, o)]
                same = o != "random_seed" and o in native and conv(v) == ("const", native[o])
                chk.ob("option-value", o + " = " + show(v)[:60], bool(absent) and (same or o == "random_seed") and (
                    o != "random_seed" or "urandom" in show(v)), m.where(e.node),
                    "stored value does not come from the option")
                continue
            good = []
            for a in alts(v):
                if exactly(a, P) == o:
                    good.append(True)
                elif o in native and conv(a) == ("const", native[o]) or a == ("attr", OPTS, o):
                    good.append(True)
                else:
                    good.append(False)
            bad = [show(c) for c, p in conds if presence(c, p, P, o) is not True]
            if o in real:
                cut = [x for x in subterms(v) if x[0] == "call" and x[1][0] == "name" and x[1][1] in ("int", "long", "bool", "bint", "round")]
                chk.ob("option-value", o + " keeps its fraction", not cut, m.where(e.node), "a real-valued option goes through %s()" % (cut[0][1][1] if cut else ""))
            chk.ob("option-value", o, all(good), m.where(e.node), "stored as %s" % show(v))
            chk.ob("option-guard", o, not bad, m.where(e.node), "the option is stored only if %s" % bad)
            got.append(True)
        chk.ob("option-stored", o + " reaches the native parameters", bool(got) and (o != "interactive" or {True, False} <= set(got) or None in got), where,
               "the option is read nowhere or never stored")
    # tests of a scalar option for truth drop 0 and False
    seen = set()
    for e in I.events:
        for c, p in e.conds:
            for x in subterms(c):
                pass
            o = exactly(c, P)
            if o and o not in CHAINS | PY_ONLY | {"interactive"} and (o, e.node) not in seen:
                seen.add((o, e.node))
                chk.ob("option-guard", "%s tested for truth" % o, False, m.where(e.node), "0, 0.0 and False are treated as if the option was not given")
    for e in I.events:
        if e.kind == "store_attr" and e.a[0] == OPTS and e.a[1] not in docs:
            chk.ob("option-value", "opts." + e.a[1], False, m.where(e.node), "not an option")

    # -- chain options
    order = {}
    for o in sorted(CHAINS):
        sink = ("attr", OPTS, o)
        hits = [(i, e) for i, e in enumerate(I.events) if e.kind == "call" and sink in e.a[1]]
        chk.ob("option-stored", o + " reaches the native parameters", bool(hits), m.where(fn), "the option is never read into the native parameters")
        for i, e in hits:
            src = [a for a in e.a[1] if a != sink]
            ok = bool(src) and exactly(src[0], P) == o and all(not (params_of(a, P) - {o}) for a in src)
            if ok and conv(src[0])[0] == "call" and len(conv(src[0])[2]) > 1:
                d = conv(src[0])[2][1]
                ok = d[0] == "new" or d in (("tuple", ()), ("const", None), ("const", ()))
            chk.ob("option-value", o, ok, m.where(e.node), "filled from %s" % (show(src[0]) if src else ""))
            bad = [show(c) for c, p in e.conds if (c, p) not in refuted and presence(c, p, P, o) is not True and not (exactly(c, P) == o and p)
                   and c[0] != "for"]
            chk.ob("option-guard", o, not bad, m.where(e.node), "the chains are read only if %s" % bad)
            order[o] = i
        for i, e in enumerate(I.events):
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == sink and e.a[0][2] in ("clear", "erase", "swap"):
                chk.ob("option-value", o + "." + e.a[0][2], i < order.get(o, 1 << 30), m.where(e.node), "chains already read are dropped")
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == sink and e.a[0][2] in ("insert", "emplace"):
                src = {x for a in e.a[1] for x in params_of(a, P)}
                src |= {x for c, p in e.conds for x in params_of(c, P)}
                chk.ob("option-value", o + "." + e.a[0][2], i > order.get(o, 1 << 30) and src <= {"suspend_chains", o}, m.where(e.node),
                       "pins are placed before fixed_chains is read (reading it empties the map), or come from another option")
    pins = [e for e in I.events if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("insert", "emplace") and
            e.a[0][1] == ("attr", OPTS, "fixed_chains") and any("suspend_chains" in params_of(c, P) for c, p in e.conds)]
    chk.ob("option-stored", "suspend_chains reaches the native parameters", bool(pins), m.where(fn), "suspend_chains is never turned into pins")

    # -- both entry points use it, unchanged, and nobody else writes the parameters
    users = 0
    for q, f in sorted(m.functions.items()):
        if f is fn:
            continue
        J = Interp(m, inline=False)
        J.run(f)
        for e in J.events:
            if e.kind == "store_attr" and (e.a[0][0] == "attr" and e.a[0][2] == "opts"):
                chk.ob("only-the-parser-writes", q + ": opts." + e.a[1], False, m.where(e.node), "changes an option after it was read")
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1][0] == "attr" and e.a[0][1][2] == "opts" and q not in ("_get_chainmap",):
                chk.ob("only-the-parser-writes", "%s: opts.%s()" % (q, e.a[0][2]), False, m.where(e.node), "changes an option after it was read")
            if e.kind == "call" and e.a[0] == ("name", "_input_parser"):
                users += 1
                kw = "**" + (f.args.kwarg.arg if f.args.kwarg else "")
                want = tuple(("param", x) for x in Interp.params(f)[-2:]) + (("param", kw),)
                bad = [show(c) for c, p in e.conds]
                chk.ob("one-parser", q, e.a[1] == want and not bad, m.where(e.node), "parses %s%s" % ([show(a) for a in e.a[1]], " if %s" % bad if bad else ""))
            if e.kind in ("store_sub", "del_sub") and f.args.kwarg and e.a[0] == ("param", "**" + f.args.kwarg.arg):
                chk.ob("one-parser", q + ": options unchanged", False, m.where(e.node), "the caller's options are changed before they are parsed")
            if f.args.kwarg and e.kind == "call" and e.a[0][0] == "attr" and e.a[0][1] == ("param", "**" + f.args.kwarg.arg) and \
                    e.a[0][2] in ("pop", "update", "clear", "setdefault", "popitem"):
                chk.ob("one-parser", q + ": options unchanged", False, m.where(e.node), "the caller's options are changed before they are parsed")
            if e.kind == "call" and e.a[0] in (("name", "findEmbedding"), ("name", "pathfinder_wrapper")):
                src = [a for a in e.a[1]][:3]
                roots = {a[1] for a in src if a[0] == "attr"}
                ok = [a[2] if a[0] == "attr" else "?" for a in src] == ["Sg", "Tg", "opts"] and len(roots) == 1
                chk.ob("one-parser", q + " -> " + e.a[0][1], ok, m.where(e.node), "searches with %s" % [show(a) for a in src])
    chk.need("one-parser", 4)


def flip(x):
    p = True
    while x[0] == "not":
        x, p = x[1], not p
    return x, p


def truth_of(conds, P, o):
    """truth of the option's value under the guards: True, False or None (unknown)"""
    for c, p in conds:
        if exactly(c, P) == o:
            return p
        if c[0] == "or" and p:
            if all((lambda y, q: (presence(y, q, P, o) is False) or (exactly(y, P) == o and not q))(*flip(x)) for x in c[1]):
                return False
        if c[0] == "cmp" and c[1] == "is" and exactly(c[2], P) == o and p and c[3] == ("const", None):
            return False
    return None


def native(chk, docs):
    Pg = program("_minorminer")
    ctors, plain, inits = native_defaults(Pg, chk)
    vals = {k: init_value(e) for k, e in inits.items()}
    at = "%s:%d" % (plain.file, plain.line)
    for o in sorted(docs):
        if o in PY_ONLY or o == "random_seed":
            continue
        if o in CHAINS:
            chk.ob("defaults-agree", "native default of " + o, vals.get(o) == "empty", at, "%r" % (vals.get(o),))
            continue
        want = docs[o][1]
        d = lit(want) if want is not None else "undocumented"
        v = vals.get(o, "no such field")
        ok = (v == "max") if d is None else (not isinstance(v, str) and v == d)
        chk.ob("defaults-agree", "native default of " + o, ok, at, "native %r, documented %s" % (v, want))
    fields = sorted(vals)
    for f in ctors:
        if not f.params:
            continue
        names = {p["n"] for p in f.params}
        for it in f.j["inits"]:
            o = it.get("field")
            if not o:
                continue
            refs = refs_in(it["e"])
            if o == "rng":
                ok = any(x[0] == "field" and x[1] == "rng" for x in refs)
            else:
                ok = ([x for x in refs if x[0] == "field"] == [("field", o)] and not [x for x in refs if x[0] == "op"]) or (
                    o in names and refs == [("parm", o)])
            chk.ob("copy-keeps", "optional_parameters(%s): %s" % (", ".join(sorted(names)), o), ok, "%s:%d" % (f.file, it["e"].get("l", f.line)),
                   "initialized from %s" % refs)
        got = {it.get("field") for it in f.j["inits"]}
        for o in fields:
            if o not in got:
                chk.ob("copy-keeps", "optional_parameters: " + o, False, "%s:%d" % (f.file, f.line), "not initialized")
    chk.need("copy-keeps", 16)

    # the copy that the search runs on
    copies = 0
    for f in Pg.lib():
        for n in list(f.nodes()) + [x for it in inits_nodes(f) for x in it.walk()]:
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and n.cls == OP and len(n.kids) >= 4:
                copies += 1
                order = [x for c in n.kids[1:4] for x in [sorted({y.n for y in c.walk() if y.k == "MemberExpr" and y.n in CHAINS})]]
                chk.ob("copy-keeps", cname(f) + ": chains of the sub-search", order == [["fixed_chains"], ["initial_chains"], ["restrict_chains"]], n.at(),
                       "passes %s" % order)
    if not copies:
        raise AnalysisBroken("nothing copies optional_parameters with new chains")

    # -- writes, reads
    reads, owner = {}, {}
    for f in Pg.lib():
        if f.p.startswith(OP + "::"):
            continue
        for n in list(f.nodes()) + [x for it in inits_nodes(f) for x in it.walk()]:
            if n.k != "MemberExpr" or not (n.q or "").startswith(OP + "::") or n.dk != "Field":
                continue
            o = n.n
            if o in ("localInteractionPtr", "rng"):
                continue
            if "__pyx" in f.p or f.file.endswith(".cpp") and "minorminer" not in f.file:
                continue
            w = written(n)
            if w:
                chk.ob("options-stay", "%s writes %s" % (cname(f), o), False, n.at(), "an option is changed inside the library")
            reads.setdefault(o, []).append((f, n))
    for o in fields:
        if o in ("localInteractionPtr", "rng"):
            continue
        rs = reads.get(o, [])
        chk.ob("options-used", o, bool(rs), at, "nothing in the library reads the option")
        chk.count("reads of options in the library", len(rs))
    for o, rs in sorted(reads.items()):
        for f, n in rs:
            kind, tgt, why = consumer(n, o)
            if kind == "scaled":
                chk.ob("options-unscaled", "%s: %s" % (cname(f), o), False, n.at(), why)
            else:
                chk.ob("options-unscaled", "%s: %s (%s)" % (cname(f), o, kind), True, n.at(), "")
            if tgt is not None:
                owner.setdefault((cname(f), tgt), {}).setdefault(o, n)
    for (fn, var), src in sorted(owner.items(), key=lambda x: str(x[0])):
        chk.ob("one-option-per-budget", "%s: %s" % (fn, var[0]), len(src) == 1, next(iter(src.values())).at(),
               "takes its value from %s" % " and ".join(sorted(src)))
    chk.need("options-unscaled", 20)
    dispatch(chk, Pg)
    roles(chk, Pg)


def inits_nodes(f):
    return [n for n in (f.inits() if callable(getattr(f, "inits", None)) else f.inits) or () for n in ([n] if hasattr(n, "walk") else [n[-1]]) if hasattr(n, "walk")]


def refs_in(e):
    out = []
    if e["k"] == "MemberExpr" and e.get("dk") == "Field":
        out.append(("field", e["n"]))
        return out
    if e["k"] == "DeclRefExpr" and e.get("dk") == "ParmVar":
        out.append(("parm", e["n"]))
    if e["k"] in ("BinaryOperator", "UnaryOperator", "ConditionalOperator", "IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr"):
        out.append(("op", e["k"]))
    if e["k"] in ("CallExpr", "CXXMemberCallExpr"):
        out.append(("op", e.get("n")))
    for c in e.get("c", ()):
        if c:
            out += refs_in(c)
    return out


def up_plain(n):
    p = n
    while p.parent is not None and p.parent.k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
                                                  "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "CStyleCastExpr"):
        p = p.parent
    return p, p.parent


ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}
MUTATORS = {"clear", "erase", "insert", "emplace", "operator[]", "swap", "merge", "extract", "insert_or_assign", "try_emplace", "operator="}


def written(n):
    p, q = up_plain(n)
    if q is None:
        return False
    if q.k in ("BinaryOperator", "CompoundAssignOperator") and q.op in ASSIGN and q.kids[0] is p:
        return True
    if q.k == "UnaryOperator" and q.op in ("++", "--"):
        return True
    if q.k == "CXXOperatorCallExpr" and (q.op in ASSIGN or q.op == "[]") and len(q.kids) > 1 and q.kids[1] is p:
        return True
    if q.k == "MemberExpr" and q.n in MUTATORS:
        return True
    return False


PRINT = {"major_info", "minor_info", "extra_info", "debug", "error", "print_out", "print_err", "displayOutput", "displayError", "snprintf", "printf"}


def printed(n):
    return any(x.k in CALLS and x.n in PRINT for x in n.up())


def consumer(n, o):
    """(kind, target variable or None, explanation)"""
    p, q = up_plain(n)
    if printed(n):
        return "printed", None, ""
    hops = 0
    while q is not None and hops < 6:
        hops += 1
        if q.k == "Var":
            return "assigned", (q.n, q.d), ""
        if q.k in ("BinaryOperator", "CompoundAssignOperator"):
            if q.op in ASSIGN:
                l = strip_casts(q.kids[0])
                if q.op != "=":
                    return "accumulated", None, ""
                return "assigned", (l.n, l.d) if l is not None and l.n else None, ""
            if q.op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", ","):
                return "compared", None, ""
            other = q.kids[1] if q.kids[0] is p else q.kids[0]
            if any(x.k == "DeclRefExpr" or x.k == "MemberExpr" for x in other.walk()):
                return "combined", None, ""
            return "scaled", None, "the option is changed by a constant (%s)" % q.text()
        if q.k == "UnaryOperator" and q.op in ("-", "~"):
            return "scaled", None, "the option is negated"
        if q.k in CALLS:
            if q.n in ("min", "max", "fmin", "fmax", "clamp"):
                consts = [x for a in q.kids for x in (a.walk() if a is not None else ()) if x.k in ("IntegerLiteral", "FloatingLiteral")]
                vals = [float(x.v) for x in consts]
                fine = all((q.n in ("max", "fmax") and o == "max_beta" and v == 1) or (q.n in ("min", "fmin") and v >= 1e9) or (
                    q.n in ("max", "fmax") and v <= 0) for v in vals)
                if not fine:
                    return "scaled", None, "the option is clamped by %s" % vals
            else:
                return "passed", None, ""
        if q.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr"):
            pass
        elif q.k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "ConditionalOperator"):
            return "tested", None, ""
        elif q.k in ("ReturnStmt",):
            return "returned", None, ""
        elif q.k in ("MemberExpr",):
            return "used", None, ""
        p, q = up_plain(q)
    return "used", None, ""


def evaluate(n, val):
    """value of a condition over one option (or a container's size)"""
    n = strip_casts(n)
    if n is None:
        return None
    if n.k in ("ParenExpr", "ExprWithCleanups") and n.kids:
        return evaluate(n.kids[0], val)
    if n.k == "IntegerLiteral":
        return int(n.v)
    if n.k == "CXXBoolLiteralExpr":
        return n.v in ("true", True, 1)
    if n.k == "MemberExpr" and (n.q or "").startswith(OP + "::") and n.dk == "Field":
        return val
    if n.k in CALLS and n.n in ("size", "empty") and n.kids:
        return (val == 0) if n.n == "empty" else val
    if n.k == "UnaryOperator" and n.op in ("!", "-"):
        v = evaluate(n.kids[0], val)
        return None if v is None else (not v if n.op == "!" else -v)
    if n.k == "BinaryOperator":
        a, b = evaluate(n.kids[0], val), evaluate(n.kids[1], val)
        if a is None or b is None:
            return None
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b, "&&": bool(a) and bool(b), "||": bool(a) or bool(b)}.get(n.op)
    return None


WANT = {"fixed_chains": (lambda v: v > 0, "fixed_handler_hival", "fixed_handler_none"),
        "restrict_chains": (lambda v: v > 0, "domain_handler_masked", "domain_handler_universe"),
        "threads": (lambda v: v > 1, "pathfinder_parallel", "pathfinder_serial"),
        "verbose": (lambda v: v > 0, "output_handler<true>", "output_handler<false>")}


def dispatch(chk, Pg):
    """options decided at compile time: the branch taken builds the class the option asks for"""
    seen = {}
    for f in Pg.lib():
        if "pathfinder_wrapper" not in f.p:
            continue
        for n in f.nodes():
            if n.k not in ("IfStmt", "ConditionalOperator"):
                continue
            kids = [k for k in n.kids]
            cond = kids[0] if n.k == "ConditionalOperator" else next((k for k in kids if k is not None and "Stmt" not in k.k), kids[0])
            opts = {x.n for x in cond.walk() if x.k == "MemberExpr" and (x.q or "").startswith(OP + "::") and x.dk == "Field"}
            if len(opts) != 1:
                continue
            o = opts.pop()
            if o not in WANT:
                continue
            truth, yes, no = WANT[o]
            arms = kids[kids.index(cond) + 1:]
            tab = [evaluate(cond, v) for v in (0, 1, 2, 3)]
            if None in tab:
                raise AnalysisBroken("cannot evaluate %s in %s" % (cond.text(), f.p))
            tab = [bool(x) for x in tab]
            want = [truth(v) for v in (0, 1, 2, 3)]
            flipped = tab == [not x for x in want]
            if tab != want and not flipped:
                chk.ob("dispatch", "%s: test of %s" % (cname(f), o), False, n.at(), "%s does not decide whether the option asks for %s" % (cond.text(), yes))
                seen.setdefault(o, 0)
                seen[o] += 1
                continue
            then = built(Pg, f, arms[0])
            els = built(Pg, f, arms[1]) if len(arms) > 1 and arms[1] is not None else built(Pg, f, f.root, exclude=n)
            if flipped:
                then, els = els, then
            ok = bool(then) and bool(els) and all(yes in t and no not in t for t in then) and all(no in t and yes not in t for t in els)
            chk.ob("dispatch", "%s: %s" % (cname(f), o), ok, n.at(), "builds %s where the option is set and %s where not" % (short(then), short(els)))
            seen[o] = seen.get(o, 0) + 1
    for o in WANT:
        if not seen.get(o):
            chk.ob("dispatch", "pathfinder_wrapper: " + o, False, "include/find_embedding/find_embedding.hpp", "nothing selects %s" % WANT[o][1])


def short(ts):
    return sorted({re.sub(r"find_embedding::", "", t)[:90] for t in ts})[:2]


def built(Pg, f, node, exclude=None):
    out = set()
    if node is None:
        return out

    def news(g, nodes):
        for x in nodes:
            if x.k == "CXXNewExpr" and "pathfinder_" in x.type:
                out.add(x.type)
            elif x.k == "CXXConstructExpr" and x.q and re.search(r"::pathfinder_(serial|parallel)$", x.cls or ""):
                out.add(x.type)
    here = [x for x in node.walk() if exclude is None or not x.within(exclude)]
    news(f, here)
    roots = [t for x in here if x.k in CALLS for t in Pg.targets(x)]
    for g in Pg.reachable([t for t in roots if t.defined]):
        g = Pg.func(g)
        if g is not None and g.root is not None and "pathfinder_wrapper" in g.p:
            news(g, g.nodes())
    return out


def roles(chk, Pg):
    """which loop each budget bounds"""
    for f in Pg.lib():
        if f.n != "heuristicEmbedding" or "pathfinder_base" not in f.p or f.root is None:
            continue
        var = {}
        for n in f.nodes():
            if n.k == "MemberExpr" and (n.q or "").startswith(OP + "::") and n.n in ("tries", "inner_rounds", "max_no_improvement", "chainlength_patience"):
                kind, tgt, _ = consumer(n, n.n)
                if tgt is not None:
                    var.setdefault(n.n, set()).add(tgt[1])
        loops = {}
        for n in f.nodes():
            if n.k in LOOPS:
                inner = [x for x in loop_cond(n)]
                for o, ds in var.items():
                    if any(x.k == "DeclRefExpr" and x.d in ds for x in inner) or any(
                            x.k == "DeclRefExpr" and x.d in ds and x.up and any(y.k == "IfStmt" and y.within(n) for y in x.up()) for x in n.walk()):
                        loops.setdefault(o, []).append(n)
        t, r, c = loops.get("tries", []), loops.get("inner_rounds", []), loops.get("chainlength_patience", [])
        i = loops.get("max_no_improvement", [])
        if not (t and r and c and i):
            chk.count("budget loops not in one function", 1)
            continue
        ok = any(x.within(y) and x is not y for x in r for y in t)
        chk.ob("budget-bounds-its-loop", cname(f) + ": inner_rounds within tries", ok, r[0].at(), "inner_rounds does not bound the passes of one trial")
        chk.ob("budget-bounds-its-loop", cname(f) + ": max_no_improvement", any(x in r or any(x.within(y) for y in r) for x in i), i[0].at(),
               "max_no_improvement does not bound the passes of one trial")
        chk.ob("budget-bounds-its-loop", cname(f) + ": chainlength_patience", all(not any(x.within(y) for y in t) for x in c), c[0].at(),
               "chainlength_patience does not bound the chain-length phase")


def loop_cond(n):
    if n.k == "WhileStmt":
        body = n.kids[-1]
    elif n.k == "ForStmt":
        body = n.kids[-1]
    elif n.k == "DoStmt":
        body = n.kids[0]
    else:
        return []
    return [x for k in n.kids if k is not None and k is not body for x in k.walk()]


def run():
    chk = Check("C01", "provenance dataflow over the option parser's syntax tree, reads and copies of option fields over clang's program",
                "Follows every documented option from the Python signature, through the keyword call and the parser, into the "
                "same-named native field, and lists every constructor, write, read and compile-time dispatch of those fields.",
                ["Cython converts int(z), float(z) and bint values as documented"])
    chk.rule("forwarded", "minorminer.find_embedding hands every documented option, unchanged and under its own name, to the search and returns its result")
    chk.rule("documented-set", "the accepted names are exactly the documented ones")
    chk.rule("defaults-agree", "an option's default in the signature, in the documentation and in the native parameters is the same")
    chk.rule("unknown-rejected", "a name outside the documented set raises, whatever the other options are")
    chk.rule("option-stored", "every documented option is stored into the native parameters")
    chk.rule("option-value", "what is stored under an option's name is that option's value, under numeric conversion only")
    chk.rule("option-guard", "an option is stored whenever it is given and not None, so 0, False and empty values count")
    chk.rule("one-parser", "find_embedding and miner parse the caller's options with the same parser and search with its result")
    chk.rule("only-the-parser-writes", "no Python function changes an option after parsing")
    chk.rule("copy-keeps", "a copy of the parameters takes every field from the same field (chains from the same-named argument)")
    chk.rule("options-stay", "the library never writes to the parameters")
    chk.rule("options-used", "every option is read by the search")
    chk.rule("options-unscaled", "no read of an option scales, offsets, negates or clamps it by a constant")
    chk.rule("one-option-per-budget", "a budget takes its initial and reset values from one option")
    chk.rule("budget-bounds-its-loop", "tries bounds the trials, inner_rounds and max_no_improvement the passes of a trial, chainlength_patience the chain-length phase")
    chk.rule("dispatch", "the class built for fixed chains, restricted chains, threads and verbosity is the one the option asks for")
    nm = pyfront.load("minorminer/_minorminer.pyx")
    fe = nm.functions.get("find_embedding")
    if fe is None:
        raise AnalysisBroken("the compiled find_embedding vanished")
    docs = documented(fe)
    chk.count("documented options", len(docs))
    wrapper(chk, docs)
    Pg = program("_minorminer")
    _, _, inits = native_defaults(Pg, chk)
    nat = {k: init_value(e) for k, e in inits.items()}
    real = {x["n"] for r in Pg.records.values() if (r.get("q") or r.get("n") or "").endswith("optional_parameters") for x in r["fields"]
            if Pg.types[x["t"]][1].replace("const", "").strip() in ("double", "float")}
    chk.count("real-valued options", len(real))
    parser(chk, docs, nat, real)
    native(chk, docs)
    return chk


if __name__ == "__main__":
    main(run)
