"""C12: a cached clique table is only used for the graph it was built for."""
import ast, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import Interp, alts, show, subterms, mentions
from cpp import program

pyai.CAP = 60
REL = "minorminer/busclique.pyx"
SELF = ("param", "self")
KEEPS = {"tuple", "list", "bytes", "str", "repr", "map", "dumps", "__cast__", "__addr__", "bytearray", "int"}


def attr_of(t, base=SELF):
    return t[2] if isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[1] == base else None


def lossless(t, want):
    """the wanted value can be read back out of t"""
    if want(t):
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("tuple", "list"):
        return any(lossless(x, want) for x in t[1])
    if t[0] == "alt":
        return all(lossless(x, want) for x in t[1])
    if t[0] == "elem":
        return lossless(t[1], want)
    if t[0] == "comp":
        return len(t) > 5 and not t[5] and t[1] != "dict" and lossless(t[2], want)
    if t[0] == "call" and t[1][0] == "name" and t[1][1] in KEEPS:
        return any(lossless(x, want) for x in t[2])
    if t[0] == "op" and t[1] in ("+", "Add") and len(t) > 3:
        return lossless(t[2], want) or lossless(t[3], want)
    return False


# ------------------------------------------------------------------ the cache file

class Cache(object):
    def __init__(self, chk):
        self.chk = chk
        self.m = pyfront.load(REL)
        self.find()

    def find(self):
        """the class that owns the cache, its lookup function, and the calls to it"""
        m = self.m
        self.uses = []
        names = {}
        for q, fn in m.functions.items():
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                    for b in list(n.args) + [k.value for k in n.keywords]:
                        for a in self.supplied(b, fn):
                            names.setdefault(n.func.attr, []).append((q, fn, n, a))
        fs = [k for k in names if any(q.endswith("." + k) for q in m.functions)]
        if not fs:
            raise AnalysisBroken("no function of busclique.pyx hands a graph method to a cache lookup")
        self.lookups = sorted(fs)
        self.uses = [(k,) + u for k in self.lookups for u in names[k]]
        self.gattr = {u[4].value.attr for u in self.uses}
        self.computes = {u[4].attr for u in self.uses}

    def supplied(self, a, fn):
        """the graph methods an argument stands for: handed over as such, or inside a function made here"""
        if isinstance(a, ast.Name):
            roots = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in s.targets)]
            roots += [s for s in ast.walk(fn) if isinstance(s, ast.FunctionDef) and s.name == a.id]
            roots = [r for r in roots if isinstance(r, (ast.Attribute, ast.Lambda, ast.FunctionDef))]
        else:
            roots = [a] if isinstance(a, (ast.Attribute, ast.Lambda)) or isinstance(a, ast.Call) and ast.unparse(a.func).endswith("partial") else []
        return [x for r in roots for x in ast.walk(r) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and
                isinstance(x.value.value, ast.Name) and x.value.value.id == "self" and x.attr in self.graph_methods()]

    def graph_methods(self):
        """methods of the native graph classes (those with a __cinit__)"""
        if not hasattr(self, "_gm"):
            cl = {q.rsplit(".", 1)[0] for q in self.m.functions if q.endswith(".__cinit__")}
            self.classes = sorted(cl)
            self._gm = {q.rsplit(".", 1)[1] for q in self.m.functions if q.rsplit(".", 1)[0] in cl and "." in q}
        return self._gm

    def run(self):
        chk, m = self.chk, self.m
        keys = set()
        for name in self.lookups:
            q = [x for x in m.functions if x.endswith("." + name)][0]
            keys |= self.lookup(q, m.functions[q])
        self.kinds()
        self.owner()
        self.version()
        return keys

    # -- one lookup function
    def lookup(self, q, fn):
        chk, m = self.chk, self.m
        evs = list(Interp(m).run(fn))
        params = [a.arg for a in fn.args.args if a.arg != "self"]
        loads, computes = set(), set()
        for e in evs:
            if e.kind == "call":
                t = e.a[3] if len(e.a) > 3 else None
                f = e.a[0]
                nm = f[1] if f[0] == "name" else (f[2] if f[0] == "attr" else None)
                if nm in ("load", "loads") and t is not None:
                    loads.add(t)
                if f[0] == "param" and t is not None:
                    computes.add(t)
        if not loads or not computes:
            raise AnalysisBroken("%s neither loads a cache nor computes one" % q)

        def table(t):
            return any(a in loads for a in alts(t))
        reads, writes = [], []
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and table(e.a[0][1]):
                if e.a[0][2] in ("get", "pop", "setdefault", "__getitem__") and e.a[1]:
                    reads.append((e, e.a[1][0]))
                    if e.a[0][2] == "setdefault":
                        writes.append((e, e.a[1][0], e.a[1][1]))
                elif e.a[0][2] == "update" and e.a[1] and e.a[1][0][0] == "dict":
                    for k, v in e.a[1][0][1]:
                        writes.append((e, k, v))
            if e.kind == "store_sub" and table(e.a[0]):
                writes.append((e, e.a[1], e.a[2]))
            for t in e.a:
                for x in subterms(t):
                    if x[0] == "sub" and len(x) == 3 and table(x[1]) and e.kind not in ("store_sub",):
                        reads.append((e, x[2]))
            if e.kind == "call" and e.a[0][-1] in ("dump", "dumps") and e.a[1]:
                for x in alts(e.a[1][0]):
                    if x[0] == "dict" and any(mentions(x, c) for c in computes):
                        chk.ob("keeps-others", "%s: a new table" % q, False, m.where(e.node), "other graphs' entries in the file are dropped")
                        writes += [(e, k, v) for k, v in x[1]]
        # the file is read whenever there is one
        for e in evs:
            if e.kind == "call" and len(e.a) > 3 and e.a[3] in loads and any(w[0].kind == "store_sub" and e.a[3] in alts(w[0].a[0]) for w in writes):
                for c, p in e.conds:
                    if c[0] in ("for", "while"):
                        continue
                    bad = [x for x in self.outside(c) if x[0] == "param" and x[1] in params]
                    chk.ob("keeps-others", "%s: the table is read%s" % (q, " whatever is asked" if bad else ""), not bad, m.where(e.node),
                           "not read, but replaced, depending on %s" % (bad[0][1] if bad else ""))
        lru = set()
        reads = [(e, k) for e, k in reads if not (k[0] == "const" and isinstance(k[1], int))]
        if not writes:
            raise AnalysisBroken("%s: no keyed write of the loaded table" % q)
        if not reads:
            chk.ob("one-key", "%s: no keyed read" % q, False, m.where(fn), "the entry handed out is not looked up under the key")
        used = {k for e, k in reads} | {w[1] for w in writes}
        for e, k in reads:
            chk.ob("one-key", "%s: read under %s" % (q, show(k)), len(used) == 1, m.where(e.node), "entries are written and read under different keys")
        for e, k, v in writes:
            ok = all(x in computes or not (x[0] in ("call",)) and x in computes for x in alts(v) if x != ("const", None)) and any(x in computes for x in alts(v))
            chk.ob("stores-computed", "%s: written under %s" % (q, show(k)), ok, m.where(e.node), "the entry is not what compute() returned: " + show(v)[:160])
        # what is returned
        got = {("call", ("attr", t, "get"), (k,), ()) for e, k in reads for t in [None]}
        for e in evs:
            if e.kind != "return" or e.stack and len(e.stack) > 1:
                continue
            if e.fn is not None and getattr(e.fn, "name", None) != fn.name:
                continue
            for x in alts(e.a[0]):
                ok = x in computes or self.is_read(x, table, used)
                chk.ob("returns-entry", "%s returns %s" % (q, self.short(x)), ok, m.where(e.node), "neither the entry under the key nor a fresh result")
        # the whole table is written back
        for e in evs:
            if e.kind == "call" and (e.a[0][-1] == "dump" if isinstance(e.a[0][-1], str) else False) and e.a[1]:
                v = e.a[1][0]
                if v in computes or (v[0] == "dict" and any(mentions(v, c) for c in computes)):
                    chk.ob("keeps-others", "%s: dump" % q, False, m.where(e.node), "other graphs' entries in the file are dropped")
                elif table(v):
                    chk.ob("keeps-others", "%s: dump" % q, True, m.where(e.node))
        # files live under the version's directory and the kind's subdirectory
        kindpar = set()
        for u in self.uses:
            if u[0] == q.rsplit(".", 1)[1]:
                pos = [i for i, a in enumerate(u[3].args) if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                for i in pos:
                    if i < len(params):
                        kindpar.add(("param", params[i]))
        for e in evs:
            if e.kind == "call" and (e.a[0][-1] in ("open",) if isinstance(e.a[0][-1], str) else False) and e.a[1]:
                p = e.a[1][0]
                root = [x for x in subterms(p) if x[0] == "call" and (x[1][-1] == "cache_rootdir" or x[1] == ("attr", ("name", "homebase"), "user_data_dir"))]
                ok = bool(root) and all(self.current(r) for r in root)
                chk.ob("versioned-path", "%s opens %s" % (q, self.tail(p)), ok, m.where(e.node), "not in the directory of the current cache version")
                chk.ob("kind-path", "%s opens %s" % (q, self.tail(p)), any(mentions(p, k) for k in kindpar), m.where(e.node),
                       "clique and biclique entries share a file")
        # a hit is refused when the caller forces a write
        out = set()
        for k in used:
            for x in subterms(k):
                for g in self.gattr:
                    a = attr_of(x, ("attr", SELF, g))
                    if a is not None:
                        out.add((k, g))
        chk.ob("key-from-graph", "%s: %s" % (q, " / ".join(sorted(show(k) for k in used))), bool(out), m.where(fn), "the key does not come from the graph object")
        return {k for k, g in out}

    def outside(self, c):
        """what a condition depends on apart from the presence of files"""
        if not isinstance(c, tuple):
            return []
        if c[0] == "call" and c[1][-1] in ("exists", "isfile", "is_file", "access"):
            return []
        out = [c] if c and c[0] == "param" else []
        for x in c:
            if isinstance(x, (tuple, frozenset)):
                for y in ([x] if isinstance(x, tuple) else x):
                    out += self.outside(y)
        return out

    def is_read(self, x, table, used):
        if x[0] == "call" and x[1][0] == "attr" and table(x[1][1]) and x[1][2] in ("get", "setdefault", "__getitem__", "pop") and x[2]:
            return x[2][0] in used
        if x[0] == "sub":
            return table(x[1]) and x[2] in used
        return x == ("const", None)

    def short(self, x):
        return x[0] if len(show(x)) > 60 else show(x)

    def tail(self, p):
        s = show(p)
        return s.rsplit(", ", 1)[-1].rstrip(")")

    def current(self, r):
        args = list(r[2]) + [v for n, v in r[3]]
        if r[1][-1] == "cache_rootdir":
            return not args or all(self.isversion(a) for a in args)
        return any(self.isversion(a) or any(self.isversion(y) for y in alts(a)) for a in args)

    def isversion(self, a):
        return self.vterm is not None and a in (self.vterm, ("name", "__cache_version"), ("global", "__cache_version"))

    @property
    def vterm(self):
        for n in self.m.tree.body:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []):
                if isinstance(t, ast.Name) and t.id == "__cache_version" and isinstance(n.value, ast.Constant):
                    return ("const", n.value.value)
        return None

    # -- the pairs (kind, compute, attribute)
    def kinds(self):
        chk, m = self.chk, self.m
        pairs, attrs = {}, {}
        for q, fn in m.functions.items():
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.lookups:
                    kind = [a.value for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    comp = None
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        for x in self.supplied(a, fn):
                            comp = ("graph", x.attr)
                        if comp is None and isinstance(a, ast.Lambda) and isinstance(a.body, ast.Attribute):
                            comp = ("own", a.body.attr)
                    if not kind or comp is None:
                        continue
                    tgt = None
                    for s in ast.walk(fn):
                        if isinstance(s, ast.Assign) and s.value is n and isinstance(s.targets[0], ast.Attribute):
                            tgt = s.targets[0].attr
                    pairs.setdefault(kind[0], []).append((comp, tgt, q, n))
        own = {}
        for kind, us in pairs.items():
            for comp, tgt, q, n in us:
                if comp[0] == "graph" and tgt:
                    own.setdefault(tgt, set()).add(comp[1])
        for kind, us in sorted(pairs.items()):
            vals = set()
            for comp, tgt, q, n in us:
                vals |= {comp[1]} if comp[0] == "graph" else own.get(comp[1], {"?" + comp[1]})
            for comp, tgt, q, n in us:
                chk.ob("kind-is-compute", "%s: %r holds %s" % (q, kind, comp[1]), len(vals) == 1, m.where(n), "one kind of file, different kinds of results: %s" % sorted(vals))
        for tgt, cs in sorted(own.items()):
            chk.ob("kind-is-compute", "self.%s" % tgt, len(cs) == 1, "", "filled from different searches: %s" % sorted(cs))
        byc = {}
        for kind, us in pairs.items():
            for comp, tgt, q, n in us:
                if comp[0] == "graph":
                    byc.setdefault(comp[1], set()).add(kind)
        for c, ks in sorted(byc.items()):
            chk.ob("kind-is-compute", "%s is kept under %s" % (c, sorted(ks)), len(ks) == 1, "", "kept in two places")

    # -- the graph object is made from the caller's graph and seed
    def owner(self):
        chk, m = self.chk, self.m
        cls = {u[1].rsplit(".", 1)[0] for u in self.uses}
        for c in sorted(cls):
            fn = m.functions.get(c + ".__init__") or m.functions.get(c + ".__cinit__")
            if fn is None:
                continue
            ps = [a.arg for a in fn.args.args if a.arg != "self"]
            stores = 0
            for e in Interp(m).run(fn):
                if e.kind == "store_attr" and e.a[1] in self.gattr and e.a[0] == SELF:
                    for v in alts(e.a[2]):
                        if v[0] != "call":
                            continue
                        stores += 1
                        args = list(v[2]) + [x for n, x in v[3]]
                        for p in ps:
                            chk.ob("made-from-arguments", "%s.%s gets %s" % (c, e.a[1], p), any(a == ("param", p) or a[0] == "alt" and ("param", p) in a[1] for a in args),
                                   m.where(e.node), "the native graph is not built from the caller's %s" % p)
            if not stores:
                raise AnalysisBroken("%s never builds its graph object" % c)
        # functions that take a graph and a seed and make such an object
        made = {("name", c) for c in cls} | {("name", c) for c in self.classes}
        for q, fn in sorted(m.functions.items()):
            ps = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
            if "seed" not in ps or "." in q:
                continue
            for e in Interp(m).run(fn):
                if e.kind == "call" and e.a[0] is not None and any(x in made for t in alts(e.a[0]) for x in subterms(t)) and e.a[1]:
                    if not any(t in made or t[0] == "sub" for t in alts(e.a[0])):
                        continue
                    args = list(e.a[1]) + [v for k, v in e.a[2]]
                    chk.ob("made-from-arguments", "%s makes %s with its seed" % (q, show(e.a[0])[:40]), any(mentions(a, ("param", "seed")) for a in args),
                           m.where(e.node), "the caller's seed is dropped")

    # -- versions
    def version(self):
        chk, m = self.chk, self.m
        n = 0
        for q, fn in m.functions.items():
            for e in Interp(m).run(fn):
                if e.kind == "call" and e.a[0][-1] == "user_data_dir" and (e.fn is None or getattr(e.fn, "name", None) == fn.name):
                    n += 1
                    pars = [("param", a.arg) for a in fn.args.args]
                    args = list(e.a[1]) + [v for k, v in e.a[2]]
                    vp = [p for p in pars if p in args]
                    dflt = {}
                    ds = fn.args.defaults
                    for a, d in zip(fn.args.args[len(fn.args.args) - len(ds):], ds):
                        dflt[a.arg] = ast.unparse(d)
                    ok = any(dflt.get(p[1]) == "__cache_version" for p in vp) or not dflt and any("__cache_version" in show(a) or a == self.vterm for a in args)
                    chk.ob("version-in-path", q, ok, m.where(e.node), "the cache directory does not name the cache version")
        if not n:
            raise AnalysisBroken("the cache directory is not taken from homebase")


# ------------------------------------------------------------------ the identity

class Identity(object):
    def __init__(self, chk, cache, keys):
        self.chk, self.m, self.cache, self.keys = chk, cache.m, cache, keys
        self.P = program("busclique")

    def serializers(self):
        """functions that turn a native graph into bytes, with the index of the bytes in what they return"""
        out = {}
        for q, fn in self.m.functions.items():
            if any(isinstance(n, ast.Attribute) and n.attr == "serialize" for n in ast.walk(fn)) and "." not in q:
                out[q] = fn
        return out

    def serializer(self, q, fn):
        chk, m = self.chk, self.m
        evs = list(Interp(m).run(fn))
        size = write = made = None
        calls = []
        for i, e in enumerate(evs):
            if e.kind in ("store_name", "return"):
                for x in subterms(e.a[-1]):
                    if made is None and x[0] == "sub" and x[2][0] == "slice" and "alloc" in str(x[1]) and x[2][1] in (("const", None), ("const", 0)) \
                            and x[2][3] in (("const", None), ("const", 1)):
                        made = (i, e, x, x[1], x[2][2])
            if e.kind != "call":
                continue
            nm = e.a[0][-1] if isinstance(e.a[0][-1], str) else None
            if nm == "serialize":
                tag = show(e.a[1][0]) if e.a[1] else ""
                if "size" in tag:
                    size = (i, e)
                if "write" in tag:
                    write = (i, e)
            if nm in ("PyBytes_FromStringAndSize",):
                made = (i, e, e.a[3], e.a[1][0], e.a[1][1])
            if nm in ("PyMem_Free", "free", "PyMem_Realloc"):
                calls.append((i, e))
        idx = None
        for e in evs:
            if e.kind == "return":
                for t in alts(e.a[0]):
                    if t[0] in ("tuple", "list"):
                        for j, x in enumerate(t[1]):
                            if made is not None and x == made[2]:
                                idx = j
                    elif made is not None and t == made[2]:
                        idx = -1
        ok = bool(size and write and made)
        detail = "size, write or bytes step missing"
        if ok:
            sz = size[1].a[3]
            buf, n = made[3], made[4]
            alloc = [x for x in subterms(buf) if x[0] == "call" and "alloc" in str(x[1][-1])]
            wbuf = write[1].a[1][-1]
            walloc = [x for x in subterms(wbuf) if x[0] == "call" and "alloc" in str(x[1][-1])]
            ok = n == sz and bool(alloc) and bool(walloc) and alloc[0] == walloc[0] and mentions(alloc[0], sz) \
                and write[0] < made[0] and not any(i < made[0] for i, e in calls) and size[1].a[0][1] == write[1].a[0][1]
            detail = "the bytes are not the whole serialization (buffer, size or order differ)"
        chk.ob("whole-serialization", q, ok and idx is not None, m.where(fn), detail)
        return idx

    def run(self):
        chk, m = self.chk, self.m
        ser = self.serializers()
        if not ser:
            raise AnalysisBroken("nothing serializes the native graph")
        index = {q: self.serializer(q, fn) for q, fn in ser.items()}
        keyattrs = set()
        for k in self.keys:
            for x in subterms(k):
                for g in self.cache.gattr:
                    a = attr_of(x, ("attr", SELF, g))
                    if a:
                        keyattrs.add(a)
        found = 0
        for c in self.cache.classes:
            fn = m.functions[c + ".__cinit__"]
            I = Interp(m)
            for q in ser:
                I.opaque.add(("name", q))
            evs = list(I.run(fn))
            vals = {}
            for i, e in enumerate(evs):
                if e.kind == "store_attr" and e.a[0] == SELF:
                    vals.setdefault(e.a[1], []).append((i, e, e.a[2]))
            if not any(a in vals for a in keyattrs):
                continue
            found += 1
            self.graph_class(c, fn, evs, vals, index)
        if found < 3:
            raise AnalysisBroken("only %d graph classes set the cache key" % found)

    def setter(self, name):
        """a native method of the graph that changes a field from an argument"""
        if not hasattr(self, "_set"):
            self._set = set()
            recs = {r["id"] for r in self.P.records.values() if r["n"] == "topo_cache"}
            for f in self.P.lib():
                if f.j.get("clsid") in recs and f.kind != "ctor" and f.params and f.root is not None and not f.j.get("const"):
                    ps = {p["d"] for p in f.params}
                    for n in f.nodes():
                        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.j.get("op", "").endswith("=") and n.kids[0].k == "MemberExpr" \
                                and any(x.k == "DeclRefExpr" and x.j.get("d") in ps for x in n.kids[1].walk()):
                            self._set.add(f.n)
        return name in self._set

    def content(self, k, vals):
        """the key with the graph's attributes replaced by what the constructor stored in them"""
        def sub(t):
            for g in self.cache.gattr:
                a = attr_of(t, ("attr", SELF, g))
                if a is not None and a in vals:
                    return vals[a][-1][2]
            if isinstance(t, tuple):
                return tuple(sub(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
            if isinstance(t, frozenset):
                return frozenset(sub(x) for x in t)
            return t
        return sub(k)

    def graph_class(self, c, fn, evs, vals, index):
        chk, m = self.chk, self.m
        key = [self.content(k, vals) for k in self.keys]
        # what the searches read
        read = {}
        for meth in sorted(self.cache.computes):
            g = m.functions.get("%s.%s" % (c, meth))
            if g is None:
                chk.ob("identity-covers", "%s.%s" % (c, meth), False, m.where(fn), "no such search")
                continue
            for e in Interp(m).run(g):
                for t in e.a:
                    for x in subterms(t):
                        a = attr_of(x)
                        if a is not None and "%s.%s" % (c, a) not in m.functions:
                            read.setdefault(a, (meth, m.where(e.node)))
        topo = vals.get("topo", [(0, None, None)])[-1][2]

        def bytes_of(owner):
            def want(t):
                # element idx of serializer(topo)
                for q, idx in index.items():
                    if idx is None:
                        continue
                    calls = [x for x in ([t] if idx == -1 else [t[1]] if isinstance(t, tuple) and len(t) > 2 and t[0] in ("sub", "item", "unpack") else [])]
                    for x in calls:
                        if x[0] == "call" and x[1] == ("name", q) and x[2] and (x[2][0] == owner or attr_of(x[2][0]) == "topo"):
                            if idx == -1 or t[2] in (idx, ("const", idx)):
                                return True
                return False
            return want
        identified = False
        for a in sorted(read):
            meth, where = read[a]
            if a == "topo":
                identified = all(lossless(k, bytes_of(topo)) for k in key)
                chk.ob("identity-covers", "%s: the graph structure" % c, identified, m.where(fn), "the key does not contain the serialized graph")
                continue
            # constant attributes
            sts = vals.get(a, [])
            want = lambda t, a=a, sts=sts: attr_of(t) == a or any(s[2] == t for s in sts)
            ok = all(lossless(k, want) for k in key)
            chk.ob("identity-covers", "%s.%s (read by %s)" % (c, a, meth), ok, where, "the results depend on it and the key does not contain it")
            # not changed after the key is made
            made = [i for at, s in vals.items() for i, e, v in s if any(lossless(v, want) for _ in [0])]
            last = [i for i, e in enumerate(evs) if e.kind == "call" and any(attr_of(x) == a for arg in e.a[1] for x in [arg])
                    and not (e.a[0][0] == "name" and e.a[0][1] in KEEPS | {"len", "map"})]
            if made and last:
                chk.ob("key-is-final", "%s.%s" % (c, a), min(made) > max(last), m.where(fn), "the key is made before the value is")
        # settings changed later
        for q, g in sorted(m.functions.items()):
            if not q.startswith(c + ".") or q.rsplit(".", 1)[1] in self.cache.computes | {"__cinit__", "__dealloc__"}:
                continue
            ge = list(Interp(m).run(g))
            for e in ge:
                if e.kind == "call" and e.a[0][0] == "attr" and self.setter(e.a[0][2]) and any(attr_of(x) == "topo" for x in subterms(e.a[0][1])):
                    for arg in e.a[1]:
                        stored = {s.a[1] for s in ge if s.kind == "store_attr" and s.a[0] == SELF and lossless(s.a[2], lambda t: t == arg)}
                        ok = all(any(lossless(k, lambda t: t == ("attr", ("attr", SELF, gr), a)) for a in stored for gr in self.cache.gattr) for k in self.keys)
                        chk.ob("identity-covers", "%s: what %s sets" % (c, q.rsplit(".", 1)[1]), ok, m.where(e.node), "the searches depend on the setting and the key does not contain it")
        # and nobody sets them on the native graph behind the class's back
        classes = {q.rsplit(".", 1)[0] for q in m.functions if q.endswith(".__cinit__")}
        for q, g in sorted(m.functions.items()):
            if q.rsplit(".", 1)[0] in classes:
                continue
            for n in ast.walk(g):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self.setter(n.func.attr) and \
                        any(isinstance(x, ast.Attribute) and x.attr == "topo" for x in ast.walk(n.func.value)):
                    chk.ob("identity-covers", "%s: %s of the native graph" % (q, n.func.attr), False, m.where(n), "the searches depend on the setting and the key does not contain it")
        # constructor arguments of the native graph
        spec = None
        for x in subterms(topo):
            if x[0] == "call" and x[1][0] == "name" and x[1][1].endswith("_spec"):
                spec = x
        if spec is None:
            raise AnalysisBroken("%s: no native specification object" % c)
        missing = Native(chk, self.P, spec[1][1]).run()
        for i, why in sorted(missing.items()):
            arg = spec[2][i] if i < len(spec[2]) else None
            ok = arg is not None and (arg[0] == "const" or all(lossless(k, lambda t: t == arg) for k in key))
            chk.ob("identity-covers", "%s: argument %d of %s" % (c, i, spec[1][1]), ok, m.where(fn), "%s, and the key does not contain it" % why)
        chk.count("graph classes")
        # the name of the file is only a name: it may collide, the key may not
        for k in key:
            chk.count("key leaves", sum(1 for _ in subterms(k)))


class Native(object):
    """what the serialization of one topology says about the arguments it was built from"""
    def __init__(self, chk, P, spec):
        self.chk, self.P, self.spec = chk, P, spec
        base = spec.replace("_spec", "")
        self.topo = self.rec(lambda r: r["n"] == "topo_cache" and any(
            f.kind == "ctor" and f.j.get("clsid") == r["id"] and f.params and base in str(f.ptype(0)) for f in self.P.lib()))
        self.specrec = self.rec(lambda r: any(x["n"].startswith(base) and "spec" in x["n"] for x in self.chain(r)) and not self.derived(r))

    def rec(self, pred):
        rs = [r for r in self.P.records.values() if pred(r)]
        if len(rs) != 1:
            raise AnalysisBroken("%d native records for %s" % (len(rs), self.spec))
        return rs[0]

    def derived(self, r):
        return any(b.get("id") == r["id"] for x in self.P.records.values() for b in x["bases"])

    def chain(self, r):
        out = [r]
        for b in r["bases"]:
            x = self.P.records.get(b["id"])
            if x is not None:
                out += self.chain(x)
        return out

    def run(self):
        chk = self.chk
        self.S = {}      # field id -> name, serialized
        roots = [f for f in self.P.lib() if f.n == "serialize" and f.j.get("clsid") == self.topo["id"] and f.root is not None
                 and any("write" in str(f.ptype(i)) for i in range(len(f.params)))]
        if len(roots) != 1:
            raise AnalysisBroken("%s: %d serialize functions" % (self.spec, len(roots)))
        self.seen = set()
        self.emit(roots[0], {})
        self.topo_fields()
        return self.spec_args()

    # ---- which fields reach the output
    def origins(self, e, env):
        if e is None:
            return set()
        out = set()
        for x in e.walk():
            if x.k == "MemberExpr" and x.j.get("dk") == "Field":
                out.add((x.j["d"], x.j.get("n")))
            if x.k == "DeclRefExpr" and x.j.get("d") in env:
                out |= env[x.j["d"]]
        return out

    def emit(self, f, env):
        k = (f.id, frozenset((p, frozenset(v)) for p, v in env.items()))
        if k in self.seen:
            return
        self.seen.add(k)
        loc = dict(env)
        for n in f.nodes():
            if n.k == "Var" and n.kids and n.kids[0] is not None:
                loc.setdefault(n.j.get("d"), set())
        for n in f.nodes():
            if n.k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                continue
            callee, args = self.args(n)
            cn = callname(n)
            if cn in ("memcpy", "memmove", "copy", "copy_n", "copy_backward"):
                src = args[1] if cn.startswith("mem") else args[0]
                for o in self.origins(src, loc):
                    self.S[o[0]] = o[1]
                    self.copysize(f, n, args)
                continue
            for t in self.P.targets(n):
                if t.root is None or not t.file_in_lib() if hasattr(t, "file_in_lib") else t.root is None:
                    continue
                if not t.p.startswith("busclique::"):
                    continue
                e2 = {}
                for i, p in enumerate(t.params):
                    if i < len(args):
                        o = self.origins(args[i], loc)
                        if o:
                            e2[p["d"]] = o
                if t.n in ("serialize", "_serialize", "_serial_helper", "_serial_addr") or e2:
                    self.emit(t, e2)
        # every value handed over goes on to be written
        if env and f.n in ("_serialize", "_serial_helper", "_serial_addr") and "size_tag" not in str(f.ptype(0)):
            for p in f.params:
                if p["d"] in env:
                    used = [x for x in f.nodes() if x.k == "DeclRefExpr" and x.j.get("d") == p["d"]]
                    self.chk.ob("writes-every-part", "%s<%s>: %s" % (f.n, ", ".join(str(f.ptype(i))[-40:] for i in range(1, len(f.params))), p["n"]),
                                bool(used), f.at(), "a part of the identity is dropped")
            if f.n == "_serialize":
                self.advance(f)

    def args(self, n):
        return n.kids[0], n.kids[1:]

    def copysize(self, f, n, args):
        """the number of bytes copied is the number reported"""
        sz = args[1 if callname(n) == "copy_n" else 2] if len(args) > 2 else None
        rets = [r for r in f.nodes() if r.k == "ReturnStmt" and r.kids]
        ok = sz is not None and bool(rets) and all(r.kids[0].text() == sz.text() for r in rets)
        self.chk.ob("writes-every-part", "%s copies what it reports (%s)" % (f.n, str(f.ptype(len(f.params) - 1))[-40:]), ok, n.at(), "the size copied is not the size returned")
        if sz is not None:
            for h in [c for c in f.nodes() if c.k == "CallExpr" and "size_tag" in " ".join(str(t.ptype(0)) for t in self.P.targets(c))]:
                for t in self.P.targets(h):
                    self.sizes(t)

    def sizes(self, t):
        """the size reported is the size of the value"""
        vt = str(t.ptype(len(t.params) - 1))
        rets = [r for r in t.nodes() if r.k == "ReturnStmt" and r.kids]
        ok = bool(rets)
        for r in rets:
            txt = r.kids[0].text()
            n = [x for x in r.kids[0].walk()]
            so = [x for x in n if x.k == "UnaryExprOrTypeTraitExpr"]
            dyn = [x for x in n if x.k == "MemberExpr" and x.j.get("dk") == "Field"]
            lits = [x for x in n if x.k == "IntegerLiteral"]
            ops = [x.j.get("op") for x in n if x.k == "BinaryOperator"]
            ok = ok and len(so) == 1 and not lits and all(o == "*" for o in ops)
            if "fat_pointer" in vt:
                ok = ok and len(dyn) == 1
        self.chk.ob("writes-every-part", "%s(%s) is the value's size" % (t.n, vt[-40:]), ok, t.at(), "the size is not that of the whole value")

    def advance(self, f):
        """each part is written behind the part before it"""
        rec = [c for c in f.nodes() if c.k == "CallExpr" and any(t.n == f.n for t in self.P.targets(c))]
        if not rec:
            return
        for c in rec:
            out = c.kids[2] if len(c.kids) > 2 else None
            ok = out is not None and any(x.k == "BinaryOperator" and x.j.get("op") == "+" for x in out.walk())
            if out is not None and not ok:
                ds = {x.j.get("d") for x in out.walk() if x.k == "DeclRefExpr"}
                ok = any(x.k == "CompoundAssignOperator" and x.j.get("op") == "+=" and x.kids[0].k == "DeclRefExpr" and x.kids[0].j.get("d") in ds
                         or x.k == "Var" and x.j.get("d") in ds and any(y.k == "BinaryOperator" and y.j.get("op") == "+" for y in x.walk())
                         for x in f.nodes())
            self.chk.ob("writes-every-part", "%s: the rest is written behind the part" % f.n, ok, c.at(), "parts overwrite each other")

    # ---- the fields of topo_cache
    def topo_fields(self):
        """the nodes and edges reach the search only through serialized masks"""
        chk = self.chk
        ctor = [f for f in self.P.lib() if f.kind == "ctor" and f.j.get("clsid") == self.topo["id"] and len(f.params) >= 2]
        if len(ctor) != 1:
            raise AnalysisBroken("%s: %d constructors" % (self.spec, len(ctor)))
        ctor = ctor[0]
        graph = {p["d"] for i, p in enumerate(ctor.params) if "vector" in str(ctor.ptype(i))}
        if len(graph) != 2:
            raise AnalysisBroken("%s: constructor takes %d lists" % (self.spec, len(graph)))
        self.nflow = 0
        for d, e in ctor.inits:
            if e is not None:
                self.flow(ctor, e, graph, d.get("field") or d.get("base"))
        if ctor.root is not None:
            self.flow(ctor, ctor.root, graph, None)
        if self.nflow < 2:
            raise AnalysisBroken("%s: the graph's nodes and edges are not followed" % self.spec)

    def flow(self, f, e, graph, field, depth=0):
        chk = self.chk
        for x in e.walk():
            if x.k != "DeclRefExpr" or x.j.get("d") not in graph:
                continue
            call = x.parent
            up = x
            while call is not None and call.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
                up, call = call, call.parent
            if call is None or call.k not in ("CallExpr", "CXXMemberCallExpr"):
                ok = call is None and False
                chk.ob("graph-through-masks", "%s: %s kept outside the masks" % (f.short() if hasattr(f, "short") else f.n, x.text()), ok, x.at(), "the graph reaches the search around the identity")
                continue
            args = call.kids[1:]
            self.nflow += 1
            ptrs = []
            for t in self.P.targets(call):
                own = t.j.get("clsid") == self.topo["id"]
                if own and t.root is not None and depth < 4:
                    g2 = {p["d"] for i, p in enumerate(t.params) if i < len(args) and any(y is x for y in args[i].walk())}
                    self.flow(t, t.root, g2, None, depth + 1)
                    continue
                for i, a in enumerate(args):
                    ty = str(t.ptype(i)) if i < len(t.params) else ""
                    if ("*" in ty or ("&" in ty and "const" not in ty)) and not any(y is x for y in a.walk()):
                        fs = self.origins(a, {})
                        null = any(y.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") for y in a.walk()) or a.text() in ("0", "NULL")
                        ok = null or bool(fs) and all(o in self.S for o, nm in fs)
                        chk.ob("graph-through-masks", "%s: %s fills %s" % (self.spec, t.n, a.text()[:40]), ok, call.at(), "the search reads it and the identity does not contain it")
                if not t.j.get("const") and t.j.get("clsid") and not own and not t.j.get("static"):
                    recv = call.kids[0]
                    fs = self.origins(recv, {})
                    for o, nm in fs:
                        chk.ob("graph-through-masks", "%s: %s kept in %s" % (self.spec, x.text(), nm), o in self.S, call.at(), "the graph reaches the search around the identity")

    # ---- the constructor arguments of the specification
    def spec_args(self):
        """argument positions the serialization does not determine -> why"""
        ctors = [f for f in self.P.lib() if f.kind == "ctor" and f.j.get("clsid") == self.specrec["id"] and len(f.params) > 1]
        if not ctors:
            raise AnalysisBroken("%s: no constructor" % self.spec)
        missing = {}
        for ct in ctors:
            top = {p["d"]: ("arg", i) for i, p in enumerate(ct.params)}
            vals = {}
            self.inits(ct, {d: ("arg", i) for d, (_, i) in top.items()}, vals, 0)
            det = set()
            names = {}
            for fid, (name, t, e) in vals.items():
                if fid in self.S:
                    ps = argset(t)
                    ok, why = injective(t)
                    if len(ps) == 1 and ok:
                        det |= ps
                    if len(ps) >= 1 and t[0] == "list":
                        det |= {p for p in ps if covers(t, p)}
            # lengths of the serialized masks
            free = set(range(len(ct.params))) - det
            dims = set()
            for fid, (name, t, e) in vals.items():
                if name in self.dimnames():
                    dims |= argset(t)
            left = free & dims
            if len(left) == 1 and self.masks_sized():
                det |= left
            for i in range(len(ct.params)):
                if i not in det:
                    missing[i] = "the serialized graph does not determine it"
            self.chk.ob("spec-analysed", "%s(%d arguments): %d determined by the serialized graph" % (self.spec, len(ct.params), len(det)), True, ct.at())
        return missing

    def dimnames(self):
        """fields the number of cells is computed from"""
        out = set()
        for f in self.P.lib():
            if f.n == "num_cells" and f.root is not None:
                for x in f.nodes():
                    if x.k == "MemberExpr" and x.j.get("dk") == "Field":
                        out.add(x.j.get("n"))
        return out

    def masks_sized(self):
        """some serialized field is allocated with one slot per cell"""
        ctor = [f for f in self.P.lib() if f.kind == "ctor" and f.j.get("clsid") == self.topo["id"] and len(f.params) >= 2][0]
        for d, e in ctor.inits:
            if d.get("d") in self.S and e is not None and "num_cells" in e.text():
                return True
        return False

    def inits(self, ct, env, vals, depth):
        if depth > 6:
            return
        for d, e in ct.inits:
            if e is None:
                continue
            if "field" in d:
                vals[d["d"]] = (d["field"], self.sym(e, env), e)
            elif e.k == "CXXConstructExpr":
                for f in self.P.lib():
                    if f.id == e.j.get("f"):
                        e2 = {p["d"]: self.sym(a, env) for p, a in zip(f.params, e.kids)}
                        self.inits(f, e2, vals, depth + 1)
            elif e.kids and e.kids[0].k == "CXXConstructExpr":
                c = e.kids[0]
                for f in self.P.lib():
                    if f.id == c.j.get("f"):
                        self.inits(f, {p["d"]: self.sym(a, env) for p, a in zip(f.params, c.kids)}, vals, depth + 1)

    def sym(self, e, env):
        if e is None:
            return ("?",)
        if e.k == "DeclRefExpr":
            return env.get(e.j.get("d"), ("?",))
        if e.k == "IntegerLiteral":
            return ("int", int(e.j.get("v", 0)))
        if e.k == "BinaryOperator":
            return ("op", e.j.get("op"), self.sym(e.kids[0], env), self.sym(e.kids[1], env))
        if e.k == "CXXOperatorCallExpr":
            return ("index", self.sym(e.kids[1], env), self.sym(e.kids[2], env) if len(e.kids) > 2 else ("?",))
        if e.k == "ArraySubscriptExpr":
            return ("index", self.sym(e.kids[0], env), self.sym(e.kids[1], env))
        if e.k == "InitListExpr":
            return ("list", tuple(self.sym(x, env) for x in e.kids))
        if e.k in ("CallExpr", "CXXMemberCallExpr"):
            return ("fn", e.kids[0].text(), tuple(self.sym(x, env) for x in e.kids[1:]))
        if e.k == "CXXConstructExpr" and len(e.kids) > 1:
            return ("fn", "construct", tuple(self.sym(x, env) for x in e.kids))
        if len(e.kids) == 1:
            return self.sym(e.kids[0], env)
        return ("?",)


def callname(n):
    t = n.kids[0].text() if n.kids and n.kids[0] is not None else ""
    return re.split(r"[<(]", t)[0].strip().split("::")[-1]


def argset(t):
    if t[0] == "arg":
        return {t[1]}
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out |= argset(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        out |= argset(y)
    return out


def injective(t):
    """one argument, carried by operations that lose nothing"""
    if t[0] == "arg":
        return True, ""
    if t[0] == "op" and t[1] in ("+", "*", "-"):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "int" and (t[1] != "*" or a[1] != 0):
                return injective(b)
        return False, "mixes arguments"
    if t[0] == "fn" and len(t[2]) == 1:
        if "amplify_seed" in t[1]:
            return injective(t[2][0])
        return False, "passes through " + t[1]
    return False, "is not a direct image"


def covers(t, p):
    """every element of an array argument is stored"""
    seen, bad = [], False
    def go(x):
        if x[0] == "list":
            for y in x[1]:
                go(y)
        elif x[0] == "index" and x[1] == ("arg", p) and x[2][0] == "int":
            seen.append(x[2][1])
    go(t)
    return bool(seen) and sorted(seen) == list(range(len(seen))) and len(seen) >= 6


def make():
    chk = Check("C12", "information-flow analysis of the cache key: what the results are computed from against what the key contains",
                "Every attribute the cached searches read and every argument the native graph is built from is enumerated and must be "
                "recoverable from the key under which entries are stored and looked up, through the Python constructors, the serialization "
                "(followed template instantiation by template instantiation down to the bytes copied) and the native constructors; the entry "
                "returned is the one under the key or freshly computed, in the directory of the cache version and the kind of result.",
                ["the seed amplifier maps different 32-bit seeds to different states",
                 "the format version constant is raised when the algorithms change (a release decision, not a code property)"])
    chk.rule("one-key", "entries are read and written under the same key")
    chk.rule("stores-computed", "what is stored under the key is what the search returned")
    chk.rule("returns-entry", "what a lookup returns is the entry under the key or the fresh result")
    chk.rule("keeps-others", "the whole table of a file is written back, so entries of graphs with the same file name survive")
    chk.rule("versioned-path", "cache files are opened in the directory of the current version")
    chk.rule("kind-path", "cliques and bicliques are kept in different directories")
    chk.rule("kind-is-compute", "one kind of file holds one kind of result")
    chk.rule("made-from-arguments", "the native graph is built from the graph and seed the caller gave")
    chk.rule("version-in-path", "the cache directory names the cache version")
    chk.rule("key-from-graph", "the key is taken from the graph object")
    chk.rule("whole-serialization", "the identity bytes are the complete serialization of the graph")
    chk.rule("identity-covers", "everything the cached results are computed from can be read back from the key")
    chk.rule("key-is-final", "what the key contains is final when the key is made")
    chk.rule("writes-every-part", "the serialization writes every part it is given, in full, one behind the other")
    chk.rule("graph-through-masks", "the graph's nodes and edges reach the search only through serialized data")
    chk.rule("spec-analysed", "the constructor chain of the topology is resolved")
    C = Cache(chk)
    keys = C.run()
    Identity(chk, C, keys).run()
    chk.need("identity-covers", 10)
    chk.need("graph-through-masks", 12)
    chk.need("writes-every-part", 10)
    chk.need("kind-is-compute", 4)
    return chk


if __name__ == "__main__":
    main(make)
