"""Provenance dataflow for the Python/Cython side (over the `ast` trees of pyfront).

Every expression gets a *term*: where its value comes from, through assignments, unpacking, containers, helper functions
of the same module and both arms of a branch ("alt").  Statements with an effect become *events* carrying the terms
involved and the conditions that guard them (early return/continue/raise negate the condition for what follows).
Loops are run twice (the second time from the joined state) and their elements are canonical terms, so
`for k in d: d[k]`, `for k, v in d.items()` and a comprehension over d all give the same terms.  Nothing is executed.
"""
import ast
import builtins

CONV = {"int", "float", "bool", "long", "str", "list", "tuple", "set", "frozenset", "dict", "sorted", "iter", "__cast__", "__addr__"}
DEPTH = 6
MAXALT = 10
CAP = 14


class Ev(object):
    __slots__ = ("kind", "a", "conds", "node", "fn", "stack", "ctx")

    def __init__(self, kind, a, conds, node, fn, stack, ctx=()):
        self.kind, self.a, self.conds, self.node, self.fn, self.stack = kind, a, tuple(conds), node, fn, stack
        self.ctx = ctx          # what is in force: ("with", term, site, serial), ("try", handler types, site)

    def __repr__(self):
        return "<%s %s if %s>" % (self.kind, [show(x) for x in self.a], [(show(c), p) for c, p in self.conds])


def alt(ts):
    out = set()
    for t in ts:
        if t is None:
            continue
        if isinstance(t, tuple) and t and t[0] == "alt":
            out |= t[1]
        else:
            out.add(t)
    if not out:
        return ("none",)
    if len(out) == 1:
        return out.pop()
    if len(out) > MAXALT:
        return ("top",)
    return ("alt", frozenset(out))


def alts(t):
    return sorted(t[1], key=repr) if isinstance(t, tuple) and t and t[0] == "alt" else [t]


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def conv(t):
    """the term under value-preserving conversions"""
    while isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "name" and t[1][1] in CONV and len(t[2]) >= 1:
        t = t[2][-1]
    return t


def show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t) if not isinstance(t, (tuple, frozenset)) else "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if k == "const":
        return repr(t[1])
    if k in ("param", "name", "global"):
        return str(t[1])
    if k == "attr":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "sub":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)" % (show(t[1]), ", ".join([show(a) for a in t[2]] + ["%s=%s" % (n, show(v)) for n, v in t[3]]))
    if k == "elem":
        return "each of " + show(t[1])
    if k == "item":
        return "%s[%s]" % (show(t[1]), t[2])
    if k == "alt":
        return "(" + " or ".join(sorted(show(x) for x in t[1])) + ")"
    if k == "op":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3])) if len(t) > 3 else "%s %s" % (t[1], show(t[2]))
    if k == "cmp":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "not":
        return "not " + show(t[1])
    if k in ("tuple", "list", "set"):
        return k + "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k == "new":
        return "new " + str(t[1])
    return k + "(" + ", ".join(show(x) for x in t[1:] if isinstance(x, tuple)) + ")"


class St(object):
    __slots__ = ("env", "conds")

    def __init__(self, env, conds):
        self.env, self.conds = env, conds

    def copy(self):
        return St(dict(self.env), list(self.conds))


class Frame(object):
    def __init__(self, fn, cls=None, nested=None):
        self.fn, self.cls, self.rets, self.nested = fn, cls, [], nested or {}


class Interp(object):
    """run(function) -> events; .ret is the term of what it returns"""

    def __init__(self, module, resolve=None, inline=True, depth=DEPTH, classes=None):
        self.m = module
        self.events = []
        self.inline = inline
        self.depth = depth
        self.stack = []
        self.mute = 0
        self.resolve = resolve          # optional: (term) -> (fn node, module) for names of other modules
        self.uid = {}
        self.opaque = set()
        self.ctx = []
        self.serial = 0
        self.yctx = {}          # generator function -> what it holds when it yields
        self.forced = {}        # id of an if's test -> the branch to follow (path enumeration)

    # ---------------------------------------------------------------- driving
    def run(self, fn, bind=None, cls=None):
        self.events = []
        env = {}
        for a in self.params(fn):
            env[a] = ("param", a)
        if fn.args.vararg:
            env[fn.args.vararg.arg] = ("param", "*" + fn.args.vararg.arg)
        if fn.args.kwarg:
            env[fn.args.kwarg.arg] = ("param", "**" + fn.args.kwarg.arg)
        env.update(bind or {})
        if cls is None and "." in getattr(fn, "qual", ""):
            cls = fn.qual.rsplit(".", 1)[0]
            if cls not in self.m.classes:
                cls = None
        self.ret = self.call_fn(fn, env, [], cls)
        return self.events

    @staticmethod
    def params(fn):
        a = fn.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def call_fn(self, fn, env, conds, cls, nested=None):
        fr = Frame(fn, cls, nested)
        self.stack.append(fr)
        st = St(env, list(conds))
        body = fn.body if isinstance(fn.body, list) else [ast.Return(fn.body)]
        falls = self.block(body, st, fr)
        self.stack.pop()
        rets = list(fr.rets)
        if falls is not None and not isinstance(fn, ast.Lambda):
            rets.append(("const", None))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(fn)):
            return ("gen", id(fn) if False else getattr(fn, "name", "lambda"), alt([e for e in self.yields(fn)]))
        return alt(rets)

    def yields(self, fn):
        return [e.a[0] for e in self.events if e.kind == "yield" and e.fn is fn]

    def emit(self, kind, a, st, node, fr):
        if not self.mute:
            self.events.append(Ev(kind, a, st.conds, node, fr.fn, tuple(f.fn for f in self.stack), tuple(self.ctx)))

    # ---------------------------------------------------------------- statements
    def block(self, body, st, fr):
        """state after the block, or None when control never reaches its end"""
        for s in body:
            st = self.stmt(s, st, fr)
            if st is None:
                return None
        return st

    def stmt(self, s, st, fr):
        k = type(s).__name__
        if k == "Expr":
            self.emit("expr", (self.ev(s.value, st, fr),), st, s, fr)
            return st
        if k in ("Assign",):
            v = self.ev(s.value, st, fr)
            for t in s.targets:
                self.assign(t, v, st, fr, s)
            return st
        if k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
            elif isinstance(s.target, ast.Name):
                st.env.setdefault(s.target.id, ("new", self.const(s.annotation), self.site(s)))
            return st
        if k == "AugAssign":
            old = self.ev(loadof(s.target), st, fr)
            v = ("op", opname(s.op), old, self.ev(s.value, st, fr))
            self.assign(s.target, v, st, fr, s)
            return st
        if k == "Return":
            v = self.ev(s.value, st, fr) if s.value is not None else ("const", None)
            fr.rets.append(v)
            self.emit("return", (v,), st, s, fr)
            return None
        if k == "Raise":
            v = self.ev(s.exc, st, fr) if s.exc is not None else ("const", None)
            self.emit("raise", (v,), st, s, fr)
            return None
        if k in ("Break", "Continue"):
            self.emit(k.lower(), (), st, s, fr)
            return None
        if k == "If":
            return self.branch(s.test, s.body, s.orelse, st, fr)
        if k == "While":
            return self.loop(s, st, fr)
        if k in ("For", "AsyncFor"):
            return self.loop(s, st, fr)
        if k == "Try" or k == "TryStar":
            before = st.copy()
            depth = len(self.ctx)
            if s.handlers:
                self.ctx.append(("try", tuple(self.names(h.type) for h in s.handlers), self.site(s)))
            st1 = self.block(s.body, st, fr)
            self.ctx = [c for i, c in enumerate(self.ctx) if i != depth or not s.handlers]
            outs = []
            if st1 is not None:
                if s.orelse:
                    st1 = self.block(s.orelse, st1, fr)
                if st1 is not None:
                    outs.append(st1)
            for h in s.handlers:
                hs = St(self.join_env([before.env, st.env]), list(before.conds))
                types = self.ev(h.type, hs, fr) if h.type is not None else ("name", "BaseException")
                hs.conds.append((("except", types, self.site(h)), True))
                if h.name:
                    hs.env[h.name] = ("exc", types)
                r = self.block(h.body, hs, fr)
                if r is not None:
                    r.conds = list(before.conds)
                    outs.append(r)
            res = self.join(outs, before.conds if len(outs) != 1 else outs[0].conds) if outs else None
            if s.finalbody:
                fs = res if res is not None else St(self.join_env([before.env, st.env]), list(before.conds))
                fs = self.block(s.finalbody, fs, fr)
                return fs if res is not None else None
            return res
        if k in ("With", "AsyncWith"):
            depth = len(self.ctx)
            for i in s.items:
                self.yctx.pop("last", None)
                v = self.ev(i.context_expr, st, fr)
                self.emit("with", (v,), st, s, fr)
                entered = self.special(v, "__enter__", [], st, fr)
                if v[0] == "gen" and self.yctx.get("last"):
                    self.ctx.extend(self.yctx["last"][len(self.ctx):])
                self.hold(v, s)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, entered if entered is not None else ("enter", v), st, fr, s)
            r = self.block(s.body, st, fr)
            for v in [c[1] for c in reversed(self.ctx[depth:])]:
                self.special(v, "__exit__", [("const", None)] * 3, r if r is not None else st, fr)
            del self.ctx[depth:]
            return r
        if k in ("FunctionDef", "AsyncFunctionDef"):
            st.env[s.name] = ("func", s.name, self.site(s))
            fr.nested[s.name] = (s, st)
            return st
        if k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.emit("del_sub", (self.ev(t.value, st, fr), self.ev(t.slice, st, fr)), st, s, fr)
                elif isinstance(t, ast.Attribute):
                    self.emit("del_attr", (self.ev(t.value, st, fr), t.attr), st, s, fr)
                elif isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
            return st
        if k == "Assert":
            c = self.ev(s.test, st, fr)
            self.emit("assert", (c,), st, s, fr)
            self.push(st, c, True)
            return st
        if k in ("Import", "ImportFrom"):
            for a in s.names:
                nm = (a.asname or a.name).split(".")[0]
                st.env[nm] = ("import", (getattr(s, "module", None) or ""), a.name)
            return st
        return st

    def branch(self, test, body, orelse, st, fr):
        c = self.ev(test, st, fr)
        truth = const_truth(c)
        if id(test) in self.forced:
            want = self.forced[id(test)]
            if truth is not None and truth is not want or (c, not want) in st.conds:
                return None
            truth = want
        a, b = st.copy(), st.copy()
        self.push(a, c, True)
        self.push(b, c, False)
        self.narrow(a, c, True)
        self.narrow(b, c, False)
        ra = self.block(body, a, fr) if truth is not False else None
        rb = (self.block(orelse, b, fr) if orelse else b) if truth is not True else None
        outs = [x for x in (ra, rb) if x is not None]
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        return self.join(outs, st.conds)

    def narrow(self, st, c, truth):
        """drop the alternatives a test for None rules out"""
        while c[0] == "not":
            c, truth = c[1], not truth
        if c[0] == "cmp" and c[1] in ("is", "is not") and c[3] == ("const", None):
            isnone = (c[1] == "is") == truth
            for k, v in list(st.env.items()):
                if v == c[2] and v[0] == "alt":
                    keep = [x for x in v[1] if (x == ("const", None)) == isnone or x[0] not in ("const", "tuple", "list", "new", "dict", "set") and True]
                    if not isnone:
                        keep = [x for x in v[1] if x != ("const", None)]
                    if keep:
                        st.env[k] = alt(keep)
        elif c[0] == "cmp" and c[1] in ("is", "is not"):
            # `x is p` for a value p that x may be
            same = (c[1] == "is") == truth
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if x[0] == "alt" and y in x[1] and y[0] == "param":
                    for k, v in list(st.env.items()):
                        if v == x:
                            st.env[k] = y if same else alt([z for z in x[1] if z != y])

    def push(self, st, c, truth):
        while c[0] == "not":
            c, truth = c[1], not truth
        if c[0] == "and" and truth or c[0] == "or" and not truth:
            for x in c[1]:
                self.push(st, x, truth)
            return
        if (c, truth) not in st.conds:
            st.conds.append((c, truth))

    def join_env(self, envs):
        out = {}
        for k in {k for e in envs for k in e}:
            out[k] = alt([e.get(k, ("unbound", k)) for e in envs])
        return out

    def join(self, sts, conds):
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        common = [c for c in sts[0].conds if all(c in x.conds for x in sts[1:])]
        return St(self.join_env([x.env for x in sts]), common)

    def loop(self, s, st, fr):
        isfor = not isinstance(s, ast.While)
        before = st.copy()
        it = self.ev(s.iter, st, fr) if isfor else None
        res = None
        for rnd in (0, 1):
            cur = st.copy()
            if rnd == 0:
                self.mute += 1
                n = len(fr.rets)
            if isfor:
                cur.conds.append((("for", it, self.site(s)), True))
                self.assign(s.target, elem(it), cur, fr, s)
            else:
                c = self.ev(s.test, cur, fr)
                cur.conds.append((("while", c, self.site(s)), True))
                self.push(cur, c, True)
            r = self.block(s.body, cur, fr)
            if rnd == 0:
                self.mute -= 1
                del fr.rets[n:]
            ends = [r.env] if r is not None else [cur.env]
            env = self.join_env([before.env] + ends)
            st = St({k: cap(v) for k, v in env.items()}, list(before.conds))
        if not isfor and not any(isinstance(x, ast.Break) for x in own_nodes(s)):
            c = self.ev(s.test, st, fr)
            self.push(st, c, False)
            if const_truth(c) is True:
                return None
        if s.orelse:
            return self.block(s.orelse, st, fr)
        return st

    def hold(self, v, node):
        self.serial += 1
        self.ctx.append(("with", v, self.site(node), self.serial))

    def special(self, v, name, args, st, fr):
        """inline a method of a context manager the resolve hook knows"""
        t = self.resolve(("attr", v, name)) if self.resolve is not None and v[0] == "call" else None
        if t is None or len(self.stack) > self.depth:
            return None
        fn, cls, selfterm, _ = t
        b = bind(fn, args, (), selfterm)
        return self.call_fn(fn, b, st.conds, cls) if b is not None else None

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            self.emit("store_name", (t.id, v), st, node, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("rest", v, i), st, fr, node)
                elif star and i > star[0]:
                    self.assign(x, ("item", v, i - n), st, fr, node)
                else:
                    self.assign(x, item(v, i, None if star else n), st, fr, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.emit("store_attr", (o, t.attr, v), st, node, fr)
            st.env["%s.%s" % (key(o), t.attr)] = v
        elif isinstance(t, ast.Subscript):
            self.emit("store_sub", (self.ev(t.value, st, fr), self.ev(t.slice, st, fr), v), st, node, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    # ---------------------------------------------------------------- expressions
    @staticmethod
    def names(t):
        if t is None:
            return "BaseException"
        return tuple(ast.unparse(x) for x in t.elts) if isinstance(t, ast.Tuple) else ast.unparse(t)

    def site(self, n):
        return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    @staticmethod
    def const(n):
        return n.value if isinstance(n, ast.Constant) else ast.unparse(n)

    def ev(self, e, st, fr):
        if e is None:
            return ("const", None)
        k = type(e).__name__
        m = getattr(self, "x_" + k, None)
        if m is not None:
            return m(e, st, fr)
        return ("other", k, self.site(e))

    def x_Constant(self, e, st, fr):
        return ("const", e.value)

    def x_Name(self, e, st, fr):
        if e.id in st.env:
            return st.env[e.id]
        g = self.m_consts().get(e.id)
        if g is not None:
            return self.ev(g, St({}, []), fr)
        return ("name", e.id)

    def m_consts(self):
        c = getattr(self.m, "_consts", None)
        if c is None:
            c = self.m._consts = module_consts(self.m)
        return c

    def x_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        v = st.env.get("%s.%s" % (key(o), e.attr))
        return v if v is not None else ("attr", o, e.attr)

    def x_Subscript(self, e, st, fr):
        o, i = self.ev(e.value, st, fr), self.ev(e.slice, st, fr)
        if i[0] == "const" and isinstance(i[1], int):
            if o[0] in ("tuple", "list") and -len(o[1]) <= i[1] < len(o[1]):
                return o[1][i[1]]
            if o[0] in ("elem", "item"):
                return item(o, i[1], None)
        return ("sub", o, i)

    def x_Slice(self, e, st, fr):
        return ("slice", self.ev(e.lower, st, fr), self.ev(e.upper, st, fr), self.ev(e.step, st, fr))

    def x_Tuple(self, e, st, fr):
        return ("tuple", tuple(self.ev(x, st, fr) for x in e.elts))

    def x_List(self, e, st, fr):
        if not e.elts:
            return ("new", "list", self.site(e))
        return ("list", tuple(self.ev(x, st, fr) for x in e.elts))

    def x_Set(self, e, st, fr):
        return ("set", tuple(self.ev(x, st, fr) for x in e.elts))

    def x_Dict(self, e, st, fr):
        if not e.keys:
            return ("new", "dict", self.site(e))
        return ("dict", tuple((self.ev(a, st, fr) if a is not None else ("**",), self.ev(b, st, fr)) for a, b in zip(e.keys, e.values)))

    def x_Starred(self, e, st, fr):
        return ("star", self.ev(e.value, st, fr))

    def x_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return v[1] if v[0] == "not" else ("not", v)
        if isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
            return ("const", -v[1])
        return ("op", type(e.op).__name__, v)

    def x_BinOp(self, e, st, fr):
        return ("op", opname(e.op), self.ev(e.left, st, fr), self.ev(e.right, st, fr))

    def x_BoolOp(self, e, st, fr):
        sub = st.copy()
        out = []
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, sub, fr)
            out.append(v)
            self.push(sub, v, isand)
        for k, v in sub.env.items():           # walrus
            if k not in st.env:
                st.env[k] = v
        return ("and" if isand else "or", tuple(out))

    def x_Compare(self, e, st, fr):
        parts, l = [], self.ev(e.left, st, fr)
        for o, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st, fr)
            parts.append(cmpterm(OPS[type(o).__name__], l, rv))
            l = rv
        return parts[0] if len(parts) == 1 else ("and", tuple(parts))

    def x_IfExp(self, e, st, fr):
        c = self.ev(e.test, st, fr)
        a, b = st.copy(), st.copy()
        self.push(a, c, True)
        self.push(b, c, False)
        self.narrow(a, c, True)
        self.narrow(b, c, False)
        truth = const_truth(c)
        if truth is not None:
            return self.ev(e.body, a, fr) if truth else self.ev(e.orelse, b, fr)
        x, y = self.ev(e.body, a, fr), self.ev(e.orelse, b, fr)
        self.emit("choice", (x,), a, e.body, fr)
        self.emit("choice", (y,), b, e.orelse, fr)
        return alt([x, y])

    def x_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def x_Lambda(self, e, st, fr):
        n = "lambda@%d:%d" % self.site(e)
        fr.nested[n] = (e, st)
        return ("func", n, self.site(e))

    def x_JoinedStr(self, e, st, fr):
        return ("fstr", tuple(self.ev(x, st, fr) for x in e.values))

    def x_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def x_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def x_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else ("const", None)
        self.emit("yield", (v,), st, e, fr)
        self.yctx["last"] = tuple(self.ctx)
        return ("sent",)

    def x_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.emit("yield", (elem(v),), st, e, fr)
        return ("sent",)

    def comp(self, e, kind, st, fr):
        sub = st.copy()
        its, ifs = [], []
        for g in e.generators:
            it = self.ev(g.iter, sub, fr)
            its.append(it)
            sub.conds.append((("for", it, self.site(g.target)), True))
            self.mute += 1
            self.assign(g.target, elem(it), sub, fr, e)
            self.mute -= 1
            for c in g.ifs:
                t = self.ev(c, sub, fr)
                ifs.append(t)
                self.push(sub, t, True)
        if kind == "dict":
            el = (self.ev(e.key, sub, fr), self.ev(e.value, sub, fr))
            return ("comp", kind, el[0], el[1], tuple(its), tuple(ifs))
        return ("comp", kind, self.ev(e.elt, sub, fr), None, tuple(its), tuple(ifs))

    def x_ListComp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def x_SetComp(self, e, st, fr):
        return self.comp(e, "set", st, fr)

    def x_GeneratorExp(self, e, st, fr):
        return self.comp(e, "gen", st, fr)

    def x_DictComp(self, e, st, fr):
        return self.comp(e, "dict", st, fr)

    def x_Call(self, e, st, fr):
        f = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            v = self.ev(a, st, fr)
            if v[0] == "star" and v[1][0] in ("tuple", "list"):
                args.extend(v[1][1])
            else:
                args.append(v)
        kws = tuple(("**" if a.arg is None else a.arg, self.ev(a.value, st, fr)) for a in e.keywords)
        term = ("call", f, tuple(args), kws)
        if f == ("name", "list") and not args or f == ("name", "dict") and not args and not kws or f == ("name", "set") and not args:
            term = ("new", f[1], self.site(e))
        self.emit("call", (f, tuple(args), kws, term), st, e, fr)
        if f[0] == "attr" and f[2] == "enter_context" and args:
            self.hold(args[0], e)
        elif f[0] == "attr" and f[2] == "acquire":
            self.hold(f[1], e)
        elif f[0] == "attr" and f[2] == "release":
            for i in range(len(self.ctx) - 1, -1, -1):
                if self.ctx[i][0] == "with" and self.ctx[i][1] == f[1]:
                    del self.ctx[i]
                    break
        t = self.target(f, fr)
        if t is not None and self.inline and len(self.stack) <= self.depth and f not in self.opaque:
            fn, cls, selfterm, closure = t
            if any(x.fn is fn for x in self.stack):
                return term
            env = dict(closure.env) if closure is not None else {}
            b = bind(fn, args, kws, selfterm)
            if b is None:
                return term
            for n, d in defaults(fn).items():
                if n not in b:
                    b[n] = self.ev(d, St({}, []), fr)
            env.update(b)
            nested = None
            if closure is not None:
                nested = dict(fr.nested)
            r = self.call_fn(fn, env, st.conds, cls, nested)
            if closure is not None and not isinstance(fn, ast.Lambda):
                pass
            return r
        return term

    def target(self, f, fr):
        """(function node, class, self term, closure state) of a callee in this module"""
        if f[0] == "func":
            for x in reversed(self.stack):
                if f[1] in x.nested:
                    fn, st = x.nested[f[1]]
                    return fn, fr.cls, None, st
            return None
        if f[0] == "name" and f[1] in self.m.functions:
            return self.m.functions[f[1]], None, None, None
        if f[0] == "attr" and f[1] in (("param", "self"), ("param", "cls")) and fr.cls:
            q = fr.cls + "." + f[2]
            if q in self.m.functions:
                fn = self.m.functions[q]
                deco = {ast.unparse(d) for d in fn.decorator_list}
                if "property" in deco:
                    return None
                return fn, fr.cls, (None if "staticmethod" in deco else f[1]), None
        if self.resolve is not None:
            return self.resolve(f)
        return None


OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}
NEG = {"!=": "==", "is not": "is", "not in": "in"}


def cmpterm(op, a, b):
    if op in NEG:
        return ("not", ("cmp", NEG[op], a, b))
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op == "==" and a[0] == "const" and b[0] != "const":
        a, b = b, a
    return ("cmp", op, a, b)


def opname(o):
    return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "BitAnd": "&", "BitOr": "|",
            "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}.get(type(o).__name__, type(o).__name__)


def module_consts(m):
    """module-level names bound once, to a literal"""
    seen, out = {}, {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            seen[n.id] = seen.get(n.id, 0) + 1
        elif isinstance(n, ast.Global):
            for x in n.names:
                seen[x] = 9
    for n in m.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Name) and seen.get(t.id) == 1 and literal(n.value):
                out[t.id] = n.value
    return out


def literal(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple", "dict", "list"):
        return all(literal(a) for a in e.args) and all(literal(k.value) for k in e.keywords)
    if isinstance(e, (ast.Set, ast.Tuple, ast.List)):
        return bool(e.elts) and all(literal(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return bool(e.keys) and all(k is not None and literal(k) for k in e.keys) and all(literal(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return literal(e.operand)
    return isinstance(e, ast.Constant)


def module_imports(m):
    """module-level import names: name -> (module, attribute or '')"""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = ("." * n.level + (n.module or ""), a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                out[(a.asname or a.name).split(".")[0]] = (a.name, "")
    return out


def keywords(kws, events=()):
    """{name: term} of a call's keywords, ** of dict displays expanded; None when one cannot be resolved"""
    out = {}
    for n, v in kws:
        if n != "**":
            out[n] = v
            continue
        d = dict_items(v, events)
        if d is None:
            return None
        out.update(d)
    return out


def dict_items(v, events=()):
    if v[0] == "dict":
        out = {}
        for a, b in v[1]:
            if a == ("**",):
                d = dict_items(b, events)
                if d is None:
                    return None
                out.update(d)
            elif a[0] == "const":
                out[a[1]] = b
            else:
                return None
    elif v[0] == "call" and v[1] == ("name", "dict") and len(v[2]) <= 1:
        out = keywords(v[3], events)
        if v[2]:
            d = dict_items(v[2][0], events)
            if d is None or out is None:
                return None
            d.update(out)
            out = d
    elif v[0] == "new" and v[1] == "dict":
        out = {}
    else:
        return None
    if out is None:
        return None
    for e in events:
        if e.kind == "store_sub" and e.a[0] == v:
            if e.a[1][0] != "const":
                return None
            out[e.a[1][1]] = e.a[2]
    return out


def const_len(t):
    """the length of a tuple written out, or of len of one"""
    if t[0] == "call" and t[1] in (("name", "len"), ("name", "bool")) and len(t[2]) == 1:
        t = t[2][0]
    elif t[0] == "len":
        t = t[1]
    if t[0] == "tuple" and not any(x[0] == "star" for x in t[1]):
        return len(t[1])
    return None


def const_truth(c):
    neg = False
    while c[0] == "not":
        c, neg = c[1], not neg
    if c[0] == "const":
        return bool(c[1]) != neg
    if c[0] == "cmp" and c[1] == "is" and c[2][0] == "const" and c[3][0] == "const":
        return (c[2][1] is c[3][1]) != neg
    n = const_len(c)
    if n is not None:
        return bool(n) != neg
    if c[0] == "cmp" and c[1] in ("==", "<", "<="):
        a, b = (x[1] if x[0] == "const" and isinstance(x[1], int) else const_len(x) if x[0] != "tuple" else None for x in c[2:4])
        if a is not None and b is not None and (c[2][0] != "const" or c[3][0] != "const"):
            return {"==": a == b, "<": a < b, "<=": a <= b}[c[1]] != neg
    if c[0] in ("and", "or"):
        ts = [const_truth(x) for x in c[1]]
        if (c[0] == "or") in ts:
            return (c[0] == "or") != neg
        if all(t is not None for t in ts):
            return (c[0] == "and") != neg
    return None


def key(t):
    return repr(t)


def loadof(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    return t


def cap(t):
    return t if depth(t) < CAP else ("top",)


def depth(t):
    if isinstance(t, tuple):
        return 1 + max([depth(x) for x in t] or [0])
    if isinstance(t, frozenset):
        return max([depth(x) for x in t] or [0])
    return 0


def own_nodes(fn):
    """nodes of fn without those of nested functions"""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def method(t, name):
    """receiver and arguments when t is a call of .name(...)"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == name:
        return t[1][1], t[2]
    return None


def elem(it):
    """canonical element of an iterable"""
    if it[0] == "alt":
        return alt([elem(x) for x in it[1]])
    if it[0] in ("list", "tuple", "set") and it[1]:
        return alt(list(it[1]))
    if it[0] == "comp" and it[1] != "dict":
        return it[2]
    if it[0] == "gen":
        return it[2]
    for nm in ("values",):
        m = method(it, nm)
        if m and not m[1]:
            return ("sub", m[0], ("elem", m[0]))
    m = method(it, "keys")
    if m and not m[1]:
        return ("elem", m[0])
    if it[0] == "call" and it[1] in (("name", "list"), ("name", "tuple"), ("name", "iter"), ("name", "sorted"), ("name", "reversed"),
                                     ("name", "set"), ("name", "frozenset")) and it[2]:
        return elem(it[2][0])
    return ("elem", it)


def item(v, i, n):
    if v[0] == "alt":
        return alt([item(x, i, n) for x in v[1]])
    if v[0] in ("tuple", "list") and (n is None or len(v[1]) == n) and -len(v[1]) <= i < len(v[1]):
        return v[1][i]
    if v[0] == "elem":
        it = v[1]
        m = method(it, "items")
        if m and not m[1]:
            return ("elem", m[0]) if i == 0 else ("sub", m[0], ("elem", m[0])) if i == 1 else ("item", v, i)
        if it[0] == "call" and it[1] == ("name", "enumerate") and it[2]:
            return ("index", it[2][0]) if i == 0 else elem(it[2][0]) if i == 1 else ("item", v, i)
        if it[0] == "call" and it[1] == ("name", "zip") and i < len(it[2]):
            return elem(it[2][i])
    return ("item", v, i)


def bind(fn, args, kws, selfterm):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    args = list(args)
    if selfterm is not None:
        args = [selfterm] + args
    for i, v in enumerate(args):
        if v[0] == "star":
            return None
        if i < len(pos):
            out[pos[i]] = v
        elif a.vararg:
            out.setdefault(a.vararg.arg, ("tuple", ()))
            out[a.vararg.arg] = ("tuple", out[a.vararg.arg][1] + (v,))
        else:
            return None
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    extra = []
    for n, v in kws:
        if n == "**":
            if a.kwarg:
                extra.append((("**",), v))
            for p in names:
                out.setdefault(p, ("sub?", v, ("const", p)))
        elif n in names:
            out[n] = v
        elif a.kwarg:
            extra.append((("const", n), v))
        else:
            return None
    if a.kwarg:
        out[a.kwarg.arg] = extra[0][1] if len(extra) == 1 and extra[0][0] == ("**",) else ("dict", tuple(extra))
    if a.vararg and a.vararg.arg not in out:
        out[a.vararg.arg] = ("tuple", ())
    return out


def defaults(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def guarded(ev, pred):
    return any(pred(c, p) for c, p in ev.conds)
