"""Index-space inference: every integer and container in a set of C++ functions gets a kind variable; uses unify them.

A scalar has a kind (source index, internal qubit, ...), a container an index kind and an element node, a pair/map entry the
same (first = index, second = element).  Kinds are anchored at interfaces only; everything else is inferred, so renaming,
extracting or reordering code changes nothing, while indexing one space with a number of another is a conflict.
"""
from cpp import CALLS
from flow import strip_casts


class N(object):
    __slots__ = ("p", "kind", "idx_", "el_", "fields_")

    def __init__(self, kind=None):
        self.p, self.kind, self.idx_, self.el_, self.fields_ = None, kind, None, None, None

    def find(self):
        n = self
        while n.p is not None:
            n = n.p
        return n

    def idx(self):
        r = self.find()
        if r.idx_ is None:
            r.idx_ = N()
        return r.idx_.find()

    def el(self):
        r = self.find()
        if r.el_ is None:
            r.el_ = N()
        return r.el_.find()

    def field(self, f):
        r = self.find()
        if r.fields_ is None:
            r.fields_ = {}
        return r.fields_.setdefault(f, N()).find()

    def k(self):
        return self.find().kind


READ = ("operator[]", "at")
ADD = ("push_back", "emplace_back", "insert", "emplace", "push", "push_front")


class Kinds(object):
    def __init__(self, P, per_object=(), summaries=None, skip=lambda f: False, fresh_alias=()):
        self.P = P
        self.per_object = per_object          # class names whose fields are kept per object
        self.sum = summaries or {}            # function p-suffix -> callable(K, call, base node, args) -> node
        self.skip = skip
        self.fresh_alias = set(fresh_alias)   # locals that reuse another array's storage for an unrelated purpose
        self.decls, self.rets, self.fields = {}, {}, {}
        self.conflicts = []
        self.site = None
        self.fn = None
        self.constraints = 0
        self.done = set()

    # -- nodes
    def decl(self, d):
        return self.decls.setdefault(d, N())

    def fieldnode(self, q):
        return self.fields.setdefault(q, N())

    def ret(self, f):
        return self.rets.setdefault(f.id, N())

    def unify(self, a, b):
        if a is None or b is None:
            return
        self.constraints += 1
        stack = [(a, b)]
        while stack:
            x, y = stack.pop()
            x, y = x.find(), y.find()
            if x is y:
                continue
            if x.kind and y.kind and x.kind != y.kind:
                self.conflicts.append((self.fn, self.site, x.kind, y.kind))
                continue
            y.p = x
            x.kind = x.kind or y.kind
            for s in ("idx_", "el_"):
                u, v = getattr(x, s), getattr(y, s)
                if u is None:
                    setattr(x, s, v)
                elif v is not None:
                    stack.append((u, v))
            if y.fields_:
                if x.fields_ is None:
                    x.fields_ = y.fields_
                else:
                    for f, v in y.fields_.items():
                        if f in x.fields_:
                            stack.append((x.fields_[f], v))
                        else:
                            x.fields_[f] = v

    # -- functions
    def function(self, f):
        if f.id in self.done or not f.defined or f.root is None or self.skip(f):
            return
        self.done.add(f.id)
        old = self.fn
        self.fn = f
        for i, e in f.inits:
            fld = i.get("field")
            if fld is None or e is None:
                continue
            self.site = e
            q = self.init_field(f, fld)
            self.unify(q, self.expr(e))
        if f.root is not None:
            self.stmt(f.root)
        self.fn = old

    def init_field(self, f, fld):
        cls = f.p.rsplit("::", 1)[0]
        return self.fieldnode(cls + "::" + fld)

    def stmt(self, n):
        if n is None:
            return
        self.site = n
        if n.k == "CXXForRangeStmt":
            r = self.expr(n.kids[0])
            v = n.kids[1]
            if r is not None:
                rt = strip_casts(n.kids[0]).type
                self.unify(self.decl(v.d), r if is_map(rt) else r.el())
            for c in n.kids[2:]:
                self.stmt(c)
            return
        if n.k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var" and v.kids:
                    self.site = v
                    if v.n in self.fresh_alias:
                        continue
                    self.unify(self.decl(v.d), self.expr(v.kids[0]))
            return
        if n.k == "ReturnStmt":
            if n.kids:
                self.unify(self.ret(self.fn), self.expr(n.kids[0]))
            return
        if n.k.endswith("Stmt"):
            for c in n.kids:
                self.stmt(c)
            return
        self.expr(n)

    def expr(self, n):
        n = strip_casts(n)
        if n is None:
            return None
        if n.k not in ("IntegerLiteral", "DeclRefExpr", "CXXThisExpr"):
            self.site = n
        k = n.k
        if k == "DeclRefExpr":
            if n.dk in ("Var", "ParmVar", "Binding"):
                return self.decl(n.d)
            return None
        if k == "MemberExpr":
            base = strip_casts(n.kids[0]) if n.kids else None
            if n.dk != "Field":
                return None
            if n.n == "first" and "pair" in (n.q or ""):
                return self.expr(base).idx() if self.expr(base) is not None else None
            if n.n == "second" and "pair" in (n.q or ""):
                b = self.expr(base)
                return b.el() if b is not None else None
            cls = (n.q or "").rsplit("::", 1)[0]
            if any(cls.endswith(c) for c in self.per_object) and base is not None and base.k != "CXXThisExpr":
                b = self.expr(base)
                return b.field(n.n) if b is not None else None
            return self.fieldnode(n.q)
        if k == "ArraySubscriptExpr":
            a, i = self.expr(n.kids[0]), self.expr(n.kids[1])
            if a is None:
                return None
            self.site = n
            self.unify(a.idx(), i)
            return a.el()
        if k == "UnaryOperator":
            v = self.expr(n.kids[0])
            return v if n.op in ("++", "--", "*", "&") else None
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            a, b = self.expr(n.kids[0]), self.expr(n.kids[1])
            if n.op == "=":
                self.site = n
                self.unify(a, b)
                return a
            if n.op == ",":
                return b
            if n.op in ("==", "!=") and a is not None and b is not None:
                self.site = n
                self.unify(a, b)
            return None
        if k == "ConditionalOperator":
            self.expr(n.kids[0])
            a, b = self.expr(n.kids[1]), self.expr(n.kids[2])
            if a is not None and b is not None:
                self.unify(a, b)
            return a or b
        if k == "LambdaExpr":
            for f in self.P.lambdas(self.fn):
                pass
            return None
        if k in CALLS:
            return self.call(n)
        if k == "InitListExpr":
            r = N()
            for c in n.kids:
                self.unify(r.el(), self.expr(c))
            return r
        for c in n.kids:
            if c is not None:
                self.expr(c)
        return None

    def call(self, n):
        base, args = None, n.kids[1:]
        ts = self.P.targets(n)
        f = ts[0] if ts else None
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = n.kids
        elif n.k == "CXXMemberCallExpr":
            c = n.kids[0]
            base = c.kids[0] if c is not None and c.kids else None
        elif n.k == "CXXOperatorCallExpr":
            if f is None or f.kind == "method" or n.op in ("[]", "=", "()", "*", "->", "++", "--"):
                base, args = n.kids[1], n.kids[2:]
        nm = n.n or (f.n if f is not None else "") or ""
        p = (f.p if f is not None else n.q) or ""
        for suf, h in self.sum.items():
            if p.endswith(suf) or (n.q or "").endswith(suf):
                b = self.expr(base) if base is not None else None
                av = [self.expr(a) if a is not None else None for a in args]
                self.site = n
                return h(self, n, b, av)
        b = self.expr(base) if base is not None else None
        av = [self.expr(a) if a is not None and a.k != "CXXDefaultArgExpr" else None for a in args]
        self.site = n
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n, f, av)
        lib = f is not None and f.defined and f.root is not None
        if n.k == "CXXOperatorCallExpr":
            if n.op == "[]" and b is not None and av:
                self.unify(b.idx(), av[0])
                return b.el()
            if n.op == "=" and b is not None and av:
                self.unify(b, av[0])
                return b
            if n.op in ("*", "->", "++", "--") and not lib:
                return b
            if n.op in ("==", "!=", "<") and not lib:
                return None
        if not lib:
            if nm in ("at", "operator[]") and b is not None and av:
                self.unify(b.idx(), av[0])
                return b.el()
            if nm in ("push_back", "emplace_back", "push", "push_front") and b is not None and len(av) == 1:
                self.unify(b.el(), av[0])
                return None
            if nm in ("emplace", "insert") and b is not None:
                bt = strip_casts(base).type
                if is_map(bt):
                    if len(av) == 2:
                        self.unify(b.idx(), av[0])
                        self.unify(b.el(), av[1])
                    elif len(av) == 1:
                        self.unify(b, av[0])
                    r = N()
                    r.find().idx_ = b.find()
                    return r
                if len(av) == 1:
                    self.unify(b.el(), av[0])
                    return None
                return None
            if nm in ("find", "count", "erase", "lower_bound", "contains") and b is not None and len(av) == 1:
                bt = strip_casts(base).type
                self.unify(b.idx() if is_map(bt) else b.el(), av[0])
                return b if is_map(bt) else b.el()
            if nm in ("front", "back") and b is not None and not av:
                return b.el()
            if nm in ("swap",) and b is not None and av:
                self.unify(b, av[0])
                return None
            if nm in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
                x = b if b is not None else (av[0] if av else None)
                return x.el() if x is not None and not is_map(strip_casts(base or args[0]).type) else x
            if nm in ("move", "forward", "ref", "addressof") and av:
                return av[0]
            if nm in ("max", "min") and len(av) == 2:
                return None
            if nm in ("make_pair",) and len(av) == 2:
                r = N()
                self.unify(r.idx(), av[0])
                self.unify(r.el(), av[1])
                return r
            return None
        if self.skip(f):
            return None
        for a, i in zip(av, range(len(f.params))):
            self.unify(self.decl(f.params[i]["d"]), a)
        if b is not None and f.kind == "method" and any(f.p.startswith(c) or ("::" + c + "::") in f.p for c in self.per_object):
            return None
        self.function(f)
        return self.ret(f)

    def construct(self, n, f, av):
        cls = (n.cls or "")
        if "pair" in cls and len(av) == 2:
            r = N()
            self.unify(r.idx(), av[0])
            self.unify(r.el(), av[1])
            return r
        if any(cls.endswith(c) for c in self.per_object) and f is not None and f.defined and len(av) > 1:
            r = N()
            for i, e in f.inits:
                ps = {p["d"]: j for j, p in enumerate(f.params)}
                for x in (e.walk() if e is not None else ()):
                    if x.k == "DeclRefExpr" and x.d in ps and ps[x.d] < len(av) and ps[x.d] > 0:
                        self.unify(r.field(i.get("field")), av[ps[x.d]])
            return r
        if len(av) == 1 and av[0] is not None and (f is None or len(f.params) >= 1 and same_class(f, cls)):
            return av[0]          # copies and moves
        if f is not None and f.defined and f.root is not None and not self.skip(f) and not cls.startswith("std::"):
            for a, i in zip(av, range(len(f.params))):
                self.unify(self.decl(f.params[i]["d"]), a)
            self.function(f)
        return None


def same_class(f, cls):
    t = f.ptype(0)
    return cls.split("<")[0].rsplit("::", 1)[-1] in t


def is_map(t):
    t = (t or "").replace("const ", "")
    return t.startswith("std::map") or t.startswith("std::unordered_map") or t.startswith("map<") or t.startswith("unordered_map")
