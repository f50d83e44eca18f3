"""Path-sensitive (finite-state) forward dataflow over clang's CFG.

A state is (env, ts): env maps lvalues to small abstract values (an integer constant or 'nz' for non-zero),
ts is the client's typestate (any hashable).  Branches refine env; infeasible edges are not followed.
No solver: the domain is constants and zero/non-zero.
"""
from cpp import CALLS
from common import AnalysisBroken

SCALAR = ("int", "unsigned int", "bool", "long", "unsigned long", "size_t", "short", "char", "unsigned char")


def strip_casts(n):
    while n is not None and n.kids and (n.k.endswith("CastExpr") or n.k in ("ExprWithCleanups", "ParenExpr", "CXXDefaultArgExpr")):
        n = n.kids[0]
    return n


SCALAR = ("int", "unsigned int", "size_t", "unsigned long", "std::size_t", "long", "auto")


def copies(fn):
    """local scalar variables that are plain, never reassigned copies of another never reassigned variable: decl -> decl"""
    t = getattr(fn, "_copies", None)
    if t is not None:
        return t
    t, dead = {}, set()
    for n in fn.nodes():
        if n.k == "Var" and n.kids and n.kids[0] is not None and n.type.replace("const ", "").replace("&", "").strip() in SCALAR:
            e = strip_casts(n.kids[0])
            if e is not None and e.k == "DeclRefExpr" and e.dk in ("Var", "ParmVar") and e.type.replace("const ", "").replace("&", "").strip() in SCALAR:
                t[n.d] = e.d
        elif n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.op in ("++", "--", "&"):
            l = strip_casts(n.kids[0])
            if l is not None and l.k == "DeclRefExpr":
                dead.add(l.d)
        elif n.k == "ForStmt" and n.kids[0] is not None:
            dead |= {v.d for v in n.kids[0].walk() if v.k == "Var"}
    t = {a: b for a, b in t.items() if a not in dead and b not in dead}
    fn._copies = t
    return t


def path(n):
    """key of an lvalue made of locals, this and member accesses only: ('v', decl) or ('f', basekey, field name)"""
    n = strip_casts(n)
    if n is None:
        return None
    if n.k == "DeclRefExpr":
        if n.dk in ("Var", "ParmVar", "Binding"):
            t, d = copies(n.fn), n.d
            while d in t:
                d = t[d]
            return ("v", d)
        return None
    if n.k == "CXXThisExpr":
        return ("this",)
    if n.k == "MemberExpr":
        if n.dk != "Field":
            return None
        b = path(n.kids[0]) if n.kids else ("this",)
        return ("f", b, n.n) if b else None
    return None


def field_of(key):
    return key[2] if key and key[0] == "f" else None


class Mods(object):
    """transitive set of field names a function may assign"""

    def __init__(self, prog):
        self.P = prog
        self.cache = {}

    def direct(self, fn):
        out = set()
        for n in fn.nodes():
            t = None
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                t = n.kids[0]
            elif n.k == "UnaryOperator" and n.op in ("++", "--", "&"):
                t = n.kids[0]
            elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "-=", "++", "--", "|=", "&=", "<<", ">>"):
                t = n.kids[1] if len(n.kids) > 1 else None
            elif n.k == "CXXMemberCallExpr":
                f = self.P.func(n.f)
                if f is not None and not f.j.get("const") and n.kids and n.kids[0] is not None and n.kids[0].k == "MemberExpr":
                    t = n.kids[0].kids[0] if n.kids[0].kids else None
            elif n.k in ("CallExpr",):
                for a in n.kids[1:]:
                    a = strip_casts(a)
                    if a is not None and a.k == "MemberExpr" and a.dk == "Field" and not a.rv:
                        out.add(a.n)
                continue
            t = strip_casts(t)
            while t is not None and t.k in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "MemberExpr") and t.k != "MemberExpr":
                t = strip_casts(t.kids[1] if t.k == "CXXOperatorCallExpr" and len(t.kids) > 1 else t.kids[0])
            if t is not None and t.k == "MemberExpr" and t.dk == "Field":
                out.add(t.n)
        return out

    def of(self, fid):
        if fid in self.cache:
            return self.cache[fid]
        seen = self.P.reachable([self.P.func(fid)]) if self.P.func(fid) else {}
        out = set()
        for g in seen:
            F = self.P.funcs.get(g)
            if F is not None:
                if not hasattr(F, "_dmods"):
                    F._dmods = self.direct(F)
                out |= F._dmods
        self.cache[fid] = out
        return out


class AI(object):
    """override: step(state_ts, env, node) -> iterable of (ts, env) ; call_value(node, ts, env)"""
    LIMIT = 60000
    only = None       # keys worth tracking (None: all locals)

    def __init__(self, prog, fn, mods=None, track_fields=()):
        self.P, self.fn = prog, fn
        self.mods = mods
        self.track_fields = set(track_fields)
        self.exits = []       # (ts, env, return node or None)
        self.visits = 0
        self.points = {}
        # locals whose address escapes (lambda by ref, &x) are not tracked
        self.escaped = set()
        for n in fn.nodes():
            if n.k == "UnaryOperator" and n.op == "&":
                k = path(n.kids[0])
                if k:
                    self.escaped.add(k)
            if n.k == "LambdaExpr":
                for c in n.j.get("caps", ()):
                    if c.get("by") == "ref":
                        self.escaped.add(("v", c.get("d")))

    # -- values -----------------------------------------------------------------
    def value(self, n, ts, env):
        n = strip_casts(n)
        if n is None:
            return None
        m = env.get(("n", n.i))
        if m is not None:
            return m
        k = n.k
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return int(n.v)
        if k == "CXXBoolLiteralExpr":
            return 1 if n.v == "true" else 0
        if k == "DeclRefExpr" and n.v is not None and n.dk == "EnumConstant":
            return int(n.v)
        p = path(n)
        if p is not None:
            return env.get(p)
        if k == "UnaryOperator":
            v = self.value(n.kids[0], ts, env)
            if n.op == "!":
                return None if v is None else (0 if v == "nz" or v != 0 else 1)
            if n.op == "-" and v is not None:
                return v if v == "nz" else -v
            if n.op in ("++", "--"):
                return v if n.post else v   # already applied for prefix
            return None
        if k in ("BinaryOperator",):
            if n.op == ",":
                return self.value(n.kids[1], ts, env)
            if n.op == "=":
                return self.value(n.kids[0], ts, env)
            a, b = self.value(n.kids[0], ts, env), self.value(n.kids[1], ts, env)
            if n.op in ("&&", "||"):
                ta, tb = self.truth(a), self.truth(b)
                if n.op == "&&":
                    if ta is False or tb is False:
                        return 0
                    return 1 if ta and tb else None
                if ta or tb:
                    return 1
                return 0 if ta is False and tb is False else None
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b),
                            "<=": lambda: int(a <= b), ">": lambda: int(a > b), ">=": lambda: int(a >= b),
                            "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "|": lambda: a | b,
                            "&": lambda: a & b}[n.op]()
                except KeyError:
                    return None
            if n.op in ("==", "!=") and "nz" in (a, b) and 0 in (a, b):
                return 0 if n.op == "==" else 1
            if n.op == "|" and (self.truth(a) or self.truth(b)):
                return "nz"
            return None
        if k == "ConditionalOperator":
            t = self.truth(self.value(n.kids[0], ts, env))
            if t is True:
                return self.value(n.kids[1], ts, env)
            if t is False:
                return self.value(n.kids[2], ts, env)
            a, b = self.value(n.kids[1], ts, env), self.value(n.kids[2], ts, env)
            return a if a == b else None
        if k in CALLS:
            return self.call_value(n, ts, env)
        return None

    @staticmethod
    def truth(v):
        if v is None:
            return None
        return True if v == "nz" else bool(v)

    def call_value(self, n, ts, env):
        return None

    def refine(self, n, want, ts, env):
        """env refined with `n` evaluating to truth `want`, or None if infeasible"""
        n = strip_casts(n)
        if n is None:
            return env
        v = self.truth(self.value(n, ts, env))
        if v is not None and v != want:
            return None
        if n.k == "UnaryOperator" and n.op == "!":
            return self.refine(n.kids[0], not want, ts, env)
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            conj = n.op == "&&"
            if conj == want:
                e = self.refine(n.kids[0], want, ts, env)
                return None if e is None else self.refine(n.kids[1], want, ts, e)
            a, b = (self.truth(self.value(x, ts, env)) for x in n.kids[:2])
            if a is (not want):
                return self.refine(n.kids[1], want, ts, env)
            if b is (not want):
                return self.refine(n.kids[0], want, ts, env)
            return env
        if n.k == "BinaryOperator" and n.op in ("==", "!="):
            eq = (n.op == "==") == want
            for x, y in ((0, 1), (1, 0)):
                c = self.value(n.kids[y], ts, env)
                p = path(n.kids[x])
                if p is not None and isinstance(c, int) and self.trackable(n.kids[x], p):
                    if eq:
                        return self.put(env, p, c)
                    if c == 0:
                        return self.put(env, p, "nz")
            return env
        if n.k == "BinaryOperator" and n.op in (">", "<"):
            a, b = (n.kids[0], n.kids[1]) if n.op == ">" else (n.kids[1], n.kids[0])
            p = path(a)
            if want and p is not None and self.value(b, ts, env) in (0,) and self.trackable(a, p):
                if env.get(p) is None:
                    return self.put(env, p, "nz")
        p = path(n)
        if p is not None and self.trackable(n, p):
            if want:
                return env if env.get(p) is not None else self.put(env, p, "nz")
            return self.put(env, p, 0)
        if n.k in CALLS or p is not None:
            pass
        return env

    def trackable(self, n, p):
        if self.only is not None and p not in self.only:
            return False
        if p in self.escaped:
            return False
        if p[0] == "v":
            t = n.type.replace("const ", "")
            return t in SCALAR or t.startswith("enum") or True
        return field_of(p) in self.track_fields

    @staticmethod
    def put(env, k, v):
        e = dict(env)
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
        return e

    # -- transfer -----------------------------------------------------------------
    def step(self, ts, env, n):
        return ((ts, env),)

    def assign(self, env, n, ts):
        """generic effect of node n on env"""
        if ("n", n.i) in env:
            env = self.put(env, ("n", n.i), None)
        k = n.k
        if k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var":
                    p = ("v", v.d)
                    if p in self.escaped or self.only is not None and p not in self.only:
                        continue
                    env = self.put(env, p, self.value(v.kids[0], ts, env) if v.kids else None)
            return env
        if k == "BinaryOperator" and n.op == "=":
            p = path(n.kids[0])
            if p is not None:
                env = self.put(env, p, self.value(n.kids[1], ts, env) if self.trackable(n.kids[0], p) else None)
            return env
        if k == "CompoundAssignOperator":
            p = path(n.kids[0])
            if p is not None and p in env:
                a, b = env[p], self.value(n.kids[1], ts, env)
                r = None
                if n.op == "|=" and (self.truth(a) or self.truth(b)):
                    r = "nz"
                elif isinstance(a, int) and isinstance(b, int):
                    r = {"+=": a + b, "-=": a - b, "*=": a * b, "|=": a | b, "&=": a & b}.get(n.op)
                    if r is not None and abs(r) > 3:
                        r = "nz"
                env = self.put(env, p, r)
            elif p is not None and n.op == "|=" and self.truth(self.value(n.kids[1], ts, env)) and self.trackable(n.kids[0], p):
                env = self.put(env, p, "nz")
            return env
        if k == "UnaryOperator" and n.op in ("++", "--"):
            p = path(n.kids[0])
            if p is not None and p in env:
                a = env[p]
                r = a + (1 if n.op == "++" else -1) if isinstance(a, int) else None
                if r is not None and abs(r) > 3:
                    r = None
                if n.post:
                    env = self.put(env, ("n", n.i), a)
                env = self.put(env, p, r)
            return env
        if k in CALLS:
            if self.mods is not None and any(x[0] == "f" for x in env):
                ms = set()
                for t in self.P.targets(n):
                    ms |= self.mods.of(t.id)
                if ms:
                    for x in list(env):
                        if field_of(x) in ms:
                            env = self.put(env, x, None)
            # locals passed by non-const reference
            ts_ = self.P.targets(n)
            f = ts_[0] if ts_ else None
            if f is not None:
                args = n.kids[1:] if k != "CXXConstructExpr" and k != "CXXTemporaryObjectExpr" else n.kids
                if k == "CXXOperatorCallExpr" and f.kind == "method":
                    args = n.kids[2:]
                for a, i in zip(args, range(len(f.params))):
                    t = f.ptype(i)
                    if t.endswith("&") and not t.startswith("const "):
                        p = path(a) if a is not None else None
                        if p is not None and p in env:
                            env = self.put(env, p, None)
        return env

    def run(self, ts0, env0=None):
        fn, cfg = self.fn, self.fn.cfg
        idx = fn.index
        seen = {}
        work = [(cfg.entry, ts0, frozenset((env0 or {}).items()), None)]
        while work:
            b, ts, fenv, rn = work.pop()
            key = (b, ts, fenv, rn.i if rn is not None else None)
            if key in seen:
                continue
            seen[key] = 1
            self.visits += 1
            if self.visits > self.LIMIT:
                raise AnalysisBroken("state limit reached in %s" % fn.p)
            if b == cfg.exit:
                self.exits.append((ts, dict(fenv), rn))
                continue
            blk = cfg.blocks[b]
            ts = self.enter(b, ts, dict(fenv))
            states = [(ts, dict(fenv), rn)]
            for e in blk["e"]:
                new = []
                if isinstance(e, dict):
                    for t, v, r in states:
                        for t2 in self.implicit(t, v, e):
                            if "decl" in e and ("v", e["decl"]) in v:
                                v = self.put(v, ("v", e["decl"]), None)
                            new.append((t2, v, r))
                    states = new
                    continue
                n = idx.get(e)
                if n is None:
                    continue
                for t, v, r in states:
                    if n.k == "CXXThrowExpr":
                        self.thrown(t, v, n)
                        continue
                    for t2, v2 in self.step(t, v, n):
                        v2 = self.assign(v2, n, t2)
                        new.append((t2, v2, n if n.k == "ReturnStmt" else r))
                states = new
                if not states:
                    break
            if blk.get("nr"):
                continue
            raw = blk["s"]
            cond = idx.get(blk["tc"]) if "tc" in blk else None
            for t, v, r in states:
                if len(raw) == 2 and cond is not None and blk.get("tk") not in ("SwitchStmt", "CXXForRangeStmt", "CXXTryStmt"):
                    for s, truth in ((raw[0], True), (raw[1], False)):
                        if s is None:
                            continue
                        if s not in cfg.succ[b]:
                            continue
                        c = cond
                        if blk.get("tk") == "BinaryOperator" and c.k == "BinaryOperator" and c.op in ("&&", "||") and c.i == blk.get("ti"):
                            c = c.kids[0]
                        v2 = self.refine(c, truth, t, v)
                        if v2 is None:
                            continue
                        for t3, v3 in self.branch(t, v2, c, truth):
                            if blk.get("tk") in ("BinaryOperator", "ConditionalOperator"):
                                v3 = self.put(v3, ("n", strip_casts(c).i), 1 if truth else 0)
                            else:
                                v3 = {x: y for x, y in v3.items() if x[0] != "n"}
                            work.append((s, t3, frozenset(v3.items()), r))
                elif blk.get("tk") == "SwitchStmt" and cond is not None:
                    sv = self.value(cond, t, v)
                    cases = [cfg.blocks[s].get("case") for s in raw if s is not None]
                    for s in raw:
                        if s is None:
                            continue
                        lab = cfg.blocks[s].get("case")
                        if isinstance(lab, int):
                            if isinstance(sv, int) and sv != lab or sv == "nz" and lab == 0:
                                continue
                            p = path(cond)
                            v2 = self.put(v, p, lab) if p is not None and p[0] == "v" else v
                            ok = self.case(t, v2, cond, lab)
                        else:
                            if isinstance(sv, int) and sv in cases:
                                continue
                            v2 = v
                            ok = self.case(t, v2, cond, ("not", tuple(c for c in cases if isinstance(c, int))))
                        for t3, v3 in ok:
                            v3 = {x: y for x, y in v3.items() if x[0] != "n"}
                            work.append((s, t3, frozenset(v3.items()), r))
                else:
                    for i, s in enumerate(raw):
                        if s is None or s not in cfg.succ[b]:
                            continue
                        for t3, v3 in self.loopedge(t, v, blk, i):
                            work.append((s, t3, frozenset(v3.items()), r))
        return self

    def enter(self, b, ts, env):
        """control reaches block b"""
        return ts

    def implicit(self, ts, env, e):
        return (ts,)

    def thrown(self, ts, env, n):
        pass

    def branch(self, ts, env, cond, truth):
        return ((ts, env),)

    def case(self, ts, env, cond, label):
        return ((ts, env),)

    def loopedge(self, ts, env, blk, i):
        """edge i of a range-for (0 = into the body) or of an unconditional block"""
        return ((ts, env),)
