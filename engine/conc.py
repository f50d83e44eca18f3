"""Effects of code that runs on worker threads: access paths, partition tags, locksets.

Every access (read/write) reachable from a task is summarised as
    Location = (root, path)   root: this / outer variable / global / static, path: fields and [tag]
with the tag of each subscript saying how the index relates to the task:
    PART   index runs inside the half-open range [LO, HI) given to this task
    IDX    the task's own number
    CLAIM  an element taken from a shared cursor in the same critical section (or by an atomic add)
    None   anything else
and the set of mutexes certainly held.  Private (local) memory is ignored.
"""
import re
from cpp import CALLS, LOOPS

CONST_METHODS_WRITE = {"push_back", "emplace_back", "resize", "clear", "erase", "insert", "emplace", "assign",
                       "pop_back", "swap", "reserve", "push", "pop", "shrink_to_fit", "merge", "store", "reset"}
READERS = {"max_element", "min_element", "accumulate", "find", "count", "all_of", "any_of", "none_of",
           "distance", "equal"}


def join(a, b):
    if a == b:
        return a
    if a == "const":
        return b
    if b == "const":
        return a
    return None


class Access(object):
    __slots__ = ("loc", "mode", "locks", "node", "chain")

    def __init__(self, loc, mode, locks, node, chain):
        self.loc, self.mode, self.locks, self.node, self.chain = loc, mode, locks, node, chain

    def text(self):
        return "%s of %s at %s%s%s" % (
            self.mode, show(self.loc), self.node.at(),
            " holding {%s}" % ", ".join(sorted(show(l) for l in self.locks)) if self.locks else " with no lock held",
            " via " + " > ".join(self.chain) if self.chain else "")


def show(loc):
    root, path = loc
    s = root if isinstance(root, str) else "%s" % (root[-1],)
    for p in path:
        if isinstance(p, tuple):
            s += "[%s]" % (p[1] or "*")
        else:
            s += "." + p
    return s


class TaskAnalysis(object):
    MAXDEPTH = 12

    def __init__(self, prog):
        self.P = prog
        self.accesses = []
        self.functions = set()
        self.lock_problems = []
        self._retcache = {}

    # -- locations -----------------------------------------------------------
    def run(self, fn, env, this, chain=(), held=frozenset(), outer_private=()):
        """env: decl id -> ('loc', Loc) | ('val', tag) | ('ptr', Loc, tag)"""
        if len(chain) > self.MAXDEPTH or fn.root is None:
            return
        self.functions.add(fn.p)
        ctx = Ctx(self, fn, dict(env), this, chain, held)
        ctx.infer()
        ctx.collect()


class Ctx(object):
    def __init__(self, A, fn, env, this, chain, held):
        self.A, self.P, self.fn, self.env, self.this = A, A.P, fn, env, this
        self.chain = chain
        self.held = held
        self.declared = {p["d"] for p in fn.params}
        self.caps = {}
        for n in fn.nodes():
            if n.k == "Var":
                self.declared.add(n.j["d"])

    # evaluate an lvalue expression to a location, or None when private/unknown value
    def loc(self, n):
        if n is None:
            return None
        k = n.k
        if k == "CXXThisExpr":
            return self.this
        if k == "DeclRefExpr":
            d = n.j["d"]
            e = self.env.get(d)
            if e is not None:
                return e[1] if e[0] == "loc" else None
            if n.j.get("dk") in ("Function", "CXXMethod", "EnumConstant", "NonTypeTemplateParm"):
                return None
            if d in self.declared:
                return None
            if n.j.get("q") and n.j.get("dk") == "Var":
                return (("global", n.j["q"]), ())
            if n.j.get("dk") in ("Var", "ParmVar"):
                return (("outer", n.j.get("n")), ())
            return None
        if k == "MemberExpr":
            if n.j.get("dk") not in ("Field",):
                if n.j.get("dk") == "Var":
                    return (("global", n.j["q"]), ())
                return None
            base = n.kids[0]
            if base is None:
                return None
            if n.j.get("arrow") and base.k != "CXXThisExpr":
                p = self.ptr(base)
                if p is not None:
                    return self.ext(p[0], n.n)
                return None
            b = self.loc(base)
            if b is None:
                return None
            return self.ext(b, n.n)
        if k == "ArraySubscriptExpr":
            b = self.loc(n.kids[0])
            if b is None:
                p = self.ptr(n.kids[0])
                if p is None:
                    return None
                b = p[0]
            return self.ext(b, ("[]", self.tag(n.kids[1])))
        if k == "CXXOperatorCallExpr":
            if n.op == "[]":
                b = self.loc(n.kids[1])
                if b is None:
                    return None
                return self.ext(b, ("[]", self.tag(n.kids[2])))
            if n.op == "*":
                p = self.ptr(n.kids[1])
                return None if p is None else self.ext(p[0], ("[]", p[1]))
            if n.op == "->":
                p = self.ptr(n.kids[1])
                return None if p is None else p[0]
            if n.op in ("=", "+=", "-="):
                return self.loc(n.kids[1])
            return None
        if k == "UnaryOperator":
            if n.op == "*":
                p = self.ptr(n.kids[0])
                return None if p is None else self.ext(p[0], ("[]", p[1]))
            if n.op in ("++", "--"):
                return self.loc(n.kids[0])
            return None
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr",
                 "CXXReinterpretCastExpr", "CXXDefaultArgExpr", "ExprWithCleanups"):
            return self.loc(n.kids[0]) if n.kids else None
        if k == "CXXMemberCallExpr" and n.kids:
            me = n.kids[0]
            name = n.j.get("n")
            if name in ("front", "back") and me.k == "MemberExpr":
                b = self.loc(me.kids[0])
                return None if b is None else self.ext(b, ("[]", None))
            if name == "at" and me.k == "MemberExpr":
                b = self.loc(me.kids[0])
                return None if b is None else self.ext(b, ("[]", self.tag(n.kids[1])))
            return self.ret(n)
        if k == "CallExpr":
            if (n.j.get("q") or "").startswith(("std::move", "std::forward", "std::ref", "std::cref")):
                return self.loc(n.kids[1])
            return self.ret(n)
        if k == "ConditionalOperator":
            return self.loc(n.kids[1]) or self.loc(n.kids[2])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", ",", "+=", "-="):
            return self.loc(n.kids[-1] if n.op == "," else n.kids[0])
        return None

    def ext(self, loc, step):
        if loc is None:
            return None
        return (loc[0], loc[1] + (step,))

    def bind(self, n, t):
        """environment of callee t for call n, and its this"""
        kids = n.kids
        this = None
        if n.k == "CXXMemberCallExpr":
            me = kids[0]
            args = kids[1:]
            if me.k == "MemberExpr" and me.kids:
                b = me.kids[0]
                if b is not None and b.k != "CXXThisExpr" and me.j.get("arrow"):
                    p = self.ptr(b)
                    this = p[0] if p else None
                else:
                    this = self.loc(b)
            else:
                this = self.this
        elif n.k == "CXXOperatorCallExpr" and t.kind == "method":
            this = self.loc(kids[1])
            args = kids[2:]
        elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = kids
        else:
            args = kids[1:]
        env = {}
        for i, p in enumerate(t.params):
            if i >= len(args) or args[i] is None:
                continue
            ty = self.P.types[p["t"]][1]
            if ty.endswith("&") or ty.endswith("&&"):
                l = self.loc(args[i])
                if l is not None:
                    env[p["d"]] = ("loc", l)
                else:
                    env[p["d"]] = ("val", self.tag(args[i]))
            elif "*" in ty or "iterator" in ty:
                pp = self.ptr(args[i])
                env[p["d"]] = ("ptr",) + pp if pp else ("val", None)
            else:
                env[p["d"]] = ("val", self.tag(args[i]))
        return env, this

    def ret(self, n):
        """location a reference-returning callee yields"""
        for t in self.P.targets(n):
            if not t.defined or t.root is None or len(self.chain) > 8:
                continue
            if not t.ret.endswith("&"):
                continue
            env, this = self.bind(n, t)
            sub = Ctx(self.A, t, env, this, self.chain + (t.n,), self.held)
            sub.infer()
            for r in t.nodes():
                if r.k == "ReturnStmt" and r.kids and r.kids[0] is not None:
                    l = sub.loc(r.kids[0])
                    if l is not None:
                        return l
        return None

    # pointers/iterators: (location of the array, tag of the position)
    def ptr(self, n):
        if n is None:
            return None
        k = n.k
        if k == "DeclRefExpr":
            e = self.env.get(n.j["d"])
            return (e[1], e[2]) if e is not None and e[0] == "ptr" else None
        if k == "UnaryOperator" and n.op == "&":
            l = self.loc(n.kids[0])
            if l is None:
                return None
            if l[1] and isinstance(l[1][-1], tuple):
                return ((l[0], l[1][:-1]), l[1][-1][1])
            return (l, None)
        if k == "UnaryOperator" and n.op in ("++", "--"):
            return self.ptr(n.kids[0])
        if k == "BinaryOperator" and n.op in ("+", "-"):
            p = self.ptr(n.kids[0])
            if p is not None:
                return (p[0], self.tag(n.kids[1]) if p[1] in (None, "const") else None)
            return None
        if k == "BinaryOperator" and n.op == "=":
            return self.ptr(n.kids[1])
        if k == "CXXOperatorCallExpr":
            if n.op in ("+", "-"):
                p = self.ptr(n.kids[1])
                if p is not None:
                    return (p[0], self.tag(n.kids[2]) if p[1] in (None, "const") else None)
                return None
            if n.op in ("++", "--", "+="):
                return self.ptr(n.kids[1])
            return None
        if k in CALLS:
            name = n.j.get("n") or ""
            if name in ("begin", "cbegin", "data", "end", "cend"):
                if n.k == "CXXMemberCallExpr":
                    me = n.kids[0]
                    b = me.kids[0] if me.k == "MemberExpr" and me.kids else None
                    l = self.loc(b)
                else:
                    l = self.loc(n.kids[1]) if len(n.kids) > 1 else None
                return (l, "const" if name in ("begin", "cbegin", "data") else None) if l is not None else None
            if n.k in ("CXXConstructExpr",) and len(n.kids) == 1:
                return self.ptr(n.kids[0])
            if n.j.get("q", "").startswith("std::next") and len(n.kids) > 2:
                p = self.ptr(n.kids[1])
                return (p[0], self.tag(n.kids[2])) if p else None
        if k.endswith("CastExpr") and n.kids:
            return self.ptr(n.kids[0])
        return None

    # integer tags
    def tag(self, n):
        if n is None:
            return None
        k = n.k
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            return "const"
        if k == "DeclRefExpr":
            e = self.env.get(n.j["d"])
            return e[1] if e is not None and e[0] == "val" else None
        if k.endswith("CastExpr") or k in ("CXXDefaultArgExpr", "CXXConstructExpr"):
            return self.tag(n.kids[0]) if len(n.kids) == 1 else None
        if k == "UnaryOperator":
            if n.op in ("-", "+"):
                t = self.tag(n.kids[0])
                return t if t == "const" else None
            if n.op in ("++", "--"):
                # a shared cursor advanced: claims an element
                l = self.loc(n.kids[0])
                if l is not None and (self.locked(n) or "atomic" in n.kids[0].type):
                    return "CLAIM"
                return self.tag(n.kids[0]) if n.kids[0].k == "DeclRefExpr" else None
            return None
        if k == "CXXOperatorCallExpr" and n.op in ("++", "--") and "atomic" in n.kids[1].type:
            return "CLAIM"
        if k == "CXXMemberCallExpr" and n.j.get("n") in ("fetch_add", "fetch_sub"):
            return "CLAIM"
        if k in ("CXXOperatorCallExpr", "ArraySubscriptExpr") and (k == "ArraySubscriptExpr" or n.op == "[]"):
            i = n.kids[2] if k == "CXXOperatorCallExpr" else n.kids[1]
            # element of a duplicate-free list at a claimed position is itself claimed
            t = self.tag(i)
            return t if t in ("CLAIM", "IDX") else None
        if k == "ConditionalOperator":
            return join(self.tag(n.kids[1]), self.tag(n.kids[2]))
        if k == "BinaryOperator" and n.op == "=":
            return self.tag(n.kids[1])
        return None

    # -- locks ---------------------------------------------------------------
    def mutex_of(self, n):
        """(mutex loc, 'lock'|'unlock') for a call node"""
        if n.k == "CXXMemberCallExpr" and n.j.get("n") in ("lock", "unlock") and n.kids:
            b = n.kids[0].kids[0] if n.kids[0].kids else None
            if b is None:
                return None
            ty = b.type
            if "mutex" in ty:
                l = self.loc(b)
                return (l if l is not None else (("m", b.text()), ()), n.j["n"])
            if "unique_lock" in ty and b.k == "DeclRefExpr":
                return (("guard", b.j["d"]), n.j["n"])
        return None

    def guards(self):
        """decl id -> mutex loc for RAII locks"""
        out = {}
        for n in self.fn.nodes():
            if n.k == "Var":
                ty = self.P.types[n.j["t"]][1]
                if re.search(r"\b(lock_guard|unique_lock|scoped_lock)<", ty) and n.kids and n.kids[0] is not None:
                    args = [a for a in n.kids[0].kids if a is not None]
                    deferred = any("defer_lock" in a.text() for a in args[1:])
                    if args:
                        l = self.loc(args[0])
                        out[n.j["d"]] = (l if l is not None else (("m", args[0].text()), ()), deferred)
        return out

    def locked(self, node):
        return self.lockset(node)

    def lockset(self, node):
        if not hasattr(self, "_locks"):
            self._solve_locks()
        p = self.fn.cfg.where(node)
        if p is None:
            return self.held
        return self._locks.get(p, self.held)

    def _solve_locks(self):
        self._locks = {}
        cfg = self.fn.cfg
        g = self.guards()
        idx = self.fn.index
        vars_ = {n.j["d"]: n for n in self.fn.nodes() if n.k == "Var"}
        declstmt = {}
        for n in self.fn.nodes():
            if n.k == "DeclStmt":
                declstmt[n.i] = [v.j["d"] for v in n.kids if v is not None and v.k == "Var"]
        if not g and not any(n.k == "CXXMemberCallExpr" and n.j.get("n") in ("lock", "unlock") for n in self.fn.nodes()):
            return
        TOP = None
        inn = {b: TOP for b in cfg.blocks}
        inn[cfg.entry] = self.held
        work = [cfg.entry]

        def transfer(b, s, record):
            s = set(s)
            for i, e in enumerate(cfg.elems(b)):
                if record:
                    self._locks[(b, i)] = frozenset(s)
                if isinstance(e, dict):
                    if "dtor" in e and e["dtor"] in g:
                        s.discard(g[e["dtor"]][0])
                    if "decl" in e and e["decl"] in g and not g[e["decl"]][1]:
                        s.add(g[e["decl"]][0])
                    continue
                n = idx.get(e)
                if n is None:
                    continue
                if e in declstmt:
                    for d in declstmt[e]:
                        if d in g and not g[d][1]:
                            s.add(g[d][0])
                m = self.mutex_of(n) if n.k == "CXXMemberCallExpr" else None
                if m:
                    l = m[0]
                    if isinstance(l[0], str) and l[0] == "guard":
                        l = g.get(l[1], (("m", "?"), ()))[0]
                    if m[1] == "lock":
                        if record and l in s:
                            self.A.lock_problems.append(("double", n, show(l)))
                        s.add(l)
                    else:
                        if record and l not in s:
                            self.A.lock_problems.append(("unlock-not-held", n, show(l)))
                        s.discard(l)
            return frozenset(s)
        seen = set()
        while work:
            b = work.pop()
            out = transfer(b, inn[b], False)
            for s in cfg.succ[b]:
                new = out if inn[s] is TOP else (inn[s] & out)
                if inn[s] is TOP or new != inn[s]:
                    inn[s] = new
                    work.append(s)
        for b in cfg.blocks:
            if inn[b] is not TOP:
                transfer(b, inn[b], True)
        if inn[cfg.exit] is not TOP and inn[cfg.exit] - self.held:
            for l in inn[cfg.exit] - self.held:
                self.A.lock_problems.append(("held-at-exit", self.fn.root, show(l)))
        # may-hold at exit: any path
        may = {b: set() for b in cfg.blocks}
        may[cfg.entry] = set(self.held)
        ch = True
        while ch:
            ch = False
            for b in cfg.blocks:
                out = transfer(b, frozenset(may[b]), False)
                for s in cfg.succ[b]:
                    if not out <= may[s]:
                        may[s] |= out
                        ch = True
        for l in may[cfg.exit] - set(self.held):
            if inn[cfg.exit] is TOP or l not in inn[cfg.exit]:
                self.A.lock_problems.append(("may-be-held-at-exit", self.fn.root, show(l)))

    # -- local variable inference -------------------------------------------
    def infer(self):
        fn = self.fn
        env = self.env
        for _ in range(6):
            before = dict(env)
            for n in fn.nodes():
                if n.k == "Var":
                    if n.j.get("static"):
                        env[n.j["d"]] = ("loc", (("static", fn.p + "::" + n.j["n"]), ()))
                        continue
                    ty = self.P.types[n.j["t"]][1]
                    init = n.kids[0] if n.kids else None
                    par = n.parent
                    if par is not None and par.k == "CXXForRangeStmt":
                        base = self.loc(par.kids[0])
                        if ty.endswith("&"):
                            env[n.j["d"]] = ("loc", self.ext(base, ("[]", None))) if base is not None else ("val", None)
                        else:
                            env[n.j["d"]] = ("val", None)
                        continue
                    if init is None:
                        continue
                    if ty.endswith("&"):
                        l = self.loc(init)
                        if l is not None:
                            env[n.j["d"]] = ("loc", l)
                        else:
                            env.setdefault(n.j["d"], ("val", self.tag(init)))
                    elif "*" in ty or "iterator" in ty:
                        p = self.ptr(init)
                        if p is not None and env.get(n.j["d"], (None,) * 3)[2:] != ("PART",):
                            env[n.j["d"]] = ("ptr",) + p
                    else:
                        t = self.tag(init)
                        cur = env.get(n.j["d"])
                        if cur is None:
                            env[n.j["d"]] = ("val", t)
                elif n.k == "BinaryOperator" and n.op == "=" and n.kids[0].k == "DeclRefExpr":
                    d = n.kids[0].j["d"]
                    if d in self.declared and env.get(d, ("val",))[0] == "val" and "*" not in n.kids[0].type:
                        cur = env.get(d)
                        t = self.tag(n.kids[1])
                        env[d] = ("val", t if cur is None else join(cur[1], t))
                elif n.k in LOOPS and n.k != "CXXForRangeStmt":
                    cond = {"ForStmt": 1, "WhileStmt": 0, "DoStmt": 1}[n.k]
                    self.bounded(n.kids[cond] if len(n.kids) > cond else None)
            if before == env:
                break

    def bounded(self, cond):
        """a variable that starts at one end of the range and is compared with the other end is PART"""
        if cond is None:
            return
        for c in cond.walk():
            if c.k in ("BinaryOperator", "CXXOperatorCallExpr") and c.op in ("<", "!=", ">", "<=", ">="):
                kids = c.kids if c.k == "BinaryOperator" else c.kids[1:]
                if len(kids) != 2:
                    continue
                a, b = kids
                for x, y, flip in ((a, b, False), (b, a, True)):
                    op = c.op
                    if flip:
                        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
                    dec = False
                    while x is not None and x.k == "UnaryOperator" and x.op in ("++", "--"):
                        dec = dec or x.op == "--"
                        x = x.kids[0]
                    if x is None or x.k != "DeclRefExpr":
                        continue
                    d = x.j["d"]
                    e = self.env.get(d)
                    if e is None:
                        continue
                    ytag = self.tag(y)
                    if ytag is None:
                        p = self.ptr(y)
                        ytag = p[1] if p else None
                    if e[0] == "val":
                        if e[1] == "LO" and ytag == "HI" and op in ("<", "!="):
                            self.env[d] = ("val", "PART")
                        elif e[1] == "HI" and ytag == "LO" and dec and op in (">", "!="):
                            self.env[d] = ("val", "PART")
                    elif e[0] == "ptr":
                        if e[2] == "LO" and ytag == "HI" and op in ("<", "!="):
                            self.env[d] = ("ptr", e[1], "PART")

    # -- accesses ------------------------------------------------------------
    def emit(self, loc, mode, node):
        if loc is None:
            return
        self.A.accesses.append(Access(loc, mode, frozenset(self.lockset(node)) | self.held, node, self.chain))

    def is_write(self, n):
        """is this lvalue node written by its context?"""
        p = n.parent
        while p is not None and (p.k in ("CStyleCastExpr", "CXXStaticCastExpr")):
            n, p = p, p.parent
        if p is None:
            return False
        if p.k in ("BinaryOperator",) and p.op == "=" and p.kids[0] is n:
            return True
        if p.k == "CompoundAssignOperator" and p.kids[0] is n:
            return True
        if p.k == "UnaryOperator" and p.op in ("++", "--"):
            return True
        if p.k == "CXXOperatorCallExpr" and p.op in ("=", "+=", "-=", "++", "--", "|=", "&=", "^=") and len(p.kids) > 1 and p.kids[1] is n:
            return True
        return False

    def collect(self):
        fn = self.fn
        P = self.P
        for n in fn.nodes():
            k = n.k
            if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator") or (k == "CXXOperatorCallExpr" and n.op in ("[]", "*")):
                if k == "UnaryOperator" and n.op != "*":
                    continue
                if k == "MemberExpr" and n.j.get("dk") != "Field":
                    continue
                l = self.loc(n)
                if l is None:
                    continue
                # only the outermost lvalue of an access path
                p = n.parent
                if p is not None and p.k == "MemberExpr" and p.j.get("dk") == "Field":
                    continue
                if p is not None and p.k in ("ArraySubscriptExpr",) and p.kids[0] is n:
                    continue
                if p is not None and p.k == "CXXOperatorCallExpr" and p.op == "[]" and len(p.kids) > 1 and p.kids[1] is n:
                    if "map<" in n.type and "const" not in n.type.split("map<")[0]:
                        self.emit(l, "write", n)   # map::operator[] may insert
                    continue
                if "mutex" in n.type or "atomic" in n.type:
                    continue
                if "condition_variable" in n.type:
                    continue
                if self.is_write(n):
                    self.emit(l, "write", n)
                    if p.k in ("CompoundAssignOperator",) or p.k == "UnaryOperator":
                        self.emit(l, "read", n)
                    continue
                # base object of a member call, or call argument: handled at the call
                if p is not None and p.k == "MemberExpr" and p.j.get("dk") != "Field":
                    continue
                if p is not None and p.k in CALLS:
                    continue
                if p is not None and p.k == "Var":
                    vt = P.types[p.j["t"]][1]
                    if vt.endswith("&"):
                        continue       # alias only
                if p is not None and p.k == "CXXForRangeStmt" and p.kids[0] is n:
                    self.emit(self.ext(l, ("[]", None)), "read", n)
                    continue
                if p is not None and p.k == "LambdaExpr":
                    continue
                self.emit(l, "read", n)
            elif k == "LambdaExpr" and n.j.get("f") in P.funcs:
                # assume it is called here
                L = P.funcs[n.j["f"]]
                env = dict(self.env)
                for cap in n.j.get("caps", ()):
                    pass
                self.A.run(L, env, self.this, self.chain + ("lambda",), frozenset(self.lockset(n)))
            if k in CALLS:
                self.call(n)

    def call(self, n):
        P = self.P
        ts = P.targets(n)
        defined = [t for t in ts if t.defined]
        held = frozenset(self.lockset(n)) | self.held
        if defined:
            for t in defined:
                env, this = self.bind(n, t)
                if t.kind == "ctor":
                    continue
                self.A.run(t, env, this, self.chain + (t.n,), held)
            return
        if not ts:
            return
        t = ts[0]
        name = t.n
        if n.k == "CXXMemberCallExpr":
            me = n.kids[0]
            b = me.kids[0] if me.k == "MemberExpr" and me.kids else None
            if b is not None and ("mutex" in b.type or "atomic" in b.type or "condition_variable" in b.type):
                return
            l = self.loc(b)
            if l is not None:
                if t.j.get("const"):
                    self.emit(l, "read", n)
                elif name in ("begin", "end", "data", "operator[]", "at", "front", "back", "find", "cbegin", "cend"):
                    pass
                else:
                    self.emit(l, "write", n)
            for a in n.kids[1:]:
                self.arg(a, n, t, n.kids[1:].index(a))
            return
        if n.k == "CXXOperatorCallExpr":
            if n.op in ("[]", "*", "->"):
                return
            for i, a in enumerate(n.kids[1:]):
                l = self.loc(a)
                if l is not None and not (i == 0 and n.op in ("=", "+=", "-=", "++", "--", "|=", "&=")):
                    self.emit(l, "read", n)
            return
        # free std function
        args = [a for a in n.kids[1:] if a is not None] if n.k == "CallExpr" else [a for a in n.kids if a is not None]
        ptrs = [(a, self.ptr(a)) for a in args]
        rng = None
        if len(ptrs) >= 2 and ptrs[0][1] and ptrs[1][1] and ptrs[0][1][0] == ptrs[1][1][0]:
            lo, hi = ptrs[0][1][1], ptrs[1][1][1]
            tag = "PART" if (lo, hi) == ("LO", "HI") else None
            rng = self.ext(ptrs[0][1][0], ("[]", tag))
            self.emit(rng, "read" if name in READERS else "write", n)
        for i, a in enumerate(args):
            if rng is not None and i < 2:
                continue
            self.arg(a, n, t, i)

    def arg(self, a, n, t, i):
        if a is None or a.k == "LambdaExpr":
            return
        l = self.loc(a)
        if l is None:
            p = self.ptr(a)
            if p is not None and t.n not in ("begin", "end", "data", "max_element", "min_element"):
                ty = self.P.types[t.params[i]["t"]][1] if i < len(t.params) else ""
                self.emit(self.ext(p[0], ("[]", p[1])), "read", n)
            return
        if t.n in ("begin", "end", "cbegin", "cend", "data", "move", "forward", "ref", "cref"):
            return
        ty = self.P.types[t.params[i]["t"]][1] if i < len(t.params) else ""
        if ty.endswith("&") and not ty.startswith("const") and not ty.endswith("&&"):
            self.emit(l, "write", n)
        else:
            self.emit(l, "read", n)


def overlap(p, q):
    """may these two access paths name common memory?  True / 'separate' by a partition component."""
    for a, b in zip(p, q):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[1] in ("PART", "IDX", "CLAIM") and a[1] == b[1]:
                return False
            continue
        if isinstance(a, tuple) != isinstance(b, tuple):
            return True
        if a != b:
            return False
    return True


def races(accs):
    """pairs (write, other) of accesses that two concurrent instances of the task may make to common memory"""
    out = []
    byroot = {}
    for a in accs:
        byroot.setdefault(a.loc[0], []).append(a)
    for root, xs in byroot.items():
        ws = [a for a in xs if a.mode == "write"]
        seen = set()
        for w in ws:
            for o in xs:
                if not overlap(w.loc[1], o.loc[1]):
                    continue
                if w.locks & o.locks:
                    continue
                key = (w.loc, o.loc, o.mode, frozenset((w.node.at(), o.node.at())))
                if key in seen:
                    continue
                seen.add(key)
                out.append((w, o))
    return out
