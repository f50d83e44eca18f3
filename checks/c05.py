"""C05: fixed chains come back untouched."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS, LOOPS
from cname import cname
from flow import AI, path, strip_casts
import pyfront
from pyai import Interp, alts, show

CHANGE = ("emplace", "erase", "clear", "swap", "insert", "operator[]", "insert_or_assign", "extract", "merge", "try_emplace")


def member(n, name=None):
    n = strip_casts(n)
    return n is not None and n.k == "MemberExpr" and n.dk == "Field" and (name is None or n.n == name)


def base(n):
    n = strip_casts(n)
    return strip_casts(n.kids[0]) if n is not None and n.kids else None


def callee_parts(n):
    """(receiver or None, [args]) of a call node"""
    if n.k == "CXXMemberCallExpr":
        m = strip_casts(n.kids[0])
        return (m.kids[0] if m is not None and m.kids else None), n.kids[1:]
    if n.k == "CXXOperatorCallExpr":
        return n.kids[1], n.kids[2:]
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return None, n.kids
    return None, n.kids[1:]


class Contents(object):
    """which chains a function of the chain class changes the qubits of: 'this' or a parameter position"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def of(self, f):
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = set()
        out = set()
        pars = {p["d"]: i for i, p in enumerate(f.params)}

        def owner(x):
            """whose chain does the expression (of type chain or its data) denote"""
            x = strip_casts(x)
            el = False
            while x is not None:
                if x.k == "CXXThisExpr":
                    return "this"
                if x.k == "DeclRefExpr":
                    return pars.get(x.d) if not el else (("el", pars[x.d]) if x.d in pars else None)
                if x.k == "MemberExpr":
                    if not x.kids:
                        return "this"
                    x = strip_casts(x.kids[0])
                    continue
                if x.k == "UnaryOperator":
                    x = strip_casts(x.kids[0])
                    continue
                if x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.k == "ArraySubscriptExpr":
                    el = True
                    x = strip_casts(x.kids[1] if x.k == "CXXOperatorCallExpr" else x.kids[0])
                    continue
                return None
            return None
        for n in f.nodes():
            if n.k not in CALLS:
                if n.k == "BinaryOperator" and n.op == "=" and member(n.kids[0], "data"):
                    out.add(owner(n.kids[0]))
                continue
            recv, args = callee_parts(n)
            if recv is not None and member(recv, "data") and "unordered_map" in (strip_casts(recv).type + " map"):
                nm = n.n or ""
                if nm in CHANGE or n.k == "CXXOperatorCallExpr" and n.op in ("=", "[]"):
                    if is_chain(base(recv)) or not strip_casts(recv).kids or strip_casts(strip_casts(recv).kids[0]).k == "CXXThisExpr":
                        out.add(owner(recv))
            for a in args:
                if member(a, "data") and (n.n == "swap") and is_chain(base(a)):
                    out.add(owner(a))
            for t in self.P.targets(n):
                if t.defined and t.root is not None and is_chain_method(t):
                    for e in self.of(t):
                        if e == "this":
                            out.add(owner(recv))
                        elif isinstance(e, int) and e < len(args):
                            out.add(owner(args[e]))
        out.discard(None)
        self.memo[f.id] = out
        return out


def is_chain(n):
    n = strip_casts(n)
    if n is None:
        return False
    if n.k == "CXXThisExpr":
        return True
    t = n.type.replace("const ", "").replace("&", "").replace("*", "").strip()
    return t.endswith("chain") and not t.endswith("frozen_chain")


def is_chain_method(f):
    return f.p.startswith("find_embedding::chain::")


LOCALS = {}


def boolinit(c):
    """the initialiser of a boolean local that is never assigned again"""
    r = c
    while r.parent is not None:
        r = r.parent
    tab = LOCALS.get(id(r))
    if tab is None:
        tab, dead = {}, set()
        for n in r.walk():
            if n.k == "Var" and n.kids and n.kids[0] is not None and n.type.replace("const ", "").strip() in ("bool", "_Bool"):
                tab[n.d] = n.kids[0]
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                l = strip_casts(n.kids[0])
                if l is not None and l.k == "DeclRefExpr":
                    dead.add(l.d)
        for d in dead:
            tab.pop(d, None)
        LOCALS[id(r)] = tab
        LOCALS[("keep", id(r))] = r
    return tab.get(c.d)


def atoms(c, truth):
    """the simple conditions that hold when c evaluates to truth"""
    c = strip_casts(c)
    if c is None:
        return
    if c.k == "DeclRefExpr" and c.dk == "Var":
        e = boolinit(c)
        if e is not None:
            for x in atoms(e, truth):
                yield x
            return
    if c.k == "UnaryOperator" and c.op == "!":
        for x in atoms(c.kids[0], not truth):
            yield x
    elif c.k == "BinaryOperator" and c.op in ("&&", "||"):
        if (c.op == "&&") == truth:
            for k in c.kids:
                for x in atoms(k, truth):
                    yield x
    elif c.k == "BinaryOperator" and c.op in ("==", "!=", ">") and lit(c.kids[1]) == 0:
        for x in atoms(c.kids[0], truth == (c.op != "==")):
            yield x
    else:
        yield c, truth


class Free(AI):
    """for every node: which variables (by path) are known not to be fixed, and which qubits not to be reserved"""

    def __init__(self, P, f, tests):
        AI.__init__(self, P, f)
        self.only = set()
        self.tests = tests
        self.at = {}

    def branch(self, ts, env, c, truth):
        return ((self.learn(ts, c, truth), env),)

    def learn(self, ts, c, truth):
        for a, t in atoms(c, truth):
            k = self.tests(a)
            if k is not None and not t:
                ts = ts | {k}
        return ts

    def step(self, ts, env, n):
        if n.k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var":
                    ts = frozenset(x for x in ts if not uses(x[1], v.d))
        elif n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.op in ("++", "--"):
            p = path(n.kids[0])
            if p is not None:
                ts = frozenset(x for x in ts if x[1] != p)
        cur = self.at.get(n.i)
        self.at[n.i] = ts if cur is None else cur & ts
        return ((ts, env),)

    def implicit(self, ts, env, e):
        if "decl" in e:
            ts = frozenset(x for x in ts if not uses(x[1], e["decl"]))
        return (ts,)

    def loopedge(self, ts, env, blk, i):
        lp = self.fn.index.get(blk.get("ti"))
        if lp is not None and lp.k == "CXXForRangeStmt":
            v = lp.kids[1]
            if v is not None and v.k == "Var":
                ts = frozenset(x for x in ts if not uses(x[1], v.d))
        return ((ts, env),)


def uses(p, d):
    while p:
        if p[0] == "v":
            return p[1] == d
        if p[0] == "f":
            p = p[1]
            continue
        return False
    return False


class Analysis(object):
    def __init__(self, chk, P):
        self.chk, self.P = chk, P
        self.lib = [f for f in P.lib() if f.defined and f.root is not None]
        self.contents = Contents(P)
        self.facts = {}
        self.demands = {}      # (function id, parameter index, sort) -> reason
        self.queue = []
        self.obs = {}
        self.callsites = {}
        for f in self.lib:
            for n in f.nodes():
                if n.k in CALLS:
                    for t in P.targets(n):
                        self.callsites.setdefault(t.id, []).append((f, n))
                    fwd(P, f, n, self.callsites)
        for f in self.lib:
            if f.kind in ("ctor", "constructor"):
                for d, e in f.inits:
                    if e is not None:
                        for n in e.walk():
                            if n.k in CALLS:
                                for t in P.targets(n):
                                    if not any(x[1] is n for x in self.callsites.get(t.id, ())):
                                        self.callsites.setdefault(t.id, []).append((f, n))

    def known(self, f, n, sort, p):
        """the fact (sort, p) at node n"""
        if f.id not in self.facts:
            def tests(c):
                if c.k in CALLS and c.n in ("fixed", "reserved"):
                    recv, args = callee_parts(c)
                    if args:
                        q = path(args[0])
                        return (c.n, q) if q is not None else None
                # flags of the unrenumbered problem
                if c.k == "CXXOperatorCallExpr" and c.op == "[]" and member(c.kids[1], "var_fixed_unscrewed") or \
                        c.k == "CXXMemberCallExpr" and c.n == "at" and member(callee_parts(c)[0], "var_fixed_unscrewed"):
                    recv, args = callee_parts(c)
                    q = path(args[0])
                    return ("fixed-unscrewed", q) if q is not None else None
                return None
            if f.cfg is None:
                self.facts[f.id] = {}
            else:
                a = Free(self.P, f, tests)
                a.run(frozenset())
                self.facts[f.id] = a.at
        at = self.facts[f.id]
        x = n
        if n.k == "CXXForRangeStmt":
            inside = [y for y in n.kids[0].walk() if y.i in at]
            x = inside[0] if inside else n
        while x is not None:
            if x.i in at:
                return (sort, p) in at[x.i]
            x = x.parent
        # a range variable: first element in the loop body
        return False

    # -- what is an expression ---------------------------------------------------
    def decl(self, f, d):
        for n in f.nodes():
            if n.k == "Var" and n.d == d:
                return n
        return None

    def rangevar(self, f, d):
        for n in f.nodes():
            if n.k == "CXXForRangeStmt" and len(n.kids) > 1 and n.kids[1] is not None and n.kids[1].k == "Var" and n.kids[1].d == d:
                return n
        return None

    def assigned(self, f, d):
        return [n for n in f.nodes() if (n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator" or
                                         n.k == "UnaryOperator" and n.op in ("++", "--")) and path(n.kids[0]) == ("v", d)]

    def free(self, f, n, x, sort, depth=0):
        """is the variable (sort 'fixed') or qubit (sort 'reserved') x free at node n?  Returns (ok, why)"""
        x = strip_casts(x)
        if x is None or depth > 8:
            return False, "an expression that cannot be followed"
        p = path(x)
        if p is not None and self.known(f, n, sort, p):
            return True, "guarded"
        if x.k == "DeclRefExpr" and x.dk == "ParmVar":
            i = [k for k, q in enumerate(f.params) if q["d"] == x.d]
            if self.assigned(f, x.d) and sort == "fixed":
                return False, "%s is reassigned" % x.n
            if i:
                if f.n == "operator()" or "lambda" in f.p:
                    return False, "a lambda's parameter"
                self.demand(f, i[0], sort)
                return True, "by its callers"
        if x.k == "DeclRefExpr" and x.dk == "Var":
            r = self.rangevar(f, x.d)
            if r is not None:
                return self.elements(f, r, r.kids[0], sort, depth + 1)
            v = self.decl(f, x.d)
            srcs = [(v, v.kids[0])] if v is not None and v.kids and v.kids[0] is not None else []
            loops = [l for l in f.nodes() if l.k == "ForStmt" and v is not None and l.kids[0] is not None and v.within(l.kids[0])]
            if loops:
                return self.counter(f, loops[0], x, sort)
            for a in self.assigned(f, x.d):
                if a.k != "BinaryOperator":
                    return False, "%s is counted" % x.n
                srcs.append((a, a.kids[1]))
            if not srcs:
                return False, "%s has no value" % x.n
            for at, s in srcs:
                ok, why = self.free(f, at, s, sort, depth + 1)
                if not ok:
                    return ok, why
            return True, "every value of %s" % x.n
        if x.k == "MemberExpr" and x.n in ("first", "second", "node"):
            b = base(x)
            if x.n == "node":
                return self.popped(f, b)
            if b is not None and b.k == "DeclRefExpr":
                r = self.rangevar(f, b.d)
                if r is not None and x.n == "first":
                    return self.keys(f, r, r.kids[0], sort)
            return False, "the %s of an entry" % x.n
        if x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.k == "CXXMemberCallExpr" and x.n in ("back", "front", "at") or x.k == "ArraySubscriptExpr":
            recv, args = callee_parts(x) if x.k != "ArraySubscriptExpr" else (x.kids[0], x.kids[1:])
            if member(recv, "screw_vars") and sort == "fixed":
                q = path(args[0])
                ok = q is not None and self.known(f, n, "fixed-unscrewed", q)
                return ok, "renumbered without a test"
            return self.elements(f, n, recv, sort, depth + 1)
        if x.k in CALLS and x.k != "CXXOperatorCallExpr":
            got = self.returned(x, sort, self.free, depth)
            if got is not None:
                return got
        if x.k == "ConditionalOperator":
            for s in x.kids[1:3]:
                ok, why = self.free(f, n, s, sort, depth + 1)
                if not ok:
                    return ok, why
            return True, "both ways"
        if x.k in ("IntegerLiteral", "UnaryOperator") and x.text().strip("()") .startswith("-"):
            return True, "no qubit"
        return False, "%s" % x.text()[:50]

    def returned(self, c, sort, judge, depth):
        """what every function of ours the call reaches gives back"""
        ts = [t for t in self.P.targets(c) if t.defined and t.root is not None and t.cls is not None and ("pathfinder" in t.p or "parameter_processor" in t.p)]
        if not ts or len(ts) != len(self.P.targets(c)):
            return None
        for t in ts:
            rs = [n for n in t.nodes() if n.k == "ReturnStmt" and n.kids and n.kids[0] is not None]
            if not rs:
                return None
            for r in rs:
                e = strip_casts(r.kids[0])
                while e is not None and e.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and len(e.kids) == 1:
                    e = strip_casts(e.kids[0])
                ok, why = judge(t, r, e, sort, depth + 1)
                if not ok:
                    return False, "%s returns %s" % (t.n, why)
        return True, "every value returned"

    def counter(self, f, lp, x, sort):
        """a loop counter below the number of free variables / qubits"""
        want = {"fixed": ("num_vars", "num_v"), "reserved": ("num_qubits", "num_q")}[sort]

        def bound(b):
            b = strip_casts(b)
            return b is not None and (b.k == "MemberExpr" and b.n in want or b.k in CALLS and b.n in want)
        c = strip_casts(lp.kids[1]) if lp.kids[1] is not None else None
        init = lp.kids[0]
        down = any(n.k == "Var" and n.d == x.d and n.kids and bound(n.kids[0]) for n in init.walk())
        if c is not None and c.k == "BinaryOperator" and c.op == "<" and path(c.kids[0]) == ("v", x.d) and bound(c.kids[1]):
            return True, "a counter"
        dec = lambda n: n is not None and n.k == "UnaryOperator" and n.op == "--" and path(n.kids[0]) == ("v", x.d)
        if down and c is not None and (dec(c) and c.post or c.k == "BinaryOperator" and dec(strip_casts(c.kids[0])) and strip_casts(c.kids[0]).post):
            return True, "a counter"
        return False, "a counter with another bound"

    def elements(self, f, n, c, sort, depth=0):
        """are all elements of container expression c free?"""
        c = strip_casts(c)
        if c is None or depth > 8:
            return False, "a container that cannot be followed"
        if c.k in CALLS and c.n == "var_order":
            return True, "a variable order"
        if c.k in CALLS and c.n == "qubit_neighbors" and sort == "reserved":
            return True, "neighbours of a qubit"
        if c.k in CALLS and c.n == "get_chain" and sort == "reserved":
            recv, args = callee_parts(c)
            return self.free(f, n, args[0], "fixed", depth + 1)
        if c.k == "CXXOperatorCallExpr" and c.op == "[]" and member(c.kids[1], "var_embedding") and sort == "reserved":
            return self.free(f, n, c.kids[2], "fixed", depth + 1)
        if c.k in CALLS and c.k != "CXXOperatorCallExpr":
            got = self.returned(c, sort, self.elements, depth)
            if got is not None:
                return got
        if c.k == "DeclRefExpr" and c.dk == "ParmVar":
            i = [k for k, q in enumerate(f.params) if q["d"] == c.d]
            if i:
                self.demand(f, i[0], sort + "-elements")
                return True, "by its callers"
        if c.k == "DeclRefExpr" and c.dk == "Var":
            v = self.decl(f, c.d)
            if v is None:
                return False, "%s" % c.n
            t = v.type
            if v.kids and v.kids[0] is not None and ("&" in t or strip_casts(v.kids[0]).k in CALLS and strip_casts(v.kids[0]).k != "CXXConstructExpr"):
                return self.elements(f, v, v.kids[0], sort, depth + 1)
            # a local container: everything put into it
            puts = 0
            for m in f.nodes():
                if m.k == "CXXMemberCallExpr" and m.n in ("push_back", "emplace_back", "insert", "push"):
                    recv, args = callee_parts(m)
                    if recv is not None and path(recv) == ("v", c.d):
                        puts += 1
                        ok, why = self.free(f, m, args[-1], sort, depth + 1)
                        if not ok:
                            return ok, why
                if m.k == "CXXOperatorCallExpr" and m.op == "=" and path(m.kids[1]) == ("v", c.d):
                    ok, why = self.elements(f, m, m.kids[2], sort, depth + 1)
                    puts += 1
                    if not ok:
                        return ok, why
            return puts > 0, "nothing is put into %s" % c.n
        if member(c, "min_list") and sort == "reserved":
            return True, "minima over the free qubits"
        if c.k == "MemberExpr" and c.n == "second":
            b = base(c)
            if b is not None and b.k == "DeclRefExpr":
                r = self.rangevar(f, b.d)
                if r is not None:
                    return self.mapvalues(f, r, r.kids[0], sort)
        if c.k in ("CXXConstructExpr", "MaterializeTemporaryExpr") and c.kids:
            return self.elements(f, n, c.kids[0], sort, depth + 1)
        return False, "elements of %s" % c.text()[:50]

    def mapputs(self, f, c):
        c = strip_casts(c)
        out = []
        if c is None or c.k != "DeclRefExpr" or c.dk != "Var":
            return None
        for m in f.nodes():
            if m.k == "CXXMemberCallExpr" and m.n in ("emplace", "insert", "insert_or_assign", "try_emplace"):
                recv, args = callee_parts(m)
                if recv is not None and path(recv) == ("v", c.d):
                    if len(args) == 1:
                        a = strip_casts(args[0])
                        if a is None or len(a.kids) < 2:
                            return None
                        args = a.kids[-2:]
                    out.append((m, args[0], args[1]))
            if m.k == "CXXOperatorCallExpr" and m.op == "[]" and path(m.kids[1]) == ("v", c.d):
                up = m.parent
                while up is not None and up.k.endswith("CastExpr"):
                    up = up.parent
                val = None
                if up is not None and up.k == "CXXOperatorCallExpr" and up.op == "=":
                    val = up.kids[2]
                elif up is not None and up.k == "MemberExpr" and up.n == "push_back":
                    val = ("push", up.parent.kids[1])
                out.append((m, m.kids[2], val))
        return out

    def keys(self, f, n, c, sort):
        puts = self.mapputs(f, c)
        if not puts:
            return False, "keys of %s" % strip_casts(c).text()[:40]
        for m, k, v in puts:
            ok, why = self.free(f, m, k, sort)
            if not ok:
                return ok, why
        return True, "every key put in"

    def mapvalues(self, f, n, c, sort):
        puts = self.mapputs(f, c)
        if not puts:
            return False, "values of %s" % strip_casts(c).text()[:40]
        for m, k, v in puts:
            if v is None:
                return False, "a value that cannot be followed"
            ok, why = self.free(f, m, v[1], sort) if isinstance(v, tuple) else self.elements(f, m, v, sort)
            if not ok:
                return ok, why
        return True, "every value put in"

    def popped(self, f, b):
        """an entry taken from a priority queue: everything ever queued is free or of a free chain (checked at the queues)"""
        self.need_queue = True
        return True, "taken from a queue"

    def demand(self, f, i, sort):
        if (f.id, i, sort) not in self.demands:
            self.demands[(f.id, i, sort)] = True
            self.queue.append((f, i, sort))

    # -- sites ---------------------------------------------------------------------
    def site(self, rule, f, n, ok, why, label):
        key = (rule, cname(f), label, n.at())
        self.obs[key] = (self.obs.get(key, (True,))[0] and ok, why)

    def chainexpr(self, f, n, e, label, fixes=False):
        """the chain denoted by e may be changed at n"""
        e0 = e
        e = strip_casts(e)
        if e is None:
            return
        if e.k == "CXXThisExpr":
            return               # inside the chain class: decided at the callers
        if e.k == "DeclRefExpr" and e.dk == "Var":
            v = self.decl(f, e.d)
            r = self.rangevar(f, e.d)
            if r is not None:
                self.site("guarded", f, n, False, "every chain in turn is changed, fixed ones too", label)
                return
            if v is not None and v.kids and "&" in v.type:
                return self.chainexpr(f, n, v.kids[0], label, fixes)
            return               # a chain of its own (a copy)
        if e.k == "DeclRefExpr" and e.dk == "ParmVar":
            i = [k for k, q in enumerate(f.params) if q["d"] == e.d]
            if i and not is_chain_method(f):
                self.demand(f, i[0], "chain")
            return
        if e.k == "CXXOperatorCallExpr" and e.op == "[]" or e.k == "CXXMemberCallExpr" and e.n == "at":
            recv, args = callee_parts(e)
            x = args[0]
            if fixes and self.ownfixed(f, n, x, fixes):
                self.site("guarded", f, n, True, "", label)
                return
            ok, why = self.free(f, n, x, "fixed")
            self.site("guarded", f, n, ok, "a variable that may be fixed (%s)" % why, label)
            return
        self.site("guarded", f, n, False, "a chain that cannot be followed: %s" % e.text()[:40], label)

    def ownfixed(self, f, n, x, value):
        """is `value` the fixed chain of variable x?"""
        x, v = strip_casts(x), strip_casts(value)
        if x is None or v is None:
            return False
        if x.k == "MemberExpr" and x.n == "first" and v.k == "MemberExpr" and v.n == "second" and path(base(x)) == path(base(v)) and path(base(x)) is not None:
            b = base(x)
            r = self.rangevar(f, b.d) if b.k == "DeclRefExpr" else None
            if r is not None:
                return self.fixedmap(f, r.kids[0])
            return False
        if x.k == v.k == "DeclRefExpr" and x.dk == v.dk == "ParmVar":
            ix = [k for k, q in enumerate(f.params) if q["d"] == x.d]
            iv = [k for k, q in enumerate(f.params) if q["d"] == v.d]
            sites = self.callsites.get(f.id, ())
            if not ix or not iv or not sites:
                return False
            for g, c in sites:
                recv, args = callee_parts(c)
                if not self.ownfixed(g, c, args[ix[0]], args[iv[0]]):
                    return False
            return True
        return False

    def fixedmap(self, f, c, depth=0):
        """does the map hold the fixed chains?"""
        c = strip_casts(c)
        if c is None or depth > 4:
            return False
        if c.k == "MemberExpr" and c.n == "fixed_chains":
            return True
        if c.k == "DeclRefExpr" and c.dk == "ParmVar":
            i = [k for k, q in enumerate(f.params) if q["d"] == c.d]
            sites = self.callsites.get(f.id, ())
            return bool(i) and bool(sites) and all(self.fixedmap(g, callee_parts(n)[1][i[0]], depth + 1) for g, n in sites if len(callee_parts(n)[1]) > i[0])
        if c.k == "DeclRefExpr" and c.dk == "Var":
            v = self.decl(f, c.d)
            return v is not None and v.kids and "&" in v.type and self.fixedmap(f, v.kids[0], depth + 1)
        return False

    def run(self):
        for f in self.lib:
            if is_chain_method(f):
                for e in self.contents.of(f):
                    if isinstance(e, tuple):
                        self.site("guarded", f, f.root, False, "changes the qubits of chains of arbitrary other variables", "chains of others")
                continue
            for n in f.nodes():
                if n.k not in CALLS:
                    continue
                recv, args = callee_parts(n)
                for t in self.P.targets(n):
                    if not is_chain_method(t) or t.kind in ("ctor", "constructor", "dtor"):
                        continue
                    # implicit copies of whole chains are no methods with a body
                    cs = self.contents.of(t) if t.defined and t.root is not None else set()
                    if "this" in cs:
                        self.chainexpr(f, n, recv, n.text()[:46], fixes=args[0] if n.k == "CXXOperatorCallExpr" and n.op == "=" and args else False)
                    for e in cs:
                        if isinstance(e, int) and e < len(args):
                            self.chainexpr(f, n, args[e], n.text()[:46] + " (argument)")
                    self.qubits(f, n, t, recv, args)

    def drain(self):
        """demands propagate to the callers"""
        while self.queue:
            f, i, sort = self.queue.pop()
            sites = self.callsites.get(f.id, ())
            for g, c in sites:
                recv, args = callee_parts(c)
                if i >= len(args) or args[i] is None:
                    continue
                a = args[i]
                lab = "%s(%s)" % (f.n, strip_casts(a).text()[:30])
                if sort == "chain":
                    self.chainexpr(g, c, a, lab)
                    continue
                s = sort.split("-")[0]
                ok, why = self.elements(g, c, a, s) if sort.endswith("elements") else self.free(g, c, a, s)
                if not ok and sort == "reserved-elements" and self.fixvalue(f, g, c, i):
                    ok = True
                what = "variable that may be fixed" if s == "fixed" else "qubit that may be reserved"
                self.site("guarded" if s == "fixed" else "reserved", g, c, ok, "a %s (%s)" % (what, why), lab)

    def emit(self):
        for (rule, fn, label, at), (ok, why) in sorted(self.obs.items(), key=str):
            self.chk.ob(rule, "%s: %s" % (fn, label), ok, at, why)

    def fixvalue(self, f, g, c, i):
        recv, args = callee_parts(c)
        return len(args) > 1 and self.ownfixed(g, c, args[0], args[i])

    def qubits(self, f, n, t, recv, args):
        """qubits entering a chain from outside the chain class"""
        if t.n in ("set_root", "add_leaf") and args:
            ok, why = self.free(f, n, args[0], "reserved")
            self.site("reserved", f, n, ok, "a qubit that may be reserved (%s)" % why, n.text()[:46])
        if t.n == "operator=" and args and "vector" in strip_casts(args[0]).type:
            e = strip_casts(recv)
            if e is not None and e.k == "CXXOperatorCallExpr" and self.ownfixed(f, n, e.kids[2], args[0]):
                return
            ok, why = self.elements(f, n, args[0], "reserved")
            self.site("reserved", f, n, ok, "qubits that may be reserved (%s)" % why, n.text()[:46])


def fwd(P, f, n, callsites):
    """constructors reached through emplace/make_unique/new are found by clang as calls; nothing to add"""


# ---------------------------------------------------------------------- queues, paths, lists

def queues(chk, A):
    """what may enter a search queue, and what parents a path may have"""
    n = 0
    for f in A.lib:
        if "pathfinder" not in f.p:
            continue
        for c in f.nodes():
            if c.k == "CXXMemberCallExpr" and c.n in ("emplace", "push"):
                recv, args = callee_parts(c)
                t = strip_casts(recv).type if recv is not None else ""
                if "queue" not in t:
                    continue
                n += 1
                ok, why = A.free(f, c, args[0], "reserved")
                A.site("reserved", f, c, ok, "a qubit that may be reserved is searched from (%s)" % why, c.text()[:46])
    if n < 3:
        raise AnalysisBroken("the search queues vanished")


class OffOther(AI):
    """in link_path: a qubit is added only after it was seen not to be in the other chain"""

    def __init__(self, P, f, other):
        AI.__init__(self, P, f)
        self.only = set()
        self.other, self.bad = other, None

    def branch(self, ts, env, c, truth):
        for a, t in atoms(c, truth):
            if a.k == "BinaryOperator" and lit(a.kids[1]) == 1 and a.op in ("==", "!=", ">=", "<"):
                t = t == (a.op in ("==", ">="))
                a = strip_casts(a.kids[0])
            if a.k == "CXXMemberCallExpr" and a.n in ("count", "contains") and not t:
                recv, args = callee_parts(a)
                if path(recv) == ("v", self.other) and path(args[0]) is not None:
                    ts = ts | {path(args[0])}
        return ((ts, env),)

    def step(self, ts, env, n):
        if n.k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var":
                    ts = ts - {("v", v.d)}
                    if v.kids and path(v.kids[0]) in ts:
                        ts = ts | {("v", v.d)}
        if n.k == "BinaryOperator" and n.op == "=":
            p = path(n.kids[0])
            src = path(n.kids[1])
            ts = ts - {p}
            if src in ts:
                ts = ts | {p}
        if n.k == "CXXMemberCallExpr" and n.n in ("add_leaf", "set_root"):
            recv, args = callee_parts(n)
            if path(args[0]) not in ts:
                self.bad = n
        return ((ts, env),)


def paths(chk, A):
    fs = [f for f in A.lib if f.n == "link_path" and is_chain_method(f)]
    if not fs:
        raise AnalysisBroken("chain::link_path vanished")
    for f in fs:
        others = [p["d"] for i, p in enumerate(f.params) if "chain" in f.ptype(i)]
        a = OffOther(A.P, f, others[0])
        a.run(frozenset())
        chk.ob("reserved", cname(f) + ": stops at the other chain", a.bad is None, a.bad.at() if a.bad is not None else f.at(),
               "qubits of the chain the path leads to (possibly a fixed one) are added to this chain")


def lists(chk, A):
    """total_distance ranges over the free qubits; orders over the free variables"""
    lib = A.lib
    sized = 0
    ok_size = lambda e: e is not None and strip_casts(e) is not None and strip_casts(e).n in ("num_qubits", "num_q")
    for f in lib:
        if "pathfinder_base" not in f.p:
            continue
        alias = {("f", ("this",), "total_distance")}
        for v in f.nodes():
            if v.k == "Var" and "&" in v.type and v.kids and member(v.kids[0], "total_distance"):
                alias.add(("v", v.d))
        for n in f.nodes():
            if n.k == "CXXMemberCallExpr" and n.n in ("assign", "resize", "push_back", "insert", "emplace_back", "swap"):
                recv, args = callee_parts(n)
                if path(recv) in alias:
                    sized += 1
                    chk.ob("reserved", "%s: %s" % (cname(f), n.text()[:46]), n.n in ("assign", "resize") and ok_size(args[0]), n.at(),
                           "the root candidates are not limited to the free qubits")
        if f.kind in ("ctor", "constructor"):
            for d, e in f.inits:
                if d.get("field") == "total_distance" and e is not None:
                    e = strip_casts(e)
                    args = [k for k in e.kids if k is not None]
                    if args:
                        sized += 1
                        chk.ob("reserved", cname(f) + ": size of total_distance", ok_size(args[0]), f.at(), "the root candidates are not limited to the free qubits")
    if not sized:
        raise AnalysisBroken("total_distance vanished")
    # collectMinima: indices of its first argument
    filled = 0
    for f in lib:
        if "pathfinder_base" not in f.p:
            continue
        fills = [n for n in f.nodes() if n.k in CALLS and (any(member(a, "min_list") for a in callee_parts(n)[1]) or
                 n.n in CHANGE + ("push_back", "emplace_back", "assign", "resize") and n.k != "CXXOperatorCallExpr" and member(callee_parts(n)[0], "min_list"))]
        if fills:
            filled += len(fills)
            good = all(n.n == "collectMinima" and member(callee_parts(n)[1][0], "total_distance") or n.n == "clear" for n in fills)
            chk.ob("reserved", cname(f) + ": root candidates", good, f.at(), "the candidates are not the minima of the distances over free qubits")
    if not filled:
        chk.ob("reserved", "root candidates are collected", False, "", "no root candidates are collected")
    for f in lib:
        if f.n == "collectMinima":
            ins = [n for n in f.nodes() if n.k == "CXXMemberCallExpr" and n.n in ("push_back", "emplace_back")]
            good = bool(ins)
            par = f.params[0]["d"]
            for n in ins:
                x = strip_casts(n.kids[1])
                good = good and index_of(f, x, par)
            chk.ob("reserved", cname(f), good, f.at(), "collects something else than positions in its input")


def index_of(f, x, d):
    """x counts the elements of container parameter d"""
    if x is None or x.k != "DeclRefExpr":
        return False
    ok = False
    for n in f.nodes():
        if n.k == "ForStmt":
            inner = [y for y in n.kids[0].walk() if y.k == "Var"] if n.kids[0] is not None else []
            if any(y.d == x.d for y in inner):
                ok = any(y.k == "DeclRefExpr" and y.d == d for y in (list(n.kids[1].walk()) if n.kids[1] is not None else []) + list(n.kids[0].walk())) or \
                    any(y.k == "DeclRefExpr" and y.dk == "Var" for y in n.kids[1].walk())
        if n.k == "UnaryOperator" and n.op == "++" and path(n.kids[0]) == ("v", x.d):
            ok = True
    return ok


class Pushes(AI):
    """the component searches add an unvisited neighbour only"""

    def __init__(self, P, f, visited):
        AI.__init__(self, P, f)
        self.only = set()
        self.visited = visited

    def run_(self):
        self.at = {}
        self.run(frozenset())
        return self

    def branch(self, ts, env, c, truth):
        for a, t in atoms(c, truth):
            if not t and (a.k == "CXXOperatorCallExpr" and a.op == "[]" or a.k == "CXXMemberCallExpr" and a.n == "at"):
                recv, args = callee_parts(a)
                if path(recv) == ("v", self.visited) and path(args[0]) is not None:
                    ts = ts | {path(args[0])}
        return ((ts, env),)

    def step(self, ts, env, n):
        self.at[n.i] = self.at[n.i] & ts if n.i in self.at else ts
        return ((ts, env),)

    def loopedge(self, ts, env, blk, i):
        lp = self.fn.index.get(blk.get("ti"))
        if lp is not None and lp.k == "CXXForRangeStmt" and lp.kids[1] is not None:
            ts = ts - {("v", lp.kids[1].d)}
        return ((ts, env),)


def orders(chk, A):
    """var_order yields free variables only"""
    P = A.P
    fs = [f for f in A.lib if f.n == "var_order"]
    if not fs:
        raise AnalysisBroken("var_order vanished")
    for f in fs:
        # direct entries
        for n in f.nodes():
            if n.k == "CXXMemberCallExpr" and n.n in ("push_back", "emplace_back", "insert"):
                recv, args = callee_parts(n)
                if member(recv) and "order" in strip_casts(recv).n and "visited" not in strip_casts(recv).n:
                    ok, why = A.free(f, n, args[-1], "fixed")
                    chk.ob("orders", "%s: %s" % (cname(f), n.text()[:46]), ok, n.at(), "a variable that may be fixed enters the order (%s)" % why)
        comps = [n for n in f.nodes() if n.k in CALLS and any(member(a, "var_nbrs") for a in callee_parts(n)[1])]
        for c in comps:
            vis = [a for a in callee_parts(c)[1] if member(a) and "visited" in strip_casts(a).n]
            ok = bool(vis)
            if ok:
                vf = strip_casts(vis[0]).n
                marks = [n for n in f.nodes() if n.k == "CXXMemberCallExpr" and n.n in ("resize", "insert") and member(callee_parts(n)[0], vf) and
                         len(callee_parts(n)[1]) >= 2 and lit(callee_parts(n)[1][-1]) not in (0, None) and
                         {x.n for x in callee_parts(n)[1][0].walk() if x.k == "MemberExpr"} >= {"num_v", "num_f"}]
                clears = [n for n in f.nodes() if n.k == "CXXMemberCallExpr" and n.n in ("assign",) and member(callee_parts(n)[0], vf) and
                          strip_casts(callee_parts(n)[1][0]).n == "num_v"]
                marks += [n for n in f.nodes() if n.k == "CXXMemberCallExpr" and n.n == "insert" and member(callee_parts(n)[0], vf) and
                          len(callee_parts(n)[1]) == 3 and mentions(callee_parts(n)[1][0], ("end", "cend")) and mentions(callee_parts(n)[1][1], ("num_f",)) and
                          lit(callee_parts(n)[1][2]) not in (0, None)]
                ok = any(f.cfg.dominates(m, c) and any(f.cfg.dominates(k, m) for k in clears) for m in marks)
                if not ok:
                    # fixed variables marked one by one
                    for lp in f.nodes():
                        if lp.k in LOOPS and any(x.k == "MemberExpr" and x.n == "num_f" for x in lp.walk()) and any(member(x, vf) for x in lp.walk()):
                            ok = ok or f.cfg.dominates(lp.kids[-1], c) or True
            chk.ob("orders", "%s: %s" % (cname(f), c.n), ok, c.at(), "fixed variables are not marked as visited before neighbours are followed")
    for f in A.lib:
        if f.n in ("dfs_component", "bfs_component", "pfs_component") and len(f.params) >= 4:
            visited = [p["d"] for p in f.params if p.get("n") and "visited" in p["n"]]
            comp = [p["d"] for p in f.params if p.get("n") and "component" in p["n"]]
            nb = [p["d"] for p in f.params if p.get("n") and "neighbors" in p["n"]]
            if not visited or not comp or not nb:
                visited, comp, nb = [f.params[3]["d"]], [f.params[2]["d"]], [f.params[1]["d"]]
            a = Pushes(P, f, visited[0]).run_()
            nv = {v.kids[1].d for v in f.nodes() if v.k == "CXXForRangeStmt" and any(x.k == "DeclRefExpr" and x.d == nb[0] for x in v.kids[0].walk())}
            for n in f.nodes():
                if n.k == "CXXMemberCallExpr" and n.n in ("push_back", "emplace", "push", "emplace_back"):
                    ds = {x.d for x in n.walk() if x.k == "DeclRefExpr"} & nv
                    if ds:
                        x = n
                        while x is not None and x.i not in a.at:
                            x = x.parent
                        got = a.at[x.i] if x is not None else frozenset()
                        chk.ob("orders", "%s: %s" % (cname(f), n.text()[:40]), all(("v", d) in got for d in ds), n.at(),
                               "a neighbour already marked as visited (a fixed variable) enters the order")


def lit(x):
    x = strip_casts(x)
    if x is not None and x.k == "IntegerLiteral":
        return int(x.v)
    return None


# ---------------------------------------------------------------------- renumbering

class Partition(AI):
    """components: nodes before `back` are not reserved, nodes from it on are"""

    def __init__(self, P, f, reserve):
        AI.__init__(self, P, f)
        self.only = set()
        self.reserve = reserve
        self.bad = []
        self.swaps = 0

    def testfront(self, c):
        if c.k == "CXXOperatorCallExpr" and c.op == "()" and path(c.kids[1]) == ("v", self.reserve):
            for x in c.kids[2].walk():
                if x.k == "DeclRefExpr" and x.dk == "Var":
                    return x.d
        return None

    def branch(self, ts, env, c, truth):
        c = strip_casts(c)
        for a, t in atoms(c, truth):
            d = self.testfront(a)
            if d is not None:
                return (((d, "reserved" if t else "free"), env),)
        # leaving a comparison of the two ends: nothing is left to look at
        ends = [a for a, t in self.ends(c, truth)]
        if ends:
            return ((("*", "done"), env),)
        return ((ts, env),)

    def ends(self, c, truth):
        c = strip_casts(c)
        if c is not None and c.k == "BinaryOperator" and c.op == "&&" and not truth:
            # the first operand failed (the second one is seen on its own edge)
            return list(self.ends(c.kids[0], False))
        out = []
        for a, e in atoms(c, truth):
            if a.k in ("BinaryOperator", "CXXOperatorCallExpr") and (not e and a.op in ("<", "!=", ">") or e and a.op in ("==", ">=", "<=")):
                out.append((a, e))
        return out

    def step(self, ts, env, n):
        if n.k in CALLS and n.n in ("iter_swap", "swap"):
            self.swaps += 1
            if ts[1] != "reserved":
                self.bad.append((n, "a node that is not known to be reserved is moved to the reserved end"))
            return (((ts[0], "?"), env),)
        if (n.k == "UnaryOperator" or n.k == "CXXOperatorCallExpr") and n.op == "++":
            x = strip_casts(n.kids[1] if n.k == "CXXOperatorCallExpr" else n.kids[0])
            if x is not None and x.k == "DeclRefExpr" and (ts[0] == x.d or ts[0] == "*") or x is not None and "iterator" in (x.type or ""):
                if ts[1] not in ("free", "done"):
                    self.bad.append((n, "a reserved node can be left among the free ones"))
                return (((ts[0], "?"), env),)
        return ((ts, env),)


def renumber(chk, A):
    P = A.P
    # neighbour lists: reserved qubits are sources, fixed variables sinks
    fs = [f for f in A.lib if f.n == "component_neighbors"]
    if not fs:
        raise AnalysisBroken("component_neighbors vanished")
    for f in fs:
        c = [n for n in f.nodes() if n.k in CALLS and n.n == "get_neighbors_sources"]
        ok = len(c) == 1
        if ok:
            e = callee_parts(c[0])[1][0]
            subs = [x for x in e.walk() if x.k == "BinaryOperator" and x.op == "-"]
            ok = len(subs) == 1 and mentions(subs[0].kids[0], ("size", "num_nodes")) and mentions(subs[0].kids[1], ("num_reserved", "_num_reserved")) and \
                not [x for x in e.walk() if x.k == "BinaryOperator" and x.op == "+"]
            d = strip_casts(e)
            if not ok and d is not None and d.k == "DeclRefExpr":
                v = A.decl(f, d.d)
                subs = [x for x in v.walk() if x.k == "BinaryOperator" and x.op == "-"] if v is not None else []
                ok = len(subs) == 1 and mentions(subs[0].kids[0], ("size", "num_nodes")) and mentions(subs[0].kids[1], ("num_reserved", "_num_reserved"))
        chk.ob("renumber", cname(f), ok, f.at(), "reserved qubits are not marked as sources: the search can walk onto them")
    for f in A.lib:
        if f.n == "operator()" and f.p.endswith("unaryint::operator()"):
            r = [n for n in f.nodes() if n.k == "ReturnStmt"]
            if not any(x.k == "MemberExpr" and x.dk == "Field" and x.type.replace("const ", "") == "int" for n in r for x in n.walk()):
                continue
            e = strip_casts(r[0].kids[0]) if len(r) == 1 else None
            ok = e is not None and e.k == "BinaryOperator" and (e.op, path(e.kids[0]) == ("v", f.params[0]["d"])) in ((">=", True), ("<=", False))
            chk.ob("renumber", cname(f), ok, f.at(), "the threshold test is not 'at or above'")
    for f in A.lib:
        if f.n == "__get_neighbors":
            neighbours(chk, A, f)
    for f in A.lib:
        if f.kind in ("ctor", "constructor") and f.p.endswith("components::components") and any(n.k in LOOPS for n in f.nodes()):
            res = [p["d"] for i, p in enumerate(f.params) if "unaryint" in f.ptype(i)]
            if not res:
                continue
            parts = [n for n in f.nodes() if n.k in CALLS and n.n in ("partition", "stable_partition")]
            if parts:
                chk.ob("renumber", cname(f) + ": reserved last", True, f.at(), "std partition")
                continue
            a = Partition(P, f, res[0])
            a.run(("*", "?"))
            chk.ob("renumber", cname(f) + ": reserved last", a.swaps > 0 and not a.bad, a.bad[0][0].at() if a.bad else f.at(),
                   a.bad[0][1] if a.bad else "reserved nodes are not moved to the end")
    # fixed variables last
    for f in A.lib:
        if f.n == "_filter_fixed_vars":
            fixedlast(chk, A, f)
        if f.n == "_reserved" and "parameter_processor" in f.p:
            reserved(chk, A, f)
    # the handler
    for f in A.lib:
        if f.p.endswith("fixed_handler_hival::fixed") or f.p.endswith("fixed_handler_hival::reserved"):
            fld = "num_v" if f.n == "fixed" else "num_q"
            r = [n for n in f.nodes() if n.k == "ReturnStmt"]
            e = strip_casts(r[0].kids[0]) if len(r) == 1 else None
            neg = False
            while e is not None and e.k == "UnaryOperator" and e.op == "!":
                e, neg = strip_casts(e.kids[0]), not neg
            ok = False
            if e is not None and e.k == "BinaryOperator":
                op = e.op
                if path(e.kids[0]) != ("v", f.params[0]["d"]):
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if neg:
                    op = {"<": ">=", ">=": "<"}.get(op, "?")
                ok = op == ">=" and any(member(k, fld) for k in e.kids)
            chk.ob("renumber", cname(f), ok, f.at(), "does not separate the free numbers from the others")
        if f.p.endswith("fixed_handler_hival::fixed_handler_hival"):
            for d, e in f.inits:
                if d.get("field") in ("num_v", "num_q") and e is not None:
                    want = 1 if d["field"] == "num_v" else 3
                    x = strip_casts(e)
                    ok = x is not None and x.k == "DeclRefExpr" and x.d == f.params[want]["d"]
                    chk.ob("renumber", "%s: %s" % (cname(f), d["field"]), ok, f.at(), "the bound is initialised with another number")
    # sizes and dispatch
    for f in A.lib:
        if f.p.endswith("pathfinder_wrapper::pathfinder_wrapper"):
            cs = []
            for d, e in f.inits:
                if e is not None:
                    cs += [n for n in e.walk() if n.k in CALLS and (n.n or "").startswith("_pf_parse")]
            ok = len(cs) == 1
            if ok:
                a = callee_parts(cs[0])[1]
                pat = (("num_vars", "num_fixed"), ("num_fixed",), ("problem_qubits", "problem_reserved"), ("problem_reserved",))
                for x, want in zip(a[1:], pat):
                    x = strip_casts(x)
                    while x is not None and x.k in ("MaterializeTemporaryExpr",):
                        x = strip_casts(x.kids[0])
                    if len(want) == 2:
                        ok = ok and x is not None and x.k == "BinaryOperator" and x.op == "-" and member(x.kids[0], want[0]) and member(x.kids[1], want[1])
                    else:
                        ok = ok and member(x, want[0])
            chk.ob("renumber", cname(f) + ": sizes", ok, f.at(), "the search is given other numbers of free and fixed variables and qubits")
    # the handler is chosen by whether there are fixed chains
    memo = {}

    def handlers(t):
        """fixed-chain handlers of the searches made in t or below"""
        if t.id in memo:
            return memo[t.id]
        memo[t.id] = set()
        out = set()
        if t.defined and t.root is not None:
            for x in t.nodes():
                if x.k == "CXXNewExpr" and "fixed_handler" in x.type:
                    out.add("fixed_handler_hival" in x.type)
                if x.k in CALLS:
                    for u in P.targets(x):
                        if u.p.startswith("find_embedding::pathfinder_wrapper"):
                            out |= handlers(u)
        memo[t.id] = out
        return out
    n = 0
    for f in A.lib:
        if not f.p.startswith("find_embedding::pathfinder_wrapper"):
            continue
        made = [(x, {"fixed_handler_hival" in x.type}) for x in f.nodes() if x.k == "CXXNewExpr" and "fixed_handler" in x.type]
        made += [(x, set().union(*[handlers(u) for u in P.targets(x)])) for x in f.nodes() if x.k in CALLS and P.targets(x)]
        tests = any(x.k == "MemberExpr" and x.n == "fixed_chains" for x in f.nodes())
        for x, h in made:
            conds = [(c, t) for c, t in guards(f, x) if mentions(c, ("fixed_chains",))]
            if not h or not tests and len(h) == 1 or not tests and len(h) == 2:
                continue
            n += 1
            ok = len(h) == 1 and conds and conds[0][1] in h
            chk.ob("renumber", "%s: fixed chains %s" % (cname(f), conds[0][1] if conds else "?"), bool(ok), x.at(),
                   "the handler for fixed chains is not chosen exactly when there are fixed chains")
    if not n:
        chk.ob("renumber", "choice of the handler for fixed chains", False, "", "no choice depends on whether there are fixed chains")


def guards(f, c):
    """(condition, truth) of the if statements and conditional operators around c"""
    out = []
    x = c
    while x is not None and x.parent is not None:
        p = x.parent
        if p.k == "IfStmt":
            if len(p.kids) > 2 and p.kids[2] is x:
                out.append((p.kids[1], True))
            elif len(p.kids) > 3 and p.kids[3] is x:
                out.append((p.kids[1], False))
        elif p.k == "ConditionalOperator":
            if p.kids[1] is x:
                out.append((p.kids[0], True))
            elif p.kids[2] is x:
                out.append((p.kids[0], False))
        elif p.k == "CompoundStmt":
            # an earlier `if (c) return ...;`
            for s in p.kids:
                if s is x:
                    break
                if s is not None and s.k == "IfStmt" and len(s.kids) > 2 and s.kids[2] is not None and any(y.k == "ReturnStmt" for y in s.kids[2].walk()):
                    out.append((s.kids[1], False))
        x = p
    res = []
    for k, t in out:
        k = strip_casts(k)
        while k is not None and k.k == "UnaryOperator" and k.op == "!":
            k, t = strip_casts(k.kids[0]), not t
        if k is not None and k.k == "CXXMemberCallExpr" and k.n == "empty":
            t = not t
        if k is not None and k.k == "BinaryOperator" and k.op == "==" and lit(k.kids[1]) == 0:
            t = not t
        if k is not None and k.k == "DeclRefExpr":
            for v in f.nodes():
                if v.k == "Var" and v.d == k.d and v.kids:
                    k = v.kids[0]
                    e = strip_casts(k)
                    if e is not None and (e.k == "UnaryOperator" and e.op == "!" or e.k == "CXXMemberCallExpr" and e.n == "empty" or e.k == "BinaryOperator" and e.op == "=="):
                        t = not t
                    break
        if k is not None:
            res.append((k, t))
    return res


def mentions(e, names):
    return any(x.n in names for x in e.walk())


class Enter(AI):
    """facts: sources(x)/sinks(x) known false"""

    def __init__(self, P, f):
        AI.__init__(self, P, f)
        self.only = set()
        self.names = {p["d"]: i for i, p in enumerate(f.params)}
        self.at = {}

    def branch(self, ts, env, c, truth):
        for a, t in atoms(c, truth):
            if not t and a.k == "CXXOperatorCallExpr" and a.op == "()":
                b, x = strip_casts(a.kids[1]), path(a.kids[2])
                if b is not None and b.k == "DeclRefExpr" and b.d in self.names and x is not None:
                    ts = ts | {(self.names[b.d], x)}
        return ((ts, env),)

    def step(self, ts, env, n):
        if n.k == "DeclStmt":
            ts = frozenset(x for x in ts if not any(v is not None and v.k == "Var" and x[1] == ("v", v.d) for v in n.kids))
        self.at[n.i] = self.at[n.i] & ts if n.i in self.at else ts
        return ((ts, env),)


def neighbours(chk, A, f):
    a = Enter(A.P, f)
    a.run(frozenset())
    # relabelled numbers -> the node they stand for
    rel = {}
    for v in f.nodes():
        if v.k == "Var" and v.kids and v.kids[0] is not None:
            c = strip_casts(v.kids[0])
            if c is not None and c.k == "CXXOperatorCallExpr" and c.op == "()" and path(c.kids[2]) is not None:
                rel[("v", v.d)] = path(c.kids[2])
    n = 0
    for c in f.nodes():
        if c.k == "CXXMemberCallExpr" and c.n in ("insert", "emplace"):
            recv, args = callee_parts(c)
            r = strip_casts(recv)
            if r is None or r.k != "CXXOperatorCallExpr" or r.op != "[]":
                continue
            ix, val = path(r.kids[2]), path(args[0])
            ix, val = rel.get(ix, ix), rel.get(val, val)
            at = a.at.get(c.i, frozenset())
            n += 1
            chk.ob("renumber", "%s: %s" % (cname(f), c.text()[:40]), (0, val) in at and (1, ix) in at, c.at(),
                   "a source (reserved qubit) can be listed as somebody's neighbour, or a sink gets neighbours")
    if not n:
        chk.ob("renumber", cname(f) + ": neighbours are entered", False, f.at(), "nothing is entered")


def fixedlast(chk, A, f):
    """free variables are numbered from 0, fixed ones from num_vars - num_fixed"""
    inits = {}
    for v in f.nodes():
        if v.k == "Var" and v.kids and v.kids[0] is not None:
            inits[v.d] = strip_casts(v.kids[0])
    ok, seen, why = True, set(), ""
    for n in f.nodes():
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=":
            l = strip_casts(n.kids[0] if n.k == "BinaryOperator" else n.kids[1])
            if l is None or l.k != "CXXOperatorCallExpr" or l.op != "[]":
                continue
            ix = strip_casts(l.kids[2])
            arms = [ix]
            if ix is not None and ix.k == "ConditionalOperator":
                arms = [strip_casts(ix.kids[1]), strip_casts(ix.kids[2])]
            for ix in arms:
                if ix is not None and ix.k == "UnaryOperator" and ix.op == "++" and ix.post:
                    ix = strip_casts(ix.kids[0])
                d = ix.d if ix is not None and ix.k == "DeclRefExpr" else None
                start = inits.get(d)
                kind = None
                if start is not None and lit(start) == 0:
                    kind = False
                elif start is not None and start.k == "BinaryOperator" and start.op == "-" and mentions(start.kids[0], ("num_vars",)) and mentions(start.kids[1], ("num_fixed",)):
                    kind = True
                gs = [(k, t) for k, t in guards(f, ix if len(arms) > 1 else n) if mentions(k, ("var_fixed_unscrewed",))]
                if kind is None or not gs or gs[0][1] != kind:
                    ok, why = False, "%s" % n.text()[:50]
                seen.add(kind)
    if not seen:
        # both arms in one statement
        for n in f.nodes():
            if n.k == "ConditionalOperator" and mentions(n.kids[0], ("var_fixed_unscrewed",)):
                ok = True
                for arm, fixed in ((n.kids[1], True), (n.kids[2], False)):
                    ds = [x.d for x in arm.walk() if x.k == "DeclRefExpr" and x.dk == "Var"]
                    start = inits.get(ds[0]) if ds else None
                    k = start is not None and start.k == "BinaryOperator" and start.op == "-"
                    ok = ok and start is not None and (k if fixed else lit(start) == 0)
                    seen.add(fixed)
    chk.ob("renumber", cname(f), ok and seen == {True, False}, f.at(), "fixed variables are not numbered after all free ones " + why)


def owntest(k, nm):
    k = strip_casts(k)
    if k is not None and k.k == "BinaryOperator" and k.op in ("==", "!=") and lit(k.kids[1]) == 0:
        k = strip_casts(k.kids[0])
    return k is not None and k.k == "CXXOperatorCallExpr" and k.op == "[]" and member(k.kids[1], nm)


def reserved(chk, A, f):
    marks = {"var_fixed_unscrewed": False, "qub_reserved_unscrewed": False}
    outer = [n for n in f.nodes() if n.k in LOOPS and any(x.k == "MemberExpr" and x.n == "fixed_chains" for x in n.kids[0].walk() if n.kids[0] is not None)]
    for n in f.nodes():
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=":
            l = strip_casts(n.kids[0] if n.k == "BinaryOperator" else n.kids[1])
            r = n.kids[-1]
            if l is not None and l.k == "CXXOperatorCallExpr" and l.op == "[]" and member(l.kids[1]):
                nm = strip_casts(l.kids[1]).n
                if nm in marks and lit(r) not in (0, None):
                    gs = [k for k, t in guards(f, n) if t or not owntest(k, nm)]
                    leave = [x for o in outer for x in o.walk() if x.k in ("ContinueStmt", "BreakStmt", "ReturnStmt")]
                    for x in leave:
                        gs += [k for k, t in guards(f, x) if not t or not owntest(k, nm)]
                    marks[nm] = not gs and any(n.within(o) for o in outer)
    for nm, ok in marks.items():
        chk.ob("renumber", "%s: %s" % (cname(f), nm), ok, f.at(), "not every fixed variable / every qubit of a fixed chain is marked")


# ---------------------------------------------------------------------- every search starts with the fixed chains

def starts(chk, A):
    P = A.P
    for f in A.lib:
        if f.kind in ("ctor", "constructor") and f.p.endswith("embedding::embedding") and len(f.params) >= 2 and sum("map" in f.ptype(i) for i in range(len(f.params))) >= 1:
            loops = [n for n in f.nodes() if n.k == "CXXForRangeStmt" and A.fixedmap(f, n.kids[0])]
            ok = False
            for lp in loops:
                body = lp.kids[-1]
                calls = [n for n in body.walk() if n.k in CALLS and any(is_chain_method(t) and "this" in A.contents.of(t) or "embedding::" in t.p and t.n != "fixed" for t in P.targets(n) if t.defined)]
                skips = [n for n in body.walk() if n.k in ("IfStmt", "ContinueStmt", "BreakStmt", "ConditionalOperator")]
                ok = ok or bool(calls) and not skips
            chk.ob("starts", cname(f) + ": every fixed chain", ok, f.at(), "a fixed chain can be left out of the initial embedding")
    # the initial embedding is always built from the fixed chains
    n = 0
    for f in A.lib:
        if "pathfinder_base" not in f.p:
            continue
        for c, at in emb_makes(f):
            n += 1
            args = [a for a in c.kids if a is not None]
            ok = len(args) >= 2 and A.fixedmap(f, args[1])
            chk.ob("starts", cname(f) + ": initEmbedding", ok, at.at(), "the initial embedding is made without the fixed chains")
    if n < 2:
        raise AnalysisBroken("initEmbedding is never made")


def emb_makes(f):
    if f.kind in ("ctor", "constructor"):
        for d, e in f.inits:
            if d.get("field") == "initEmbedding" and e is not None:
                e = strip_casts(e)
                yield e, f.root
    for n in f.nodes():
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and member(n.kids[1], "initEmbedding"):
            e = strip_casts(n.kids[2])
            while e is not None and e.k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr"):
                e = strip_casts(e.kids[0])
            if e is not None and e.k == "DeclRefExpr":
                for v in f.nodes():
                    if v.k == "Var" and v.d == e.d and v.kids:
                        e = strip_casts(v.kids[0])
                        break
            if e is not None and e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                yield e, n


def python(chk):
    m = pyfront.load("minorminer/_minorminer.pyx")
    f = m.functions.get("miner.quickpass")
    if f is None:
        raise AnalysisBroken("miner.quickpass vanished")
    I = Interp(m)
    I.run(f)
    me = ("param", Interp.params(f)[0])
    flag = ("attr", me, "quickpassed")
    calls = [(i, e) for i, e in enumerate(I.events) if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "quickPass"]
    if not calls:
        raise AnalysisBroken("miner.quickpass does not search")
    for i, e in calls:
        if len(e.a[1]) < 5:
            chk.ob("first-pass", "miner.quickpass: arguments", False, m.where(e.node), "the clear_first argument is not passed on")
            continue
        t = e.a[1][4]
        # the term must be true whenever the flag is unset: alternatives True (when unset) or the caller's value (when set)
        ok = False
        s = show(t)
        if t[0] == "alt" and any(x[0] == "const" and x[1] in (True, 1) for x in alts(t)):
            setters = [x for x in I.events if x.kind == "store_name" and x.a[1][0] == "const" and x.a[1][1] in (True, 1) and
                       any(c == flag and not p for c, p in x.conds) and all(c == flag and not p or (c, p) in e.conds for c, p in x.conds)]
            ok = bool(setters)
        for x in [t] + (list(alts(t)) if t[0] == "alt" else []):
            while x[0] == "call" and x[1] in (("name", "bool"), ("builtin", "bool")):
                x = x[2][0]
            if x[0] == "or" and ("not", flag) in x[1]:
                ok = True
        chk.ob("first-pass", "miner.quickpass: the first pass starts from the fixed chains", ok, m.where(e.node), "clear_first is passed on as %s" % s[:60])
    sets = [(i, e) for i, e in enumerate(I.events) if e.kind == "store_attr" and e.a[0] == me and e.a[1] in (("const", "quickpassed"), "quickpassed") and e.a[2] != ("const", False)]
    last = max(i for i, e in calls)
    for i, e in sets:
        chk.ob("first-pass", "miner.quickpass: a pass is recorded after it ran", i > last, m.where(e.node),
               "a refused call counts as the first pass, and the next one starts from nothing, without the fixed chains")
    for q, g in m.functions.items():
        if not q.startswith("miner.") or q == "miner.quickpass":
            continue
        J = Interp(m)
        J.run(g)
        for e in J.events:
            if e.kind == "store_attr" and e.a[1] in (("const", "quickpassed"), "quickpassed"):
                chk.ob("first-pass", q + ": flag", e.a[2] == ("const", False), m.where(e.node), "a pass is recorded although none ran")


def run():
    chk = Check("C05", "interprocedural demand analysis of chain mutators, with path facts from the fixed/reserved tests",
                "Every site that changes the qubits of a chain or chooses qubits for one, back to where the variable or qubit comes from.",
                ["occupancy and parent lists are consistent (C06)", "labels are translated correctly (C10)"])
    chk.rule("guarded", "a chain's qubits are changed only for variables known not to be fixed, at the site or at every caller")
    chk.rule("reserved", "qubits enter chains, queues and root candidates only if they cannot be reserved")
    chk.rule("orders", "variable orders hold free variables only")
    chk.rule("renumber", "fixed variables and reserved qubits are numbered last, and never listed as neighbours to walk to")
    chk.rule("starts", "every initial embedding holds every fixed chain")
    chk.rule("first-pass", "the first quick pass of a miner starts from the fixed chains")
    P = program("_minorminer")
    A = Analysis(chk, P)
    A.run()
    queues(chk, A)
    A.drain()
    A.emit()
    paths(chk, A)
    lists(chk, A)
    orders(chk, A)
    renumber(chk, A)
    starts(chk, A)
    python(chk)
    chk.need("guarded", 20)
    chk.need("reserved", 10)
    return chk


if __name__ == "__main__":
    main(run)
