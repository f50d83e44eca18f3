"""C18: every internal loop makes progress."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS
from cname import cname
from flow import AI, Mods, path, strip_casts, field_of

MUTATORS = {"pop", "pop_back", "pop_front", "erase", "clear", "push", "push_back", "push_front", "emplace", "emplace_back",
            "insert", "resize", "swap", "assign", "delete_min", "merge"}
POPS = {"pop", "pop_back", "pop_front", "erase", "clear", "resize", "delete_min"}
PUSHES = {"push", "push_back", "emplace", "emplace_back", "push_front", "insert", "emplace_front"}
OBSERVERS = {"empty", "size", "back", "front", "top", "begin", "end"}


def root(n):
    """key of the object an expression reads or writes: subscripts, iterators and element accesses reduce to their container"""
    n = strip_casts(n)
    while n is not None:
        if n.k == "ArraySubscriptExpr":
            n = strip_casts(n.kids[0])
        elif n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*", "->", "()"):
            n = strip_casts(n.kids[1])
        elif n.k == "UnaryOperator" and n.op in ("*", "&", "++", "--"):
            n = strip_casts(n.kids[0])
        elif n.k == "CXXMemberCallExpr" and n.kids and n.kids[0].k == "MemberExpr" and n.n in ("at", "back", "front", "top", "find"):
            n = strip_casts(n.kids[0].kids[0]) if n.kids[0].kids else None
        elif n.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(n.kids) == 1:
            n = strip_casts(n.kids[0])
        elif n.k == "MemberExpr" and path(n) is None and n.kids:
            n = strip_casts(n.kids[0])
        else:
            break
    return path(n)


def callee_object(n):
    if n.k == "CXXMemberCallExpr" and n.kids and n.kids[0] is not None and n.kids[0].k == "MemberExpr":
        return n.kids[0].kids[0] if n.kids[0].kids else None
    return None


def reads(e):
    """keys an expression reads"""
    out = set()
    for x in e.walk():
        if x.k == "DeclRefExpr" or x.k == "MemberExpr":
            p = path(x)
            if p is not None:
                out.add(p)
                while p[0] == "f":
                    p = p[1]
                    if p[0] != "this":
                        out.add(p)
    return out


class Loop(object):
    def __init__(self, P, fn, head, body):
        self.P, self.fn, self.head, self.body = P, fn, head, body
        cfg, idx = fn.cfg, fn.index
        self.range_for = cfg.blocks[head].get("tk") == "CXXForRangeStmt"
        self.atoms = []
        for b in sorted(body):
            blk = cfg.blocks[b]
            ss = cfg.succ[b]
            if "tc" in blk and len(ss) >= 2 and any(s not in body for s in ss) and blk.get("tk") not in ("CXXTryStmt",):
                c = idx.get(blk["tc"])
                if c is not None:
                    if blk.get("tk") == "BinaryOperator" and c.k == "BinaryOperator" and c.op in ("&&", "||") and c.i == blk.get("ti"):
                        c = strip_casts(c.kids[0])
                    c = strip_casts(c)
                    # in a short-circuit condition the last block tests the rightmost operand
                    while c is not None and c.k == "BinaryOperator" and c.op in ("&&", "||"):
                        c = strip_casts(c.kids[1])
                    self.atoms.append((b, c))
        self.nodes = set()
        for b in body:
            for e in cfg.blocks[b]["e"]:
                if isinstance(e, int) and e in idx:
                    self.nodes.add(e)

    def live_atoms(self):
        out = []
        for b, c in self.atoms:
            if c is None or c.k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
                continue
            if c.k == "BinaryOperator" and c.op in (">=", "<="):
                l, r = (c.kids[0], c.kids[1]) if c.op == ">=" else (c.kids[1], c.kids[0])
                lt, z = strip_casts(l), strip_casts(r)
                if z is not None and z.k == "IntegerLiteral" and int(z.v) == 0 and ("unsigned" in l.type or "size_t" in l.type):
                    continue            # always true: never an exit
            out.append((b, c))
        return out

    def assigns(self):
        """(node, target key, rhs) of plain assignments and initialisations inside the loop"""
        for i in self.nodes:
            n = self.fn.index[i]
            if n.k == "DeclStmt":
                for v in n.kids:
                    if v is not None and v.k == "Var" and v.kids and v.kids[0] is not None:
                        yield v, ("v", v.d), v.kids[0]
            elif n.k == "BinaryOperator" and n.op == "=":
                yield n, root(n.kids[0]), n.kids[1]
            elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.kids) > 2:
                l = strip_casts(n.kids[1])
                if l is not None and l.k in CALLS and l.n == "tie":
                    for a in l.kids[1:]:
                        yield n, root(a), n.kids[2]
                else:
                    yield n, root(n.kids[1]), n.kids[2]

    def watched(self):
        W = set()
        self.conds = []
        for b, c in self.live_atoms():
            W |= reads(c)
            if c.k in CALLS:
                self.conds.append(c)
        defs = {}
        for n, k, rhs in self.assigns():
            if k is not None:
                defs.setdefault(k, []).append(rhs)
        self.defs = defs
        work = list(W)
        while work:
            k = work.pop()
            for rhs in defs.get(k, ()):
                for r in reads(rhs):
                    if r not in W:
                        W.add(r)
                        work.append(r)
        return W

    def cyclic(self, k, rhs):
        """the new value of k is computed from its old one"""
        seen, work = set(), list(reads(rhs))
        while work:
            r = work.pop()
            if r == k:
                return True
            if r in seen:
                continue
            seen.add(r)
            for e in self.defs.get(r, ()):
                work.extend(reads(e))
        return False


def loops(P, fn):
    cfg = fn.cfg
    dom = cfg.dominators()
    heads = {}
    for b in dom:
        for s in cfg.succ[b]:
            if s in dom.get(b, ()):
                body = heads.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(cfg.pred[x])
    return [Loop(P, fn, h, b) for h, b in sorted(heads.items())]


def retvals(P, fn, args, ev, depth=0):
    """finite set of integer values a call may return, or None"""
    if fn is None or fn.root is None or depth > 4 or fn.ret not in ("int", "bool", "unsigned int", "long"):
        return {0, 1} if fn is not None and fn.ret == "bool" else None
    if fn.ret == "bool":
        return {0, 1}
    out = set()
    for n in fn.nodes():
        if n.k == "ReturnStmt" and not any(a.k == "LambdaExpr" for a in n.up()):
            v = vals(P, fn, n.kids[0] if n.kids else None, args, ev, depth)
            if v is None:
                return None
            out |= v
    return out or None


def vals(P, fn, e, args, ev, depth):
    s = e
    while s is not None:
        if s.type.replace("const ", "").strip(" &") == "bool":
            return {0, 1}
        if s.k.endswith("CastExpr") or s.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            s = s.kids[0]
            continue
        break
    if s is None:
        return None
    if s.k == "UnaryOperator" and s.op == "-":
        v = vals(P, fn, s.kids[0], args, ev, depth)
        return None if v is None else {-x for x in v}
    if s.k == "IntegerLiteral":
        return {int(s.v)}
    if s.k == "ConditionalOperator":
        a, b = vals(P, fn, s.kids[1], args, ev, depth), vals(P, fn, s.kids[2], args, ev, depth)
        return a | b if a is not None and b is not None else None
    if s.k == "DeclRefExpr" and s.dk == "ParmVar" and args is not None:
        for i, p in enumerate(fn.params):
            if p["d"] == s.d and i < len(args):
                return args[i]
        return None
    if s.k == "DeclRefExpr" and s.dk == "Var":
        out = set()
        for n in fn.nodes():
            r = None
            if n.k == "Var" and n.d == s.d:
                r = n.kids[0] if n.kids else None
                if r is None:
                    continue
            elif n.k == "BinaryOperator" and n.op == "=" and path(n.kids[0]) == ("v", s.d):
                r = n.kids[1]
            elif n.k in ("CompoundAssignOperator", "UnaryOperator") and n.kids and path(n.kids[0]) == ("v", s.d) and n.op != "-":
                return None
            else:
                continue
            v = vals(P, fn, r, args, ev, depth + 1) if depth < 5 else None
            if v is None:
                return None
            out |= v
        return out or None
    if s.k in CALLS:
        ts = [t for t in P.targets(s)]
        a = [vals(P, fn, x, args, ev, depth + 1) if x is not None else None for x in s.kids[1:]] if depth < 5 else []
        out = set()
        for t in ts:
            v = retvals(P, t, a, ev, depth + 1)
            if v is None:
                return None
            out |= v
        return out or None
    return None


class Round(AI):
    """ts: (where, pushed) with where in 'out', 'no' (nothing changed yet this round), 'reset', 'yes'"""

    def __init__(self, P, fn, L, mods):
        AI.__init__(self, P, fn, mods)
        self.L = L
        self.W = L.watched()
        self.only = set(self.W)
        for b in L.body:
            blk = fn.cfg.blocks[b]
            if blk.get("tk") == "SwitchStmt" and "tc" in blk and fn.index.get(blk["tc"]) is not None:
                p = path(fn.index[blk["tc"]])
                if p is not None:
                    self.only.add(p)
        self.why = None
        self.stalled = set()
        self.trivial = {}

    def enter(self, b, ts, env):
        if b not in self.L.body:
            return "out"
        if b == self.L.head:
            if ts == "no" and not self.exits_now(env):
                self.stalled.add("a round changes nothing its exit condition depends on")
            if ts == "reset" and not self.exits_now(env) and not self.improved(env):
                self.stalled.add("a round only resets the bound, without anything having improved")
            return "no"
        return ts

    def exits_now(self, env):
        for b, c in self.L.live_atoms():
            p = path(c)
            if p is None and c.k == "UnaryOperator" and c.op in ("--", "!"):
                continue
            if p is not None and env.get(p) == 0:
                return True
        return False

    def improved(self, env):
        return any(k[0] == "v" and isinstance(v, int) and v > 0 and k not in self.W or
                   k[0] == "v" and isinstance(v, int) and v > 0 and k in self.L.defs and any(
                       x.k in CALLS for r in self.L.defs[k] for x in r.walk())
                   for k, v in env.items())

    def changed(self, n):
        """'yes', 'reset' or None: how node n changes a watched object"""
        W = self.W
        if n.k == "UnaryOperator" and n.op in ("++", "--"):
            return "yes" if root(n.kids[0]) in W else None
        if n.k == "CompoundAssignOperator":
            if root(n.kids[0]) not in W:
                return None
            if n.op in ("+=", "-=") and not nonzero(n.kids[1]):
                return None
            return "yes"
        if n.k == "CXXOperatorCallExpr" and n.op in ("++", "--", "+=", "-=", "|=", "&=", "^=", "<<=", ">>="):
            return "yes" if root(n.kids[1]) in W else None
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            l, r = (n.kids[0], n.kids[1]) if n.k == "BinaryOperator" else (n.kids[1], n.kids[2])
            k = root(l)
            if k in W:
                if strip_casts(l).k not in ("DeclRefExpr", "MemberExpr"):
                    return "yes"             # an element of a watched container
                return "yes" if self.L.cyclic(k, r) else "reset"
            return None
        if n.k == "DeclStmt":
            return None
        if n.k in CALLS:
            o = callee_object(n)
            ts = self.P.targets(n)
            if o is not None:
                k = root(o)
                const = ts and all(t.j.get("const") for t in ts)
                if k is not None and k in W and not const:
                    if n.n in OBSERVERS:
                        return None
                    if n.n in MUTATORS or any(self.mods.of(t.id) for t in ts):
                        return "yes"
                    if not any(t.defined and t.root is not None for t in ts) and n.n not in OBSERVERS:
                        return "yes"
            # a callee that writes a watched field
            fs = {field_of(k) for k in W if k[0] == "f"}
            for t in ts:
                if t.defined and fs & self.mods.of(t.id):
                    return "yes"
            # handed over by reference
            args = n.kids[1:]
            if ts and ts[0].params:
                f = ts[0]
                off = 1 if n.k == "CXXOperatorCallExpr" and f.kind == "method" else 0
                for a, i in zip(args[off:], range(len(f.params))):
                    t = f.ptype(i)
                    if t.endswith("&") and not t.startswith("const ") and a is not None and root(a) in W:
                        return "yes"
            for a in args:
                a = strip_casts(a) if a is not None else None
                if a is not None and a.k == "LambdaExpr":
                    for c in a.j.get("caps", ()):
                        if c.get("by") == "ref" and ("v", c.get("d")) in W:
                            return "yes"
        return None

    def step(self, ts, env, n):
        if ts != "out" and n.i in self.L.nodes:
            c = self.changed(n)
            if c == "yes" or c == "reset" and ts == "no":
                ts = c
        if n.k in CALLS:
            v = vals(self.P, self.fn, n, None, None, 0)
            if v is not None and len(v) <= 6 and n.type != "bool":
                return [(ts, self.put(env, ("n", n.i), x)) for x in sorted(v)]
        return ((ts, env),)

    def assign(self, env, n, ts):
        if n.k in CALLS:
            m = env.get(("n", n.i))
            env = AI.assign(self, env, n, ts)
            return env if m is None else self.put(env, ("n", n.i), m)
        return AI.assign(self, env, n, ts)


def nonzero(n):
    """a step that is certainly not zero: literals, and sums of a positive literal with comparisons"""
    n = strip_casts(n)
    if n is None:
        return False
    if n.k == "IntegerLiteral":
        return int(n.v) != 0
    if n.k in ("FloatingLiteral",):
        return True
    if n.k == "BinaryOperator" and n.op == "+":
        return nonzero(n.kids[0]) or nonzero(n.kids[1])
    if n.k == "ConditionalOperator":
        return nonzero(n.kids[1]) and nonzero(n.kids[2])
    if n.k == "UnaryOperator" and n.op in ("-", "+"):
        return nonzero(n.kids[0])
    return False


def zero(n):
    n = strip_casts(n)
    return n is not None and n.k == "IntegerLiteral" and int(n.v) == 0


def advances(P, mods, call):
    """a call used as a loop condition changes state on every way of returning true"""
    for t in P.targets(call):
        if not t.defined or t.root is None:
            return None
        if t.j.get("const"):
            return None
        a = Changes(P, t, mods)
        a.run(False)
        for ts, env, rn in a.exits:
            v = a.truth(a.value(rn.kids[0], ts, env)) if rn is not None and rn.kids else None
            if v is not False and not ts:
                return "%s can return true without changing anything" % t.n
    return ""


class Changes(AI):
    def step(self, ts, env, n):
        if n.k in ("UnaryOperator",) and n.op in ("++", "--") or n.k == "CompoundAssignOperator" or n.k == "BinaryOperator" and n.op == "=":
            k = root(n.kids[0])
            if k is not None and (k[0] == "f"):
                if n.k != "CompoundAssignOperator" or n.op not in ("+=", "-=") or nonzero(n.kids[1]):
                    return ((True, env),)
        if n.k == "CXXOperatorCallExpr" and n.op == "=":
            k = root(n.kids[1])
            if k is None or k[0] == "f":
                return ((True, env),)
        if n.k in CALLS:
            o = callee_object(n)
            k = root(o) if o is not None else None
            if k is not None and k[0] == "f" and n.n in MUTATORS:
                return ((True, env),)
            if k is not None and k[0] == "this":
                if any(self.mods.of(t.id) for t in self.P.targets(n)):
                    return ((True, env),)
        return ((ts, env),)


def direction(L):
    """a counter moves away from its bound"""
    bad = []
    for b, c in L.live_atoms():
        c = strip_casts(c)
        if c.k != "BinaryOperator" or c.op not in ("<", "<=", ">", ">="):
            continue
        cfg = L.fn.cfg
        blk = cfg.blocks[b]
        raw = blk["s"]
        if len(raw) != 2 or raw[0] is None or raw[1] is None:
            continue
        stay_true = raw[0] in L.body
        if (raw[0] in L.body) == (raw[1] in L.body):
            continue
        up_side = 0 if (c.op in ("<", "<=")) == stay_true else 1    # operand that has to grow for the loop to end
        for side in (0, 1):
            e = strip_casts(c.kids[side])
            while e is not None and e.k == "UnaryOperator" and e.op in ("++", "--"):
                e = strip_casts(e.kids[0])
            k = path(e) if e is not None else None
            if k is None:
                continue
            ups = downs = other = 0
            for i in L.nodes:
                n = L.fn.index[i]
                if n.k == "UnaryOperator" and n.op in ("++", "--") and path(n.kids[0]) == k:
                    ups, downs = ups + (n.op == "++"), downs + (n.op == "--")
                elif n.k == "CompoundAssignOperator" and path(n.kids[0]) == k:
                    if n.op == "+=":
                        ups += 1
                    elif n.op == "-=":
                        downs += 1
                    else:
                        other += 1
                elif n.k == "BinaryOperator" and n.op == "=" and path(n.kids[0]) == k:
                    other += 1
            if other:
                continue
            if side == up_side and downs and not ups or side != up_side and ups and not downs:
                bad.append("%s moves away from the bound it is compared with" % e.text())
    for b, c in L.live_atoms():
        # an exit that needs the counter to hit one exact value
        c = strip_casts(c)
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            c = strip_casts(c.kids[0])
        if c is None:
            continue
        cand = [c] if c.k in ("DeclRefExpr", "MemberExpr") else [strip_casts(x) for x in c.kids] if \
            c.k == "BinaryOperator" and c.op in ("!=", "==") else []
        for e in cand:
            k = path(e) if e is not None else None
            if k is None or "*" in e.type:
                continue
            for i in L.nodes:
                n = L.fn.index[i]
                if n.k == "CompoundAssignOperator" and n.op in ("+=", "-=") and path(n.kids[0]) == k and not unit(n.kids[1]):
                    bad.append("%s can step over the value the exit waits for" % e.text())
    return bad


def unit(n):
    n = strip_casts(n)
    if n is None:
        return False
    if n.type == "bool":
        return True
    return n.k == "IntegerLiteral" and int(n.v) == 1


class Push(AI):
    """ts: per round: frozenset of objects tested by branches since the start, plus objects changed"""

    def __init__(self, P, fn, L, cont, mods):
        AI.__init__(self, P, fn, mods)
        self.L, self.cont = L, cont
        self.only = set()
        self.bad = set()
        self.pushes = 0

    def enter(self, b, ts, env):
        if b not in self.L.body:
            return "out"
        if b == self.L.head:
            if isinstance(ts, tuple):
                for g in ts[2]:
                    if not (g & ts[1]):
                        self.bad.add("an entry is added under a test whose answer the round does not change")
            return (frozenset(), frozenset(), frozenset())
        return ts

    def branch(self, ts, env, cond, truth):
        if isinstance(ts, tuple):
            t = set(ts[0])
            for x in cond.walk():
                if x.k in ("CXXOperatorCallExpr", "ArraySubscriptExpr") and (x.k == "ArraySubscriptExpr" or x.op == "[]"):
                    r = root(x)
                    if r is not None:
                        t.add(r)
                elif x.k == "CXXMemberCallExpr":
                    o = callee_object(x)
                    r = root(o) if o is not None else None
                    if r is not None and r != self.cont:
                        t.add(r)
            ts = (frozenset(t), ts[1], ts[2])
        return ((ts, env),)

    def step(self, ts, env, n):
        if isinstance(ts, tuple) and n.i in self.L.nodes:
            k = None
            if n.k in ("BinaryOperator",) and n.op == "=" or n.k == "CompoundAssignOperator":
                k = root(n.kids[0]) if not zero(n.kids[1]) else None
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                k = root(n.kids[0])
            elif n.k == "CXXOperatorCallExpr" and n.op == "=":
                k = root(n.kids[1])
            elif n.k == "CXXMemberCallExpr":
                o = callee_object(n)
                r = root(o) if o is not None else None
                if r is not None and not all(t.j.get("const") for t in self.P.targets(n)):
                    if r == self.cont:
                        if n.n in PUSHES:
                            self.pushes += 1
                            return (((ts[0], ts[1], ts[2] | {ts[0]}), env),)
                    else:
                        k = r
            if k is not None:
                return (((ts[0], ts[1] | {k}, ts[2]), env),)
        return ((ts, env),)


def worklist(L):
    """container whose exhaustion ends the loop"""
    for b, c in L.live_atoms():
        c = strip_casts(c)
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            c = strip_casts(c.kids[0])
        cand = [c]
        if c is not None and c.k == "BinaryOperator" and c.op in ("<", ">", "!=", ">="):
            # index < work.size(): only when the index is the loop's own counter
            cand = [strip_casts(c.kids[0]), strip_casts(c.kids[1])]
        for x in cand:
            if x is not None and x.k == "CXXMemberCallExpr" and x.n in ("empty", "size"):
                o = callee_object(x)
                k = root(o) if o is not None else None
                if k is not None:
                    yield k


def make():
    chk = Check("C18", "loop-progress dataflow over natural loops of the control-flow graphs",
                "For every loop of the native code (C++ core, busclique and Python while loops of the wrappers) every path "
                "round is checked to change an object its exit conditions depend on, counters to move towards their bounds, "
                "and worklists to take an entry only under a test the round itself settles.",
                ["a pointer or parent walk that advances every round is accepted: acyclicity of the linked data is not shown",
                 "loops of external library functions are not analysed"])
    chk.rule("progress", "every path round a loop changes something the loop's exit conditions are computed from")
    chk.rule("exit", "every loop has an exit condition that can become false")
    chk.rule("direction", "a counter compared with a bound moves towards it")
    chk.rule("worklist", "an entry is only added to a worklist under a test that the same round settles")
    chk.rule("range-stable", "the body of a range-for neither grows nor shrinks the container it walks")
    chk.rule("condition-advances", "a state-changing call used as loop condition changes state whenever it returns true")
    merged = {}

    def ob(rule, construct, ok, at, why):
        o = merged.get((rule, construct))
        if o is None or o[0] and not ok:
            merged[(rule, construct)] = (ok, at, "" if ok else why)

    nloops = 0
    for unit in ("_minorminer", "busclique"):
        P = program(unit)
        mods = Mods(P)
        for f in P.lib():
            if f.root is None or not f.j.get("cfg"):
                continue
            for i, L in enumerate(loops(P, f)):
                nloops += 1
                if L.range_for:
                    range_stable(P, f, L, ob)
                    continue
                at = first_at(f, L)
                what = "%s loop %d" % (cname(f), i + 1)
                if not L.live_atoms():
                    ob("exit", what, False, at, "no exit condition can become false")
                    continue
                ob("exit", what, True, at, "")
                r = Round(P, f, L, mods)
                r.run("out")
                chk.count("loop path states", r.visits)
                conds = [x for x in L.conds if any(t.defined and t.root is not None and not t.j.get("const") and mods.of(t.id)
                                                   for t in P.targets(x))]
                adv = None
                for x in conds:
                    a = advances(P, mods, x)
                    if a is not None:
                        ob("condition-advances", "%s: %s" % (what, x.text()), a == "", x.at(), a)
                        adv = a
                ob("progress", what, adv == "" or not r.stalled, at, "; ".join(sorted(r.stalled)))
                d = direction(L)
                ob("direction", what, not d, at, "; ".join(d))
                for k in set(worklist(L)):
                    p = Push(P, f, L, k, mods)
                    p.run("out")
                    if p.pushes:
                        ob("worklist", what, not p.bad, at, "; ".join(sorted(p.bad)))
    for (rule, c), (ok, at, why) in sorted(merged.items()):
        chk.ob(rule, c, ok, at, why)
    chk.count("loops", nloops)
    chk.need("progress", 15)
    chk.need("worklist", 3)
    return chk


def first_at(f, L):
    best = None
    for i in L.nodes:
        n = f.index[i]
        if n.line and (best is None or n.line < best.line):
            best = n
    return best.at() if best is not None else f.at()


def range_stable(P, f, L, ob):
    st = None
    blk = f.cfg.blocks[L.head]
    for n in f.nodes():
        if n.k == "CXXForRangeStmt" and n.i == blk.get("ti"):
            st = n
    if st is None:
        return
    # the walked container: initialiser of __range
    key = None
    for v in st.walk():
        if v.k == "Var" and (v.n or "").startswith("__range") and v.kids:
            key = root(v.kids[0])
            break
    if key is None:
        return
    bad = None
    for i in L.nodes:
        n = f.index[i]
        if n.k == "CXXMemberCallExpr" and n.n in (PUSHES | POPS | {"swap", "assign"}):
            o = callee_object(n)
            if o is not None and strip_casts(o) is not None and path(o) == key:
                # leaving the loop right after is fine
                bad = n
    ob("range-stable", "%s: %s" % (cname(f), P_text(key)), bad is None, (bad or st).at(),
       "%s changes the container the loop walks" % (bad.text() if bad else ""))


def P_text(k):
    return k[2] if k[0] == "f" else k[0]


if __name__ == "__main__":
    main(make)
