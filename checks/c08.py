"""C08: timeout and interrupt are honoured throughout a search."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS, LOOPS
from cname import cname
from flow import AI, Mods, path, strip_casts, field_of

CANCEL = "find_embedding::LocalInteraction::cancelled"


def emb_param(f):
    return [i for i, p in enumerate(f.params) if "find_embedding::embedding<" in f.ptype(i)
            and f.ptype(i).rstrip().endswith("&") and not f.ptype(i).startswith("const")]


class Rules(object):
    def __init__(self, P):
        self.P = P
        self.mods = Mods(P)
        self._stop = {}
        self._search = {}

    def reaches(self, f, pred, cache):
        if f.id in cache:
            return cache[f.id]
        cache[f.id] = False
        r = any(pred(self.P.func(g)) for g in self.P.reachable([f]) if self.P.func(g))
        cache[f.id] = r
        return r

    def stops(self, f):
        """f tests for a stop"""
        return self.reaches(f, lambda g: g.p == CANCEL, self._stop)

    def searches(self, f):
        """f replaces chains"""
        return self.reaches(f, lambda g: g.n == "set_root" and "::chain" in g.p, self._search)


class Pass(AI):
    """ts: 'n' nothing searched since the last stop check; 's' searched; 'c' checked, go on; 'x' checked, stop requested"""

    def __init__(self, R, fn, codes):
        AI.__init__(self, R.P, fn, R.mods, {"embedded"})
        self.R, self.codes = R, codes

    def step(self, ts, env, n):
        if n.k in CALLS:
            t = self.P.targets(n)
            checker = [x for x in t if x.id in self.codes]
            if checker:
                out = []
                for kind, v in self.codes[checker[0].id]:
                    if v == "arg":
                        v = self.value(n.kids[1], ts, env) if len(n.kids) > 1 else None
                    out.append(("x" if kind == "stop" else "c", self.put(env, ("n", n.i), v)))
                return out
            if any(self.R.searches(x) and not self.R.stops(x) for x in t if x.defined):
                return ((ts if ts == "x" else "s", env),)
        return ((ts, env),)

    def assign(self, env, n, ts):
        if n.k in CALLS:
            m = env.get(("n", n.i))
            env = AI.assign(self, env, n, ts)
            return env if m is None else self.put(env, ("n", n.i), m)
        return AI.assign(self, env, n, ts)


class Driver(AI):
    """ts: (stopped?, improved-checked?) ; passes return -2 when a stop was requested"""

    def __init__(self, R, fn, passes, note):
        AI.__init__(self, R.P, fn, R.mods, {"embedded"})
        self.R, self.passes, self.note = R, passes, note

    def step(self, ts, env, n):
        stopped, checked, dl = ts
        if n.k in CALLS:
            t = [x for x in self.P.targets(n) if x.id in self.passes]
            if t:
                self.note("stop-ends-search", self.fn, n, not stopped, "a further pass runs although the previous one reported a stop")
                self.note("deadline-own", self.fn, n, dl, "the deadline of this call may not have been set yet")
                out = [((stopped, checked, dl), self.put(env, ("n", n.i), v)) for v in self.passes[t[0].id]["go"]]
                out.append(((True, checked, dl), self.put(env, ("n", n.i), -2)))
                return out
            if any(x.n == "check_improvement" for x in self.P.targets(n)):
                return (((stopped, True, dl), env),)
            if n.k == "CXXOperatorCallExpr" and n.op == "=":
                l = strip_casts(n.kids[1])
                if l is not None and l.k == "MemberExpr" and l.n == "stoptime":
                    return (((stopped, checked, True), env),)
                if l is not None and l.k == "MemberExpr" and l.n == "bestEmbedding":
                    self.note("best-kept", self.fn, n, not checked, "the best embedding found so far is overwritten")
            elif any(self.R.searches(x) and not x.id in self.passes and x.defined and x.n == "find_chain" for x in self.P.targets(n)):
                pass
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip_casts(n.kids[0])
            if l is not None and l.k == "MemberExpr" and l.n == "stoptime":
                return (((stopped, checked, True), env),)
        return ((ts, env),)

    assign = Pass.assign


def depends(fn, n, seen=None):
    """nodes an expression's value is computed from, through local variables"""
    seen = set() if seen is None else seen
    for x in n.walk():
        yield x
        if x.k == "DeclRefExpr" and x.dk == "Var" and x.d not in seen:
            seen.add(x.d)
            for y in fn.nodes():
                if y.k == "Var" and y.d == x.d:
                    for z in y.kids:
                        if z is not None:
                            for w in depends(fn, z, seen):
                                yield w
                if y.k == "BinaryOperator" and y.op == "=" or y.k == "CXXOperatorCallExpr" and y.op == "=":
                    l = strip_casts(y.kids[0] if y.k == "BinaryOperator" else y.kids[1])
                    if l is not None and l.k == "DeclRefExpr" and l.d == x.d:
                        for w in depends(fn, y.kids[-1], seen):
                            yield w


def make():
    chk = Check("C08", "path-sensitive typestate of stop checks over the search's control-flow graphs",
                "Every chain-replacing pass is checked on every path to test for a stop after its last search and to report "
                "the stop to its caller; the driver runs no further pass once a stop was reported; the stop test consults "
                "both the interrupt source and the clock; the deadline of a call is computed from its own start and timeout "
                "before the first pass; the best embedding is only replaced by a better one.",
                ["branch feasibility is decided from constants and zero/non-zero facts only"])
    chk.rule("pass-checks-stop", "every way out of a pass other than failure passes through a stop check after its last search")
    chk.rule("stop-reported", "a pass that found a stop requested reports it to its caller")
    chk.rule("stop-ends-search", "after a pass reports a stop, no further pass runs in this call")
    chk.rule("every-pass-checked", "every loop that replaces chains in the heuristic belongs to a pass that tests for stops")
    chk.rule("stop-test-complete", "the stop test consults the interrupt source and the clock on every path and signals both")
    chk.rule("stop-handled", "the heuristic turns a timeout into a stop, and an interrupt into a stop only in interactive mode")
    chk.rule("signal-source", "every interaction class reports pending keyboard interrupts")
    chk.rule("deadline-own", "the deadline is set from the current time and this call's timeout before any pass runs")
    chk.rule("best-kept", "the best embedding found so far is only replaced by an improvement")
    P = program("_minorminer")
    R = Rules(P)
    path_lib = [f for f in P.lib() if "::pathfinder_" in f.p and f.root is not None]

    # -- the stop test itself
    canc = [f for f in P.lib() if f.p == CANCEL]
    if not canc:
        raise AnalysisBroken("LocalInteraction::cancelled not found")
    for f in canc:
        stop_test(chk, P, f)
    impls = [f for f in P.funcs.values() if f.n == "cancelledImpl" and f.root is not None]
    for f in impls:
        # the value returned depends on PyErr_CheckSignals
        rets = [n for n in f.nodes() if n.k == "ReturnStmt"]
        ok = bool(rets)
        for r in rets:
            dep = any(x.k in CALLS and (x.n == "PyErr_CheckSignals" or any(
                P.func(g) is not None and P.func(g).n == "PyErr_CheckSignals" for t in P.targets(x) for g in P.reachable([t])))
                for x in depends(f, r))
            ok = ok and dep
        # exits only after the call
        calls = [n for n in f.nodes() if n.k in CALLS and n.n == "PyErr_CheckSignals"]
        chk.ob("signal-source", cname(f), ok, f.at(), "" if ok else "a return value does not depend on PyErr_CheckSignals()")
    chk.need("signal-source", 2)

    # -- checkers: functions that catch the stop exceptions
    codes = {}
    for f in path_lib:
        catches = [n for n in f.nodes() if n.k == "CXXCatchStmt"]
        direct = [n for n, ts in P.calls(f) if any(t.p == CANCEL for t in ts)]
        if not direct or not catches:
            continue
        out = set()
        inter_ok = to_ok = False
        for c in catches:
            rets = [x for x in c.walk() if x.k == "ReturnStmt"]
            throws = [x for x in c.walk() if x.k == "CXXThrowExpr"]
            et = c.etype
            for r in rets:
                v = lit(r.kids[0]) if r.kids else None
                out.add(("stop", v))
                if "TimeoutException" in et:
                    to_ok = v == -2 and not throws
                if "ProblemCancelled" in et:
                    # only under params.interactive
                    g = [a for a in r.up() if a.k in ("IfStmt", "ConditionalOperator")]
                    inter_ok = v == -2 and bool(g) and any(
                        x.k == "MemberExpr" and x.n == "interactive" for x in g[0].kids[1].walk()) and bool(throws)
        chk.ob("stop-handled", cname(f) + ": timeout", to_ok, f.at(), "a timeout does not make it return the stop code")
        chk.ob("stop-handled", cname(f) + ": interrupt", inter_ok, f.at(),
               "an interrupt is not turned into a stop exactly in interactive mode")
        # normal exit value
        r = [x for x in f.nodes() if x.k == "ReturnStmt" and not any(a.k == "CXXCatchStmt" for a in x.up())]
        for x in r:
            v = strip_casts(x.kids[0]) if x.kids else None
            if v is not None and v.k == "DeclRefExpr" and f.params and v.d == f.params[0]["d"]:
                out.add(("go", "arg"))
            else:
                out.add(("go", lit(v)))
        codes[f.id] = out
    chk.need("stop-handled", 2)
    if not codes:
        raise AnalysisBroken("no function handles the stop exceptions")

    # -- passes
    passes = {}
    for f in path_lib:
        e = emb_param(f)
        ints = [i for i in range(len(f.params)) if f.ptype(i).replace("const ", "").replace("&", "").strip() == "int"]
        if len(e) == 1 and not ints and R.searches(f) and f.ret == "int":
            a = Pass(R, f, codes).run("n")
            go = set()
            bad = bad2 = None
            for ts, env, rn in a.exits:
                v = a.value(rn.kids[0], ts, env) if rn is not None and rn.kids else None
                if ts == "x":
                    if v != -2:
                        bad2 = rn
                elif ts in ("s", "n"):
                    if v != -1:
                        bad = rn
                    go.add(v)
                else:
                    go.add(v)
            chk.ob("pass-checks-stop", cname(f), bad is None, bad.at() if bad else f.at(),
                   "returns (%s) without a stop check after the last search" % (bad.text() if bad else "") if bad else "%d exit states" % len(a.exits))
            chk.ob("stop-reported", cname(f), bad2 is None, bad2.at() if bad2 else f.at(),
                   "a requested stop is not reported" if bad2 else "")
            passes[f.id] = {"go": go - {-2} or {None}}
            chk.count("pass states", a.visits)
    chk.need("pass-checks-stop", 4)

    # -- drivers
    notes = {}

    def note(rule, fn, n, ok, why):
        k = (rule, "%s: %s" % (cname(fn), n.text()))
        o = notes.get(k)
        if o is None or o[0] and not ok:
            notes[k] = (ok, n.at(), why if not ok else "")
    drivers = [f for f in path_lib if f.id not in passes and any(t.id in passes for n, ts in P.calls(f) for t in ts)]
    if not drivers:
        raise AnalysisBroken("nothing calls the search passes")
    for f in drivers:
        d = Driver(R, f, passes, note).run((False, False, False if f.n == "heuristicEmbedding" else True))
        chk.count("driver states", d.visits)
        for n in f.nodes():
            tgt = None
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
                tgt = strip_casts(n.kids[0] if n.k == "BinaryOperator" else n.kids[1])
            if tgt is not None and tgt.k == "MemberExpr" and tgt.n == "stoptime":
                deps = list(depends(f, n.kids[-1]))
                now = any(x.k in CALLS and x.n == "now" for x in deps)
                to = any(x.k == "MemberExpr" and x.n == "timeout" for x in deps)
                add = any(x.k == "CXXOperatorCallExpr" and x.op == "+" for x in deps)
                sub = any(x.k == "CXXOperatorCallExpr" and x.op in ("-", "*", "/") for x in deps)
                chk.ob("deadline-own", cname(f) + ": stoptime", now and to and add and not sub, n.at(),
                       "the deadline is not the current time plus the timeout")
    for (rule, c), (ok, at, why) in sorted(notes.items()):
        chk.ob(rule, c, ok, at, why)
    chk.need("stop-ends-search", 4)
    # every function the heuristic driver runs that replaces chains in a loop is a pass
    for f in path_lib:
        if f.n != "heuristicEmbedding":
            continue
        for n, ts in P.calls(f):
            for t in ts:
                if t.defined and t.root is not None and "::pathfinder_" in t.p and R.searches(t):
                    chk.ob("every-pass-checked", "%s calls %s" % (cname(f), cname(t)), t.id in passes or R.stops(t) and t in drivers, n.at(),
                           "replaces chains without testing for stops")
    chk.need("every-pass-checked", 4)

    # -- improvements only
    for f in path_lib:
        if f.n == "check_improvement":
            improvement(chk, R, f)
    writers = {}
    for f in path_lib:
        for n in f.nodes():
            if n.k == "CXXOperatorCallExpr" and n.op == "=":
                l = strip_casts(n.kids[1])
                if l is not None and l.k == "MemberExpr" and l.n == "bestEmbedding":
                    writers.setdefault(cname(f), n)
    chk.count("functions assigning the best embedding", len(writers))
    reach = set()
    for f in path_lib:
        if f.n == "heuristicEmbedding":
            reach |= set(P.reachable([f]))
    for f in path_lib:
        if f.id in reach and f.n not in ("check_improvement",) and f not in drivers:
            w = [n for n in f.nodes() if n.k == "CXXOperatorCallExpr" and n.op == "=" and strip_casts(n.kids[1]) is not None
                 and strip_casts(n.kids[1]).k == "MemberExpr" and strip_casts(n.kids[1]).n == "bestEmbedding"]
            chk.ob("best-kept", cname(f), not w, w[0].at() if w else f.at(), "overwrites the best embedding during the search")
    return chk


def lit(n):
    n = strip_casts(n)
    if n is None:
        return None
    if n.k == "UnaryOperator" and n.op == "-":
        v = lit(n.kids[0])
        return -v if v is not None else None
    if n.k == "IntegerLiteral":
        return int(n.v)
    return None


class Test(AI):
    """ts: set of sources consulted; exits by return must have both found negative"""

    def step(self, ts, env, n):
        if n.k in CALLS:
            for t in self.P.targets(n):
                nm = t.n
                src = None
                if nm == "cancelledImpl":
                    src = "interrupt"
                elif nm in ("timedOutImpl",) or nm == "now":
                    src = "clock"
                if src:
                    return ((ts | {(src, 1)}, self.put(env, ("n", n.i), 1)), (ts | {(src, 0)}, self.put(env, ("n", n.i), 0))) \
                        if nm != "now" else ((ts | {("clock", 0)}, env),)
        return ((ts, env),)

    assign = Pass.assign

    def thrown(self, ts, env, n):
        self.out.append((ts, n.etype))


def stop_test(chk, P, f):
    a = Test(P, f)
    a.out = []
    a.run(frozenset())
    bad = []
    for ts, env, rn in a.exits:
        d = {}
        for s, v in ts:
            d[s] = max(v, d.get(s, 0))
        if "interrupt" not in d:
            bad.append("a path returns without asking for an interrupt")
        elif d["interrupt"]:
            bad.append("a pending interrupt is not signalled")
        if "clock" not in d:
            bad.append("a path returns without consulting the clock")
        elif d["clock"]:
            bad.append("a passed deadline is not signalled")
    for ts, et in a.out:
        pos = {s for s, v in ts if v}
        if "Cancelled" in et and "interrupt" not in pos or "Timeout" in et and "clock" not in pos:
            bad.append("%s is raised without its cause" % et)
    chk.ob("stop-test-complete", cname(f), not bad, f.at(), "; ".join(sorted(set(bad))))
    # the deadline comparison
    tests = [g for g in P.funcs.values() if g.n == "timedOutImpl" and g.root is not None]
    for g in tests:
        rets = [n for n in g.nodes() if n.k == "ReturnStmt"]
        ok = len(rets) > 0
        for r in rets:
            e = strip_casts(r.kids[0])
            l = rr = None
            if e is not None and e.k in ("CXXOperatorCallExpr",) and e.op in (">=", ">", "<=", "<"):
                l, rr, op = e.kids[1], e.kids[2], e.op
            else:
                ok = False
                continue
            nl = any(x.k in CALLS and x.n == "now" for x in depends(g, l))
            nr = any(x.k in CALLS and x.n == "now" for x in depends(g, rr))
            pl = any(x.k == "DeclRefExpr" and x.dk == "ParmVar" for x in l.walk())
            pr = any(x.k == "DeclRefExpr" and x.dk == "ParmVar" for x in rr.walk())
            ok = ok and (nl and pr and op in (">=", ">") or nr and pl and op in ("<=", "<"))
        chk.ob("stop-test-complete", cname(g), ok, g.at(), "does not compare the current time with the deadline it was given")


class Improve(AI):
    def step(self, ts, env, n):
        if n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip_casts(n.kids[1])
            if l is not None and l.k == "MemberExpr" and l.n == "bestEmbedding":
                return (("w", env),)
        return ((ts, env),)


def improvement(chk, R, f):
    a = Improve(R.P, f, R.mods, {"embedded"})
    a.run("k")
    bad = None
    for ts, env, rn in a.exits:
        v = a.truth(a.value(rn.kids[0], ts, env)) if rn is not None and rn.kids else None
        if ts == "w" and v is not True:
            bad = "replaces the best embedding but does not report an improvement"
        if ts == "k" and v is not False:
            bad = "reports an improvement without recording it"
    chk.ob("best-kept", cname(f), bad is None, f.at(), bad or "%d exit states" % len(a.exits))
    # a non-embedding never replaces an embedding: the success flag only rises, and the comparison precedes the replacement
    for n in f.nodes():
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip_casts(n.kids[0])
            if l is not None and l.k == "MemberExpr" and l.n == "embedded":
                chk.ob("best-kept", cname(f) + ": success flag", lit(n.kids[1]) == 1, n.at(), "the success flag is lowered")
    w = Downgrade(R.P, f, R.mods, {"embedded"})
    w.hit = w.seen = False
    keys = {path(strip_casts(x)) for x in f.nodes() if x.k == "MemberExpr" and x.n == "embedded"} - {None}
    for flag in (0, 1):
        w.flag = flag
        w.run("-", {key: flag for key in keys})
    if not w.seen:
        raise AnalysisBroken("check_improvement does not assign the best embedding")
    chk.ob("best-kept", cname(f) + ": never downgraded", not w.hit, f.at(),
           "an overlapping embedding can replace an overlap-free one")


class Downgrade(AI):
    """run with a candidate that overlaps: is it kept although the flag says the best embedding does not?"""

    def call_value(self, n, ts, env):
        return 0 if n.n == "statistics" else None

    def step(self, ts, env, n):
        if n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip_casts(n.kids[1])
            if l is not None and l.k == "MemberExpr" and l.n == "bestEmbedding":
                self.seen = True
                self.hit = self.hit or self.flag == 1
        return ((ts, env),)


if __name__ == "__main__":
    main(make)
