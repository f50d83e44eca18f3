"""C03: the multithreaded search is race-free, its workers cover the data once and are joined."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import cpp
from conc import TaskAnalysis, Ctx, races, show, overlap
from cname import cname

SPAWN = ("std::async",)


def spawns(P):
    """(function, call node, callable node, [argument nodes])"""
    for f in P.funcs.values():
        if not f.file.startswith(("include/", "minorminer/")):
            continue
        for n in f.nodes():
            if n.k not in cpp.CALLS:
                continue
            q = n.j.get("q") or ""
            ts = P.targets(n)
            if ts:
                q = ts[0].q
            if q.startswith("std::async"):
                a = [k for k in n.kids[1:] if k is not None]
                deferred = False
                if a and "launch" in a[0].type:
                    a = a[1:]
                if a:
                    yield f, n, a[0], a[1:]
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and re.match(r"(std::)?j?thread\b", n.j.get("cls") or "") and n.kids:
                a = [k for k in n.kids if k is not None]
                if a and not re.search(r"\bj?thread\b", a[0].type.split("<")[0]):
                    yield f, n, a[0], a[1:]


def strip(n):
    while n is not None and (n.k.endswith("CastExpr") or n.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups")) and len(n.kids) == 1:
        n = n.kids[0]
    return n


def resolve_task(P, f, node, depth=0):
    """lambda nodes a callable expression may denote: [(LambdaExpr, function holding it)]"""
    node = strip(node)
    if node is None or depth > 4:
        return []
    if node.k == "LambdaExpr":
        return [(node, f)]
    if node.k == "CallExpr" and (node.j.get("q") or "").startswith(("std::ref", "std::cref", "std::move", "std::forward")):
        return resolve_task(P, f, node.kids[1], depth + 1)
    if node.k == "DeclRefExpr":
        d = node.j["d"]
        for i, p in enumerate(f.params):
            if p["d"] == d:
                out = []
                for g, c in P.callers().get(f.id, ()):
                    a = c.kids[1:] if c.k != "CXXConstructExpr" else c.kids
                    if i < len(a):
                        out += resolve_task(P, g, a[i], depth + 1)
                return out
        for n in f.nodes():
            if n.k == "Var" and n.j["d"] == d and n.kids:
                return resolve_task(P, f, n.kids[0], depth + 1)
    return []


# ---- partition of a range ----------------------------------------------------
def var_init(f, d):
    for n in f.nodes():
        if n.k == "Var" and n.j["d"] == d:
            return n
    return None


def assigned(f, d):
    out = []
    for n in f.nodes():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
            if n.kids[0].k == "DeclRefExpr" and n.kids[0].j["d"] == d:
                out.append(n)
        elif n.k == "UnaryOperator" and n.op in ("++", "--") and n.kids[0].k == "DeclRefExpr" and n.kids[0].j["d"] == d:
            out.append(n)
    return out


def norm(P, f, n, sub=None, depth=0):
    """normal form of an integer expression: constants folded through never-reassigned locals and pure helpers"""
    sub = sub or {}
    n = strip(n)
    if n is None or depth > 12:
        return "?"
    if n.k == "DeclRefExpr":
        d = n.j["d"]
        if d in sub:
            return sub[d]
        v = var_init(f, d)
        if v is not None and v.kids and v.kids[0] is not None and not assigned(f, d) and not any(
                x in cpp.LOOPS for x in [a.k for a in v.up()]):
            return norm(P, f, v.kids[0], sub, depth + 1)
        return n.n
    if n.k == "MemberExpr":
        return n.n
    if n.k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
        return str(n.v)
    if n.k == "BinaryOperator":
        a, b = norm(P, f, n.kids[0], sub, depth + 1), norm(P, f, n.kids[1], sub, depth + 1)
        if n.op == "+":
            ts = sorted(x for s in (a, b) for x in (s[1:-1].split(" + ") if s.startswith("(+") is False and s.startswith("{") else [s]))
            return "{" + " + ".join(ts) + "}"
        return "(%s %s %s)" % (a, n.op, b)
    if n.k == "UnaryOperator":
        return "(%s%s%s)" % ("post" if n.post else "", n.op, norm(P, f, n.kids[0], sub, depth + 1))
    if n.k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(norm(P, f, k, sub, depth + 1) for k in n.kids[:3])
    if n.k in ("CallExpr", "CXXMemberCallExpr"):
        ts = [t for t in P.targets(n) if t.defined]
        if ts:
            rets = [r for r in ts[0].nodes() if r.k == "ReturnStmt"]
            if len(rets) == 1 and rets[0].kids:
                s2 = {p["d"]: norm(P, f, a, sub, depth + 1) for p, a in zip(ts[0].params, n.kids[1:])}
                return norm(P, ts[0], rets[0].kids[0], s2, depth + 1)
        return (n.j.get("n") or "call") + "(" + ",".join(norm(P, f, a, sub, depth + 1) for a in n.kids[1:]) + ")"
    return "?" + n.k


def loop_of(n):
    for a in n.up():
        if a.k in cpp.LOOPS:
            return a
    return None


def partition(P, f, launch, lo, hi):
    """(verdict, detail) for the sub-ranges [lo, hi) of successive launches: True / False / None(unrecognised)"""
    lo, hi = strip(lo), strip(hi)
    loop = loop_of(launch)
    if loop is None:
        return None, "launch is not in a loop"
    if lo.k == "DeclRefExpr" and hi.k == "DeclRefExpr":
        ld, hd = lo.j["d"], hi.j["d"]
        li, hv = var_init(f, ld), var_init(f, hd)
        asg = assigned(f, ld)
        adv = [a for a in asg if a.k == "BinaryOperator" and a.op == "=" and strip(a.kids[1]).k == "DeclRefExpr" and strip(a.kids[1]).j["d"] == hd and a.within(loop)]
        if adv or any(a.within(loop) for a in asg):
            # cursor form: lo advances to hi
            if not adv:
                return False, "the next chunk does not start where this one ends"
            if [a for a in asg if a.within(loop) and a not in adv]:
                return False, "the start of the next chunk is changed besides being set to the end of this one"
            if not f.cfg.dominates(launch, adv[0]):
                return False, "the start is advanced before the chunk is launched"
            if li is None or not li.kids or norm(P, f, li.kids[0]) != "0":
                return False, "the first chunk does not start at 0"
            he = hv.kids[0] if hv is not None and hv.kids and not assigned(f, hd) else None
            if he is None:
                h = [a for a in assigned(f, hd) if a.within(loop) and a.k == "BinaryOperator" and a.op == "="]
                he = h[0].kids[1] if len(h) == 1 else None
            if he is None:
                return None, "end of a chunk not recognised"
            e = norm(P, f, he, {ld: "LO"})
            terms = e[1:-1].split(" + ") if e.startswith("{") else [e]
            if "LO" not in terms:
                return None, "end of a chunk is not its start plus a length"
            terms.remove("LO")
            divs = [t for t in terms if re.match(r"^\(.* / .*\)$", t)]
            if not divs:
                return None, "chunk length not recognised"
            m = re.match(r"^\((.*) / (.*)\)$", divs[0])
            N, T = m.group(1), m.group(2)
            rest = [t for t in terms if t != divs[0]]
            if not rest:
                return False, "the remainder of %s / %s is in no chunk" % (N, T)
            # remainder variable: R = N % T, decremented once per round
            mod = "(%s %% %s)" % (N, T)
            r = rest[0]
            names = {v.n: v for v in f.nodes() if v.k == "Var" and v.kids and v.kids[0] is not None and norm(P, f, v.kids[0]) == mod}
            okforms = set()
            for nm in list(names) + [mod]:
                okforms |= {"((post--%s) > 0)" % nm, "((post--%s) > 0 ? 1 : 0)" % nm, "(((post--%s) > 0) ? 1 : 0)" % nm,
                            "(%s > 0)" % nm, "((%s > 0) ? 1 : 0)" % nm, "((post--%s) >= 1)" % nm, "(0 < (post--%s))" % nm}
                for lv in f.nodes():
                    if lv.k == "Var" and lv.within(loop) and lv.parent and lv.parent.parent is loop:
                        okforms |= {"(%s < %s)" % (lv.n, nm), "((%s < %s) ? 1 : 0)" % (lv.n, nm), "(%s > %s)" % (nm, lv.n)}
            if r not in okforms:
                if any(nm in r for nm in names) or mod in r:
                    return False, "the remainder is spread with `%s`, which does not add up to %s" % (r, mod)
                return None, "remainder term `%s` not recognised" % r
            if r.startswith("(%s > 0" % (list(names) + ["\0"])[0]):
                v = names[list(names)[0]]
                dec = [a for a in assigned(f, v.j["d"]) if a.within(loop)]
                if not dec:
                    return False, "the remainder is never used up"
            # the loop runs T times
            cnt = loop_count(P, f, loop)
            if cnt is not None and cnt != T:
                return False, "%s chunks of size %s / %s are launched" % (cnt, N, T)
            return True, "chunks of %s over %s workers, remainder spread" % (N, T)
    # closed form: lo = F(i), hi = F(i + 1)
    lv = [v for v in f.nodes() if v.k == "Var" and v.parent and v.parent.parent is loop]
    for v in lv:
        d = v.j["d"]
        sl = norm(P, f, lo, {d: "I"})
        sl1 = norm(P, f, lo, {d: "{1 + I}"})
        sh = norm(P, f, hi, {d: "I"})
        if "I" in sl and sl1 == sh:
            return True, "closed form"
    return None, "unrecognised"


def loop_count(P, f, loop):
    """number of rounds of an ordinary counting loop, normalised, or None"""
    if loop.k == "CXXForRangeStmt":
        return "all"
    if loop.k != "ForStmt":
        return None
    init, cond, inc = loop.kids[0], loop.kids[1], loop.kids[2]
    v = None
    for x in (init.walk() if init is not None else ()):
        if x.k == "Var" and x.kids:
            v = x
            break
    if v is None or cond is None:
        return None
    start = norm(P, f, v.kids[0])
    c = strip(cond)

    def isv(x):
        x = strip(x)
        return x is not None and x.k == "DeclRefExpr" and x.j["d"] == v.j["d"]

    def minus1(t):
        return "(%s - 1)" % t

    if c.k == "UnaryOperator" and c.op == "--" and isv(c.kids[0]):
        return start if c.post else minus1(start)
    if c.k == "BinaryOperator":
        l, r = strip(c.kids[0]), strip(c.kids[1])
        if l.k == "UnaryOperator" and l.op == "--" and isv(l.kids[0]) and c.op in (">", "!=") and norm(P, f, r) == "0":
            return start if l.post else minus1(start)
        if l.k == "UnaryOperator" and l.op == "--" and isv(l.kids[0]) and c.op == ">=" and norm(P, f, r) == "0" and not l.post:
            return start
        up = inc is not None and any(x.k == "UnaryOperator" and x.op == "++" and isv(x.kids[0]) for x in inc.walk())
        down = inc is not None and any(x.k == "UnaryOperator" and x.op == "--" and isv(x.kids[0]) for x in inc.walk())
        if up and isv(l) and c.op in ("<", "!="):
            n = norm(P, f, r)
            return n if start == "0" else "(%s - %s)" % (n, start)
        if up and isv(r) and c.op == ">":
            n = norm(P, f, l)
            return n if start == "0" else "(%s - %s)" % (n, start)
        if up and isv(l) and c.op == "<=":
            n = norm(P, f, r)
            m = re.match(r"^\((.*) - 1\)$", n)
            return m.group(1) if m and start == "0" else "(%s + 1)" % n
        if down and isv(l) and (c.op, norm(P, f, r)) in ((">=", "0"), (">", "-1")):
            m = re.match(r"^\((.*) - 1\)$", start)
            return m.group(1) if m else "(%s + 1)" % start
        if down and isv(l) and c.op in (">", "!=") and norm(P, f, r) == "0":
            return start
    return None


# ---- joining -----------------------------------------------------------------
JOINERS = ("wait", "get", "join")


def holder(launch):
    """where the future/thread is kept: ('elem', container node, index node) | ('var', decl) | ('push', container) | None"""
    n = launch
    p = n.parent
    while p is not None:
        if p.k == "CXXOperatorCallExpr" and p.op == "=" and p.kids[1] is not n:
            t = p.kids[1]
            if t.k == "CXXOperatorCallExpr" and t.op == "[]":
                return ("elem", t.kids[1], t.kids[2])
            if t.k == "DeclRefExpr":
                return ("var", t.j["d"], None)
            return ("other", t, None)
        if p.k == "CXXMemberCallExpr" and p.j.get("n") in ("push_back", "emplace_back") and p.kids[0] is not n:
            return ("push", p.kids[0].kids[0], None)
        if p.k == "Var":
            return ("var", p.j["d"], None)
        if p.k in ("CompoundStmt",) or p.k in cpp.LOOPS:
            break
        n, p = p, p.parent
    return None


def base_key(n):
    n = strip(n)
    if n is None:
        return None
    if n.k == "DeclRefExpr":
        return ("d", n.j["d"])
    if n.k == "MemberExpr":
        return ("m", n.n)
    return None


def joins(P, f, key, depth=0):
    """join calls on elements of container `key` in f: [(node, whole-loop or None)]; helper functions included"""
    out = []
    for n in f.nodes():
        if n.k == "CXXMemberCallExpr" and n.j.get("n") in JOINERS and n.kids[0].k == "MemberExpr" and n.kids[0].kids:
            b = strip(n.kids[0].kids[0])
            if b is None:
                continue
            if b.k == "CXXOperatorCallExpr" and b.op == "[]" and base_key(b.kids[1]) == key:
                out.append((n, loop_of(n)))
            elif b.k == "DeclRefExpr":
                # range-for variable over the container
                for a in n.up():
                    if a.k == "CXXForRangeStmt" and base_key(a.kids[0]) == key:
                        if any(v.k == "Var" and v.j["d"] == b.j["d"] for v in a.walk()):
                            out.append((n, a))
                if key == ("d", b.j["d"]):
                    out.append((n, None))
        elif n.k in ("CXXMemberCallExpr", "CallExpr") and depth < 2:
            for t in P.targets(n):
                if t.defined and t.file.startswith("include/") and t.id != f.id:
                    if key and key[0] == "m" and t.cls == f.cls:
                        if joins(P, t, key, depth + 1):
                            out.append((n, "call"))
                    elif key and key[0] == "d":
                        for i, a in enumerate(n.kids[1:]):
                            if base_key(a) == key and i < len(t.params) and joins(P, t, ("d", t.params[i]["d"]), depth + 1):
                                out.append((n, "call"))
    return out


def run():
    c = Check("C03", "lockset and partition effect analysis of worker tasks",
              "Every task handed to std::async/std::thread in the parallel pathfinder is analysed interprocedurally: "
              "all accesses to shared memory with their access path, how each subscript relates to the task (own "
              "chunk, own number, element claimed under the lock) and the locks certainly held. Two instances of a "
              "task, or a task and the launching thread up to the join, must not touch common memory with a write "
              "and no common lock. Launch loops must hand out adjacent chunks covering the range once and every "
              "future must be joined before the results are used.",
              ["distinct task instances receive distinct chunk/own-number arguments as checked by the partition rule",
               "the neighbour list of a variable has no duplicates (elements claimed by position are distinct)",
               "`emb` does not alias the embeddings of the pathfinder that workers write (they write none)",
               "std::async futures, mutexes and atomics behave as specified"])
    c.rule("no-race", "no two concurrent accesses to common memory with a write and without a common lock")
    c.rule("locks-released", "each mutex is held exactly once when locked and free on every exit of a task")
    c.rule("partition", "successive tasks get adjacent disjoint chunks that together cover the range")
    c.rule("joined", "each launched task is waited for on every path before the launching function returns")
    c.rule("result-after-join", "no shared result is used by the launching thread between launch and join")
    P = cpp.program("_minorminer")
    nspawn = 0
    for f, n, callee, args in spawns(P):
        nspawn += 1
        c.count("launch sites")
        cn = cname(f)
        tasks = resolve_task(P, f, callee)
        if not tasks:
            raise AnalysisBroken("cannot resolve the task launched at %s" % n.at())
        # bindings
        h = holder(n)
        tags = {}
        lo = hi = None
        ints = []
        for i, a in enumerate(args):
            ints.append((i, strip(a)))
        # own number: the argument is the subscript under which the future is stored, or the loop variable
        loop = loop_of(n)
        for i, a in ints:
            if a is not None and a.k == "DeclRefExpr":
                if h and h[0] == "elem" and strip(h[2]).k == "DeclRefExpr" and strip(h[2]).j["d"] == a.j["d"]:
                    tags[i] = "IDX"
                elif loop is not None and loop.k == "ForStmt" and loop.kids[0] is not None and any(
                        v.k == "Var" and v.j["d"] == a.j["d"] for v in loop.kids[0].walk()):
                    tags[i] = "IDX"
        rest = [i for i, a in ints if i not in tags]
        parts = []
        for x, y in zip(rest, rest[1:]):
            if y == x + 1 and (not parts or parts[-1][1] < x):
                parts.append((x, y))
        for x, y in parts:
            ok, why = partition(P, f, n, args[x], args[y])
            c.ob("partition", "%s chunk(%d,%d)" % (cn, x, y), ok is not False, n.at(), why)
            if ok is not False:
                tags[x], tags[y] = "LO", "HI"
        if loop is not None and "IDX" in tags.values():
            # the loop variable is distinct on each round
            pass
        # joined
        if h is None:
            c.ob("joined", cn, False, n.at(), "the future is discarded")
        else:
            key = ("d", h[1]) if h[0] == "var" else base_key(h[1]) if h[0] in ("elem", "push") else None
            js = joins(P, f, key)
            ok, why = False, "no wait/get/join on what was launched"
            for j, jl in js:
                # the join (or the loop it is in) is reached on every path from the launch to the exit
                if jl == "call" or jl is None:
                    stopn = [j]
                elif jl.k == "CXXForRangeStmt":
                    stopn = [x for x in jl.walk() if x.i is not None]
                else:
                    stopn = [x for x in jl.kids[1].walk()] if jl.k == "ForStmt" and jl.kids[1] is not None else [x for x in jl.walk()]
                ids = {x.i for x in stopn if x.i is not None}
                if jl not in (None, "call") and loop is jl:
                    ok = True      # joined right after its own launch
                    continue
                start = f.cfg.where(n)
                pts, ex = f.cfg.reach(start, lambda b, i, e: isinstance(e, int) and e in ids)
                if ex:
                    why = "a path from the launch to the exit of %s skips the join at %s" % (f.n, j.at())
                    continue
                if jl not in (None, "call") and jl.k == "ForStmt" and h[0] == "elem" and loop is not None:
                    a, b = loop_count(P, f, loop), loop_count(P, f, jl)
                    full = ("all", "size()")
                    if a is not None and a != b and b not in full and a not in full:
                        why = "%s tasks launched, %s joined" % (a, b)
                        continue
                ok, why = True, ""
            c.ob("joined", cn, ok, n.at(), why)
        for lam, owner in tasks:
            L = P.funcs[lam.j["f"]]
            A = TaskAnalysis(P)
            env = {}
            for i, p in enumerate(L.params):
                env[p["d"]] = ("val", tags.get(i))
            A.run(L, env, ("this", ()))
            c.count("tasks")
            c.count("task functions", len(A.functions))
            c.count("shared accesses", len(A.accesses))
            tn = "%s in %s" % (cn, cname(owner))
            # by-value captured and task-local data are private; `outer` roots captured by value too
            byval = {cp.get("n") for cp in lam.j.get("caps", ()) if not cp.get("ref") and cp.get("n")}
            accs = [a for a in A.accesses if not (a.loc[0][0] == "outer" and a.loc[0][1] in byval)]
            rs = races(accs)
            byloc = {}
            for w, o in rs:
                byloc.setdefault(re.sub(r"\[[^]]*\]", "[]", show(w.loc)), (w, o))
            locs = {re.sub(r"\[[^]]*\]", "[]", show(a.loc)) for a in accs}
            for l in sorted(locs):
                r = byloc.get(l)
                c.ob("no-race", "%s: %s" % (tn, l), r is None, n.at(),
                     "" if r is None else r[0].text() + "  ||  " + r[1].text())
            c.ob("locks-released", tn, not A.lock_problems, L.at(),
                 "; ".join("%s %s at %s" % (a, l, x.at()) for a, x, l in A.lock_problems))
            # the launching thread between launch and join
            key = None
            if h is not None:
                key = ("d", h[1]) if h[0] == "var" else base_key(h[1]) if h[0] in ("elem", "push") else None
            ids = set()
            for j, jl in joins(P, f, key) if key else ():
                ids.add(j.i)
            pts, _ = f.cfg.reach(f.cfg.where(n), lambda b, i, e: isinstance(e, int) and e in ids)
            M = TaskAnalysis(P)
            mc = Ctx(M, f, {}, ("this", ()), (), frozenset())
            mc.infer()
            mc.collect()
            bad = []
            for m in M.accesses:
                if m.chain:
                    # inside a callee of the launching function: position of the call unknown, use the function's own
                    continue
                p = f.cfg.where(m.node)
                if p is None or p not in pts:
                    continue
                for a in accs:
                    if a.loc[0] != m.loc[0] or "write" not in (a.mode, m.mode) or not overlap(a.loc[1], m.loc[1]) or (a.locks & m.locks):
                        continue
                    bad.append((m, a))
            # locals of the launching function captured by reference and changed before the join
            if owner is f:
                refs = {cp.get("n"): cp for cp in lam.j.get("caps", ()) if cp.get("ref") and cp.get("n")}
                for x in f.nodes():
                    tgt = None
                    if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">="):
                        tgt = x.kids[0]
                    elif x.k == "UnaryOperator" and x.op in ("++", "--"):
                        tgt = x.kids[0]
                    if tgt is not None and tgt.k == "DeclRefExpr" and tgt.n in refs and f.cfg.where(x) in pts:
                        bad.append((None, "%s changes %s, which the running task captured by reference" % (x.at(), tgt.n)))
            c.ob("result-after-join", tn, not bad, n.at(),
                 "; ".join(b if m is None else m.text() + "  ||  task: " + b.text() for m, b in bad[:3]))
    c.count("functions", len(P.funcs))
    c.need("no-race", 20)
    c.need("joined", 2)
    c.need("partition", 1)
    return c


if __name__ == "__main__":
    main(run)
