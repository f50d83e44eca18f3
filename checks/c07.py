"""C07: temporary search state is restored on every way out of a step."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS
from cname import cname
from flow import AI, Mods, path, strip_casts, field_of

BOUND = "weight_bound"


def field_ref(n, names):
    n = strip_casts(n)
    return n is not None and n.k == "MemberExpr" and n.dk == "Field" and n.n in names


def is_write_target(n):
    """MemberExpr node n is the target of an assignment"""
    p = n.parent
    while p is not None and p.k.endswith("CastExpr"):
        n, p = p, p.parent
    if p is None:
        return None
    if p.k == "BinaryOperator" and p.op == "=" and p.kids[0] is n:
        return "="
    if p.k == "CompoundAssignOperator" and p.kids[0] is n or p.k == "UnaryOperator" and p.op in ("++", "--"):
        return "rw"
    return None


# ---------------------------------------------------------------------------------- bound
class Bound(AI):
    """ts = (value of the bound relative to function entry: 'E'|'M', locals holding the entry value)"""

    def __init__(self, A, fn):
        AI.__init__(self, A.P, fn, A.mods, {"embedded"})
        self.A = A

    def step(self, ts, env, n):
        val, copies = ts
        if n.k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var" and v.kids:
                    s = strip_casts(v.kids[0])
                    if field_ref(s, {BOUND}):
                        copies = copies | {v.d} if val == "E" else copies - {v.d}
                    elif s is not None and s.k == "DeclRefExpr" and s.d in copies:
                        copies = copies | {v.d}
                    else:
                        copies = copies - {v.d}
        elif n.k == "BinaryOperator" and n.op == "=":
            l, r = strip_casts(n.kids[0]), strip_casts(n.kids[1])
            while r is not None and r.k == "BinaryOperator" and r.op == "=":
                r = strip_casts(r.kids[1])
            if field_ref(l, {BOUND}):
                val = "E" if r is not None and r.k == "DeclRefExpr" and r.d in copies else "M"
            elif l is not None and l.k == "DeclRefExpr":
                if field_ref(r, {BOUND}) and val == "E" or r is not None and r.k == "DeclRefExpr" and r.d in copies:
                    copies = copies | {l.d}
                else:
                    copies = copies - {l.d}
        elif n.k in ("CompoundAssignOperator",) or n.k == "UnaryOperator" and n.op in ("++", "--"):
            t = strip_casts(n.kids[0])
            if field_ref(t, {BOUND}):
                val = "M"
            elif t is not None and t.k == "DeclRefExpr":
                copies = copies - {t.d}
        elif n.k in CALLS:
            for t in self.P.targets(n):
                if self.A.effect(t) == "M":
                    if self.A.restorer(t, n, copies):
                        val = "E"
                    else:
                        val = "M"
        return (((val, frozenset(copies)), env),)


class BoundRules(object):
    def __init__(self, P, mods):
        self.P, self.mods = P, mods
        self._eff = {}
        self._exposed = {}
        self._live = {}

    def touches(self, f):
        return BOUND in self.mods.of(f.id)

    def effect(self, f):
        """'E' if f leaves the bound as it found it, 'M' if it may not"""
        if f.id in self._eff:
            return self._eff[f.id]
        if not f.defined or not self.touches(f):
            self._eff[f.id] = "E"
            return "E"
        self._eff[f.id] = "E"   # recursion
        r = Bound(self, f).run(("E", frozenset()))
        self._eff[f.id] = "M" if any(ts[0] == "M" for ts, e, rn in r.exits) else "E"
        return self._eff[f.id]

    def restorer(self, t, call, copies):
        """callee that stores one of its parameters into the bound, called with a saved copy"""
        if not t.defined:
            return False
        ps = {p["d"]: i for i, p in enumerate(t.params)}
        idx = set()
        for n in t.nodes():
            if field_ref(n, {BOUND}) and is_write_target(n):
                r = None
                p = n
                while p is not None and not (p.k == "BinaryOperator" and p.op == "="):
                    p = p.parent
                r = strip_casts(p.kids[1]) if p is not None else None
                if r is None or r.k != "DeclRefExpr" or r.d not in ps:
                    return False
                idx.add(ps[r.d])
        if len(idx) != 1:
            return False
        args = call.kids[1:] if call.k != "CXXConstructExpr" else call.kids
        a = strip_casts(args[min(idx)]) if min(idx) < len(args) else None
        return a is not None and a.k == "DeclRefExpr" and a.d in copies

    # a read that only feeds a write-back is a save, not a use
    def save_read(self, n):
        f = n.fn
        p, c = n.parent, n
        while p is not None and p.k.endswith("CastExpr"):
            c, p = p, p.parent
        d = None
        if p is not None and p.k == "Var":
            d = p.d
        elif p is not None and p.k == "BinaryOperator" and p.op == "=" and p.kids[1] is c:
            l = strip_casts(p.kids[0])
            d = l.d if l is not None and l.k == "DeclRefExpr" else None
        if d is None:
            return False
        for x in f.nodes():
            if x.k == "DeclRefExpr" and x.d == d:
                q, c = x.parent, x
                while q is not None and q.k.endswith("CastExpr"):
                    c, q = q, q.parent
                if q is not None and q.k == "BinaryOperator" and q.op == "=" and (q.kids[0] is c or field_ref(q.kids[0], {BOUND})):
                    continue
                return False
        return True

    def events(self, f, n):
        """'use' / 'def' / None for the bound at node n of f"""
        if n.k == "MemberExpr" and n.dk == "Field" and n.n == BOUND:
            w = is_write_target(n)
            if w == "=":
                return None
            if w == "rw":
                return "use"
            if n.rv or True:
                return None if self.save_read(n) else "use"
        if n.k == "BinaryOperator" and n.op == "=" and field_ref(n.kids[0], {BOUND}):
            return "def"
        if n.k in CALLS:
            for t in self.P.targets(n):
                if t.defined and self.exposed(t):
                    return "use"
            ts = [t for t in self.P.targets(n)]
            if ts and all(t.defined and self.mustdef(t) for t in ts):
                return "def"
        return None

    def exposed(self, f):
        if f.id in self._exposed:
            return self._exposed[f.id]
        self._exposed[f.id] = False
        self._exposed[f.id] = f.root is not None and self.scan(f, (f.cfg.entry, -1))[0]
        return self._exposed[f.id]

    def mustdef(self, f):
        if f.root is None or BOUND not in self.mods.of(f.id):
            return False
        key = ("md", f.id)
        if key not in self._exposed:
            self._exposed[key] = False
            self._exposed[key] = not self.scan(f, (f.cfg.entry, -1))[1]
        return self._exposed[key]

    def scan(self, f, start):
        """from after `start`: (a use is reached before a definition, exit is reached without a definition)"""
        cfg, idx = f.cfg, f.index
        used = [False]

        def stop(b, i, e):
            n = idx.get(e) if isinstance(e, int) else None
            if n is None:
                return False
            if n.k == "LambdaExpr" and n.f in self.P.funcs and self.exposed(self.P.funcs[n.f]):
                used[0] = True
                return True
            ev = self.events(f, n)
            if ev == "use":
                used[0] = True
            return ev is not None
        pts, ex = cfg.reach(start, stop)
        return used[0], ex


# ---------------------------------------------------------------------------------- frozen / missing chains
OPS = {"freeze_out": "freeze", "thaw_back": "thaw", "tear_out": "tear", "construct_chain": "build",
       "construct_chain_steiner": "build", "flip_back": "needs", "set_chain": "build?"}


class ChainState(AI):
    """ts: frozenset of (emb key, var key, state, frozen?) ; state E empty, B built ; absent = unknown"""

    def __init__(self, A, fn):
        AI.__init__(self, A.P, fn, A.mods, {"embedded", "desperate"})
        self.A = A

    def get(self, ts, k):
        for e, u, s, fz in ts:
            if (e, u) == k:
                return s, fz
        return None, False

    def set(self, ts, k, s, fz):
        ts = frozenset(x for x in ts if (x[0], x[1]) != k)
        return ts if s is None else ts | {(k[0], k[1], s, fz)}

    def op(self, n):
        if n.k != "CXXMemberCallExpr":
            return None
        ts = self.P.targets(n)
        if not ts or "::embedding::" not in ts[0].p and not ts[0].p.startswith("find_embedding::embedding::"):
            return None
        me = strip_casts(n.kids[0])
        e = path(me.kids[0]) if me is not None and me.k == "MemberExpr" and me.kids else None
        u = path(n.kids[1]) if len(n.kids) > 1 and n.kids[1] is not None else None
        return (ts[0].n, e, u) if e and u else None

    def step(self, ts, env, n):
        # the loop variable moves on
        if n.k in CALLS:
            o = self.op(n)
            if o:
                name, e, u = o
                k = (e, u)
                s, fz = self.get(ts, k)
                what = OPS.get(name)
                if what == "freeze":
                    return ((self.set(ts, k, "E", True), env),)
                if what == "tear":
                    return ((self.set(ts, k, "E", fz), env),)
                if what == "build":
                    self.A.require("build-on-empty", self, n, s == "E", "chain %s is constructed while %s" % (
                        n.text(), {"B": "it still has qubits", None: "it may still have qubits"}.get(s)))
                    return ((self.set(ts, k, "B", fz), env),)
                if what == "thaw":
                    self.A.require("thaw-of-frozen", self, n, fz and s == "E",
                                   "thaw_back without a frozen chain for this variable, or into a non-empty chain")
                    return ((self.set(ts, k, "B", False), env),)
                if what == "needs":
                    self.A.require("links-needed", self, n, s != "E",
                                   "%s on a chain that was torn out: its links do not exist" % n.text())
                    return ((ts, env),)
                if name == "chainsize" and s is None:
                    e1 = self.put(env, ("n", n.i), "nz")
                    e0 = self.put(env, ("n", n.i), 0)
                    return ((self.set(ts, k, "B", fz), e1), (self.set(ts, k, "E", fz), e0))
                if name == "chainsize":
                    return ((ts, self.put(env, ("n", n.i), "nz" if s == "B" else 0)),)
                return ((ts, env),)
            r = self.A.callsum(self, n, ts)
            if r is not None:
                k, outs = r
                res = []
                for s, fz, rv in outs:
                    e2 = self.put(env, ("n", n.i), rv)
                    res.append((self.set(ts, k, s, fz), e2))
                return res
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            tgt = n.kids[0] if n.k == "BinaryOperator" else n.kids[1]
            p = path(tgt)
            if p is not None:
                ts = self.moved(ts, p, n)
        return ((ts, env),)

    def assign(self, env, n, ts):
        if n.k in CALLS:
            m = env.get(("n", n.i))
            env = AI.assign(self, env, n, ts)
            if m is not None:
                env = self.put(env, ("n", n.i), m)
            return env
        env = AI.assign(self, env, n, ts)
        return env

    def moved(self, ts, p, n=None):
        out = set()
        for e, u, s, fz in ts:
            if u == p or e == p:
                if u == p:
                    self.A.advance(self, s, fz)
                continue
            out.add((e, u, s, fz))
        return frozenset(out)

    def implicit(self, ts, env, e):
        if "decl" in e:
            return (self.moved(ts, ("v", e["decl"])),)
        return (ts,)


class ChainRules(object):
    def __init__(self, P, mods, chk):
        self.P, self.mods, self.chk = P, mods, chk
        self.sums = {}
        self.obl = {}
        self.lost = {}
        self.quiet = 0

    def require(self, rule, ai, n, ok, why):
        k = (rule, cname(ai.fn), n.text())
        old = self.obl.get(k, (True, "", ""))
        if not ok or k not in self.obl:
            self.obl[k] = (ok and old[0], n.at(), why if not ok else old[2])

    def advance(self, ai, s, fz):
        k = cname(ai.fn)
        bad = s == "E" and (fz or not self.partial(ai.fn))
        if bad:
            self.lost[k] = (ai.fn.at(), "a loop moves on to the next variable although the current one has no chain"
                            + (" and its frozen chain was not thawed" if fz else ""))
        else:
            self.lost.setdefault(k, None)

    def partial(self, fn):
        # quickPass documents that a variable it cannot place stays without a chain
        return fn.n == "quickPass"

    def emb_params(self, f):
        emb = [p for i, p in enumerate(f.params) if "find_embedding::embedding<" in f.ptype(i) and f.ptype(i).rstrip().endswith("&")
               and not f.ptype(i).startswith("const")]
        u = [p for i, p in enumerate(f.params) if f.ptype(i).replace("const ", "").replace("&", "").strip() == "int"]
        return emb, u

    def relevant(self, f):
        if not f.defined or f.root is None or "::pathfinder_" not in f.p:
            return False
        emb, u = self.emb_params(f)
        return len(emb) == 1 and len(u) >= 1

    def callsum(self, ai, n, ts):
        ts_ = [t for t in self.P.targets(n) if self.relevant(t)]
        if not ts_:
            return None
        t = ts_[0]
        emb, u = self.emb_params(t)
        args = n.kids[1:]
        ei = [i for i, p in enumerate(t.params) if p["d"] == emb[0]["d"]][0]
        ui = [i for i, p in enumerate(t.params) if p["d"] == u[0]["d"]][0]
        if max(ei, ui) >= len(args):
            return None
        e, uu = path(args[ei]), path(args[ui])
        if not e or not uu:
            return None
        s, fz = ai.get(ts, (e, uu))
        return (e, uu), self.summary(t, s, fz)

    def summary(self, f, s, fz):
        k = (f.id, s, fz)
        if k in self.sums:
            return self.sums[k]
        self.sums[k] = {(s, fz, None)}
        emb, u = self.emb_params(f)
        ek, uk = ("v", emb[0]["d"]), ("v", u[0]["d"])
        ts = frozenset() if s is None and not fz else frozenset({(ek, uk, s, fz)})
        ai = ChainState(self, f)
        ai.run(ts)
        out = set()
        for t, env, rn in ai.exits:
            es, ef = ai.get(t, (ek, uk))
            rv = None
            if rn is not None and rn.kids:
                rv = ai.value(rn.kids[0], t, env)
            out.add((es, ef and es == "E", rv))     # the slot is obsolete once the chain is back
        self.sums[k] = out
        return out


# ---------------------------------------------------------------------------------- whole embeddings after a failed pass
class Whole(AI):
    """ts: frozenset of embedding keys that may lack a chain"""

    def __init__(self, A, fn, passes):
        AI.__init__(self, A.P, fn, A.mods, {"embedded", "return_overlap"})
        self.A, self.passes = A, passes
        self.bad = {}
        self.uses = 0

    def step(self, ts, env, n):
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and "find_embedding::embedding<" in n.type:
            l, r = path(n.kids[1]), path(n.kids[2])
            if l is not None:
                if r in ts or field_of(r) == "initEmbedding" and ("linked",) not in ts:
                    ts = ts | {l}
                else:
                    ts = ts - {l}
            return ((ts, env),)
        if n.k == "CXXMemberCallExpr":
            t = self.P.targets(n)
            t = t[0] if t else None
            if t is not None and t.n == "linked" and len(t.params) == 0:
                a = (ts | {("linked",)}, self.put(env, ("n", n.i), 1))
                b = (ts - {("linked",)}, self.put(env, ("n", n.i), 0))
                return (a, b)
            if t is not None and t.id in self.passes:
                i, kinds = self.passes[t.id]
                e = path(n.kids[1 + i])
                if e is not None:
                    self.uses += 1
                    if "needs" in kinds:
                        self.note(n, e not in ts, e)
                    out = []
                    if "fails" in kinds:
                        out.append((ts | {e}, self.put(env, ("n", n.i), -1)))
                        for v in kinds["ok"]:
                            out.append((ts - {e}, self.put(env, ("n", n.i), v)))
                    else:
                        out.append((ts, env))
                    return out
        return ((ts, env),)

    def assign(self, env, n, ts):
        if n.k in CALLS:
            m = env.get(("n", n.i))
            env = AI.assign(self, env, n, ts)
            return env if m is None else self.put(env, ("n", n.i), m)
        return AI.assign(self, env, n, ts)

    def note(self, n, ok, e):
        k = n.text()
        if not ok or k not in self.bad:
            self.bad[k] = (ok and self.bad.get(k, (True,))[0], n.at(), "%s may lack the chain a failed pass tore out" % (field_of(e),))


def make():
    chk = Check("C07", "path-sensitive typestate and save/restore analysis of the search steps",
                "Every function that changes the overlap bound is analysed path by path: the bound is back at its entry "
                "value on exit, or no later search reads it before it is set anew. Every path through the chain-replacing "
                "functions is checked for the freeze/thaw protocol (a frozen chain is thawed or replaced, a chain is only "
                "rebuilt when empty), every failed pass is followed by a fall-back to a complete embedding, and each public "
                "search call re-establishes the scalar search state before reading it.",
                ["branch feasibility is decided from constants and zero/non-zero facts only (over-approximation)"])
    chk.rule("bound-restored", "a function that changes the overlap bound leaves it as it found it, or no search reads it "
                               "afterwards before it is set again")
    chk.rule("bound-saved", "where the bound is saved in a local and written back, it is written back on every path")
    chk.rule("build-on-empty", "a chain is constructed only after the previous one was torn out or frozen")
    chk.rule("thaw-of-frozen", "a chain is thawed only if it was frozen and is empty")
    chk.rule("links-needed", "path segments are only returned to neighbours from a chain that exists")
    chk.rule("not-left-empty", "no search step moves on from, or returns success for, a variable whose chain was torn out")
    chk.rule("failed-pass-fallback", "after a pass fails (leaving a chain torn out), the embedding is replaced before it is used again")
    chk.rule("state-reset", "a public search call sets each piece of scalar search state before reading it")
    P = program("_minorminer")
    mods = Mods(P)
    B = BoundRules(P, mods)

    # --- the bound
    setters = [f for f in P.lib() if any(field_ref(n, {BOUND}) and is_write_target(n) for n in f.nodes())]
    if len(setters) < 4:
        raise AnalysisBroken("only %d functions write weight_bound" % len(setters))
    callers = P.callers()
    todo, seen = list(setters), set()
    while todo:
        f = todo.pop()
        if f.id in seen or f.kind == "ctor" or f.n == "reset_mood" or not f.file.startswith("include/"):
            continue
        seen.add(f.id)
        eff = B.effect(f)
        ok, why, where = True, "leaves the bound unchanged", f.at()
        if eff == "M":
            why = "sets the bound; nothing reads it afterwards before it is set again"
            entry = not callers.get(f.id)
            for F, n in callers.get(f.id, ()):
                if not F.file.startswith("include/"):
                    continue
                p = F.cfg.where(n)
                used, ex = B.scan(F, p) if p else (True, True)
                if used:
                    ok, why, where = False, "leaves the bound changed, and a later search step reads it (after %s in %s)" % (
                        n.text()[:60], cname(F)), f.at()
                if ex and F.id not in seen:
                    todo.append(F)
            # virtual entry: nothing outside the class may see the leaked bound
        chk.ob("bound-restored", cname(f), ok, where, why)
        # save/restore discipline
        saves = [n for n in f.nodes() if field_ref(n, {BOUND}) and not is_write_target(n) and B.save_read(n)]
        if saves:
            r = Bound(B, f).run(("E", frozenset()))
            bad = [rn for ts, env, rn in r.exits if ts[0] != "E"]
            chk.ob("bound-saved", cname(f), not bad, f.at(),
                   "a path (%s) returns without writing the saved bound back" % (bad[0].text() if bad and bad[0] else "end of function")
                   if bad else "%d exit states" % len(r.exits))
    chk.need("bound-saved", 2)

    # --- chains
    C = ChainRules(P, mods, chk)
    fns = [f for f in P.lib() if C.relevant(f)]
    passes = {}
    embs = [f for f in P.lib() if "::pathfinder_" in f.p and f.defined and f.root is not None]
    nsum = 0
    for f in fns:
        for s, fz in ((None, False),):
            pass
    for f in embs:
        emb, u = C.emb_params(f)
        if f.n == "quickPass" or (len(emb) == 1 and not u and f.ret == "int"):
            ai = ChainState(C, f)
            ai.run(frozenset())
            nsum += ai.visits
            C.lost.setdefault(cname(f), None)
            fails, oks = False, set()
            for ts, env, rn in ai.exits:
                v = ai.value(rn.kids[0], ts, env) if rn is not None and rn.kids else None
                empties = [x for x in ts if x[2] == "E"]
                if empties and v == -1:
                    fails = True
                elif empties and not C.partial(f):
                    C.lost[cname(f)] = (f.at(), "returns %s with a chain torn out" % (rn.kids[0].text() if rn is not None and rn.kids else ""))
                elif empties and any(x[3] for x in empties):
                    C.lost[cname(f)] = (f.at(), "returns with a frozen chain that was not thawed")
                if v == -1:
                    fails = True
                else:
                    oks.add(v)
            if len(emb) == 1:
                passes[f.id] = (0, {"fails": fails, "ok": oks or {None}, "needs": True} if fails else {"needs": True})
                if f.n == "initialization_pass" and fails:
                    del passes[f.id][1]["needs"]
    # functions that report through their return value
    for (fid, s, fz), outs in list(C.sums.items()):
        f = P.funcs[fid]
        bad = [o for o in outs if o[0] == "E" and (o[2] != 0)]
        worse = [o for o in outs if o[0] == "E" and o[2] == 0 and f.ret == "void"]
        if f.n in OPS:
            continue
        # a summary that starts with no chain may legitimately not touch it
        if C.lost.get(cname(f)) is None:
            bb = [o for o in bad if not (s == "E" and o == (s, fz, None))]
            C.lost[cname(f)] = (f.at(), "may return success although the chain is torn out") if bb or worse else None
    for k, v in sorted(C.lost.items()):
        chk.ob("not-left-empty", k, v is None, v[0] if v else "", v[1] if v else "")
    for (rule, fn, txt), (ok, at, why) in sorted(C.obl.items()):
        chk.ob(rule, "%s: %s" % (fn, txt), ok, at, why)
    chk.need("build-on-empty", 2)
    chk.need("thaw-of-frozen", 2)
    chk.need("not-left-empty", 5)

    # --- fall back after failures
    for f in P.lib():
        if "::pathfinder_" in f.p and f.n == "check_improvement":
            passes[f.id] = (0, {"needs": True})
    drivers = [f for f in embs if f.id not in passes and any(
        t.id in passes and "fails" in passes[t.id][1] for n, ts in P.calls(f) for t in ts)]
    for f in drivers:
        w = Whole(C, f, passes)
        w.run(frozenset())
        for txt, (ok, at, why) in sorted(w.bad.items()):
            chk.ob("failed-pass-fallback", "%s: %s" % (cname(f), txt), ok, at, why if not ok else "")
        chk.count("driver states", w.visits)
    chk.need("failed-pass-fallback", 4)

    # --- state re-established by each public call
    iface = [f for f in P.funcs.values() if f.j.get("ov") and "::pathfinder_" in f.p and f.n in ("heuristicEmbedding", "quickPass")]
    if len(iface) < 3:
        raise AnalysisBroken("public search entry points not found")
    scal = {}
    for r in P.records.values():
        if r["q"].startswith("find_embedding::embedding_problem_base") or r["q"].startswith("find_embedding::pathfinder_"):
            for fl in r["fields"]:
                t = P.types[fl["t"]][1]
                if t in ("int", "double", "bool", "unsigned int") or "time_point" in t or fl["n"] == "best_stats":
                    scal[fl["n"]] = t
    for f in iface:
        up, _ = exposure(P, mods, f, set(scal))
        for name in sorted(scal):
            if not any(name in mods.of(g.id) for g in iface):
                continue
            chk.ob("state-reset", "%s: %s" % (cname(f), name), name not in up, f.at(),
                   "may be read (%s) with the value an earlier call left" % up.get(name) if name in up else "")
    chk.need("state-reset", 6)
    chk.count("typestate states", nsum)
    chk.count("functions that set the bound", len(seen))
    return chk


_exp = {}


def exposure(P, mods, f, fields, depth=0):
    """({field: where first read before written}, fields certainly written)"""
    key = (id(P), f.id, frozenset(fields))
    if key in _exp:
        return _exp[key]
    _exp[key] = ({}, set())
    if f.root is None:
        return _exp[key]
    cfg, idx = f.cfg, f.index
    # must-defined at block entry
    IN = {cfg.entry: frozenset()}
    up = {}
    work = [cfg.entry]
    outs = None
    for it in range(20000):
        if not work:
            break
        b = work.pop()
        d = set(IN[b])
        dead = False
        for e in cfg.blocks[b]["e"]:
            n = idx.get(e) if isinstance(e, int) else None
            if n is None:
                continue
            if n.k == "CXXThrowExpr":
                dead = True
                break
            if n.k == "MemberExpr" and n.dk == "Field" and n.n in fields and n.n not in d:
                p, c = n.parent, n
                while p is not None and p.k.endswith("CastExpr"):
                    c, p = p, p.parent
                w = is_write_target(n)
                meth = p.k == "MemberExpr" and p.parent is not None and p.parent.k == "CXXMemberCallExpr" if p is not None else False
                if p is not None and p.k == "CXXOperatorCallExpr" and p.op == "=" and len(p.kids) > 1 and p.kids[1] is c:
                    w = "="
                if w == "=" or meth and p.n in ("clear", "assign", "swap"):
                    pass
                elif p is not None and p.k in CALLS and not n.rv and c is not p.kids[0]:
                    pass     # passed by reference
                elif not saved_only(n):
                    up.setdefault(n.n, n.at())
            if n.k == "BinaryOperator" and n.op == "=":
                l = strip_casts(n.kids[0])
                if l is not None and l.k == "MemberExpr" and l.n in fields:
                    d.add(l.n)
            if n.k == "CXXOperatorCallExpr" and n.op == "=":
                l = strip_casts(n.kids[1])
                if l is not None and l.k == "MemberExpr" and l.n in fields:
                    d.add(l.n)
            if n.k == "CXXMemberCallExpr" and n.kids[0] is not None and n.kids[0].k == "MemberExpr" and n.kids[0].n in ("clear", "assign"):
                o = strip_casts(n.kids[0].kids[0]) if n.kids[0].kids else None
                if o is not None and o.k == "MemberExpr" and o.n in fields:
                    d.add(o.n)
            subs = []
            if n.k in CALLS:
                subs = [t for t in P.targets(n) if t.defined]
            elif n.k == "LambdaExpr" and n.f in P.funcs:
                subs = [P.funcs[n.f]]
            if subs:
                mds = None
                for t in subs:
                    u2, md = exposure(P, mods, t, fields, depth + 1)
                    for k, v in u2.items():
                        if k not in d:
                            up.setdefault(k, "%s via %s" % (v, n.text()[:40]))
                    mds = set(md) if mds is None else mds & md
                # pure virtual callees have no body: only overriders count
                if n.k != "LambdaExpr":
                    d |= mds or set()
        if dead or cfg.blocks[b].get("nr"):
            continue
        if b == cfg.exit:
            outs = set(d) if outs is None else outs & d
            continue
        for s in cfg.succ[b]:
            nd = frozenset(d) if s not in IN else IN[s] & frozenset(d)
            if s not in IN or nd != IN[s]:
                IN[s] = nd
                work.append(s)
    _exp[key] = (up, outs or set())
    return _exp[key]


def saved_only(n):
    """the value read only goes into a local that is only written back to the same field"""
    p, c = n.parent, n
    while p is not None and p.k.endswith("CastExpr"):
        c, p = p, p.parent
    d = p.d if p is not None and p.k == "Var" else None
    if d is None:
        return False
    for x in n.fn.nodes():
        if x.k == "DeclRefExpr" and x.d == d:
            q, c = x.parent, x
            while q is not None and q.k.endswith("CastExpr"):
                c, q = q, q.parent
            if q is not None and q.k == "BinaryOperator" and q.op == "=" and field_ref(q.kids[0], {n.n}):
                continue
            return False
    return True


if __name__ == "__main__":
    main(make)
