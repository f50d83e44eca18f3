"""C06: chain and occupancy bookkeeping always agree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS
from cname import cname
from flow import AI, Mods
from ledger import Ledger, State, is_chain, show

UNITS = ["_minorminer"]


def holder(f):
    """class that owns function f, when it is the chain type, its iterator, its frozen form or an embedding"""
    p = f.p.split("::")
    if len(p) >= 3 and p[0] == "find_embedding" and p[1] in ("chain", "frozen_chain", "embedding"):
        return p[1]
    return None


class Occupied(AI):
    """is the chain under work empty?  U unknown, E emptied, F filled"""

    def __init__(self, P, fn, mods, empties, fills, bad):
        AI.__init__(self, P, fn, mods)
        self.empties, self.fills, self.bad = empties, fills, bad

    def step(self, ts, env, n):
        if n.k in CALLS:
            ids = {t.id for t in self.P.targets(n)}
            if ids & self.empties:
                return (("E", env),)
            if ids & self.fills:
                if ts == "F":
                    self.bad.add(n.i)
                return (("F", env),)
        return ((ts, env),)


def make():
    chk = Check("C06", "path-sensitive ledger dataflow over control-flow paths", (
        "For every method of the chain and embedding types (all template instantiations) the analysis walks the control-flow "
        "paths with value numbering and keeps an account of what each path gains and loses: membership against occupancy per "
        "qubit, reference counts against parents and links, links against the links of the other chain, and stored qubits "
        "against stored links when containers are moved or emptied whole. A method that does not balance on its own is "
        "expanded into its callers; one that leaves the two types unbalanced is reported."),
        ["The std containers behave as specified (emplace does not overwrite, erase of an iterator removes that element).",
         "Arguments named by distinct values denote distinct qubits unless the path established equality."])
    chk.rule("balanced", "an operation that other code can call leaves occupancy, reference counts and links in agreement on every path")
    chk.rule("own-qubit", "the qubit recorded as a chain's link is not one the path found in another chain only")
    chk.rule("expanded", "an operation that leaves an account open is only called by operations that close it")
    chk.rule("writers", "occupancy, chain contents and link tables are changed by chain and embedding operations only")
    chk.rule("empty-first", "a chain is emptied before another one is built or restored in its place")
    for unit in UNITS:
        P = program(unit)
        L = Ledger(P)
        mods = Mods(P)
        fns = [f for f in P.lib() if f.root is not None and f.j.get("cfg") and holder(f)]
        if len([f for f in fns if holder(f) == "chain"]) < 10 or len([f for f in fns if holder(f) == "embedding"]) < 10:
            raise AnalysisBroken("chain / embedding classes not found")
        callers = {}
        for f in P.lib():
            if f.root is None:
                continue
            for n, ts in P.calls(f):
                for t in ts:
                    callers.setdefault(t.id, []).append((f, n))
        seen = set()
        for f in fns:
            if not L.touches(f):
                continue
            pr = L.problems(f)
            name = cname(f)
            own = L.linked.get(f.id, ())
            if own:
                bad = sorted({"%s is recorded as the link of %s to %s, and only another chain is known to hold it"
                              % (show(q), show(o), show(k)) for o, k, q, ok in own if ok is False})
                chk.ob("own-qubit", name, not bad, f.at(), "; ".join(bad) if bad else
                       "%d link entries: %d in the chain by the path's own tests, %d by the operation's contract"
                       % (len(own), sum(1 for x in own if x[3]), sum(1 for x in own if x[3] is None)))
            if not pr:
                chk.ob("balanced", name, True, f.at(), "%d paths so far" % L.paths)
                continue
            # open: every caller has to be an operation the analysis expands it into
            cs = callers.get(f.id, [])
            outer = [(c, n) for c, n in cs if holder(c) is None]
            inner = [c for c, n in cs if holder(c) is not None]
            std = f.n == "operator=" and len(f.params) == 1 and is_chain(f.ptype(0))
            ctor_only = holder(f) == "embedding" and cs and all(c.kind == "ctor" and holder(c) == "embedding" for c in inner) and not outer
            if holder(f) == "chain" and not outer and (inner or std):
                chk.ob("expanded", name, True, f.at(), "; ".join(pr))
                if std and any(not x.startswith("the link of") for x in pr):
                    chk.ob("balanced", name, False, f.at(), "; ".join(x for x in pr if not x.startswith("the link of")))
            elif ctor_only:
                chk.ob("expanded", name, True, f.at(), "only used while an embedding is constructed: " + "; ".join(pr))
            elif inner and not outer and f.j.get("access") in ("private", "protected"):
                chk.ob("expanded", name, True, f.at(), "; ".join(pr))
            elif inner and not outer and all(holder(c) == "embedding" for c in inner) and holder(f) == "embedding":
                chk.ob("expanded", name, True, f.at(), "; ".join(pr))
            elif outer:
                for c, n in outer:
                    chk.ob("expanded", "%s called by %s" % (name, cname(c)), False, n.at(), "; ".join(pr))
            else:
                chk.ob("balanced", name, False, f.at(), "; ".join(pr))
        # who writes
        for f in P.lib():
            if f.root is None or holder(f):
                continue
            for n in f.nodes():
                if n.k == "MemberExpr" and n.dk == "Field" and n.q and (
                        n.q.startswith("find_embedding::chain::") and n.n != "label" or
                        n.q.startswith("find_embedding::frozen_chain::") or n.n in ("qub_weight", "var_embedding")):
                    chk.ob("writers", "%s uses %s" % (cname(f), n.n), False, n.at(), "outside the chain and embedding types")
        for f in fns:
            if f.n in ("get_chain",) or (holder(f) == "embedding" and is_chain(f.ret)):
                chk.ob("writers", cname(f), "const" in f.ret, f.at(), "returns " + f.ret)
        # emptied before built
        emb = [f for f in fns if holder(f) == "embedding" and f.kind == "method"]
        basic = {f.id for f in fns if f.p in ("find_embedding::chain::set_root", "find_embedding::chain::thaw")}
        fills = {f.id for f in emb if any(t.id in basic for n, ts in P.calls(f) for t in ts)}
        empties = set()
        for f in emb:
            if f.j.get("const") or not L.touches(f) or f.id in fills or not f.params:
                continue
            st = State()
            for p in f.params:
                st.env[p["d"]] = ("var", p["d"], p["n"])
            this = ("this", f.id)
            outs = L.execute(f, this, st)
            key = None
            for s, rv in outs:
                ks = {C for C, v in s.ver.items() if C[0] == "D" and C[2] and v == "empty"}
                key = ks if key is None else key & ks
            if key:
                empties.add(f.id)
        if not fills or not empties:
            raise AnalysisBroken("no operation builds or empties a chain")
        for f in P.lib():
            if f.root is None or not f.j.get("cfg") or holder(f):
                continue
            sites = [n for n, ts in P.calls(f) if {t.id for t in ts} & fills]
            if not sites:
                continue
            bad = set()
            a = Occupied(P, f, mods, empties, fills, bad)
            a.run("U")
            for k, n in enumerate(sites):
                chk.ob("empty-first", "%s call %d of %s" % (cname(f), k, n.n), n.i not in bad, n.at(),
                       "the chain may still hold qubits" if n.i in bad else "")
        chk.count("functions", len(fns))
        chk.count("paths walked", L.paths)
        chk.count("path steps", L.steps)
    chk.need("balanced", 30)
    chk.need("own-qubit", 5)
    chk.need("empty-first", 3)
    return chk


if __name__ == "__main__":
    main(make)
