"""Interprocedural exception flow over the resolved C++ program.

escapes(f): set of (type, origin) that may leave f, a least fixpoint over the call
graph.  Catch clauses filter by class hierarchy; `throw;` re-raises what its handler
caught; a `throw;` outside any handler of its function is the pseudo-type CUR with
the filters applied so far (the idiom of an exception translator).
"""
from cpp import CALLS

STD_BASES = {
    "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
    "std::bad_alloc": "std::exception", "std::out_of_range": "std::logic_error",
    "std::length_error": "std::logic_error", "std::invalid_argument": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::overflow_error": "std::runtime_error",
    "std::range_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
    "std::system_error": "std::runtime_error", "std::bad_cast": "std::exception",
    "std::bad_typeid": "std::exception", "std::ios_base::failure": "std::system_error",
    "std::bad_function_call": "std::exception", "std::bad_array_new_length": "std::bad_alloc",
    "std::future_error": "std::logic_error",
}

ALLOCATING = {"push_back", "emplace_back", "insert", "emplace", "resize", "reserve", "assign", "push",
              "push_front", "emplace_front", "append", "make_shared", "make_unique"}


def norm(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t.endswith("&") or t.endswith(" "):
        t = t[:-1].strip()
    t = t.replace("std::__cxx11::", "std::").replace("std::__1::", "std::")
    if t.startswith("char[") or t.startswith("char ["):
        t = "char *"
    return t


class ExFlow(object):
    def __init__(self, prog, alloc_in=lambda f: f.file.startswith("include/")):
        self.prog = prog
        self.alloc_in = alloc_in
        self.bases = dict((k, [v]) for k, v in STD_BASES.items())
        for r in prog.records.values():
            self.bases.setdefault(r["q"], [])
            for b in r.get("bases", ()):
                if b.get("q"):
                    self.bases[r["q"]].append(b["q"])
        self.esc = {}
        self._solve()

    def ancestors(self, t):
        out, work = set(), [t]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            work.extend(self.bases.get(x, ()))
        return out

    def matches(self, thrown, caught):
        if caught == "...":
            return True
        if thrown.startswith("char *") or thrown == "char *":
            return caught in ("char *",)
        return caught in self.ancestors(thrown)

    def is_async(self, node):
        """is this lambda handed to another thread?"""
        for u in node.up():
            if u.k in CALLS:
                q = u.j.get("q") or u.j.get("cls") or ""
                if q.startswith("std::async") or "std::thread" in q:
                    return True
        # assigned to a variable that is handed over
        return False

    def direct(self, fn, n):
        """exceptions raised by node n itself (not by callees' bodies)"""
        P = self.prog
        if n.k == "CXXThrowExpr":
            if n.j.get("et") is not None:
                return {(norm(n.etype), n.at())}
            return None  # rethrow
        out = set()
        if n.k in CALLS:
            for t in P.targets(n):
                if t.defined:
                    out |= self.esc.get(t.id, set())
                else:
                    out |= self.external(fn, n, t)
        elif n.k == "LambdaExpr":
            if not self.is_async(n):
                out |= self.esc.get(n.j.get("f"), set())
        elif n.k == "CXXNewExpr":
            if self.alloc_in(fn):
                out.add(("std::bad_alloc", n.at()))
        elif n.k == "CXXDynamicCastExpr" and "&" in n.wtype:
            out.add(("std::bad_cast", n.at()))
        return out

    def external(self, fn, n, t):
        q, name = t.q, t.n
        if not q.startswith("std::"):
            return set()
        at = n.at()
        if name == "at":
            return {("std::out_of_range", at)}
        if name in ("stoi", "stol", "stoul", "stod", "stoll", "stoull", "stof"):
            return {("std::invalid_argument", at), ("std::out_of_range", at)}
        if name == "async" or q.startswith("std::thread::thread"):
            return {("std::system_error", at)}
        if name == "get" and "future" in q:
            return {("std::future_error", at)}
        if name == "value" and "optional" in q:
            return {("std::bad_optional_access", at)}
        if not self.alloc_in(fn):
            return set()
        if name in ALLOCATING or (name == "operator[]" and "map<" in q):
            return {("std::bad_alloc", at)}
        if t.kind == "ctor" and ("vector<" in q or "basic_string<" in q or "map<" in q or "set<" in q) and len(n.kids) and not t.j.get("movector"):
            return {("std::bad_alloc", at)}
        if t.j.get("copyassign") and ("vector<" in q or "map<" in q or "set<" in q):
            return {("std::bad_alloc", at)}
        return set()

    def handlers(self, n):
        """enclosing (try, catches) from innermost, with whether n lies in the try body"""
        prev = n
        for u in n.up():
            if u.k == "CXXTryStmt":
                if prev is u.kids[0]:
                    yield u, u.kids[1:]
            prev = u

    def enclosing_catch(self, n):
        for u in n.up():
            if u.k == "CXXCatchStmt":
                return u
        return None

    def catch_type(self, c):
        return norm(c.etype) if c.j.get("et") is not None else "..."

    def filter(self, raised, n):
        """what of `raised` at node n leaves the function"""
        cur = raised
        for tr, catches in self.handlers(n):
            nxt = set()
            for t, at in cur:
                if isinstance(t, tuple):  # CUR with filters
                    f = set(t[1])
                    f |= {self.catch_type(c) for c in catches}
                    nxt.add((("CUR", frozenset(f)), at))
                elif not any(self.matches(t, self.catch_type(c)) for c in catches):
                    nxt.add((t, at))
            cur = nxt
            if not cur:
                break
        return {x for x in cur if not (isinstance(x[0], tuple) and "..." in x[0][1])}

    def caught_by(self, fn, c):
        """types that reach catch clause c"""
        tr = c.parent
        first = []
        for k in tr.kids[1:]:
            if k is c:
                break
            first.append(self.catch_type(k))
        ct = self.catch_type(c)
        out = set()
        for n in tr.kids[0].walk():
            r = self.direct(fn, n)
            if not r:
                continue
            # filtered by inner tries
            inner = r
            for tr2, catches in self.handlers(n):
                if tr2 is tr:
                    break
                inner = {(t, at) for t, at in inner
                         if not any(self.matches(t, self.catch_type(k)) for k in catches if not isinstance(t, tuple))}
            for t, at in inner:
                if isinstance(t, tuple):
                    continue
                if self.matches(t, ct) and not any(self.matches(t, f) for f in first):
                    out.add((t, at))
        return out

    def raised_at(self, fn, n):
        r = self.direct(fn, n)
        if r is None:  # rethrow
            c = self.enclosing_catch(n)
            if c is not None:
                return self.caught_by(fn, c)
            return {(("CUR", frozenset()), n.at())}
        # resolve CUR from translators called inside a handler
        out = set()
        for t, at in r:
            if isinstance(t, tuple):
                c = self.enclosing_catch(n)
                if c is not None:
                    for t2, at2 in self.caught_by(fn, c):
                        if not any(self.matches(t2, f) for f in t[1]):
                            out.add((t2, at2))
                else:
                    out.add((t, at))
            else:
                out.add((t, at))
        return out

    INTEREST = ("CXXThrowExpr", "LambdaExpr", "CXXNewExpr", "CXXDynamicCastExpr")

    def interesting(self, fn):
        return [n for n in fn.nodes() if n.k in CALLS or n.k in self.INTEREST]

    def _solve(self):
        P = self.prog
        nodes = {f.id: self.interesting(f) for f in P.funcs.values()}
        from collections import defaultdict
        deps = defaultdict(set)
        for f in P.funcs.values():
            for n in nodes[f.id]:
                if n.k in CALLS:
                    for t in P.targets(n):
                        deps[t.id].add(f.id)
                elif n.k == "LambdaExpr":
                    deps[n.j.get("f")].add(f.id)
        for f in P.funcs.values():
            self.esc[f.id] = set()
        work = list(P.funcs.keys())
        inq = set(work)
        while work:
            fid = work.pop()
            inq.discard(fid)
            f = P.funcs[fid]
            out = set()
            for n in nodes[fid]:
                r = self.raised_at(f, n)
                if r:
                    out |= self.filter(r, n)
            # keep at most a few origins per type
            slim, per = set(), {}
            for t, at in sorted(out, key=str):
                if per.get(t, 0) < 3:
                    per[t] = per.get(t, 0) + 1
                    slim.add((t, at))
            if {t for t, _ in slim} != {t for t, _ in self.esc[fid]}:
                self.esc[fid] = slim | self.esc[fid]
                for d in deps[fid]:
                    if d in P.funcs and d not in inq:
                        inq.add(d)
                        work.append(d)

    def types(self, fn):
        return {t for t, _ in self.esc.get(fn.id, ())}
