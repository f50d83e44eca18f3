"""C04: equal seeds give equal results (no other source of variation reaches a result)."""
import ast
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check, main, AnalysisBroken
from cpp import program, CALLS
from cname import cname
from flow import Mods, path, strip_casts, field_of
import pyfront, pyai
from c07 import exposure

ENTROPY = re.compile(
    r"(^|::)(random_device|rand|srand|rand_r|random|srandom|drand48|lrand48|mrand48|random_shuffle|time|clock|clock_gettime|gettimeofday|"
    r"timespec_get|localtime|gmtime|getpid|gettid|getppid|get_id|pthread_self|getenv|secure_getenv|getrandom|getentropy|"
    r"hardware_concurrency|get_nprocs|sysconf|rdtsc|__rdtsc|__builtin_readcyclecounter|__builtin_ia32_rdtsc|tmpnam|uname|gethostname)$")
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(int|long|long long|unsigned long|unsigned long long|short|char|bool|double|float|"
                    r"unsigned int|unsigned char|signed char|unsigned short)$|\*$")
KEYED = re.compile(r"std::(map|set|multimap|multiset|unordered_map|unordered_set|unordered_multimap|priority_queue)<(const )?[\w:<>, ]*?\*( const)?[,>]")


def head(n):
    """n's nearest ancestor that is not a cast or wrapper, with the child through which n is reached"""
    c, p = n, n.parent
    while p is not None and (p.k.endswith("CastExpr") or p.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                                                                "CXXBindTemporaryExpr", "CXXConstructExpr") and len(p.kids) == 1):
        c, p = p, p.parent
    return p, c


def is_time(t):
    return "time_point" in t or "steady_clock" in t and "duration" not in t


# ----------------------------------------------------------------------------------------------------- native code
class Native(object):
    def __init__(self, chk, unit):
        self.chk, self.unit = chk, unit
        self.P = program(unit)
        self.fns = [f for f in self.P.lib() if f.root is not None]

    def once(self, key):
        if key in self.seen:
            return False
        self.seen.add(key)
        return True

    def run(self):
        self.seen = set()
        self.calls()
        self.statics()
        self.pointers()
        self.locals()
        self.arrays()
        self.engines()

    # -- entropy and clock
    def calls(self):
        chk = self.chk
        clocked = set()
        for f in self.fns:
            n_ext = 0
            for n in f.nodes():
                if n.k not in CALLS:
                    continue
                for t in self.P.targets(n):
                    if t.defined:
                        continue
                    n_ext += 1
                    q = re.sub(r"<.*>", "", t.q.replace("operator<", "operator_lt"))
                    if "random_device" in t.q or ENTROPY.search(q):
                        if self.once(("e", cname(f), q)):
                            chk.ob("no-entropy", "%s: %s" % (cname(f), q), False, n.at(), "the value differs from run to run")
                    if t.n in ("now", "time_since_epoch", "to_time_t") and "chrono" in t.q:
                        ok, why = self.clock(f, n, t)
                        clocked.add(f.id)
                        if self.once(("c", cname(f), t.n, ok)):
                            chk.ob("clock-only-stops", "%s: %s" % (cname(f), t.n), ok, n.at(), why)
            chk.count("external calls inspected (%s)" % self.unit, n_ext)
            if self.once(("f", cname(f))):
                chk.ob("no-entropy", cname(f), True, f.at())
        # functions that answer a question about the clock: the answer only ends the search
        answer = {f.id for f in self.fns if f.id in clocked and f.ret == "bool"}
        todo = list(answer)
        while todo:
            fid = todo.pop()
            for o in self.P.funcs[fid].j.get("ov", ()):
                if o in self.P.funcs and o not in answer:
                    answer.add(o)
                    todo.append(o)
        for _ in range(6):
            new = set()
            for f in self.fns:
                for n in f.nodes():
                    if n.k in CALLS and any(t.id in answer for t in self.P.targets(n)):
                        ok, why, fwd = self.answer_use(f, n)
                        if fwd:
                            if f.id not in answer:
                                new.add(f.id)
                            continue
                        if self.once(("a", cname(f), n.line, ok)):
                            chk.ob("clock-only-stops", "%s: answer of %s" % (cname(f), n.n), ok, n.at(), why)
            if not new:
                break
            answer |= new

    def clock(self, f, n, t):
        if t.n != "now":
            return False, "the clock's value is turned into a number"
        # follow the value: arithmetic with a duration, then a comparison or the assignment of a deadline
        p, c = head(n)
        for _ in range(8):
            if p is None:
                return False, "the clock's value is used in an unknown way"
            if p.k in ("CXXOperatorCallExpr", "BinaryOperator"):
                if p.op in ("<", ">", "<=", ">="):
                    ok, why, fwd = self.answer_use(f, p)
                    return ok, why
                if p.op == "=" and is_time(p.kids[1 if p.k == "CXXOperatorCallExpr" else 0].type):
                    return True, ""
                if p.op in ("+", "-") and is_time(p.type):
                    p, c = head(p)
                    continue
                return False, "the clock's value is used in %s" % p.text()[:60]
            if p.k == "Var":
                # a local copy: each of its uses is judged
                for x in f.nodes():
                    if x.k == "DeclRefExpr" and x.d == p.d:
                        q, _c = head(x)
                        if q is None or q.k not in ("CXXOperatorCallExpr", "BinaryOperator") or q.op not in ("<", ">", "<=", ">=", "+", "="):
                            if q is not None and q.k == "CXXOperatorCallExpr" and q.op == "-" and is_time(q.type):
                                continue
                            return False, "the clock's value, kept in %s, is used in %s" % (p.n, q.text()[:60] if q is not None else "?")
                return True, ""
            if p.k == "ReturnStmt":
                return is_time(f.ret), "the clock's value is returned"
            if p.k in CALLS and is_time(c.type):
                tg = self.P.targets(p)
                if tg and all(x.defined for x in tg):
                    return True, ""
                if p.k == "CXXConstructExpr":
                    p, c = head(p)
                    continue
            return False, "the clock's value is used in %s" % p.text()[:60]
        return False, "the clock's value is used in an unknown way"

    def answer_use(self, f, n):
        """(ok, why, is the answer passed on by the function)"""
        p, c = head(n)
        while p is not None and p.k in ("UnaryOperator", "BinaryOperator") and p.op in ("!", "&&", "||"):
            p, c = head(p)
        if p is None:
            return True, "", False
        if p.k == "ReturnStmt":
            return True, "", True
        if p.k == "Var":
            uses = [x for x in f.nodes() if x.k == "DeclRefExpr" and x.d == p.d]
            for x in uses:
                q, d = head(x)
                while q is not None and q.k in ("UnaryOperator", "BinaryOperator") and q.op in ("!", "&&", "||"):
                    q, d = head(q)
                if q is None or not (q.k == "IfStmt" and self.stops(q) or q.k == "ReturnStmt"):
                    return False, "what the clock says decides more than stopping", False
            return True, "", any(head(x)[0] is not None and head(x)[0].k == "ReturnStmt" for x in uses)
        if p.k == "IfStmt" and self.stops(p):
            return True, "", False
        if p.k == "CompoundStmt":
            return True, "", False
        if p.k in ("WhileStmt", "ForStmt", "DoStmt"):
            return True, "", False
        if p.k == "ConditionalOperator":
            return False, "what the clock says chooses a value", False
        return False, "what the clock says decides more than stopping (%s)" % p.k, False

    @staticmethod
    def stops(ifs):
        """one arm of the `if` only leaves (throw, return, break)"""
        def leaves(s):
            if s is None:
                return False
            if s.k == "CompoundStmt":
                return bool(s.kids) and leaves(s.kids[-1])
            return s.k in ("CXXThrowExpr", "ReturnStmt", "BreakStmt") or s.k in ("ExprWithCleanups",) and leaves(s.kids[0])
        return leaves(ifs.kids[2]) or (len(ifs.kids) > 3 and leaves(ifs.kids[3]))

    # -- state that outlives an object
    def statics(self):
        chk = self.chk
        for g in self.P.globals:
            fl = self.P.files[g["file"]]
            if not (fl.startswith("include/") or fl.startswith("minorminer/")):
                continue
            if self.once(("g", g["q"])):
                chk.ob("no-hidden-state", "global %s" % g["q"], g["const"], "%s:%d" % (fl, g["line"]),
                       "a variable that any call can change and any later call can see")
        for f in self.fns:
            for n in f.nodes():
                if n.k == "Var" and n.j.get("static"):
                    const = n.type.startswith("const ") or n.j.get("cx")
                    free = not any(x.k in ("CXXThisExpr",) or x.k == "DeclRefExpr" and x.dk in ("ParmVar", "Var") or
                                   x.k in CALLS and x.k != "CXXConstructExpr" for x in n.walk() if x is not n)
                    if self.once(("s", cname(f), n.n)):
                        chk.ob("no-hidden-state", "%s: static %s" % (cname(f), n.n), bool(const and free), n.at(),
                               "keeps a value from one call (of any object) to the next" if not const else
                               "keeps the first call's value for every later one")

    # -- addresses
    def pointers(self):
        chk, P = self.chk, self.P
        for f in self.fns:
            bad = []
            for n in f.nodes():
                if n.j.get("ck") == "PointerToIntegral" or n.j.get("ick") == "PointerToIntegral":
                    bad.append((n, "an address is turned into a number"))
                if n.k == "CXXReinterpretCastExpr" and SCALAR.match(n.type) and not n.type.endswith("*"):
                    bad.append((n, "an address is turned into a number"))
                if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
                    a, b = strip_casts(n.kids[0]), strip_casts(n.kids[1])
                    if a.type.endswith("*") and b.type.endswith("*") and not (self.base(f, a) & self.base(f, b)):
                        bad.append((n, "addresses are compared for order"))
                if n.k in CALLS:
                    for t in P.targets(n):
                        if not t.defined and re.search(r"std::(hash|less|greater)<[^<>]*\*( const)?>", t.q):
                            bad.append((n, "addresses are hashed or ordered"))
            for n, why in bad:
                if self.once(("p", cname(f), why, n.text()[:40])):
                    chk.ob("no-addresses", "%s: %s" % (cname(f), n.text()[:40]), False, n.at(), why)
            if self.once(("pf", cname(f))):
                chk.ob("no-addresses", cname(f), not bad, f.at(), bad[0][1] if bad else "")
        for t in P.types:
            m = KEYED.search(t[1])
            if m and ("find_embedding" in t[1] or "busclique" in t[1]) and self.once(("k", t[1])):
                chk.ob("no-addresses", "type %s" % t[1][:80], False, "", "a container ordered or hashed by address")

    def base(self, f, n, depth=0):
        """the arrays a pointer can point into, by the expression they come from"""
        n = strip_casts(n)
        out = set()
        if n is None or depth > 6:
            return out
        if n.k == "BinaryOperator" and n.op in ("+", "-"):
            return self.base(f, n.kids[0], depth + 1) | self.base(f, n.kids[1], depth + 1)
        if n.k == "UnaryOperator" and n.op in ("&", "++", "--", "*"):
            return self.base(f, n.kids[0], depth + 1)
        if n.k == "ArraySubscriptExpr":
            return self.base(f, n.kids[0], depth + 1)
        if n.k == "CXXMemberCallExpr" and n.n in ("data", "begin", "end"):
            return {("o", n.kids[0].kids[0].text())} if n.kids[0].kids else set()
        if n.k in ("DeclRefExpr", "MemberExpr") and n.type.endswith("*"):
            out.add(("v", n.text()))
            if n.k == "DeclRefExpr":
                for x in f.nodes():
                    if x.k == "Var" and x.d == n.d:
                        for k in x.kids:
                            if k is not None:
                                out |= self.base(f, k, depth + 1)
        return out

    # -- uninitialised locals
    def locals(self):
        chk = self.chk
        D = Definite(self.P)
        for f in self.fns:
            vs, bad = D.check(f)
            chk.count("locals without initialiser (%s)" % self.unit, len(vs))
            for d, nm in sorted(vs.items()):
                if self.once(("l", cname(f), nm, d in bad)):
                    chk.ob("initialised-local", "%s: %s" % (cname(f), nm), d not in bad, bad.get(d, f.at()),
                           "may be read before it is given a value")

    # -- uninitialised arrays
    def arrays(self):
        chk = self.chk
        for f in self.fns:
            for n in f.nodes():
                if n.k != "CXXNewExpr" or not n.j.get("array"):
                    continue
                at = self.P.types[n.j["at"]][1] if n.j.get("at", -1) >= 0 else ""
                if any(k is not None and k.k in ("InitListExpr", "ImplicitValueInitExpr") for k in n.kids):
                    ok, why = True, "value-initialised"
                elif any(k is not None and k.k == "CXXConstructExpr" for k in n.kids):
                    ok, why = self.placed(f, n)
                elif SCALAR.match(at):
                    ok, why = self.filled(f, n)
                else:
                    ok, why = True, ""
                if self.once(("n", cname(f), at, n.line, ok)):
                    chk.ob("initialised-array", "%s: new %s[]" % (cname(f), at), ok, n.at(), why)

    def target(self, f, n):
        p, c = head(n)
        if p is not None and p.k == "BinaryOperator" and p.op == "=":
            return field_of(path(p.kids[0]))
        if p is None or p.k == "InitListExpr":
            for d, e in f.inits:
                if d.get("field") and n.within(e):
                    return d["field"]
        return None

    def filled(self, f, n):
        """scalar array without initialiser: a method that copies over its whole length is certain to run next"""
        fld = self.target(f, n)
        if fld is None:
            return False, "the array starts with whatever the memory held"
        size = n.kids[0].text() if n.kids and n.kids[0] is not None else ""
        fillers = set()
        for g in self.fns:
            if g.j.get("clsid") != f.j.get("clsid"):
                continue
            for x in g.nodes():
                if x.k in CALLS and any(t.n in ("memcpy", "memmove", "memset", "fill_n", "fill", "copy", "copy_n") for t in self.P.targets(x)):
                    a = [k for k in x.kids[1:] if k is not None]
                    dst = a[-1] if x.n in ("copy", "copy_n") else a[0]
                    if len(a) >= 3 and field_of(path(strip_casts(dst))) == fld and any(
                            k is not dst and any(y.text() == size for y in k.walk()) and not self.scaled(k, size) for k in a):
                        # nothing of the array is read earlier in that function
                        early = [y for y in g.nodes() if y.k == "MemberExpr" and y.n == fld and not y.within(x) and
                                 not g.cfg.dominates(x, y)]
                        if not early:
                            fillers.add(g.id)
        if not fillers:
            return False, "no function of the class fills the array before it is used"
        cfg = f.cfg
        for x in f.nodes():
            if x.k in CALLS and any(t.id in fillers for t in self.P.targets(x)):
                b, i = cfg.where(n)
                c, j = cfg.where(x)
                if self.postdom(cfg, c, b):
                    return True, "filled by %s" % x.n
        return False, "the array is not filled after it is allocated"

    @staticmethod
    def scaled(k, size):
        """the size is only a part of the length expression (n / 2, n - 1)"""
        for y in k.walk():
            if y.text() == size:
                p = y.parent
                while p is not None and y is not k and (p.k.endswith("CastExpr") or p.k == "ParenExpr"):
                    p = p.parent
                return y is not k and p is not None and p.within(k) and p.k == "BinaryOperator" and p.op in ("-", "/", ">>", "%")
        return False

    @staticmethod
    def postdom(cfg, c, b):
        """every path from b to the exit goes through c"""
        seen, work = {b}, [b]
        if b == c:
            return True
        while work:
            x = work.pop()
            if x == cfg.exit:
                return False
            for s in cfg.succ[x]:
                if s != c and s not in seen:
                    seen.add(s)
                    work.append(s)
        return True

    def placed(self, f, n):
        """array of records whose constructor leaves fields unset: its elements leave the owner only through a (re)constructor"""
        ctor = [k for k in n.kids if k is not None and k.k == "CXXConstructExpr"][0]
        cls = None
        for t in self.P.targets(ctor):
            cls = t.j.get("clsid")
            if t.params:
                return True, ""
        rec = self.P.records.get(cls)
        if rec is None or not any(x.get("pod") and not x.get("init") for x in rec["fields"]):
            return True, ""
        fld = self.target(f, n)
        for g in self.fns:
            if g.j.get("clsid") != f.j.get("clsid") or g is f:
                continue
            for x in g.nodes():
                if x.k == "MemberExpr" and x.n == fld:
                    p, c = head(x)
                    if p is not None and p.k == "CXXDeleteExpr":
                        continue
                    if p is None and g.kind in ("ctor", "constructor") or p is not None and p.k == "BinaryOperator" and p.op in ("=", "==", "!="):
                        continue        # the array changes owner, or is compared with null
                    if p is not None and p.k == "BinaryOperator" and p.op == "+":
                        x, (p, c) = p, head(p)
                    elif p is not None and p.k == "ArraySubscriptExpr":
                        x, (p, c) = p, head(p)
                    if p is not None and p.k == "UnaryOperator" and p.op == "&":
                        p, c = head(p)
                    if p is not None and p.k == "MemberExpr" and p.parent is not None and p.parent.k in CALLS and \
                            any(self.reconstructs(t) for t in self.P.targets(p.parent)):
                        continue
                    if p is not None and p.k == "CXXNewExpr":
                        continue
                    if p is not None and p.k == "Var":
                        uses = [y for y in g.nodes() if y.k == "DeclRefExpr" and y.d == p.d]
                        rc = [y for y in uses if (lambda q: q.k == "MemberExpr" and q.parent.k in CALLS and
                              any(self.reconstructs(t) for t in self.P.targets(q.parent)))(head(y)[0])]
                        if rc and all(any(y is r or g.cfg.dominates(r, y) for r in rc) for y in uses):
                            continue
                    return False, "%s uses an element that may never have been set (%s)" % (cname(g), g.at())
        return True, "every element is constructed anew before use"

    def reconstructs(self, t):
        """the method rebuilds *this in place"""
        if not t.defined or t.root is None:
            return False
        return any(x.k == "CXXNewExpr" and not x.j.get("array") and any(y.k == "CXXThisExpr" for y in x.walk()) for x in t.nodes())

    # -- generators
    def engines(self):
        chk, P = self.chk, self.P
        for f in self.fns:
            for n in f.nodes():
                if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    continue
                for t in P.targets(n):
                    if t.n == "fastrng" and t.j.get("kind", t.kind) in ("ctor", "constructor"):
                        if t.params:
                            a = t.ptype(0)
                            if "fastrng" in a:
                                continue            # a copy: same state
                            ok, why = True, "constructed from a value"
                        else:
                            # left to the caller: the class offers a seed() that sets the member's whole state
                            ok = self.has_seed(f) and f.kind in ("ctor", "constructor") and not f.params
                            why = "the generator's state is left unset and nothing seeds it"
                        if self.once(("r", cname(f), bool(t.params), ok)):
                            chk.ob("seeded-generator", "%s: %s" % (cname(f), "seeded" if t.params else "default"), ok, n.at(), why)
        # the seeding functions give the generator its whole state
        for g in P.funcs.values():
            if g.cls.endswith("fastrng") and g.root is not None and (g.n == "seed" or g.kind in ("ctor", "constructor") and g.params and
                                                                   "fastrng" not in g.ptype(0)):
                st = self.gen_state(g)
                if self.once(("gs", cname(g), len(g.params) and g.ptype(0))):
                    chk.ob("seeded-generator", "%s(%s): sets the state" % (cname(g), g.ptype(0)), not st, g.at(),
                           "leaves %s as it was" % ", ".join(sorted(st)))

    def gen_state(self, g, depth=0):
        rec = self.P.records.get(g.j.get("clsid"))
        need = {x["n"] for x in rec["fields"] if x.get("pod")} if rec else set()
        for d, e in g.inits:
            need.discard(d.get("field"))
            if "delegate" in d:
                return set()
        _, md = exposure(self.P, None, g, need)
        return need - md

    def has_seed(self, f):
        clsid = f.j.get("clsid")
        for g in self.fns:
            if g.j.get("clsid") == clsid and g.n == "seed":
                for n in g.nodes():
                    if n.k in CALLS and n.n == "seed":
                        return True
        return False


class Definite(object):
    """locals without an initialiser are written before they are read, on every path (reference parameters by summary)"""

    def __init__(self, P):
        self.P = P
        self.sums = {}

    def default_unset(self, n):
        """the variable's default constructor leaves a scalar field unset (a wrapped integer)"""
        e = n.kids[-1] if n.kids else None
        if e is None or e.k != "CXXConstructExpr" or e.kids:
            return False
        for t in self.P.targets(e):
            rec = self.P.records.get(t.j.get("clsid"))
            if rec is None:
                return False
            sc = [x for x in rec["fields"] if x.get("pod") and not x.get("init")]
            return bool(sc) and len(rec["fields"]) <= 2 and not t.inits and not (t.root is not None and t.root.kids)
        return False

    def vars_of(self, f):
        out = {}
        for n in f.nodes():
            if n.k == "Var" and not n.j.get("static") and n.n:
                if n.parent is not None and n.parent.k in ("CXXForRangeStmt", "CXXCatchStmt"):
                    continue
                if not [k for k in n.kids if k is not None]:
                    if SCALAR.match(n.type):
                        out[n.d] = n.n
                elif self.default_unset(n):
                    out[n.d] = n.n
        return out

    def check(self, f):
        vs = self.vars_of(f)
        if not vs:
            return vs, {}
        bad, _ = self.flow(f, vs)
        return vs, {d: at for d, at in bad.items() if not self.flagged(f, d)}

    def flagged(self, f, d):
        """a companion variable, set wherever this one is, is tested before every read"""
        def sets(n):
            return (n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=") and \
                strip_casts(n.kids[0 if n.k == "BinaryOperator" else 1]).k == "DeclRefExpr"
        mine = [n for n in f.nodes() if sets(n) and strip_casts(n.kids[0 if n.k == "BinaryOperator" else 1]).d == d]
        if not mine:
            return False
        homes = [m.parent for m in mine]
        for v in f.nodes():
            if v.k != "Var" or not v.kids or v.kids[-1] is None or v.kids[-1].k not in ("IntegerLiteral", "CXXBoolLiteralExpr") and \
                    strip_casts(v.kids[-1]).k not in ("IntegerLiteral", "CXXBoolLiteralExpr", "UnaryOperator"):
                continue
            gs = [n for n in f.nodes() if sets(n) and strip_casts(n.kids[0 if n.k == "BinaryOperator" else 1]).d == v.d]
            if not gs or not all(any(self.home(g) is self.home(m) for m in mine) for g in gs):
                continue
            if any(x.k in ("UnaryOperator", "CompoundAssignOperator") and x.op in ("++", "--", "+=", "-=") and strip_casts(x.kids[0]).d == v.d
                   for x in f.nodes() if x.kids and x.kids[0] is not None):
                continue
            tests = [x for x in f.nodes() if x.k == "IfStmt" and len(x.kids) > 2 and any(y.k == "DeclRefExpr" and y.d == v.d for y in x.kids[1].walk())
                     and not any(self.home(x) is self.home(g) or x.within(self.home(g)) or any(g.within(x) for _ in (0,)) for g in gs)]
            reads = [x for x in f.nodes() if x.k == "DeclRefExpr" and x.d == d and not any(x.within(m) for m in mine)]
            if tests and all(any(Native.stops(t) and self.after(f, t, x) or x.within(t) for t in tests) for x in reads):
                return True
        return False

    @staticmethod
    def home(n):
        p = n.parent
        while p is not None and p.k not in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt"):
            p = p.parent
        return p

    @staticmethod
    def after(f, t, x):
        c = t.kids[1]
        conds = [y for y in c.walk() if y.i is not None]
        return any(f.cfg.dominates(y, x) for y in conds)

    def summary(self, f):
        """indices of the reference parameters certainly written, and of those read before"""
        if f.id in self.sums:
            return self.sums[f.id]
        self.sums[f.id] = (set(), set())
        if f.root is None:
            return self.sums[f.id]
        vs = {p["d"]: p["n"] for p in f.params if "d" in p}
        bad, out = self.flow(f, vs)
        ix = {p["d"]: i for i, p in enumerate(f.params) if "d" in p}
        self.sums[f.id] = ({ix[d] for d in out}, {ix[d] for d in bad})
        return self.sums[f.id]

    def flow(self, f, vs):
        P, cfg, idx = self.P, f.cfg, f.index
        IN = {cfg.entry: frozenset()}
        work, outs, bad = [cfg.entry], None, {}
        guard = 0
        while work and guard < 20000:
            guard += 1
            b = work.pop()
            d = set(IN[b])
            dead = False
            for e in cfg.blocks[b]["e"]:
                n = idx.get(e) if isinstance(e, int) else None
                if n is None:
                    continue
                if n.k == "CXXThrowExpr":
                    dead = True
                    break
                if n.k == "Var" and n.d in vs:
                    d.discard(n.d)
                if n.k == "DeclRefExpr" and n.d in vs and n.d not in d:
                    if self.reads(n):
                        bad.setdefault(n.d, n.at())
                if n.k == "BinaryOperator" and n.op == "=":
                    l = strip_casts(n.kids[0])
                    if l.k == "DeclRefExpr" and l.d in vs:
                        d.add(l.d)
                if n.k in CALLS:
                    self.call(n, vs, d, bad)
                if n.k == "LambdaExpr":
                    pass
            if dead or cfg.blocks[b].get("nr"):
                continue
            if b == cfg.exit:
                outs = set(d) if outs is None else outs & d
                continue
            for s in cfg.succ[b]:
                nd = frozenset(d) if s not in IN else IN[s] & frozenset(d)
                if s not in IN or nd != IN[s]:
                    IN[s] = nd
                    work.append(s)
        return bad, outs or set()

    def reads(self, n):
        """a reference to an unset variable that uses its value (not an assignment, a reference binding, or an address)"""
        c, p = n, n.parent
        while p is not None and p.k == "ParenExpr":
            c, p = p, p.parent
        if p is None:
            return False
        if n.rv or p.k == "ImplicitCastExpr" and p.j.get("ck") == "LValueToRValue":
            return True
        if p.k == "UnaryOperator" and p.op in ("++", "--"):
            return True
        if p.k == "CompoundAssignOperator" or p.k == "BinaryOperator" and p.op and p.op.endswith("=") and p.op not in ("=", "==", "!=", "<=", ">="):
            return True
        return False

    def args(self, n):
        if n.k == "CXXOperatorCallExpr":
            return n.kids[1:]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return n.kids
        return n.kids[1:]

    def call(self, n, vs, d, bad):
        ts = self.P.targets(n)
        args = self.args(n)
        meth = False
        if n.k == "CXXOperatorCallExpr" and ts and ts[0].cls and len(ts[0].params) < len(args):
            meth = True
        for i, a in enumerate(args):
            if a is None:
                continue
            x = strip_casts(a)
            if x.k != "DeclRefExpr" or x.d not in vs or x.rv:
                continue
            if meth and i == 0:
                if n.op == "=":
                    d.add(x.d)
                elif x.d not in d:
                    bad.setdefault(x.d, x.at())
                continue
            pi = i - (1 if meth else 0)
            wr, rd = None, False
            for t in ts:
                if pi >= len(t.params):
                    wr = set()
                    continue
                pt = self.P.types[t.params[pi]["t"]][0] + self.P.types[t.params[pi]["t"]][1]
                if "&" not in pt:
                    rd = True
                    wr = set()
                elif t.defined and t.root is not None:
                    w, r = self.summary(t)
                    wr = {pi} & w if wr is None else wr & w
                    rd = rd or pi in r
                elif "const" in pt.split("&")[0]:
                    rd = True
                    wr = set()
                else:
                    wr = {pi} if wr is None else wr    # a library function fills its output argument
            if rd and x.d not in d:
                bad.setdefault(x.d, x.at())
            if wr:
                d.add(x.d)


# -- fields no constructor sets
def fields_unset(P):
    """{class id: {field}} of scalar fields some constructor of the class leaves unset"""
    ctors = {}
    for f in P.funcs.values():
        if f.kind in ("ctor", "constructor") and f.defined and f.file.startswith("include/"):
            ctors.setdefault(f.j.get("clsid"), []).append(f)
    out = {}
    for r in P.records.values():
        fl = P.files[r["file"]] if isinstance(r["file"], int) else r["file"]
        if not fl.startswith("include/") or "lambda" in r["q"]:
            continue
        sc = {x["n"] for x in r["fields"] if x.get("pod") and not x.get("init") and x["n"]}
        for c in ctors.get(r["id"], [None]):
            miss = set(sc)
            if c is not None:
                if is_copy(P, r, c) or any(re.search(r"&", P.types[p["t"]][0] + P.types[p["t"]][1]) and
                                              r["q"].split("::")[-1] in P.types[p["t"]][1] for p in c.params):
                    continue          # copies carry the state of the original
                for d, e in c.inits:
                    miss.discard(d.get("field"))
                    if "delegate" in d:
                        miss = set()
                if c.root is not None:
                    _, md = exposure(P, None, c, sc)
                    miss -= md
            if miss and c is not None:
                out.setdefault((r["id"], r["q"]), set()).update(miss)
    return out


def is_copy(P, r, c):
    return bool(c.j.get("implicit")) or len(c.params) == 1 and "&" in "".join(P.types[c.params[0]["t"]]) and \
        r["q"].split("::")[-1].split("<")[0] in P.types[c.params[0]["t"]][1]


def unset_fields(chk, P, unit):
    um = fields_unset(P)
    names = set()
    for (i, q), fs in um.items():
        names |= {f for f in fs}
    import c07
    c07._exp.clear()
    iface = [f for f in P.funcs.values() if f.j.get("ov") and "::pathfinder_" in f.p and
             f.n in ("heuristicEmbedding", "quickPass", "set_initial_chains", "get_chain")]
    seen = set()
    if unit == "_minorminer":
        if len(iface) < 4:
            raise AnalysisBroken("public search entry points not found")
        own = set()
        for (i, q), fs in um.items():
            if "fastrng" in q or "_node" in q:
                continue
            own |= fs
        for f in iface:
            up, _ = exposure(P, None, f, own)
            for nm in sorted(own):
                k = (cname(f), nm, nm in up)
                if k not in seen:
                    seen.add(k)
                    chk.ob("initialised-field", "%s: %s" % (cname(f), nm), nm not in up, up.get(nm, f.at()),
                           "no constructor sets it and this call may read it first")
    # elsewhere (busclique, and everything a constructor calls) the constructors themselves must not read what is unset
    c07._exp.clear()
    for f in P.lib():
        if f.kind in ("ctor", "constructor") and f.root is not None:
            rec = P.records.get(f.j.get("clsid"))
            if rec is None or is_copy(P, rec, f):
                continue
            sc = {x["n"] for x in rec["fields"] if x.get("pod") and not x.get("init") and x["n"]} & names
            if not sc:
                continue
            up, _ = exposure(P, None, f, sc)
            for nm in sorted(sc):
                k = (cname(f), nm, nm in up, "ctor")
                if k not in seen:
                    seen.add(k)
                    chk.ob("initialised-field", "%s: %s (constructor)" % (cname(f), nm), nm not in up, up.get(nm, f.at()),
                           "read while the object is still being built")
    if unit == "busclique":
        for (i, q), fs in sorted(um.items()):
            left = set(fs)
            for nm in sorted(left):
                k = (q, nm)
                if k in seen or "fastrng" in q:
                    continue
                seen.add(k)
                chk.ob("initialised-field", "%s: %s" % (q.split("::")[-1], nm), False, "", "a constructor leaves the field unset")


# -- the fragment search starts every search from the same state
def search_state(chk):
    P = program("busclique")
    mods = Mods(P)
    nexts = [f for f in P.lib() if f.cls.endswith("topo_cache") and f.n == "next" and f.root is not None]
    resets = [f for f in P.lib() if f.cls.endswith("topo_cache") and f.n == "reset" and f.root is not None]
    if not nexts or not resets:
        raise AnalysisBroken("the fragment iteration of topo_cache was not found")
    seen = set()
    by = {f.j.get("clsid"): f for f in nexts}
    import c07
    for r in resets:
        nx = by.get(r.j.get("clsid"))
        if nx is None:
            continue
        changed = {x for x in closure_writes(P, nx)}
        c07._exp.clear()
        up, _ = exposure(P, None, nx, changed)
        # what a call of next() both depends on and changes
        need = {x for x in changed if x in up or x in depends(P, nx)}
        c07._exp.clear()
        calls = [n for n in r.nodes() if n.k in CALLS and any(t.id == nx.id for t in P.targets(n))]
        written = reestablished(P, r, calls)
        for fld in sorted(need):
            ok = fld in written
            if ("s", fld, ok) not in seen:
                seen.add(("s", fld, ok))
                chk.ob("search-restarts", "topo_cache::reset: %s" % fld, ok, r.at(),
                       "changed by earlier searches and not set back before the next one")
    # whoever walks the fragments starts from reset()
    tid = {f.id for f in nexts}
    rid = {f.id for f in resets}
    for f in P.lib():
        if f.cls.endswith("topo_cache") or f.root is None:
            continue
        nc = [n for n in f.nodes() if n.k in CALLS and any(t.id in tid for t in P.targets(n))]
        if not nc:
            continue
        rc = [n for n in f.nodes() if n.k in CALLS and any(t.id in rid for t in P.targets(n))]
        ok = all(any(f.cfg.dominates(a, n) for a in rc) for n in nc)
        cells = [n for n in f.nodes() if n.k == "MemberExpr" and n.n == "cells"]
        ok2 = all(any(f.cfg.dominates(a, n) for a in rc) for n in cells)
        if ("w", cname(f), ok and ok2) not in seen:
            seen.add(("w", cname(f), ok and ok2))
            chk.ob("search-restarts", "%s: reset before the walk" % cname(f), ok and ok2, f.at(),
                   "the walk starts wherever an earlier search stopped")
    chk.need("search-restarts", 3)


def closure_writes(P, f, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if f.id in seen or f.root is None:
        return set()
    seen.add(f.id)
    out = set()
    from c07 import is_write_target
    for n in f.nodes():
        if n.k == "MemberExpr" and n.dk == "Field" and n.kids and strip_casts(n.kids[0]).k == "CXXThisExpr":
            p, c = head(n)
            w = is_write_target(n)
            meth = p is not None and p.k == "MemberExpr" and p.parent is not None and p.parent.k in CALLS and p.parent.kids[0] is p
            if w or meth and p.n in ("clear", "assign", "push_back", "emplace_back", "insert", "erase", "resize", "pop_back", "swap",
                                     "discard", "seed") or \
                    p is not None and p.k == "CXXOperatorCallExpr" and (p.op == "=" and p.kids[1] is c or p.op == "()" and p.kids[1] is c) or \
                    p is not None and p.k in CALLS and not n.rv and p.k != "CXXOperatorCallExpr" and c is not p.kids[0] and \
                    any(byref(P, t, p, c) for t in P.targets(p)):
                out.add(n.n)
            # iterators handed to an algorithm that reorders
            if meth and p.n in ("begin", "end", "data"):
                q, d = head(p.parent)
                if q is not None and q.k in CALLS and q.n in ("shuffle", "sort", "stable_sort", "reverse", "partial_sort", "nth_element", "rotate", "iter_swap", "partition"):
                    out.add(n.n)
    for n in f.nodes():
        if n.k in CALLS:
            for t in P.targets(n):
                if t.defined and t.j.get("clsid") == f.j.get("clsid"):
                    out |= closure_writes(P, t, depth + 1, seen)
    return out


def byref(P, t, call, c):
    ks = call.kids[1:] if call.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else call.kids
    for i, k in enumerate(ks):
        if k is c and i < len(t.params):
            a, b = P.types[t.params[i]["t"]]
            s = a + " " + b
            return "&" in s and "const" not in s.split("&")[0]
    return False


def depends(P, f):
    """fields whose value on entry can matter to f (every load that is not certainly preceded by a full write)"""
    out = set()
    for n in f.nodes():
        if n.k == "MemberExpr" and n.dk == "Field":
            out.add(n.n)
    # arrays filled from scratch by a whole-array copy do not carry anything over
    for n in f.nodes():
        if n.k in CALLS and any(t.n in ("memcpy", "memset", "memmove", "fill_n", "fill", "copy", "copy_n") for t in P.targets(n)) and len(n.kids) > 3:
            fld = field_of(path(strip_casts(n.kids[-1 if n.n in ("copy", "copy_n") else 1])))
            if fld and all(f.cfg.dominates(n, y) for y in f.nodes() if y.k == "MemberExpr" and y.n == fld and not y.within(n)):
                out.discard(fld)
    return out


def reestablished(P, r, calls):
    """fields certainly given a fresh value before the first of `calls` in r"""
    out = set()
    for n in r.nodes():
        fld = None
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip_casts(n.kids[0 if n.k == "BinaryOperator" else 1])
            if l.k == "MemberExpr":
                fld = l.n
        elif n.k == "CXXMemberCallExpr" and n.kids[0] is not None and n.kids[0].k == "MemberExpr" and n.n in ("clear", "assign", "seed", "swap"):
            o = strip_casts(n.kids[0].kids[0]) if n.kids[0].kids else None
            if o is not None and o.k == "MemberExpr":
                fld = o.n
        if fld and all(r.cfg.dominates(n, c) for c in calls):
            out.add(fld)
        if n.k in CALLS and all(r.cfg.dominates(n, c) for c in calls) and n not in calls:
            for t in P.targets(n):
                if t.defined and t.root is not None and t.j.get("clsid") == r.j.get("clsid"):
                    ex = [x for x in t.nodes() if x.k == "ReturnStmt"]
                    if not ex:
                        out |= reestablished_all(P, t)
    return out


def reestablished_all(P, t):
    out = set()
    for n in t.nodes():
        fld = None
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip_casts(n.kids[0 if n.k == "BinaryOperator" else 1])
            fld = l.n if l.k == "MemberExpr" else None
        elif n.k == "CXXMemberCallExpr" and n.kids[0] is not None and n.kids[0].k == "MemberExpr" and n.n in ("clear", "assign", "seed"):
            o = strip_casts(n.kids[0].kids[0]) if n.kids[0].kids else None
            fld = o.n if o is not None and o.k == "MemberExpr" else None
        if fld and not any(u.k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "ConditionalOperator", "SwitchStmt") for u in n.up()):
            out.add(fld)
    return out


# ----------------------------------------------------------------------------------------------------- Python code
PYFILES = ["minorminer/minorminer.py", "minorminer/_minorminer.pyx", "minorminer/busclique.pyx", "minorminer/subgraph.pyx",
           "minorminer/utils/parallel_embeddings.py", "minorminer/utils/feasibility.py"]
RANDMODS = {"random", "numpy.random", "secrets", "uuid"}
CLOCKS = {"time", "perf_counter", "monotonic", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time", "thread_time", "now", "utcnow", "today"}
SEEDED = {"Random", "default_rng", "Generator", "RandomState", "PCG64", "SeedSequence"}
COMM = {"sorted", "len", "set", "frozenset", "any", "all", "sum", "bool", "isinstance"}
SETM = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SETSINK = {"update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
           "intersection_update", "difference_update", "symmetric_difference_update", "remove_nodes_from", "remove_edges_from", "subgraph",
           "add", "discard", "edge_subgraph"}
MUT = {"append", "add", "update", "pop", "popitem", "setdefault", "clear", "extend", "insert", "remove", "discard", "sort", "reverse", "__setitem__"}


def imports(tree):
    """local name -> dotted module or module.member"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(n, imp):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        base = imp.get(n.id)
        if base is None:
            return None
        return ".".join([base] + parts[::-1])
    return None


def seedlike(name):
    return name.lower().split("_")[-1] == "seed" or name.lower() in ("rng", "prng", "random_state")


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class Py(object):
    def __init__(self, chk, rel, mods):
        self.chk, self.rel, self.mods = chk, rel, mods
        self.m = mods[rel]
        self.imp = imports(self.m.tree)
        self.cl = set()

    def seeded(self):
        """functions reached from one that takes a seed (or from a class whose constructor does)"""
        fs = self.m.functions
        start = set()
        for q, fn in fs.items():
            if any(seedlike(p) for p in params(fn)) or fn.args.kwarg is not None and not q.startswith("_"):
                start.add(q)
            if q.rsplit(".", 1)[-1] in ("__init__", "__cinit__") and "." in q:
                c = q.rsplit(".", 1)[0]
                start |= {x for x in fs if x.startswith(c + ".")}
        names = {}
        for q in fs:
            names.setdefault(q.rsplit(".", 1)[-1], []).append(q)
        work, seen = list(start), set(start)
        while work:
            q = work.pop()
            for n in ast.walk(fs[q]):
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if nm in names:
                    for t in names[nm]:
                        if t not in seen:
                            seen.add(t)
                            work.append(t)
        # an entry of its own that takes no seed is not one of them
        return {q: fs[q] for q in seen if not (("." not in q) and q in fs and q not in start and not self.called(q, seen))}

    def called(self, q, seen):
        nm = q.rsplit(".", 1)[-1]
        return any(isinstance(n, ast.Name) and n.id == nm or isinstance(n, ast.Attribute) and n.attr == nm
                   for o in seen if o != q for n in ast.walk(self.m.functions[o]))

    def run(self):
        chk = self.chk
        fs = self.seeded()
        for q, fn in sorted(fs.items()):
            self.entropy(q, fn)
            self.sets(q, fn)
            self.state(q, fn)
            chk.count("Python functions")
        self.passing(fs)

    # -- randomness, clocks, hashes
    def entropy(self, q, fn):
        chk, m = self.chk, self.m
        I = pyai.Interp(m, resolve=None)
        I.inline = False
        try:
            evs = I.run(fn)
        except RecursionError:
            raise AnalysisBroken("no answer for %s" % q)
        calls = {}
        for e in evs:
            if e.kind == "call":
                calls.setdefault(id(e.node), []).append(e)
        n_bad = 0
        for n in own(fn):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func, self.imp)
            last = d.rsplit(".", 1)[-1] if d else None
            nm = n.func.id if isinstance(n.func, ast.Name) else None
            what = None
            if d and (d.startswith("random.") or d.startswith("numpy.random.") or d.startswith("secrets.") or d.startswith("uuid.") or
                      d in ("os.urandom", "os.getpid", "os.times", "os.getrandom", "threading.get_ident", "socket.gethostname")):
                what = d
            if nm in ("hash", "id") and nm not in self.imp and q.rsplit(".", 1)[-1] != "__hash__":
                what = nm
            if d and last in CLOCKS and d.split(".")[0] in ("time", "datetime"):
                self.clock(q, fn, n, evs)
                continue
            if what is None:
                continue
            if last in SEEDED:
                arg = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
                ok = arg is not None and any(isinstance(x, ast.Name) and (seedlike(x.id)) or isinstance(x, ast.Constant) and x.value is not None
                                             for x in ast.walk(arg))
                ok = ok or arg is not None and all(self.seed_term(t) for e in calls.get(id(n), ()) for t in ([e.a[1][0]] if e.a[1] else [("none",)]))
                ok = ok and not any(isinstance(x, ast.Call) and not self.harmless(x) for x in ast.walk(arg))
                chk.ob("python-randomness", "%s: %s" % (q, what), ok, m.where(n), "the generator is not built from the caller's seed")
                continue
            es = calls.get(id(n), ())
            ok = bool(es) and all(self.no_seed_given(e.conds) for e in es) and what not in ("hash", "id")
            chk.ob("python-randomness", "%s: %s" % (q, what), ok, m.where(n), "used although the caller may have given a seed")
            n_bad += not ok
        chk.ob("python-randomness", q, not n_bad, m.where(fn))

    def harmless(self, call):
        return isinstance(call.func, ast.Name) and call.func.id in ("int", "abs", "long")

    def seed_term(self, t):
        return any(x[0] == "param" and seedlike(str(x[1])) for x in pyai.subterms(t))

    def no_seed_given(self, conds):
        """the path condition says the seed is None (or the marker for 'not given')"""
        for c, pol in conds:
            for x, p in conj(c, pol):
                if x[0] == "cmp" and x[1] in ("is", "is not", "==", "!="):
                    pos = (x[1] in ("is", "==")) == bool(p)
                    a, b = x[2], x[3]
                    if b == ("const", None) or str(b).find("_no_seed") >= 0:
                        if pos and self.seedy(a):
                            return True
        return False

    def seedy(self, t):
        for x in pyai.subterms(t):
            if x[0] == "param" and seedlike(str(x[1])):
                return True
            if x[0] == "const" and isinstance(x[1], str) and seedlike(x[1]):
                return True
        return False

    def clock(self, q, fn, call, evs):
        """a clock reading is compared with the deadline, or becomes a (remaining) timeout; nothing else"""
        chk, m = self.chk, self.m
        if q in self.cl:
            return
        self.cl.add(q)
        def clockish(t):
            if isinstance(t, frozenset):
                return any(clockish(x) for x in t)
            if not isinstance(t, tuple) or not t:
                return False
            if t[0] == "call":
                if t[1][-1] in CLOCKS and not t[2]:
                    return True
                return t[1][-1] in ("max", "min", "float", "abs", "round", "int") and any(clockish(x) for x in t[2])
            return any(clockish(x) for x in t if isinstance(x, (tuple, frozenset)))
        bad = []
        for e in evs:
            if e.kind == "call":
                f, args, kws = e.a[0], e.a[1], e.a[2]
                if f[-1] in CLOCKS or f[-1] in ("max", "min", "float", "abs", "round") or f == ("name", "TimeoutError"):
                    continue
                if f[0] == "attr" and f[2] in ("format", "debug", "info", "warning", "warn"):
                    continue
                for a in args:
                    if clockish(a):
                        bad.append(e.node)
                for k, v in kws:
                    if clockish(v) and "timeout" not in str(k):
                        bad.append(e.node)
            elif e.kind in ("return", "yield") and any(clockish(a) for a in e.a if isinstance(a, tuple)):
                bad.append(e.node)
            elif e.kind in ("store_sub", "store_attr"):
                if clockish(e.a[-1]) and "timeout" not in repr(e.a[1]):
                    bad.append(e.node)
        # what the clock decides: only whether to stop
        for n in own(fn):
            if isinstance(n, (ast.If, ast.IfExp)):
                names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                if any(isinstance(x, ast.Call) and self.is_clock(x) for x in ast.walk(n.test)):
                    if isinstance(n, ast.IfExp) or not any(leaves(b) for b in (n.body, n.orelse)):
                        bad.append(n)
        chk.ob("python-clock", q, not bad, m.where(bad[0] if bad else fn),
               "the clock reaches something other than a timeout or a decision to stop" if bad else "")

    def is_clock(self, n):
        d = dotted(n.func, self.imp)
        return bool(d) and d.rsplit(".", 1)[-1] in CLOCKS and d.split(".")[0] in ("time", "datetime")

    # -- the order of sets
    def sets(self, q, fn):
        chk, m = self.chk, self.m
        names = set()
        for _ in range(4):
            k = len(names)
            for n in own(fn):
                tg, v = None, None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tg, v = n.targets[0], n.value
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                    tg, v = n.target, n.value
                if isinstance(tg, ast.Name) and v is not None and self.isset(v, names):
                    names.add(tg.id)
            if len(names) == k:
                break
        par = {}
        for n in ast.walk(fn):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        bad = []
        for n in own(fn):
            if not (isinstance(n, ast.expr) and self.isset(n, names)) or isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                continue
            p = par.get(n)
            ok = True
            if isinstance(p, ast.For) and p.iter is n:
                ok = all(commutes(s) for s in p.body)
            elif isinstance(p, ast.comprehension) and p.iter is n:
                c = par[p]
                ok = isinstance(c, ast.SetComp) or self.sink(par.get(c), c)
                if isinstance(c, ast.DictComp):
                    ok = False
            elif isinstance(p, ast.Call) and n in p.args:
                ok = self.sink(p, n) or not self.ordered(p)
            elif isinstance(p, ast.Starred):
                ok = self.sink(par.get(p), p)
            elif isinstance(p, (ast.Assign,)) and isinstance(p.targets[0], (ast.Tuple, ast.List)) and p.value is n:
                ok = len(p.targets[0].elts) == 1
            elif isinstance(p, ast.Attribute) and p.attr == "pop":
                ok = False
                q2 = p
                while q2 is not None and not isinstance(q2, ast.stmt):
                    q2 = par.get(q2)
                if isinstance(q2, ast.Raise):
                    ok = True       # only words the message of an error
            elif isinstance(p, ast.Return) or isinstance(p, ast.YieldFrom):
                ok = isinstance(p, ast.Return)
            if not ok:
                bad.append(n)
                chk.ob("set-order", "%s: %s" % (q, ast.unparse(n)[:50]), False, m.where(n),
                       "the order of a set (of labels) depends on hashing and on insertion history")
        chk.ob("set-order", q, not bad, m.where(fn))

    def isset(self, n, names):
        if isinstance(n, (ast.Set, ast.SetComp)):
            return True
        if isinstance(n, ast.Name):
            return n.id in names
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset"):
                return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in SETM:
                return self.isset(n.func.value, names)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("node_boundary", "edge_boundary", "descendants", "ancestors"):
                return True
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "iter", "enumerate", "reversed"):
                return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            keyish = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args
            return self.isset(n.left, names) or self.isset(n.right, names) or keyish(n.left) or keyish(n.right)
        if isinstance(n, ast.IfExp):
            return self.isset(n.body, names) or self.isset(n.orelse, names)
        return False

    @staticmethod
    def sink(p, c):
        """the consumer does not see an order"""
        if isinstance(p, ast.Call):
            if isinstance(p.func, ast.Name) and p.func.id in COMM:
                return True
            if isinstance(p.func, ast.Name) and p.func.id in ("min", "max"):
                return not p.keywords
            if isinstance(p.func, ast.Attribute) and p.func.attr in SETSINK:
                return True
        if isinstance(p, ast.Compare):
            return True
        return False

    @staticmethod
    def ordered(p):
        """the call turns its argument's order into something visible"""
        f = p.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        return nm in ("list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "reversed", "chain", "extend", "join", "dict", "array",
                      "fromkeys", "min", "max", "sample", "choice", "shuffle", "product", "permutations", "combinations", "from_iterable", "islice",
                      "add_nodes_from", "add_edges_from")

    # -- state between calls
    def state(self, q, fn):
        chk, m = self.chk, self.m
        top = {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        top[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                top[s.target.id] = s.value
        loc = set(params(fn))
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
        bad = []
        glob = set()
        for n in own(fn):
            if isinstance(n, ast.Global):
                glob |= set(n.names)
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                bad.append((n, "assigns the module variable %s" % n.id))
            tgt = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tgt = n.func.value
                if isinstance(tgt, ast.Name) and tgt.id in self.imp:
                    continue
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n.value
            while isinstance(tgt, (ast.Subscript, ast.Attribute)):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id not in loc and (tgt.id in top or tgt.id in self.imp or
                                                                    tgt.id in m.functions or tgt.id in m.classes):
                bad.append((n, "changes the module-level object %s" % tgt.id))
        a = fn.args
        pos = a.posonlyargs + a.args
        defs = list(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nm, d in defs:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                re_bound = any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store) for n in own(fn))
                for n in own(fn):
                    tgt = None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                        tgt = n.func.value
                    elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        tgt = n.value
                    if isinstance(tgt, ast.Name) and tgt.id == nm and not re_bound:
                        bad.append((n, "changes its own default argument %s" % nm))
        for d in getattr(fn, "decorator_list", ()):
            t = ast.unparse(d)
            if "cache" in t and "cached_property" not in t:
                bad.append((d, "results are remembered between calls"))
        for n, why in bad:
            chk.ob("python-state", "%s: %s" % (q, why), False, m.where(n), why)
        chk.ob("python-state", q, not bad, m.where(fn))

    # -- the seed is handed on
    def passing(self, fs):
        chk, m = self.chk, self.m
        takers = {}
        for rel, mm in self.mods.items():
            for q, fn in mm.functions.items():
                ps = [p for p in params(fn) if seedlike(p)]
                if ps:
                    nm = q.rsplit(".", 1)[-1]
                    if nm in ("__init__", "__cinit__"):
                        nm = q.rsplit(".", 2)[-2]
                        off = 1
                    else:
                        off = 1 if "." in q else 0
                    takers.setdefault((off == 1 and q.rsplit(".", 1)[-1] == nm, nm), (ps[0], params(fn).index(ps[0]) - off, rel, params(fn)))
        for q, fn in sorted(fs.items()):
            mine = {p for p in params(fn) if seedlike(p)}
            if not mine:
                continue
            der = set(mine)
            for _ in range(3):
                for n in own(fn):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                            any(isinstance(x, ast.Name) and x.id in der for x in ast.walk(n.value)):
                        der.add(n.targets[0].id)
            for n in own(fn):
                if not isinstance(n, ast.Call):
                    continue
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm in ("graphclass",):
                    nm = "_" + nm
                tk = takers.get((False, nm))
                if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in self.imp):
                    tk = takers.get((True, nm))
                if nm == "_graphclass":
                    tk = ("seed", 1, "", [])
                if tk is None or any(k.arg is None for k in n.keywords):
                    continue
                v = next((k.value for k in n.keywords if k.arg and seedlike(k.arg)), None)
                if v is None and 0 <= tk[1] < len(n.args):
                    v = n.args[tk[1]]
                ok = v is not None and any(isinstance(x, ast.Name) and x.id in der for x in ast.walk(v)) and \
                    not any(isinstance(x, ast.Call) and not self.harmless(x) for x in ast.walk(v))
                chk.ob("seed-passed", "%s -> %s" % (q, nm.lstrip("_")), ok, m.where(n), "the caller's seed does not reach %s" % nm)


def commutes(s):
    """a loop body whose rounds can run in any order: adding to sets, discarding, counting"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        return s.value.func.attr in ("add", "discard", "remove", "remove_node")
    if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.BitOr)) and isinstance(s.value, (ast.Constant, ast.Call)):
        return True
    if isinstance(s, ast.If):
        return all(commutes(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Raise) or isinstance(s, ast.Pass) or isinstance(s, ast.Continue):
        return True
    if isinstance(s, ast.Return):
        return s.value is None or isinstance(s.value, ast.Constant)
    return False


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Break, ast.Return, ast.Raise, ast.Continue))


def conj(c, pol):
    if isinstance(c, tuple) and c and c[0] == "not":
        return conj(c[1], not pol)
    if isinstance(c, tuple) and c and c[0] == "and" and pol:
        return [y for x in c[1] for y in conj(x, True)] if isinstance(c[1], tuple) and c[1] and isinstance(c[1][0], tuple) else [(c, pol)]
    if isinstance(c, tuple) and c and c[0] == "or" and not pol:
        return [y for x in c[1] for y in conj(x, False)] if isinstance(c[1], tuple) and c[1] and isinstance(c[1][0], tuple) else [(c, pol)]
    return [(c, pol)]


def own(fn):
    for s in fn.body if isinstance(fn.body, list) else [fn.body]:
        for n in ast.walk(s):
            yield n


def parser_seeds(chk, m):
    """every way through the option parser seeds the generator exactly from the given seed, or from the system when there is none"""
    best = None
    for q, fn in m.functions.items():
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "seed" for n in ast.walk(fn)):
            I = pyai.Interp(m)
            every = list(I.run(fn))
            evs = [e for e in every if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "seed"]
            refused = {(x, not p) for e in every if e.kind == "raise" for c, w in e.conds[-1:] for x, p in [(c, w)]}
            if evs:
                best = (q, fn, evs)
                given = none = False
                for e in evs:
                    arg = e.a[1][0] if e.a[1] else ("none",)
                    conds = [y for c, p in e.conds for y in conj(c, p)]
                    tests = [(x, p) for x, p in conds if x[0] == "cmp" and x[3] == ("const", None)]
                    other = [(x, p) for x, p in conds if (x, p) not in tests and (x, p) not in refused and x[0] != "for"]
                    if not tests and not other:
                        given = none = True
                    for x, p in tests:
                        if len(tests) == 1 and not other:
                            isnone = (x[1] in ("is", "==")) == bool(p)
                            if isnone:
                                none = True
                            else:
                                given = True
                chk.ob("python-randomness", "%s: seeds the generator on every path" % q, given and none, m.where(fn),
                       "a way through leaves the generator's state unset")
    if best is None:
        raise AnalysisBroken("no function seeds the native generator")


def make():
    chk = Check("C04", "dataflow: entropy sources, clock use, definite initialisation, hidden state, set order",
                "Every construct through which something other than the arguments and the seeded generator could reach a result is "
                "enumerated: calls into the system, clock readings and what is decided by them, mutable statics and globals, addresses used as "
                "values, fields/locals/arrays readable before they are set, generators without a seed, search state an earlier search left "
                "behind (native code), and unseeded randomness, set iteration order, module state and dropped seeds (Python and Cython).",
                ["standard-library algorithms and containers are deterministic for equal inputs in equal builds",
                 "networkx and the vendored subgraph solver are deterministic"])
    chk.rule("no-entropy", "a native function calls nothing whose value differs from run to run")
    chk.rule("clock-only-stops", "a clock reading becomes a deadline or is compared with one, and the answer only ends the search")
    chk.rule("no-hidden-state", "no native variable survives from one call to the next outside the objects the caller holds")
    chk.rule("no-addresses", "no address is converted to a number, hashed, or compared for order")
    chk.rule("initialised-local", "a local variable is given a value before it is read, on every path")
    chk.rule("initialised-array", "a heap array is value-initialised, or filled (or element-wise constructed) before it is read")
    chk.rule("initialised-field", "a field no constructor sets is written before it is read in every public call")
    chk.rule("seeded-generator", "every generator gets its whole state from a seed")
    chk.rule("search-restarts", "a fragment search starts from the same state whatever searches ran before on the same graph object")
    chk.rule("python-randomness", "unseeded randomness is used only where the caller gave no seed")
    chk.rule("python-clock", "a clock reading only becomes a timeout or a decision to stop")
    chk.rule("set-order", "no result depends on the iteration order of a set")
    chk.rule("python-state", "no function changes module-level objects or default arguments, or remembers results")
    chk.rule("seed-passed", "a function that takes a seed hands it to every function of the library it calls that takes one")
    for unit in ("_minorminer", "busclique"):
        N = Native(chk, unit)
        N.run()
        unset_fields(chk, N.P, unit)
        chk.count("native functions (%s)" % unit, len(N.fns))
    search_state(chk)
    mods = {rel: pyfront.load(rel) for rel in PYFILES}
    for rel in PYFILES:
        Py(chk, rel, mods).run()
    parser_seeds(chk, mods["minorminer/_minorminer.pyx"])
    chk.need("no-entropy", 100)
    chk.need("clock-only-stops", 2)
    chk.need("initialised-array", 4)
    chk.need("seeded-generator", 4)
    chk.need("set-order", 30)
    chk.need("seed-passed", 3)
    return chk


if __name__ == "__main__":
    main(make)
