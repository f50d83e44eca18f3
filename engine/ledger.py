"""Ledger analysis of the chain data structure (no solver: value numbering and counting along control-flow paths).

Accounts kept along every path:
  w[q]        chains gained minus occupancy gained for qubit q          (must stay 0)
  r[c,q]      reference-count gain minus gain of parents and links at q  (must stay 0)
  sym[a,b]    whether chain a ends up linked to b                        (must agree with sym[b,a])
  bulk        containers moved or emptied as a whole                     (data and links move together)
A function whose accounts do not balance is expanded into its callers.
"""
from cpp import CALLS
from common import AnalysisBroken
from flow import strip_casts

LIMIT = 30000
MUTATORS = {"emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint", "erase", "clear", "swap", "extract",
            "merge", "assign", "resize", "push_back", "emplace_back"}


def ctype(n):
    t = n.type.replace("const ", "").replace("&", "").strip()
    return t


def canon_type(t):
    return t.replace(" ", "")


def is_chain(t):
    t = t.replace("const ", "").replace("&", "").replace("*", "").strip()
    return t in ("find_embedding::chain", "chain")


ZERO = (("k", "0"), ("k", 0))
MINUS1 = (("minus", ("k", "1")), ("k", "-1"))


class State(object):
    __slots__ = ("env", "memo", "led", "sym", "ver", "known", "par", "loops", "saved", "fresh", "dead", "linked")

    def __init__(self):
        self.env, self.memo, self.led, self.sym, self.ver = {}, {}, {}, {}, {}
        self.known, self.par, self.loops, self.saved, self.linked = {}, {}, {}, (), ()
        self.fresh = self.dead = False

    def copy(self):
        s = State()
        s.env, s.memo, s.led, s.sym, s.ver = dict(self.env), dict(self.memo), dict(self.led), dict(self.sym), dict(self.ver)
        s.known, s.par, s.loops, s.saved, s.fresh = dict(self.known), dict(self.par), dict(self.loops), self.saved, self.fresh
        s.linked = self.linked
        return s

    def add(self, key, d, why=None):
        v = self.led.get(key, 0) + d
        if v:
            self.led[key] = v
        else:
            self.led.pop(key, None)

    def version(self, C):
        if self.fresh and C not in self.ver and C[2] and C[1][0] in ("at", "each"):
            return "empty" if C[0] == "L" else ("v0", C)      # chains of an embedding under construction have no links yet
        return self.ver.get(C, ("v0", C))


class Frame(object):
    def __init__(self, fn, this):
        self.fn, self.this = fn, this


class Ledger(object):
    def __init__(self, P, fresh=()):
        self.P = P
        self.fresh = set(fresh)
        self.summ = {}
        self.linked = {}
        self.shifts = set()
        self.busy = set()
        self.steps = 0
        self.paths = 0

    # ------------------------------------------------------------ containers
    def container(self, n, st, fr):
        """('D'|'L'|'W', owner value, is-chain) for an expression naming a ledger container"""
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == "MemberExpr" and n.dk == "Field":
            t = canon_type(ctype(n))
            q = n.q or ""
            cls = q.rsplit("::", 2)[-2] if "::" in q else ""
            if t == "std::unordered_map<int,std::pair<int,int>>" and cls in ("chain", "frozen_chain"):
                return ("D", self.val(n.kids[0], st, fr) if n.kids else fr.this, cls == "chain")
            if t == "std::unordered_map<int,int>" and cls in ("chain", "frozen_chain"):
                return ("L", self.val(n.kids[0], st, fr) if n.kids else fr.this, cls == "chain")
            if t == "std::vector<int>" and n.n in ("qubit_weight", "qub_weight"):
                return ("W", None, True)
        if n.k == "DeclRefExpr":
            v = st.env.get(n.d)
            if isinstance(v, tuple) and v and v[0] == "cont":
                return v[1]
            if n.dk == "ParmVar" and canon_type(ctype(n)) == "std::vector<int>" and n.n in ("w",):
                return None
        if n.k in CALLS or n.k in ("UnaryOperator",):
            v = self.val(n, st, fr)
            if isinstance(v, tuple) and v and v[0] == "cont":
                return v[1]
        return None

    def label(self, obj, fr):
        if isinstance(obj, tuple) and obj[0] == "at":
            return obj[2]
        return ("fld", obj, "label")

    def canon(self, v, st, fr):
        return v

    # ------------------------------------------------------------ values
    def val(self, n, st, fr):
        n = strip_casts(n)
        if n is None:
            return ("none",)
        if (fr, n.i) in st.memo:
            return st.memo[(fr, n.i)]
        k = n.k
        if k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "InitListExpr") and len(n.kids) == 1:
            return self.val(n.kids[0], st, fr)
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            return ("k", {"true": 1, "false": 0}.get(n.v, n.v))
        if k == "CXXThisExpr":
            return fr.this
        if k == "DeclRefExpr":
            if n.d in st.env:
                return st.env[n.d]
            return ("var", n.d, n.n)
        if k == "MemberExpr":
            c = self.container(n, st, fr)
            if c is not None:
                return ("cont", c)
            b = self.val(n.kids[0], st, fr) if n.kids else fr.this
            return self.member(b, n.n, st, fr)
        if k == "UnaryOperator":
            if n.op in ("*", "&"):
                b = self.val(n.kids[0], st, fr)
                if n.op == "*" and isinstance(b, tuple) and b[0] == "it":
                    st.known.setdefault(("absent", b[1], b[2]), False)
                    return ("node", b[1], b[2])
                return b
            if n.op == "~":
                x = self.val(n.kids[0], st, fr)
                return x[1] if x[0] == "neg" else ("neg", x)
            if n.op == "-":
                return ("minus", self.val(n.kids[0], st, fr))
            if n.op == "!":
                return ("not", self.val(n.kids[0], st, fr))
            if n.op in ("++", "--"):
                return ("upd", n.i, self.val(n.kids[0], st, fr))
        if k == "ArraySubscriptExpr":
            return self.at(self.val(n.kids[0], st, fr), self.val(n.kids[1], st, fr), st, fr)
        if k == "BinaryOperator":
            if n.op == "=":
                return self.val(n.kids[0], st, fr)
            a, b = self.val(n.kids[0], st, fr), self.val(n.kids[1], st, fr)
            if n.op == "-" and b == ("k", "1") and a[0] == "minus":
                x = a[1]
                return x[1] if x[0] == "neg" else ("neg", x)
            if n.op == "+" and b in MINUS1 and a[0] == "minus" and a not in MINUS1:
                return a[1][1] if a[1][0] == "neg" else ("neg", a[1])
            if n.op == "-" and a in MINUS1:
                return b[1] if b[0] == "neg" else ("neg", b)
            return self.op(n.op, a, b)
        if k == "CXXOperatorCallExpr":
            if n.op == "*" or n.op == "->":
                b = self.val(n.kids[1], st, fr)
                if b[0] == "it":
                    st.known.setdefault(("absent", b[1], b[2]), False)
                    return ("node", b[1], b[2])
                return b
            if n.op == "[]":
                return self.at(self.val(n.kids[1], st, fr), self.val(n.kids[2], st, fr), st, fr)
            if n.op in ("==", "!="):
                return self.op(n.op, self.val(n.kids[1], st, fr), self.val(n.kids[2], st, fr))
            if n.op in ("=",):
                return self.val(n.kids[1], st, fr)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [self.val(a, st, fr) for a in n.kids]
            if "pair" in (n.cls or "") and len(args) == 2:
                return ("pair", args[0], args[1])
            if len(args) == 1:
                return args[0]
            return ("new", n.i)
        if k == "InitListExpr" and len(n.kids) == 2:
            return ("pair", self.val(n.kids[0], st, fr), self.val(n.kids[1], st, fr))
        if k == "CXXMemberCallExpr":
            return self.call_val(n, st, fr)
        if k == "CallExpr":
            if n.n in ("make_pair",):
                return ("pair", self.val(n.kids[1], st, fr), self.val(n.kids[2], st, fr))
            if n.n in ("move", "forward", "ref", "cref", "as_const") and len(n.kids) == 2:
                return self.val(n.kids[1], st, fr)
            if n.n in ("max", "min"):
                return (n.n,) + tuple(self.val(a, st, fr) for a in n.kids[1:])
            inl = self.single(n, st, fr)
            if inl is not None:
                return inl
        if k == "ConditionalOperator":
            return ("cond", n.i)
        return ("expr", fr.fn.id, n.i)

    def op(self, op, a, b):
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if y[0] == "end" and x[0] == "it":
                    v = ("absent", x[1], x[2])
                    return v if op == "==" else ("not", v)
            for x, y in ((a, b), (b, a)):
                if x in ZERO and y[0] == "not" and y[1][0] == "absent":
                    return y[1] if op == "==" else y          # count(q) == 0
            x, y = sorted((a, b), key=repr)
            v = ("eq", x, y)
            return v if op == "==" else ("not", v)
        if op in ("<", ">", "<=", ">="):
            if op == ">":
                return ("lt", b, a)
            if op == "<=":
                return ("not", ("lt", b, a))
            if op == ">=":
                return ("not", ("lt", a, b))
            return ("lt", a, b)
        if op in ("+", "*", "&", "|"):
            return (op,) + tuple(sorted((a, b), key=repr))
        return (op, a, b)

    def member(self, b, name, st, fr):
        t = b[0] if isinstance(b, tuple) and b else None
        if name in ("first", "second"):
            i = 0 if name == "first" else 1
            if t == "slot":
                if i == 0:
                    return st.par.get((b[1], b[2]), ("par", b[1], b[2]))
                return ("refval", b[1], b[2])
            if t == "node":
                C, key = b[1], b[2]
                if i == 0:
                    return key
                return ("slot", C[1], key) if C[0] == "D" else ("lval", C[1], key, C[2])
            if t == "emp":
                return ("inserted", b[1]) if i else ("it", b[2], b[3])
            if t == "pair":
                return b[1 + i]
        if name == "label" and t == "at":
            return b[2]
        return ("fld", b, name)

    def at(self, base, idx, st, fr):
        if base[0] == "cont":
            C = base[1]
            if C[0] == "D":
                return ("slot", C[1], idx)
            if C[0] == "L":
                return ("lval", C[1], idx, C[2])
            return ("weight", idx)
        if idx[0] == "upd0":
            for L, d in st.loops.items():
                if d.get("index") == idx and d.get("over") == base:
                    return d["elem"]
        return ("at", base, idx)

    def obj_of(self, n):
        if n.k == "CXXMemberCallExpr" and n.kids and n.kids[0] is not None and n.kids[0].k == "MemberExpr":
            return n.kids[0].kids[0] if n.kids[0].kids else None
        return None

    def call_val(self, n, st, fr):
        o = self.obj_of(n)
        C = self.container(o, st, fr) if o is not None else None
        args = n.kids[1:]
        if C is not None and C[0] in "DL":
            if n.n == "find":
                return ("it", C, self.val(args[0], st, fr))
            if n.n in ("end", "cend"):
                return ("end", C)
            if n.n in ("begin", "cbegin"):
                return ("begin", C)
            if n.n in ("count", "contains"):
                return ("not", ("absent", C, self.val(args[0], st, fr)))
            if n.n == "at":
                return self.at(("cont", C), self.val(args[0], st, fr), st, fr)
            if n.n in ("size", "empty"):
                return (n.n, st.version(C))
        elif n.n == "at" and args:
            return self.at(self.val(o, st, fr), self.val(args[0], st, fr), st, fr)
        if n.n in ("begin", "end", "cbegin", "cend") and o is not None:
            return (n.n.lstrip("c"), self.val(o, st, fr))
        if n.n == "var_neighbors" and args:
            return ("nbrlist", self.val(args[0], st, fr))
        inl = self.single(n, st, fr)
        if inl is not None:
            return inl
        return ("call", n.n, self.val(o, st, fr) if o is not None else None) + tuple(
            self.val(a, st, fr) for a in args if a is not None)

    def single(self, n, st, fr):
        """value of a call to a library function whose body is one return statement"""
        ts = [t for t in self.P.targets(n) if t.defined and t.root is not None]
        if len(ts) != 1:
            return None
        f = ts[0]
        body = [x for x in f.root.kids if x is not None and x.k != "NullStmt"]
        if len(body) != 1 or body[0].k != "ReturnStmt" or not body[0].kids:
            return None
        if f.id in self.busy or len(self.busy) > 12:
            return None
        o = self.obj_of(n)
        this = self.val(o, st, fr) if o is not None else fr.this
        s2 = st.copy()
        for p, a in zip(f.params, n.kids[1:]):
            s2.env[p["d"]] = self.val(a, st, fr)
        self.busy.add(f.id)
        try:
            return self.val(body[0].kids[0], s2, Frame(f, this))
        finally:
            self.busy.discard(f.id)

    # ------------------------------------------------------------ primitive effects
    def kill(self, st, obj):
        for a in [a for a in st.known if a[0] in ("absent", "eq", "inserted") and mentions(a, obj)]:
            if a[0] != "inserted":
                del st.known[a]

    def link_set(self, st, fr, C, key, q, present):
        obj = C[1]
        if C[2]:
            a = self.label(obj, fr)
            st.sym[(a, key)] = "P" if present else "A"
            st.add(("r", obj, q), -1 if present else 1)
            if present:
                owners = self.owners(st, q)
                st.linked += ((obj, key, q, None if not owners else obj in owners),)

    def owners(self, st, q):
        """chains the path established to contain qubit q"""
        out = set()
        for a, v in st.known.items():
            if v is False and a[0] == "absent" and a[2] == q and a[1][0] == "D" and a[1][2]:
                out.add(a[1][1])
        if q[0] == "each":
            v = q[1]
            while isinstance(v, tuple) and v and v[0] in ("mod", "sub"):
                v = v[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "v0" and v[1][0] == "D" and v[1][2]:
                out.add(v[1][1])
            else:
                return set()                  # rebuilt on this path: whose qubit it is was not followed
        elif q[0] == "lval" and q[3]:
            out.add(q[1])
        elif q[0] == "par":
            out.add(q[1])
        return out

    def effects(self, n, st, fr):
        """states after executing element n (fork on unknown insertion)"""
        k = n.k
        if k == "UnaryOperator" and n.op in ("++", "--") or k == "CompoundAssignOperator" and n.op in ("+=", "-="):
            d = 1 if n.op in ("++", "+=") else -1
            if k == "CompoundAssignOperator":
                v = self.val(n.kids[1], st, fr)
                if v[0] == "k" and str(v[1]).lstrip("-").isdigit():
                    d *= int(v[1])
                else:
                    d = None
            self.bump(n.kids[0], d, st, fr)
            return [st]
        if k == "BinaryOperator" and n.op == "=":
            return self.assign(n.kids[0], n.kids[1], st, fr)
        if k == "CXXOperatorCallExpr" and n.op == "=":
            C = self.container(n.kids[1], st, fr)
            if C is not None:
                src = self.container(n.kids[2], st, fr)
                if C[0] == "W":
                    st.add(("w", ("all",)), -1)
                else:
                    self.bulk_assign(C, src, st, fr)
                return [st]
            v = self.val(n.kids[1], st, fr)
            if v[0] in ("lval", "slot", "weight"):
                return self.assign(n.kids[1], n.kids[2], st, fr)
            l = strip_casts(n.kids[1])
            if l is not None and l.k == "DeclRefExpr" and l.dk in ("Var", "ParmVar") and not self.target_fns(n):
                st.env[l.d] = self.val(n.kids[2], st, fr)
                return [st]
        if k == "DeclStmt":
            for v in n.kids:
                if v is not None and v.k == "Var":
                    x = self.val(v.kids[0], st, fr) if v.kids and v.kids[0] is not None else ("uninit", v.d)
                    if x[0] == "expr":
                        x = ("var", v.d, v.n)
                    if x[0] in ("slot", "node") and "&" not in v.wtype and "&" not in v.type:
                        x = ("pair", self.member(x, "first", st, fr), self.member(x, "second", st, fr)) \
                            if x[0] == "slot" else ("nodecopy", x)
                        if x[0] == "nodecopy":
                            x = ("pair", self.member(x[1], "first", st, fr), self.member(x[1], "second", st, fr))
                    st.env[v.d] = x
                    for b in v.kids[1:]:
                        if b is not None and b.k == "Binding":
                            pass
            return [st]
        if k == "CXXMemberCallExpr":
            o = self.obj_of(n)
            C = self.container(o, st, fr) if o is not None else None
            if C is not None:
                return self.container_call(C, n, st, fr)
        if k in CALLS:
            return self.call(n, st, fr)
        return [st]

    def bump(self, lv, d, st, fr):
        lv = strip_casts(lv)
        v = self.val(lv, st, fr)
        if v[0] == "weight":
            st.add(("w", v[1]), -(d if d is not None else 99))
        elif v[0] == "refval" and lv.k == "MemberExpr":
            st.add(("r", v[1], v[2]), d if d is not None else 99)
            st.known.pop(("eq", ("k", "0"), v), None)
        elif v[0] == "lval":
            st.add(("r", v[1], ("changed", v[2])), 1)
        elif lv.k == "DeclRefExpr":
            x = st.env.get(lv.d)
            if x is not None and x[0] == "weight":
                st.add(("w", x[1]), -(d if d is not None else 99))
            elif x is not None and x[0] == "refval":
                st.add(("r", x[1], x[2]), d if d is not None else 99)
            else:
                st.env[lv.d] = ("upd", lv.i, fr.fn.id)

    def assign(self, lv, rv, st, fr):
        l = strip_casts(lv)
        r = self.val(rv, st, fr)
        if l.k == "DeclRefExpr" and l.dk in ("Var", "ParmVar"):
            cur = st.env.get(l.d)
            if "&" in (l.wtype or "") and cur is not None and cur[0] in ("weight", "refval"):
                st.add((("w", cur[1]) if cur[0] == "weight" else ("r", cur[1], cur[2])), 99)
            else:
                st.env[l.d] = r
            return [st]
        v = self.val(l, st, fr)
        if v[0] == "weight":
            st.add(("w", v[1]), 99)
        elif v[0] == "refval" and l.k == "MemberExpr":
            st.add(("r", v[1], v[2]), 99)
        elif v[0] == "lval":
            C = ("L", v[1], v[3])
            if not v[3]:
                return self.keep(C, v[2], r, st, fr) or [st]
            self.overwrite(C, v[2], st)
            self.link_set(st, fr, C, v[2], r, True)
            st.known[("absent", C, v[2])] = False
            st.ver[C] = ("mod", st.version(C), n_id(lv))
        elif v[0] == "slot":
            C = ("D", v[1], True)
            atom = ("absent", C, v[2])
            out = []
            if st.known.get(atom) is not True:
                s = st.copy()
                s.add(("r", v[1], v[2]), 99)
                out.append(s)
            if st.known.get(atom) is not False:
                self.insert(C, v[2], r, lv, st, fr)
                self.kill(st, C)
                st.known[atom] = False
                out.append(st)
            return out
        elif l.k == "MemberExpr" and l.n == "first":
            b = self.val(l.kids[0], st, fr)
            if b[0] == "slot":
                old = self.member(b, "first", st, fr)
                st.add(("r", b[1], old), 1)
                st.add(("r", b[1], r), -1)
                st.par[(b[1], b[2])] = r
        return [st]

    def insert(self, C, key, value, n, st, fr):
        st.ver[C] = ("mod", st.version(C), n.i) if not (C[0] == "L" and isinstance(st.version(C), tuple) and st.version(C)[0] == "sub") else st.version(C)
        if C[0] == "D":
            if C[2]:
                st.add(("w", key), 1)
                pv = value if value[0] == "pair" else ("pair", ("unknown", n.i), ("unknown", n.i))
                st.add(("r", C[1], pv[1]), -1)
                if pv[2][0] == "k":
                    st.add(("r", C[1], key), int(pv[2][1]))
                else:
                    st.add(("r", C[1], key), 99)
                st.par[(C[1], key)] = pv[1]
        else:
            self.link_set(st, fr, C, key, value, True)

    def keep(self, C, key, value, st, fr):
        """frozen storage: remember what is saved under a reversed key"""
        if key[0] == "neg":
            st.saved += (("reverse", value),)
        elif value[0] == "lval" and value[2] == key:
            st.ver[C] = ("sub", st.version(("L", value[1], value[3])))

    def overwrite(self, C, key, st):
        a = self.member(C[1], "label", st, None)
        if st.known.get(("absent", C, key)) is True and (a, key) not in st.sym and (key, a) not in st.sym:
            for k, v in st.known.items():
                if v is False and k[0] == "absent" and k[1][0] == "L" and k[1][2] and k[2] == a and k[1] != C \
                        and self.member(k[1][1], "label", st, None) == key:
                    st.dead = True            # linked on one side only before the operation began: not reachable
                    return
        if st.known.get(("absent", C, key)) is False:
            if (a, key) not in st.sym and (key, a) not in st.sym and self.no_link(st, key, a):
                st.dead = True                # linked on one side only before the operation began: not reachable
                return
            st.add(("r", C[1], ("a link that was replaced without being dropped", key)), 1)

    def container_call(self, C, n, st, fr):
        args = [a for a in n.kids[1:] if a is not None]
        name = n.n
        if C[0] == "W":
            if name in ("clear", "assign", "swap", "resize", "push_back", "emplace_back"):
                st.add(("w", ("all",)), -1)
            return [st]
        if name in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
            vs = [self.val(a, st, fr) for a in args]
            if len(vs) == 1:
                v = vs[0]
                if v[0] == "node":
                    # a whole element of another map
                    key, value = v[2], self.member(v, "second", st, fr)
                elif v[0] == "pair":
                    key, value = v[1], v[2]
                elif C[0] == "L" and v[0] in ("var",):
                    key, value = ("fld", v, "first"), ("fld", v, "second")
                else:
                    key, value = ("fld", v, "first"), ("fld", v, "second")
            elif len(vs) == 2:
                key, value = vs
            elif len(vs) == 3 and C[0] == "D":
                key, value = vs[0], ("pair", vs[1], vs[2])
            else:
                key, value = ("unknown", n.i), ("unknown", n.i)
            if C[0] == "L" and value[0] == "lval" and value[2] == key and key[0] == "nbrs":
                # a whole element of another link table
                if C[2]:
                    st.sym[(self.label(C[1], fr), key)] = "P"
                st.ver[C] = ("sub", st.version(("L", value[1], value[3])))
                return [st]
            if not C[2]:
                self.keep(C, key, value, st, fr)
                return [st]
            if C[0] == "L":
                self.overwrite(C, key, st)
                self.insert(C, key, value, n, st, fr)
                self.kill(st, C)
                st.known[("absent", C, key)] = False
                return [st]
            atom = ("absent", C, key)
            st.memo[(fr, n.i)] = ("emp", (fr.fn.id, n.i), C, key)
            ins = ("inserted", (fr.fn.id, n.i))
            fresh = st.version(C) == "empty" and not st.loops
            out = []
            if st.known.get(atom) is not False:
                s = st.copy()
                self.insert(C, key, value, n, s, fr)
                self.kill(s, C)
                s.known[atom] = False
                s.known[ins] = True
                out.append(s)
            if st.known.get(atom) is not True and not fresh:
                s = st.copy()
                s.known[atom] = False
                s.known[ins] = False
                out.append(s)
            return out
        if name == "erase":
            v = self.val(args[0], st, fr)
            key = v[2] if v[0] in ("it", "node") else v
            if not C[2]:
                return [st]
            atom = ("absent", C, key)
            if v[0] not in ("it", "node") and st.known.get(atom) is None:
                s = st.copy()
                s.known[atom] = True
                out = [s]
            elif st.known.get(atom) is True:
                return [st]
            else:
                out = []
            s = st.copy()
            if C[0] == "D":
                s.add(("w", key), -1)
                par = s.par.get((C[1], key), ("par", C[1], key))
                s.add(("r", C[1], par), 1)
                if s.known.get(("eq", ("k", "0"), ("refval", C[1], key))) is not True:
                    s.add(("r", C[1], ("dropped while referenced", key)), 1)
            else:
                self.link_set(s, fr, C, key, ("lval", C[1], key, C[2]), False)
            s.ver[C] = ("mod", s.version(C), n.i)
            self.kill(s, C)
            s.known[atom] = True
            out.append(s)
            return out
        if name == "clear":
            self.empty(C, st, fr)
            return [st]
        if name == "swap":
            D = self.container(args[0], st, fr)
            if D is None:
                self.empty(C, st, fr)
                st.add(("w", ("unknown", n.i)), 1)
                return [st]
            a, b = st.version(C), st.version(D)
            self.move(C, b, st, fr)
            self.move(D, a, st, fr)
            return [st]
        if name in ("extract", "merge", "assign"):
            st.add(("w", ("unknown", n.i)), 99)
        return [st]

    def empty(self, C, st, fr):
        self.move(C, "empty", st, fr)

    def each(self, ver):
        return ("each", ver)

    def move(self, C, ver, st, fr):
        """container C takes the content of version ver"""
        old = st.version(C)
        if C[2]:
            if C[0] == "D":
                if old != "empty":
                    st.add(("w", self.each(old)), -1)
                if ver != "empty":
                    st.add(("w", self.each(ver)), 1)
                for key in [x for x in st.led if x[0] == "r" and x[1] == C[1]]:
                    del st.led[key]
                for key in [x for x in st.par if x[0] == C[1]]:
                    del st.par[key]
            else:
                a = self.label(C[1], fr)
                if old != "empty":
                    st.sym[(a, ("nbrs", a))] = "A"
                if ver != "empty":
                    st.sym[(a, ("nbrs", a))] = "P"
        st.ver[C] = ver
        self.kill(st, C)
        st.known = {a: v for a, v in st.known.items() if not mentions(a, C)}

    def bulk_assign(self, C, src, st, fr):
        if src is None:
            self.move(C, ("unknown", C), st, fr)
        else:
            self.move(C, st.version(src), st, fr)

    # ------------------------------------------------------------ calls
    def target_fns(self, n):
        return [t for t in self.P.targets(n) if t.defined and t.root is not None and t.j.get("cfg") and
                t.file.startswith("include/")]

    def call(self, n, st, fr):
        ts = self.target_fns(n)
        if not ts:
            return [st]
        f = ts[0]
        if f.p.startswith("std::"):
            return [st]
        if self.open(f):
            o = self.obj_of(n)
            if n.k == "CXXOperatorCallExpr" and f.kind == "method":
                this, args = self.val(n.kids[1], st, fr), n.kids[2:]
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                this, args = ("new", n.i), n.kids
            else:
                this, args = (self.val(o, st, fr) if o is not None else fr.this), n.kids[1:]
            s = st.copy()
            for p, a in zip(f.params, args):
                s.env[p["d"]] = self.val(a, st, fr) if a is not None else ("default", p["d"])
            out = []
            for s2, rv in self.execute(f, this, s):
                s2.memo[(fr, n.i)] = rv
                s2.loops = dict(st.loops)
                out.append(s2)
            return out
        # closed: no net effect; it may have changed the contents of chains it was given
        o = self.obj_of(n)
        if not f.j.get("const") and o is not None and is_chain(o.type) and not self.quiet(f):
            ob = self.val(o, st, fr)
            for a in [a for a in st.known if mentions(a, ob)]:
                del st.known[a]
        return [st]

    def quiet(self, f):
        """f only looks at the ledger containers (it may hand out references into them)"""
        if not hasattr(f, "_quiet"):
            f._quiet = True
            for x in f.nodes():
                if x.k in ("CompoundAssignOperator",) or x.k == "BinaryOperator" and x.op == "=" \
                        or x.k == "UnaryOperator" and x.op in ("++", "--") \
                        or x.k == "CXXOperatorCallExpr" and x.op in ("=", "++", "--", "+=", "-="):
                    f._quiet = False
                if x.k == "CXXMemberCallExpr" and x.n in MUTATORS:
                    f._quiet = False
            if f._quiet:
                for n, ts in self.P.calls(f):
                    for t in ts:
                        if t.defined and t.root is not None and t.file.startswith("include/") and not self.quiet(t):
                            f._quiet = False
        return f._quiet

    def touches(self, f):
        """f, or something it calls, works on the ledger containers"""
        if not hasattr(f, "_touch"):
            f._touch = False
            hit = False
            for x in f.nodes():
                if x.k == "MemberExpr" and x.dk == "Field" and x.q and (
                        x.q.startswith("find_embedding::chain::") and x.n not in ("label",) or
                        x.q.startswith("find_embedding::frozen_chain::")):
                    hit = True
                    break
                if x.k == "MemberExpr" and x.dk == "Field" and x.n == "qub_weight":
                    hit = True
                    break
            if not hit:
                for n, ts in self.P.calls(f):
                    if any(t.defined and t.root is not None and not t.p.startswith("std::") and self.touches(t) for t in ts):
                        hit = True
                        break
            f._touch = hit
        return f._touch

    def open(self, f):
        return bool(self.problems(f)) or f.id in self.shifts

    def problems(self, f):
        if f.id in self.summ:
            return self.summ[f.id]
        if not self.touches(f) or f.id in self.busy:
            return []
        if f.kind == "method" and f.j.get("const") and not (is_chain(f.j.get("cls") or f.p.rsplit("::", 1)[0]) and f.cfg and
                                                            len(f.cfg.blocks) < 8 and f.ret in ("int", "bool")):
            self.summ[f.id] = []
            return []
        self.busy.add(f.id)
        try:
            st = State()
            for p in f.params:
                st.env[p["d"]] = ("var", p["d"], p["n"])
            out = []
            st.fresh = f.kind == "ctor" and not is_chain(f.j.get("cls") or "")
            for s, rv in self.execute(f, ("this", f.id), st, top=True):
                out += self.judge(s, f)
                for x in s.linked:
                    self.linked.setdefault(f.id, set()).add(x)
                if s.sym or f.j.get("const") and s.known or any(not (isinstance(v, tuple) and v[0] in ("mod", "v0")) for v in s.ver.values()) or s.saved:
                    self.shifts.add(f.id)
            self.summ[f.id] = sorted(set(out))
        finally:
            self.busy.discard(f.id)
        return self.summ[f.id]

    def pre(self, f, this, st):
        """documented preconditions"""
        if f.p in ("find_embedding::chain::set_root", "find_embedding::chain::thaw"):
            st.ver[("D", this, True)] = "empty"
            st.ver[("L", this, True)] = "empty"
            # (a chain emptied before already carries its own account)

    def judge(self, s, f):
        out = []
        led = {}
        for key, d in s.led.items():
            k = self.rep(s, key)
            led[k] = led.get(k, 0) + d
        for key, d in led.items():
            if not d:
                continue
            if key[0] == "w":
                out.append("occupancy of %s is off by %s" % (show(key[1]), d if abs(d) < 50 else "an unknown amount"))
            else:
                out.append("reference count of %s is off by %s" % (show(key[2]), d if abs(d) < 50 else "an unknown amount"))
        for (a, b), v in s.sym.items():
            if a == b or self.same(a, b, s):
                continue
            w = s.sym.get((b, a))
            if w is None and isinstance(b, tuple) and b[0] == "nbrs":
                w = s.sym.get((("nbrs", a), a))
            if w is None and v == "A" and self.no_link(s, b, a):
                w = "A"
            if w != v:
                out.append("the link of %s to %s is %s on one side only" % (show(a), show(b), "recorded" if v == "P" else "removed"))
        objs = {C[1] for C in s.ver if C[2]} | {C[1] for C in s.ver}
        for o in objs:
            for ch in (True, False):
                D, L = s.ver.get(("D", o, ch)), s.ver.get(("L", o, ch))
                if D is None and L is None:
                    continue
                d = ("v0", ("D", o, ch)) if D is None else D
                l = ("v0", ("L", o, ch)) if L is None else L
                if not ch and d == "empty":
                    continue
                if not ch and l == "empty" or not ch and l == ("v0", ("L", o, ch)) and d != ("v0", ("D", o, ch)):
                    out.append("the links of the chain kept in %s are not kept with it" % show(o))
                    continue
                if not ch and d[0] == "v0" and d[1][2] and not any(
                        x[0] == "reverse" and (x[1][0] == "lval" and x[1][2] == self.member(d[1][1], "label", s, None)
                                               or x[1][0] in ("k", "minus")) for x in s.saved):
                    out.append("the links neighbouring chains had to the chain kept in %s are not kept with it" % show(o))
                if not paired(d, l, o):
                    out.append("qubits and links of %s no longer belong together" % show(o))
        return out

    def rep(self, s, key):
        """account key with its qubit replaced by a representative of the values known equal to it"""
        q = key[-1]
        seen, work = {q}, [q]
        while work:
            x = work.pop()
            for a, v in s.known.items():
                if v is True and a[0] == "eq" and x in (a[1], a[2]):
                    for y in (a[1], a[2]):
                        if y not in seen and y[0] != "k":
                            seen.add(y)
                            work.append(y)
        return key[:-1] + (min(seen, key=repr),)

    def no_link(self, s, owner, key):
        """the path established that chain `owner` holds no link for `key`"""
        for a, v in s.known.items():
            if v is True and a[0] == "absent" and a[1][0] == "L" and a[1][2] and a[2] == key \
                    and self.member(a[1][1], "label", s, None) == owner:
                return True
        return False

    def same(self, a, b, s):
        x, y = sorted((a, b), key=repr)
        return s.known.get(("eq", x, y)) is True

    # ------------------------------------------------------------ execution
    def loop_info(self, fn):
        if not hasattr(fn, "_ledger_loops"):
            cfg = fn.cfg
            dom = cfg.dominators()
            heads = {}
            for b in dom:
                for s in cfg.succ[b]:
                    if s in dom.get(b, ()):
                        body = heads.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x not in body:
                                body.add(x)
                                work.extend(cfg.pred[x])
            info = {}
            stmts = {n.i: n for n in fn.nodes() if n.k in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt")}
            for h, body in heads.items():
                st = stmts.get(cfg.blocks[h].get("ti"))
                assigned = set()
                for b in body:
                    for e in cfg.blocks[b]["e"]:
                        n = fn.index.get(e) if isinstance(e, int) else None
                        if n is None:
                            continue
                        t = None
                        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                            t = strip_casts(n.kids[0])
                        elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                            t = strip_casts(n.kids[0])
                        elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "++", "--", "+="):
                            t = strip_casts(n.kids[1])
                        if t is not None and t.k == "DeclRefExpr":
                            assigned.add(t.d)
                info[h] = (st, body, assigned)
            fn._ledger_loops = info
        return fn._ledger_loops

    def elem(self, rng, st, fr, n):
        """value of the element of a bulk loop over range value rng"""
        if rng[0] == "cont":
            C = rng[1]
            ver = st.version(C)
            if C[0] == "D":
                return ("node", C, self.each(ver))
            if C[0] == "L":
                owner = C[1] if C[2] else fr.this
                return ("node", C, ("nbrs", self.label(owner, fr)))
            return ("each", rng)
        if rng[0] == "nbrlist":
            return ("nbrs", rng[1])
        if n is not None and is_chain(n.type):
            C = ("D", rng, True)
            return self.each(st.version(C))
        return ("each", rng)

    def for_pattern(self, stmt, st, fr):
        """(kind, var decl, range value, range node) for an iterator or index loop over a whole container"""
        init = stmt.kids[0] if stmt.kids else None
        if init is None or init.k != "DeclStmt":
            return None
        for v in init.kids:
            if v is None or v.k != "Var" or not v.kids or v.kids[0] is None:
                continue
            x = self.val(v.kids[0], st, fr)
            if x[0] == "begin":
                return ("iter", v.d, ("cont", x[1]) if len(x[1]) == 3 and x[1][0] in ("D", "L") else x[1])
            if x == ("k", "0") or x == ("k", 0):
                cond = [c for c in stmt.kids[1:] if c is not None and c.k in ("BinaryOperator",)]
                for c in cond:
                    if c.op in ("<", "!="):
                        z = strip_casts(c.kids[1])
                        if z is not None and z.k == "CXXMemberCallExpr" and z.n == "size":
                            o = self.obj_of(z)
                            return ("index", v.d, self.val(o, st, fr))
        return None

    def execute(self, fn, this, st, top=False):
        """all (state, return value) pairs; loops must balance per round, whole-container loops count once per element"""
        fr = Frame(fn, this)
        self.pre(fn, this, st)
        cfg, idx = fn.cfg, fn.index
        info = self.loop_info(fn)
        out = []
        work = [(cfg.entry, st, None)]
        seen_exit = {}
        bulk_diff, bulk_break = {}, {}
        count = 0
        while work:
            b, s, rv = work.pop()
            count += 1
            self.steps += 1
            if count > LIMIT:
                raise AnalysisBroken("path limit in %s" % fn.p)
            # leaving loops early
            for h in [h for h in s.loops if h[0] is fr and b not in info[h[1]][1]]:
                d = s.loops[h]
                if not d.get("done"):
                    bulk_break[h[1]] = True
                s.loops.pop(h)
            if b == cfg.exit:
                out.append((s, rv if rv is not None else ("void",)))
                self.paths += 1
                continue
            blk = cfg.blocks[b]
            if b in info:
                stmt, body, assigned = info[b]
                hk = (fr, b)
                if hk not in s.loops:
                    d = {"led": dict(s.led), "sym": dict(s.sym)}
                    if stmt is not None and stmt.k == "CXXForRangeStmt":
                        d["bulk"] = True
                    elif stmt is not None and stmt.k == "ForStmt":
                        # header reached after the initialiser ran: look at it once more
                        pat = self.for_pattern(stmt, s, fr)
                        if pat is not None:
                            d["bulk"] = True
                            d["var"] = pat[1]
                            if pat[0] == "iter":
                                rng = pat[2]
                                e = self.elem(rng, s, fr, None)
                                if rng[0] != "cont" and rng[0] != "nbrlist":
                                    e = ("each", rng)
                                s.env[pat[1]] = ("it", e[1], e[2]) if e[0] == "node" else e
                            else:
                                d["index"], d["over"] = ("upd0", pat[1]), pat[2]
                                d["elem"] = self.elem(pat[2], s, fr, None)
                                s.env[pat[1]] = d["index"]
                    for a in assigned:
                        if not (d.get("bulk") and a == d.get("var")):
                            s.env[a] = ("loop", b, a)
                    s.loops[hk] = d
                else:
                    d = s.loops[hk]
                    diff = {}
                    for k in set(s.led) | set(d["led"]):
                        rk = self.rep(s, k)
                        diff[rk] = diff.get(rk, 0) + s.led.get(k, 0) - d["led"].get(k, 0)
                    diff = {k: v for k, v in diff.items() if v}
                    if d.get("bulk"):
                        # self-link: nothing to record
                        if d.get("self") and not diff and s.sym == d["sym"]:
                            continue
                        if d.get("phase") == 1:
                            d = dict(d)
                            d["phase"] = 2
                            s.loops[hk] = d
                            s.known = {a: v for a, v in s.known.items() if a[0] != "lt"}
                        else:
                            if diff or s.sym != d["sym"]:
                                bulk_diff[b] = True
                            d = dict(d)
                            d["done"] = True
                            s.loops[hk] = d
                    else:
                        if diff:
                            for k, v in diff.items():
                                s.add(("w" if k[0] == "w" else "r",) + ((("each round of a loop", k[1]),) if k[0] == "w" else
                                                                      (k[1], ("each round of a loop", k[2]))), v)
                            out.append((s, ("loop",)))
                        newsym = {k: v for k, v in s.sym.items() if d["sym"].get(k) != v}
                        bad = [k for k, v in newsym.items() if s.sym.get((k[1], k[0])) != v and k[0] != k[1]]
                        if bad:
                            out.append((s, ("loop",)))
                        continue
            states = [(s, rv)]
            for e in blk["e"]:
                new = []
                if isinstance(e, dict):
                    d = e.get("decl")
                    for s1, r1 in states:
                        if d is not None:
                            for (f2, h), L in list(s1.loops.items()):
                                stmt = info.get(h, (None,))[0] if f2 is fr else None
                                if stmt is not None and stmt.k == "CXXForRangeStmt":
                                    var = [x for x in stmt.kids if x is not None and x.k == "Var" and x.d == d]
                                    if var:
                                        rn = [x for x in stmt.kids if x is not None and x is not var[0]][0]
                                        rng = self.val(rn, s1, fr)
                                        ev = self.elem(rng, s1, fr, rn)
                                        if L.get("phase") == 2 and ev[0] == "node":
                                            ev = ("node", ev[1], ("neg", ev[2]))
                                        s1.env[d] = ev
                    continue
                n = idx.get(e)
                if n is None:
                    continue
                dead = False
                for s1, r1 in states:
                    if n.k == "CXXThrowExpr":
                        continue
                    for s2 in self.effects(n, s1, fr):
                        if s2.dead:
                            dead = True
                            continue
                        r2 = r1
                        if n.k == "ReturnStmt" and n.kids and n.kids[0] is not None:
                            r2 = self.val(n.kids[0], s2, fr)
                        new.append((s2, r2))
                states = new if new or dead or n.k == "CXXThrowExpr" else states
                if not states:
                    break
            if blk.get("nr"):
                continue
            raw = blk["s"]
            cond = idx.get(blk["tc"]) if "tc" in blk else None
            for s1, r1 in states:
                hk = (fr, b)
                d = s1.loops.get(hk) if b in info else None
                if d is not None and d.get("bulk") and len(raw) == 2:
                    body = info[b][1]
                    tgt = [x for x in raw if x is not None and ((x in body) != bool(d.get("done")))]
                    for t in tgt:
                        s2 = s1.copy()
                        if d.get("done"):
                            s2.loops[hk] = dict(d, done=True)
                        work.append((t, s2, r1))
                    continue
                if len(raw) == 2 and cond is not None and blk.get("tk") not in ("SwitchStmt", "CXXForRangeStmt", "CXXTryStmt"):
                    c = cond
                    if blk.get("tk") == "BinaryOperator" and c.k == "BinaryOperator" and c.op in ("&&", "||") and c.i == blk.get("ti"):
                        c = c.kids[0]
                    c = strip_casts(c)
                    while c.k == "BinaryOperator" and c.op in ("&&", "||"):
                        c = strip_casts(c.kids[1])
                    atom, pol = self.atom(self.val(c, s1, fr))
                    for t, truth in ((raw[0], True), (raw[1], False)):
                        if t is None or t not in cfg.succ[b]:
                            continue
                        want = truth == pol
                        if atom is None:
                            if (truth == pol) is False:
                                continue
                            s2 = s1.copy()
                        else:
                            k = self.decide(atom, s1)
                            if k is not None and k != want:
                                continue
                            s2 = s1.copy()
                            if not self.learn(s2, atom, want, fr):
                                continue
                        work.append((t, s2, r1))
                else:
                    for t in raw:
                        if t is not None and t in cfg.succ[b]:
                            work.append((t, s1.copy(), r1))
        for b in bulk_diff:
            if bulk_break.get(b):
                s = State()
                s.led[("w", ("a loop that may stop half way",))] = 1
                out.append((s, ("void",)))
        # merge equal outcomes
        uniq = {}
        for s, r in out:
            key = (frozenset(s.led.items()), frozenset(s.sym.items()), frozenset((k, repr(v)) for k, v in s.ver.items()), r,
                   frozenset(s.known.items()), frozenset(s.par.items()), s.linked, frozenset((k, v) for k, v in s.env.items()))
            uniq.setdefault(key, (s, r))
        return list(uniq.values())

    def atom(self, v):
        pol = True
        while v[0] == "not":
            v, pol = v[1], not pol
        if v[0] == "k":
            return None, str(v[1]) not in ("0", "false") if pol else str(v[1]) in ("0", "false")
        return v, pol

    def decide(self, atom, s):
        if atom in s.known:
            return s.known[atom]
        if atom[0] == "eq" and atom[1] == atom[2]:
            return True
        # a parent/ref value compared with zero etc. stay unknown
        if atom[0] == "lt" and atom[1][0] == "lval" and atom[2] in ZERO:
            return False                      # qubits are numbered from zero
        if atom[0] == "lt" and atom[2][0] == "lval" and atom[1] in MINUS1:
            return True
        if atom[0] == "eq" and (atom[1][0] == "lval" and atom[2] in MINUS1 or atom[2][0] == "lval" and atom[1] in MINUS1):
            return False
        if atom[0] == "eq" and atom[1] in MINUS1 and atom[2] in MINUS1:
            return True
        if atom[0] == "lt" and atom[1] in MINUS1 and atom[2] in ZERO:
            return True
        if atom[0] == "lt":
            for L in s.loops.values():
                if L.get("phase") in (1, 2):
                    key = self.sign_key(atom)
                    if key is not None:
                        neg = key[0] == "neg"
                        if atom[2] in ZERO or atom[1] in MINUS1:
                            return neg if atom[2] in ZERO else not neg
                        if atom[1] in ZERO and neg:
                            return False
        return None

    @staticmethod
    def sign_key(atom):
        for a, z in ((atom[1], atom[2]), (atom[2], atom[1])):
            if (z in ZERO or z in MINUS1 and z == atom[1]) and isinstance(a, tuple) and (
                    a[0] == "nbrs" or a[0] == "neg" and a[1][0] == "nbrs"):
                return a
        return None

    def learn(self, s, atom, want, fr):
        if atom[0] == "lt" and self.sign_key(atom) is not None:
            key = self.sign_key(atom)
            neg_now = want if atom[2] in ZERO else not want
            if atom[1] in ZERO and not want and any(L.get("phase") in (None, 1) and L.get("bulk") for L in s.loops.values()) \
                    and key[0] != "neg":
                return True                   # key 0 is neither above zero nor reversed
            hs = [h for h in s.loops if s.loops[h].get("bulk")]
            if hs:
                h = hs[-1]
                if s.loops[h].get("phase") is None:
                    if neg_now:
                        return False          # first round: keys of the chain's own links
                    s.loops[h] = dict(s.loops[h], phase=1)
            return True
        s.known[atom] = want
        if atom[0] == "eq" and want:
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "nbrs" and x[1] == y:
                    for h in s.loops:
                        s.loops[h] = dict(s.loops[h], self=True)
        return True


def n_id(n):
    return n.i


def paired(d, l, who=None):
    if d == "empty" and l == "empty":
        return True
    if l == "empty" and isinstance(d, tuple) and d[0] == "v0":
        return d[1][1] == who
    if isinstance(d, tuple) and isinstance(l, tuple):
        while d[0] == "mod":
            d = d[1]
        while l[0] == "mod":
            l = l[1]
        if d == "empty" or l == "empty" and d[1][1] == who:
            return True
        if l == "empty":
            return False
        if l[0] == "sub":
            l = l[1]
        if d[0] == "v0" and l[0] == "v0":
            return d[1][1] == l[1][1]
    if isinstance(d, tuple) and d[0] == "mod" or isinstance(l, tuple) and l[0] == "mod":
        b1 = d
        while isinstance(b1, tuple) and b1[0] == "mod":
            b1 = b1[1]
        b2 = l
        while isinstance(b2, tuple) and b2[0] == "mod":
            b2 = b2[1]
        return b1 == b2 == "empty" or paired(b1, b2) if (b1, b2) != (d, l) else False
    return False


def mentions(a, x):
    if a == x:
        return True
    return isinstance(a, tuple) and any(mentions(y, x) for y in a)


def writes_const(f):
    return False


def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "var":
        return v[2] or "a local"
    if k == "this":
        return "this chain"
    if k == "each":
        return "every qubit of " + show(v[1])
    if k == "v0":
        return show(v[1][1])
    if k == "nbrs":
        return "the neighbours of " + show(v[1])
    if k == "fld":
        return show(v[1]) + "." + str(v[2])
    if k == "at":
        return "chain " + show(v[2])
    if k == "par":
        return "the parent of " + show(v[2])
    if k == "lval":
        return "the qubit linking to " + show(v[2])
    if k == "k":
        return str(v[1])
    if k == "cont":
        return show(v[1][1])
    return " ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[:3])
