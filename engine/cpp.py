"""C++ program facts for /repo: generation (Cython -> C++ -> mmfacts) and queries.

The facts are regenerated from /repo's working tree on every run and cached under
/verif/build keyed by the content hash of every input file.
"""
import json
import os
import shutil
import subprocess
import tempfile
import fcntl
from collections import defaultdict

from common import REPO, VERIF, AnalysisBroken, content_hash

BUILD = os.path.join(VERIF, "build")
PY = "/opt/minorminer-venv/bin/python"
LLVM = "/usr/lib/llvm-18"
GXX = "/usr/bin/g++"
CLANGXX = LLVM + "/bin/clang++"
TOOL_SRC = os.path.join(VERIF, "engine", "mmfacts.cpp")


def _env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tool():
    out = os.path.join(BUILD, "mmfacts-" + content_hash([TOOL_SRC])[:12])
    if os.path.exists(out):
        return out
    with Lock("tool"):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp"
        r = subprocess.run(
            [GXX, "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
             TOOL_SRC, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1",
             "-l:libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"],
            capture_output=True, text=True, env=_env())
        if r.returncode:
            raise AnalysisBroken("mmfacts did not build:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


CLANG_ARGS = ["-std=c++17", "-resource-dir", LLVM + "/lib/clang/18", "-I" + REPO,
              "-I" + REPO + "/include", "-I" + REPO + "/include/find_embedding",
              "-I" + REPO + "/minorminer", "-I/usr/include/python3.12", "-include", "memory", "-w"]

UNITS = {
    "_minorminer": "minorminer/_minorminer.pyx",
    "busclique": "minorminer/busclique.pyx",
}


def _inputs():
    out = [TOOL_SRC]
    for top in ("include", "minorminer"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            if "__pycache__" in d:
                continue
            for f in fs:
                if f.endswith((".hpp", ".h", ".pyx", ".pxi", ".pxd")):
                    out.append(os.path.join(d, f))
    return out


def cythonize(unit, outdir):
    """Generate the C++ the build compiles.  Returns its path."""
    src = UNITS[unit]
    dst = os.path.join(outdir, unit + ".cpp")
    r = subprocess.run([PY, "-m", "cython", "--cplus", "-3", os.path.join(REPO, src), "-o", dst],
                       capture_output=True, text=True, env=_env(), cwd=REPO)
    if r.returncode:
        raise AnalysisBroken("cython failed on %s:\n%s" % (src, r.stderr[-3000:]))
    return dst


def run_tool(src, prefixes, out, extra=()):
    r = subprocess.run([tool(), out, ",".join(prefixes), src, "--"] + CLANG_ARGS + list(extra),
                       capture_output=True, text=True, env=_env())
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken("mmfacts failed on %s:\n%s" % (src, r.stderr[-3000:]))


def raw_facts(unit):
    key = content_hash(_inputs())
    out = os.path.join(BUILD, "facts-%s-%s.json" % (unit, key))
    if not os.path.exists(out):
        with Lock("facts-" + unit):
            if not os.path.exists(out):
                old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-%s-" % unit)),
                             key=os.path.getmtime)
                for f in old[:-12]:
                    os.remove(f)
                tmpd = tempfile.mkdtemp(prefix="mmfacts.", dir=BUILD)
                try:
                    c = cythonize(unit, tmpd)
                    tmp = os.path.join(tmpd, "o.json")
                    run_tool(c, [REPO + "/include", REPO + "/minorminer", tmpd], tmp)
                    os.rename(tmp, out)
                finally:
                    shutil.rmtree(tmpd, ignore_errors=True)
    with open(out) as f:
        return json.load(f)


class Node(object):
    __slots__ = ("j", "k", "kids", "parent", "fn", "i")

    def __init__(self, j, parent, fn):
        self.j = j
        self.k = j["k"]
        self.i = j.get("i")
        self.parent = parent
        self.fn = fn
        self.kids = [Node(c, self, fn) if c is not None else None for c in j.get("c", ())]

    def __getattr__(self, a):
        try:
            return object.__getattribute__(self, "j").get(a)
        except AttributeError:
            raise AttributeError(a)

    @property
    def line(self):
        return self.j.get("l", 0)

    @property
    def type(self):
        return self.fn.prog.types[self.j["t"]][1] if "t" in self.j and self.j["t"] >= 0 else ""

    @property
    def wtype(self):
        return self.fn.prog.types[self.j["t"]][0] if "t" in self.j and self.j["t"] >= 0 else ""

    @property
    def etype(self):
        t = self.j.get("et", -1)
        return self.fn.prog.types[t][1] if t is not None and t >= 0 else ""

    def walk(self):
        yield self
        for c in self.kids:
            if c is not None:
                for x in c.walk():
                    yield x

    def up(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def within(self, anc):
        n = self
        while n is not None:
            if n is anc:
                return True
            n = n.parent
        return False

    def child_of(self, anc):
        """the direct child of anc that contains self"""
        n = self
        while n is not None and n.parent is not anc:
            n = n.parent
        return n

    def at(self):
        return "%s:%d" % (self.fn.file, self.line)

    def __repr__(self):
        return "<%s %s %s>" % (self.k, self.j.get("n") or self.j.get("op") or self.j.get("v") or "", self.at())

    def text(self, depth=6):
        return render(self, depth)


def render(n, depth=8):
    if n is None:
        return ""
    if depth <= 0:
        return "..."
    k = n.k
    R = lambda x: render(x, depth - 1)
    ks = n.kids
    if k == "DeclRefExpr":
        return n.n
    if k == "MemberExpr":
        b = ks[0] if ks else None
        if b is None or b.k == "CXXThisExpr":
            return n.n
        return R(b) + "." + n.n
    if k == "CXXThisExpr":
        return "this"
    if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
        return str(n.v)
    if k == "StringLiteral":
        return json.dumps(n.v)
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "%s %s %s" % (R(ks[0]), n.op, R(ks[1]))
    if k == "UnaryOperator":
        return (R(ks[0]) + n.op) if n.post else (n.op + R(ks[0]))
    if k == "CXXOperatorCallExpr":
        a = ks[1:]
        if n.op == "[]":
            return "%s[%s]" % (R(a[0]), R(a[1]))
        if n.op == "()":
            return "%s(%s)" % (R(a[0]), ", ".join(R(x) for x in a[1:]))
        if len(a) == 2:
            return "%s %s %s" % (R(a[0]), n.op, R(a[1]))
        return "%s%s" % (n.op, R(a[0]) if a else "")
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (R(ks[0]), R(ks[1]))
    if k in ("CallExpr", "CXXMemberCallExpr"):
        return "%s(%s)" % (R(ks[0]), ", ".join(R(x) for x in ks[1:]))
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        if len(ks) == 1:
            return R(ks[0])
        return "%s(%s)" % (n.cls, ", ".join(R(x) for x in ks))
    if k == "ConditionalOperator":
        return "%s ? %s : %s" % tuple(R(x) for x in ks[:3])
    if k == "Var":
        return n.n + (" = " + R(ks[0]) if ks else "")
    if k.endswith("CastExpr") or k in ("CXXDefaultArgExpr", "ExprWithCleanups"):
        return R(ks[0]) if ks else ""
    if k == "LambdaExpr":
        return "[lambda]"
    return "%s(%s)" % (k, ", ".join(R(x) for x in ks if x is not None))


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
         "CXXTemporaryObjectExpr", "UserDefinedLiteral")


class Func(object):
    def __init__(self, j, prog, defined):
        self.j = j
        self.prog = prog
        self.id = j["id"]
        self.q = j["q"]
        self.p = j["p"]
        self.n = j["n"]
        self.kind = j.get("kind")
        self.cls = j.get("cls", "")
        self.defined = defined
        self.file = prog.files[j["file"]] if "file" in j else ""
        self.line = j.get("line", 0)
        self.params = j.get("params", [])
        self._root = None
        self._idx = None
        self._inits = None
        self._cfg = None

    def __repr__(self):
        return "<F %s>" % self.p

    def at(self):
        return "%s:%d" % (self.file, self.line)

    @property
    def noexcept(self):
        return self.j.get("noexcept", False)

    @property
    def ret(self):
        t = self.j.get("ret", -1)
        return self.prog.types[t][1] if t >= 0 else ""

    def ptype(self, i):
        return self.prog.types[self.params[i]["t"]][1]

    @property
    def root(self):
        if self._root is None and self.defined:
            b = self.j.get("body")
            self._root = Node(b, None, self) if b else None
            self._inits = []
            for it in self.j.get("inits", ()):
                if it.get("e"):
                    self._inits.append((it, Node(it["e"], None, self)))
        return self._root

    @property
    def inits(self):
        self.root
        return self._inits or []

    def nodes(self):
        r = self.root
        for it, e in self.inits:
            for x in e.walk():
                yield x
        if r is not None:
            for x in r.walk():
                yield x

    @property
    def index(self):
        if self._idx is None:
            self._idx = {}
            for x in self.nodes():
                if x.i is not None:
                    self._idx[x.i] = x
        return self._idx

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def short(self):
        return self.p


class CFG(object):
    def __init__(self, fn):
        c = fn.j.get("cfg")
        if not c:
            raise AnalysisBroken("no CFG for %s" % fn.p)
        self.fn = fn
        self.entry, self.exit = c["entry"], c["exit"]
        # `int a = .., b = ..;` is split by the CFG builder: give each declaration a statement of its own
        multi = {}
        for x in fn.nodes():
            if x.k == "DeclStmt" and sum(1 for v in x.kids if v is not None) > 1:
                for v in x.kids:
                    if v is not None and v.k == "Var":
                        multi[v.d] = (x, v)
        if multi:
            nxt = max(fn.index) + 1
            for b in c["blocks"]:
                for n, e in enumerate(b["e"]):
                    if isinstance(e, dict) and e.get("decl") in multi:
                        x, v = multi[e["decl"]]
                        p = Node({"k": "DeclStmt", "i": nxt, "l": x.j.get("l", 0)}, x.parent, fn)
                        p.kids = [v]
                        fn.index[nxt] = p
                        b["e"][n] = nxt
                        nxt += 1
        self.blocks = {b["b"]: b for b in c["blocks"]}
        self.succ = {b["b"]: [s for s in b["s"] if s is not None] for b in c["blocks"]}
        # drop the edge a constant condition (while (1), if (false)) never takes
        for b in c["blocks"]:
            ss = b["s"]
            if len(ss) == 2 and None not in ss and b["e"] and isinstance(b["e"][-1], int):
                n = fn.index.get(b["e"][-1])
                if n is not None and n.k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
                    truth = str(n.v).lower() not in ("0", "false")
                    self.succ[b["b"]] = [ss[0] if truth else ss[1]]
        self.pred = defaultdict(list)
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.pos = {}
        for b in c["blocks"]:
            for n, e in enumerate(b["e"]):
                if isinstance(e, int):
                    self.pos.setdefault(e, (b["b"], n))
        self._dom = None

    def where(self, node):
        """(block, index) of the CFG element for node, or of its nearest enclosing element."""
        n = node
        while n is not None:
            if n.i in self.pos:
                return self.pos[n.i]
            n = n.parent
        return None

    def elems(self, b):
        return self.blocks[b]["e"]

    def reach(self, start, stop):
        """blocks/points reachable from (block,index) exclusive without crossing stop(block,index,elem).
        Returns (reached_points set of (b,i), reaches_exit, back_to_start)"""
        seen = set()
        pts = set()
        work = [(start[0], start[1] + 1)]
        hit_exit = False
        first = True
        while work:
            b, i = work.pop()
            es = self.blocks[b]["e"]
            blocked = False
            while i < len(es):
                if stop(b, i, es[i]):
                    blocked = True
                    break
                pts.add((b, i))
                i += 1
            if blocked:
                continue
            if b == self.exit:
                hit_exit = True
                continue
            for s in self.succ[b]:
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return pts, hit_exit

    def dominators(self):
        if self._dom is None:
            order = []
            seen = set()

            def dfs(b):
                st = [(b, iter(self.succ[b]))]
                seen.add(b)
                while st:
                    x, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(self.succ[s])))
                            break
                    else:
                        order.append(x)
                        st.pop()
            dfs(self.entry)
            order.reverse()
            full = set(order)
            dom = {b: set(full) for b in order}
            dom[self.entry] = {self.entry}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == self.entry:
                        continue
                    ps = [dom[p] for p in self.pred[b] if p in dom]
                    nd = set.intersection(*ps) | {b} if ps else {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        """node a's element dominates node b's element"""
        pa, pb = self.where(a), self.where(b)
        if pa is None or pb is None:
            return False
        if pa[0] == pb[0]:
            return pa[1] <= pb[1]
        return pa[0] in self.dominators().get(pb[0], ())


class Program(object):
    def __init__(self, unit):
        j = raw_facts(unit)
        self.unit = unit
        self.types = j["types"]
        self.files = [os.path.normpath(f).replace(REPO + "/", "") for f in j["files"]]
        self.files = [f if not f.startswith("/verif/build") and "mmfacts." not in f else unit + ".cpp(generated)"
                      for f in self.files]
        self.funcs = {}
        self.by_p = defaultdict(list)
        for f in j["functions"]:
            F = Func(f, self, True)
            self.funcs[F.id] = F
            self.by_p[F.p].append(F)
        self.ext = {}
        for f in j["ext"]:
            F = Func(f, self, False)
            self.ext[F.id] = F
        self.records = {r["id"]: r for r in j["records"]}
        self.globals = j["globals"]
        self.overriders = defaultdict(set)
        for F in list(self.funcs.values()) + list(self.ext.values()):
            for o in F.j.get("ov", ()):
                self.overriders[o].add(F.id)
        self._callers = None

    def func(self, fid):
        return self.funcs.get(fid) or self.ext.get(fid)

    def lib(self):
        """functions defined in /repo/include"""
        return [f for f in self.funcs.values() if f.file.startswith("include/")]

    def find(self, suffix):
        """defined functions whose pattern name ends with suffix"""
        out = []
        for p, fs in self.by_p.items():
            if p == suffix or p.endswith("::" + suffix):
                out.extend(fs)
        return out

    def targets(self, call):
        """callee functions of a call node (virtual calls resolved to every overrider)"""
        fid = call.j.get("f")
        if fid is None:
            return []
        out = []
        base = self.func(fid)
        if base is not None:
            out.append(base)
        if call.j.get("virt"):
            work = [fid]
            seen = {fid}
            while work:
                for o in self.overriders.get(work.pop(), ()):
                    if o not in seen:
                        seen.add(o)
                        work.append(o)
                        g = self.func(o)
                        if g:
                            out.append(g)
        return out

    def calls(self, fn):
        """(call node, [targets]) of a defined function, lambdas' bodies excluded"""
        for n in fn.nodes():
            if n.k in CALLS:
                yield n, self.targets(n)

    def lambdas(self, fn):
        for n in fn.nodes():
            if n.k == "LambdaExpr" and n.j.get("f") in self.funcs:
                yield n, self.funcs[n.j["f"]]

    def callees(self, fn, with_lambdas=True):
        out = set()
        for n, ts in self.calls(fn):
            out.update(t.id for t in ts)
        if with_lambdas:
            for n, l in self.lambdas(fn):
                out.add(l.id)
        # implicit destructors are not calls: ignored here
        return out

    def reachable(self, roots, stop=lambda f: False):
        seen = {}
        work = [(r.id, None) for r in roots]
        while work:
            fid, via = work.pop()
            if fid in seen:
                continue
            seen[fid] = via
            F = self.funcs.get(fid)
            if F is None or stop(F):
                continue
            for c in self.callees(F):
                if c not in seen:
                    work.append((c, fid))
        return seen

    def callers(self):
        if self._callers is None:
            self._callers = defaultdict(list)
            for F in self.funcs.values():
                for n, ts in self.calls(F):
                    for t in ts:
                        self._callers[t.id].append((F, n))
                for n, l in self.lambdas(F):
                    self._callers[l.id].append((F, n))
        return self._callers


_progs = {}


def program(unit):
    if unit not in _progs:
        _progs[unit] = Program(unit)
    return _progs[unit]
