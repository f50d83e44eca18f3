"""C13: the busclique cache files survive concurrent use and interruption."""
import ast, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import pyfront, pyai
from pyai import Interp, alts, show, subterms, mentions, const_truth

pyai.CAP = 60
REL = "minorminer/busclique.pyx"
SELF = ("param", "self")
ROOTS = ("cache_rootdir", "user_data_dir")
MISSING = {"FileNotFoundError", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException"}
LOCKS = ("InterProcessLock", "FileLock")


def callee(t):
    return t[1][-1] if t[0] == "call" and isinstance(t[1][-1], str) else None


def in_cache(t):
    return any(x[0] == "call" and callee(x) in ROOTS for x in subterms(t))


def comps(t):
    """path components: the directory is all but the last"""
    if t[0] == "call" and t[1][0] == "attr":
        n = t[1][2]
        if n == "join":
            return [c for a in t[2] for c in comps(a)]
        if n in ("Path", "PurePath", "fspath", "abspath", "expanduser") and t[2]:
            return [c for a in t[2] for c in comps(a)]
        if n == "dirname" and t[2]:
            return comps(t[2][0])[:-1]
        if n == "joinpath":
            return comps(t[1][1]) + [c for a in t[2] for c in comps(a)]
        if n in ("with_suffix", "with_name"):
            return comps(t[1][1])[:-1] + [t]
    if t[0] == "call" and t[1][0] == "name" and t[1][1] in ("str", "Path") and len(t[2]) == 1 and in_cache(t[2][0]):
        return comps(t[2][0])
    if t[0] == "attr" and t[2] == "parent":
        return comps(t[1])[:-1]
    if t[0] == "op" and t[1] == "/":
        return comps(t[2]) + comps(t[3])
    if t[0] == "op" and t[1] == "+":
        if in_cache(t[2]):
            return comps(t[2])[:-1] + [t]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "format" and t[1][1][0] == "const" or t[0] == "op" and t[1] == "%" and t[2][0] == "const":
        fmt, args = (t[1][1][1], t[2]) if t[0] == "call" else (t[2][1], t[3][1] if t[3][0] == "tuple" else (t[3],))
        inner = [x for x in args if in_cache(x)]
        if inner and isinstance(fmt, str):
            lead = fmt[:2]
            if args[0] == inner[0] and lead in ("{}", "%s", "{0"):
                rest = fmt[2:].lstrip("}")
                return comps(inner[0]) + [t] if rest.startswith("/") else comps(inner[0])[:-1] + [t]
    if t[0] in ("attr", "item"):
        c = t[1]
        if c[0] == "call" and callee(c) in ("NamedTemporaryFile", "mkstemp", "mktemp"):
            d = [v for k, v in c[3] if k == "dir"]
            return (comps(d[0]) if d else []) + [t]
    if t[0] in ("fstr", "joined"):
        inner = [x for x in t[1] if in_cache(x)] if len(t) > 1 and isinstance(t[1], tuple) else []
        if inner:
            rest = t[1][t[1].index(inner[0]) + 1:]
            if rest and rest[0][0] == "const" and isinstance(rest[0][1], str) and rest[0][1].startswith("/"):
                return comps(inner[0]) + [("fstr", rest)]
            return comps(inner[0])[:-1] + [t]
    return [t]


def folder(t):
    return tuple(comps(t)[:-1])


class File(object):
    """one access to a file: op in read write exists remove replace"""
    def __init__(self, op, path, e, i, dst=None):
        self.op, self.path, self.e, self.i, self.dst = op, path, e, i, dst


class Cache(object):
    def __init__(self, chk):
        self.chk, self.m = chk, pyfront.load(REL)
        self.classes = {q.rsplit(".", 1)[0] for q in self.m.functions if "." in q}
        self.locks = self.globals()

    def globals(self):
        """module- and class-level names that hold locks"""
        out = set()

        def scan(body, pre):
            for n in body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and "Lock" in ast.unparse(n.value):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name):
                            out.add(pre + t.id)
                elif isinstance(n, ast.ClassDef):
                    scan(n.body, n.name + ".")
        scan(self.m.tree.body, "")
        return out

    def resolve(self, f):
        if f[0] == "attr" and f[1][0] == "call" and f[1][1][0] == "name" and f[1][1][1] in self.classes:
            c = f[1][1][1]
            q = c + "." + f[2]
            if q in self.m.functions and c + ".__cinit__" not in self.m.functions:
                deco = {ast.unparse(d) for d in self.m.functions[q].decorator_list}
                return self.m.functions[q], c, None if "staticmethod" in deco else f[1], None
        return None

    def interp(self, fn, bind=None, opaque=()):
        I = Interp(self.m, resolve=self.resolve, depth=8)
        I.opaque |= set(opaque)
        evs = list(I.run(fn, bind))
        self.ret = I.ret
        return evs

    # ---- events
    def contents(self, evs):
        """what is stored in the dictionaries of this run: dict term -> [(key, value)]"""
        out = {}
        for e in evs:
            if e.kind == "store_sub":
                out.setdefault(e.a[0], []).append((e.a[1], e.a[2]))
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("append", "add") and len(e.a[1]) == 1:
                out.setdefault(e.a[0][1], []).append((None, e.a[1][0]))
        return out

    def fill(self, ts, held):
        """the argument tuples with elements of such dictionaries replaced by what was stored"""
        for d, kvs in held.items():
            el = ("elem", d)
            if any(mentions(t, el) or mentions(t, ("sub", d, el)) for t in ts):
                out = []
                for k, v in kvs:
                    def sub(x):
                        if x == ("sub", d, el) or k is None and x == el:
                            return v
                        if x == el:
                            return k
                        if isinstance(x, tuple):
                            y = tuple(sub(z) if isinstance(z, (tuple, frozenset)) else z for z in x)
                            if y and y[0] == "item" and len(y) == 3 and y[1][0] in ("tuple", "list") and isinstance(y[2], int) and y[2] < len(y[1][1]):
                                return y[1][1][y[2]]
                            return y
                        if isinstance(x, frozenset):
                            return frozenset(sub(z) for z in x)
                        return x
                    out.append(tuple(sub(t) for t in ts))
                return out
        return [tuple(ts)]

    def sect(self, e):
        """the critical section an event belongs to"""
        return max([c[3] for c in e.ctx if c[0] == "with" and c[1][0] == "call" and callee(c[1]) in LOCKS], default=0)

    def around(self, evs, e, i):
        """what dictionaries hold at event i: stored before it in the same critical section"""
        s = self.sect(e)
        return self.contents([x for x in evs[:i] if x.kind in ("store_sub", "call") and (not s or self.sect(x) == s)])

    def files(self, evs):

        out = []
        for i, e in enumerate(evs):
            if e.kind != "call":
                continue
            held = None
            f, args, kws = e.a[0], e.a[1], e.a[2]
            if self.resolve(f) is not None:
                continue
            n = f[-1] if isinstance(f[-1], str) else None
            recv = f[1] if f[0] == "attr" else None
            own = recv is not None and in_cache(recv) and not (recv[0] == "call" and callee(recv) == "open")

            def put(op, *ts):
                for r in self.fill(ts, self.around(evs, e, i)):
                    if any(in_cache(x) for x in r) or op == "write":
                        out.append(File(op, r[0], e, i, r[1] if len(r) > 1 else None))
            if n in ("open",) and (args or own):
                p = recv if own else args[0]
                rest = args if own else args[1:]
                mode = rest[0] if rest else dict(kws).get("mode", ("const", "r"))
                mode = str(mode[1]) if mode[0] == "const" else "?"
                put("write" if any(c in mode for c in "wax+?") else "read", p)
            elif n in ("exists", "isfile", "is_file", "getsize", "stat", "getmtime"):
                put("exists", recv if own else (args[0] if args else ("const", None)))
            elif n in ("remove", "unlink") and (own or args):
                put("remove", recv if own else args[0])
            elif n in ("replace", "rename", "move", "link", "symlink"):
                if own and len(args) == 1:
                    put("replace", recv, args[0])
                elif len(args) >= 2 and (f[0] != "attr" or recv[0] == "name" or recv[0] == "import"):
                    put("replace", args[0], args[1])
            elif n in ("copy", "copyfile", "copy2") and len(args) >= 2:
                put("write", args[1])
            elif n in ("write_bytes", "write_text") and own:
                put("write", recv)
            elif n in ("read_bytes", "read_text") and own:
                put("read", recv)
        # a write elsewhere only matters when the file is then moved into the cache
        src = {f.path for f in out if f.op == "replace"}
        return [f for f in out if f.op != "write" or in_cache(f.path) or f.path in src]

    def locks_of(self, f):
        """(thread locks, process locks): terms and sites in force at an access"""
        th, pr = [], []
        for c in f.e.ctx:
            if c[0] != "with":
                continue
            t = c[1]
            if t[0] == "call" and isinstance(t[1][-1], str) and t[1][-1] in ("write_lock",):
                t = t[1][1]
            if t[0] == "call" and callee(t) in LOCKS:
                pr.append((t, c[3]))
                continue
            base = t
            while base[0] in ("sub", "call") or base[0] == "attr" and base[2] in ("get", "setdefault"):
                base = base[1]
            nm = base[1] if base[0] in ("name", "global") else (base[1][1] + "." + base[2] if base[0] == "attr" and base[1][0] == "name" else None)
            if nm in self.locks:
                th.append((t, c[3]))
            elif base[0] == "attr" and base[1] == SELF and any(l.endswith("." + base[2]) for l in self.locks):
                th.append((t, c[3]))
        return th, pr

    def run(self):
        chk, m = self.chk, self.m
        self.bydir = {}
        self.swaps = 0
        n = 0
        done = set()
        for q, fn in sorted(m.functions.items()):
            name = q.rsplit(".", 1)[-1]
            if name.startswith("_") and not (name.startswith("__") and name.endswith("__")):
                continue
            cls = q.rsplit(".", 1)[0] if "." in q else None
            if cls and cls in {x.rsplit(".", 1)[0] for x in m.functions if x.endswith(".__cinit__")}:
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == cls for f in m.functions.values() for x in ast.walk(f)) \
                    and cls and any(self.names_file(x) for x in [m.functions[q]]) and self.only_inside(cls):
                continue                      # a helper class: judged where it is used
            evs = self.interp(fn)
            fs = self.files(evs)
            if any(e.kind == "call" and e.a[0][-1] in ("rmdir", "rmtree") for e in evs):
                self.clear(q, fn, evs)
                continue
            if not fs:
                continue
            n += 1
            self.section(q, fn, evs, fs)
        if not n:
            raise AnalysisBroken("no public function reaches the cache files")
        chk.count("public functions that reach the cache files", n)
        for d, (ths, prs) in sorted(self.bydir.items(), key=repr):
            w = " / ".join(show(c) for c in d)[-60:]
            chk.ob("one-lock", "thread lock of %s" % w, len({t for t, s in ths}) <= 1, ths[0][1] if ths else "", "accesses to the same directory under different locks: %s" % sorted({show(t) for t, s in ths}))
            chk.ob("one-lock", "process lock of %s" % w, len({t for t, s in prs}) <= 1, prs[0][1] if prs else "", "accesses to the same directory under different locks: %s" % sorted({show(t) for t, s in prs}))

    def names_file(self, fn):
        return any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "open" or isinstance(x.func, ast.Attribute) and x.func.attr in ("replace", "rename")) for x in ast.walk(fn))

    def only_inside(self, cls):
        """no method of the class knows the cache directory: it works on the paths it is given"""
        return not any(isinstance(x, ast.Attribute) and x.attr in ROOTS for q, f in self.m.functions.items() if q.startswith(cls + ".") for x in ast.walk(f))

    # ---- one public function
    def section(self, q, fn, evs, fs):
        chk, m = self.chk, self.m
        finals = {f.path for f in fs if f.op in ("read", "exists")} | {f.dst for f in fs if f.op == "replace" and f.dst is not None}
        dumps = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.a[0][-1] in ("dump", "write", "writelines") and len(e.a[1]) >= 1]
        for f in fs:
            th, pr = self.locks_of(f)
            what = "%s: %s %s" % (q, f.op, self.tail(f.path))
            at = m.where(f.e.node)
            chk.ob("thread-lock", what, bool(th), at, "another thread may be in the middle of the cache")
            chk.ob("process-lock", what, bool(pr), at, "another process may be in the middle of the cache")
            for t, s in th:
                for x in self.leaves(t):
                    chk.ob("lock-shared", "%s under %s" % (what, show(t)[:60]), False, at, "the lock depends on %s, so two users of one file may hold different locks" % show(x))
            for t, s in pr:
                for x in self.leaves(t):
                    chk.ob("lock-shared", "%s under %s" % (what, show(t)[:60]), False, at, "the lock depends on %s, so two users of one file may hold different locks" % show(x))
                if t[2]:
                    lp, fp = comps(t[2][0])[:-1], comps(f.path)[:-1]
                    chk.ob("lock-shared", "%s: lock file covers it" % what, fp[:len(lp)] == lp and len(lp) > 0, at, "the lock file does not lie in the directory it protects")
            d = folder(f.path)
            rec = self.bydir.setdefault(d, ([], []))
            rec[0].extend((t, at) for t, s in th)
            rec[1].extend((t, at) for t, s in pr)
            if f.op == "read":
                ok = self.tolerant(f, evs)
                chk.ob("missing-file", what, ok, at, "a file that is not there makes the call fail")
            if f.op == "remove":
                ok = self.tolerant(f, evs)
                chk.ob("missing-file", what, ok, at, "a file that is already gone makes the call fail")
                self.eviction(q, f, evs, fs)
            if f.op == "write":
                self.write(q, f, evs, fs, finals, dumps)
            if f.op == "replace":
                chk.ob("same-directory", "%s -> %s" % (what, self.tail(f.dst)), folder(f.path) == folder(f.dst), at, "the replacement crosses directories (not atomic)")
                # read, change and replace in one critical section
                reads = [r for r in fs if r.op == "read" and r.path == f.dst and r.i < f.i]
                ok = any(self.same_section(r, f) for r in reads)
                chk.ob("one-section", "%s: %s read and replaced" % (q, self.tail(f.dst)), ok, at, "what was read may be out of date when it is written back (lost update)")
                self.swaps += 1
        # the locks are not taken twice
        for e in evs:
            if e.kind == "with":
                t = e.a[0]
                held = [c[1] for c in e.ctx if c[0] == "with"]
                if t in held and (t[0] == "call" and callee(t) in LOCKS or any(l == x[1] for x in subterms(t) if x[0] == "name" for l in self.locks)):
                    chk.ob("no-reentry", "%s: %s" % (q, show(t)[:60]), False, m.where(e.node), "taken while it is held: the call waits for itself")
        self.lru(q, fn, evs, fs)

    def leaves(self, t):
        """what the lock's identity depends on, beyond constants, the kind and the cache directory"""
        out = []

        def go(x):
            if not isinstance(x, tuple) or not x:
                return
            if x[0] == "const" or x[0] == "param" and x[1] not in ("self", "cls"):
                return
            if x[0] == "name":
                return
            if x[0] == "call":
                if callee(x) in ROOTS:
                    return
                f = x[1]
                if f[0] == "attr":
                    go(f[1]) if f[1][0] not in ("name", "attr") else None
                if callee(x) in ("getpid", "get_ident", "uuid4", "uuid1", "time", "current_thread", "gethostname", "mkstemp", "mkdtemp", "gettempdir", "id", "hash", "urandom", "Lock", "RLock"):
                    out.append(x)
                for y in list(x[2]) + [v for k, v in x[3]]:
                    go(y)
                return
            if x[0] == "attr":
                if x[1] == SELF and any(l.endswith("." + x[2]) for l in self.locks):
                    return
                r = x
                while r[0] == "attr":
                    r = r[1]
                if r == SELF:
                    out.append(x)
                elif r[0] not in ("name", "import"):
                    go(r)
                return
            if x[0] == "alt":
                for y in x[1]:
                    go(y)
                return
            for y in x[1:]:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    go(y)
                elif isinstance(y, tuple):
                    for z in y:
                        go(z) if isinstance(z, tuple) else None
        go(t)
        return out

    def same_section(self, a, b):
        sa = {s for t, s in self.locks_of(a)[1]}
        sb = {s for t, s in self.locks_of(b)[1]}
        return bool(sa & sb)

    def tolerant(self, f, evs):
        for c in f.e.ctx:
            if c[0] == "try" and any(n.split(".")[-1] in MISSING for h in c[1] for n in ([h] if isinstance(h, str) else h)):
                return True
            if c[0] == "with" and c[1][0] == "call" and callee(c[1]) == "suppress" and any(show(x).split(".")[-1] in MISSING for x in c[1][2]):
                return True
        for t, p in f.e.conds:
            for x in subterms(t):
                if p and x[0] == "call" and callee(x) in ("exists", "isfile", "is_file") and (f.path in x[2] or x[1][0] == "attr" and x[1][1] == f.path):
                    return True
        if f.op == "remove" and any(k == "missing_ok" and v == ("const", True) for k, v in f.e.a[2]):
            return True
        return False

    def tail(self, p):
        return show(comps(p)[-1])[-40:]

    # ---- writing
    def write(self, q, f, evs, fs, finals, dumps):
        chk, at = self.chk, self.m.where(f.e.node)
        what = "%s: write %s" % (q, self.tail(f.path))
        chk.ob("whole-file", what, f.path not in finals, at, "a reader or a crash can meet a half-written file")
        if f.path in finals:
            return
        here = self.sect(f.e)
        reps = [r for r in fs if r.op == "replace" and r.path == f.path and (self.sect(r.e) == here or not here and r.i > f.i)]
        chk.ob("whole-file", what + " is put in place", any(r.i > f.i for r in reps), at, "the temporary file never replaces the real one")
        wterm = f.e.a[3]
        for r in reps:
            if r.i < f.i:
                continue
            # everything is written and flushed before
            mine = [i for i, e in dumps if self.sect(e) == here and any(mentions(x, wterm) for x in list(e.a[1]) + [e.a[0]])]
            chk.ob("complete-before-replace", what + ": contents", bool(mine) and all(i < r.i for i in mine), at, "replaced before everything is written")
            inside = any(c[0] == "with" and mentions(c[1], wterm) for c in r.e.ctx)
            entered = any(e.kind == "with" and mentions(e.a[0], wterm) for e in evs[f.i:r.i])
            held = self.around(evs, r.e, r.i)
            closed = any(e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "close" and
                         any(mentions(x[0], wterm) for x in self.fill((e.a[0][1],), held)) and e.i2 < r.i for e in self.indexed(evs))
            chk.ob("complete-before-replace", what + ": closed", (entered or closed) and not inside, at, "replaced while the file is still open: buffered data may be missing")
            # not conditional on more than the write was
            loops = {t[1] for x in evs for t, p in x.conds if t[0] == "while"}
            extra = [c for c in r.e.conds if c not in f.e.conds and c[0][0] not in ("for", "while") and not (c[0] in loops and not c[1])]
            chk.ob("whole-file", what + " always", not extra, at, "written but, unless %s, not put in place" % (show(extra[0][0]) if extra else ""))

    def indexed(self, evs):
        class E(object):
            pass
        for i, e in enumerate(evs):
            x = E()
            x.kind, x.a, x.i2 = e.kind, e.a, i
            yield x

    # ---- eviction
    def shortnames(self, fs):
        return {comps(f.path)[-1] for f in fs if f.op in ("read", "exists", "replace")} | {comps(f.dst)[-1] for f in fs if f.dst is not None}

    def eviction(self, q, f, evs, fs):
        chk, at = self.chk, self.m.where(f.e.node)
        what = "%s: remove %s" % (q, self.tail(f.path))
        cur = self.shortnames(fs)
        name = comps(f.path)[-1]
        chk.ob("eviction", what + ": in the cache directory", any(folder(f.path) == folder(x.path) for x in fs if x.op == "read"), at, "removes outside the directory it tidies")
        raw = name[2][0] if name[0] == "call" and name[1] == ("name", "str") and name[2] else name
        keys = set(cur) | {c[2][0] for c in cur if c[0] == "call" and c[1] == ("name", "str") and c[2]}
        bad = raw in keys
        # which end of the list the name comes from, and at which end the current name is
        end, lst = self.end(raw)
        pos = self.position(lst, keys, evs) if lst is not None else None
        guarded = any(("cmp", "==", x, y) in [c for c, p in f.e.conds if not p] for x, y in [(raw, k) for k in keys] + [(k, raw) for k in keys])
        if end is not None and pos is not None and not guarded:
            bad = bad or end == pos
        chk.ob("eviction", what + ": never the current entry", not bad, at, "the entry just written is removed again")

    def end(self, t):
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "popleft"):
            if t[1][2] == "popleft" or t[2] == (("const", 0),):
                return "first", t[1][1]
            return "last", t[1][1]
        if t[0] == "elem" and t[1][0] == "sub" and t[1][2][0] == "slice":
            lo, hi = t[1][2][1], t[1][2][2]
            if lo != ("const", None) and hi == ("const", None):
                return "last", t[1][1]
            if lo in (("const", None), ("const", 0)):
                return "first", t[1][1]
        if t[0] == "sub" and t[2] == ("const", 0):
            return "first", t[1]
        if t[0] == "sub" and t[2] == ("const", -1):
            return "last", t[1]
        return None, None

    def position(self, lst, keys, evs):
        for a in alts(lst):
            if a[0] in ("list", "tuple") and a[1] and a[1][0] in keys:
                return "first"
            if a[0] == "op" and a[1] == "+":
                l, r = a[2], a[3]
                if l[0] == "list" and l[1] and l[1][0] in keys:
                    return "first"
                if r[0] == "list" and r[1] and r[1][-1] in keys:
                    return "last"
        for e in evs:
            if e.kind == "call" and e.a[0][0] == "attr" and (e.a[0][1] == lst or e.a[0][1] in alts(lst)):
                if e.a[0][2] == "insert" and e.a[1][:1] == (("const", 0),) and e.a[1][1] in keys or e.a[0][2] == "appendleft" and e.a[1][0] in keys:
                    return "first"
                if e.a[0][2] == "append" and e.a[1] and e.a[1][0] in keys:
                    return "last"
        return None

    def lru(self, q, fn, evs, fs):
        """the list of names that is written contains the current entry and is bounded"""
        chk = self.chk
        rem = [f for f in fs if f.op == "remove"]
        if not rem:
            return
        for f in rem:
            bounds = [t for t, p in f.e.conds for x in [t[1] if t[0] == "while" else t] for y in subterms(x) if y[0] == "call" and y[1] == ("name", "len")]
            sl = any(x[0] == "slice" for x in subterms(f.path))
            chk.ob("eviction", "%s: remove %s: only beyond the limit" % (q, self.tail(f.path)), bool(bounds) or sl, self.m.where(f.e.node), "entries are removed although the limit is not reached")

    # ---- clearing
    def clear(self, q, fn, evs):
        chk, m = self.chk, self.m
        ver = None
        for n in m.tree.body:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []):
                if isinstance(t, ast.Name) and t.id == "__cache_version" and isinstance(n.value, ast.Constant):
                    ver = n.value.value
        if ver is None:
            raise AnalysisBroken("no cache version constant")
        roots = {x for e in evs for t in e.a for x in subterms(t) if x[0] == "call" and callee(x) in ROOTS}
        if not roots:
            chk.ob("clear-all", q, False, m.where(fn), "removes directories that are not the cache's")
            return
        seen = False
        for r in roots:
            args = [a for a in list(r[2]) + [v for k, v in r[3]]]
            for a in args:
                if a[0] == "elem" and a[1][0] == "call" and a[1][1] == ("name", "range"):
                    seen = True
                    ra = [self.number(x, ver) for x in a[1][2]]
                    lo, hi = (0, ra[0]) if len(ra) == 1 else (ra[0], ra[1])
                    if lo is not None and hi is not None:
                        chk.ob("clear-all", "%s clears versions %s to %s" % (q, lo, hi - 1), lo <= 0 and hi >= ver + 1, m.where(fn), "the caches of some versions up to %d stay" % ver)
        chk.ob("clear-all", "%s starts from the cache directories" % q, True, m.where(fn))
        # every removal starts from such a root
        if not seen:
            chk.ob("clear-all", "%s goes over the versions" % q, len(roots) > ver, m.where(fn), "the caches of older versions stay")

    def number(self, t, ver):
        if t[0] == "const":
            return t[1]
        if t[0] == "op" and t[1] in ("+", "-"):
            a, b = self.number(t[2], ver), self.number(t[3], ver)
            if a is not None and b is not None:
                return a + b if t[1] == "+" else a - b
        if t[0] == "name" and t[1] == "__cache_version":
            return ver
        return None


# ------------------------------------------------------------------ when the file is written

class Writes(object):
    def __init__(self, chk, C):
        self.chk, self.C, self.m = chk, C, C.m

    def run(self):
        m, chk = self.m, self.chk
        look = []
        for q, fn in m.functions.items():
            ps = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
            if "." not in q or "self" not in ps:
                continue
            flags = [a for a in ps if any(isinstance(k, ast.keyword) and k.arg == a for f in m.functions.values() for c in ast.walk(f)
                                          if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == q.rsplit(".", 1)[1]
                                          for k in c.keywords if isinstance(k.value, ast.Constant) and k.value.value is True)]
            if not flags:
                continue
            evs = self.C.interp(fn)
            if any(e.kind == "call" and e.a[0][0] == "param" and not e.a[1] for e in evs) and self.C.files(evs):
                look.append((q, fn, flags))
        if not look:
            raise AnalysisBroken("no lookup with a forced write")
        self.look = {q.rsplit(".", 1)[1]: fl for q, fn, fl in look}
        for q, fn, flags in look:
            for fl in flags:
                self.forced(q, fn, fl)
        n = 0
        for q, fn in sorted(m.functions.items()):
            ps = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
            if "write_to_disk" in ps:
                n += 1
                self.obeys(q, fn)
        if not n:
            raise AnalysisBroken("no function takes write_to_disk")

    def forced(self, q, fn, fl):
        chk, m = self.chk, self.m
        evs = self.C.interp(fn, {fl: ("const", True)})
        comp = {e.a[3] for e in evs if e.kind == "call" and e.a[0][0] == "param"}
        ok = bool(comp) and all(x in comp for x in alts(self.C.ret) if x != ("const", None)) and any(x in comp for x in alts(self.C.ret))
        chk.ob("forced-write", "%s with %s returns the given contents" % (q, fl), ok, m.where(fn), "the stored entry wins over the one to be written")
        real = lambda e: [c for c in e.conds if const_truth(c[0]) is None and not (c[0][0] == "cmp" and c[0][1] == "is" and c[0][3] == ("const", None))]
        stores = [e for e in evs if e.kind == "store_sub" and any(x in comp for x in alts(e.a[2])) or
                  e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "update" and any(mentions(x, c) for x in e.a[1] for c in comp)]
        chk.ob("forced-write", "%s with %s stores them" % (q, fl), any(not real(e) for e in stores), m.where(fn), "the contents are not put into the file on every path")
        dumps = [e for e in evs if e.kind == "call" and e.a[0][-1] in ("dump", "write") and e.a[1] and
                 any(any(st.a[0] == x or x in alts(st.a[0]) for x in alts(e.a[1][0])) for st in stores if st.kind == "store_sub")]
        if stores and all(s.kind == "store_sub" for s in stores):
            chk.ob("forced-write", "%s with %s writes the file" % (q, fl), any(not real(e) for e in dumps), m.where(fn), "the file is not written on every path")

    def is_forced(self, e):
        """None, False or True: a lookup call, forced or not"""
        if e.kind != "call" or e.a[0][0] != "attr" or e.a[0][2] not in self.look:
            return None
        fls = self.look[e.a[0][2]]
        kw = dict(e.a[2])
        v = [kw[f] for f in fls if f in kw]
        if not v:
            fn = [g for q, g in self.m.functions.items() if q.rsplit(".", 1)[-1] == e.a[0][2]][0]
            ps = [a.arg for a in fn.args.args if a.arg != "self"]
            v = [e.a[1][ps.index(f)] for f in fls if f in ps and ps.index(f) < len(e.a[1])]
        return any(const_truth(x) is True for x in v)

    def obeys(self, q, fn):
        chk, m = self.chk, self.m
        opaque = [("attr", SELF, n) for n in self.look]
        evs = self.C.interp(fn, {"write_to_disk": ("const", True)}, opaque)
        calls = [(i, e) for i, e in enumerate(evs) if self.is_forced(e)]
        chk.ob("write-to-disk", "%s writes" % q, bool(calls), m.where(fn), "write_to_disk=True never reaches the file")
        if calls:
            atoms = []
            for i, e in calls:
                for c, p in e.conds:
                    if const_truth(c) is None and c not in atoms and c[0] not in ("for", "while"):
                        atoms.append(c)
            stops = [e.conds for e in evs if e.kind == "raise"]
            atoms = atoms[:10]
            missing = None
            for vals in itertools.product((True, False), repeat=len(atoms)):
                env = dict(zip(atoms, vals))
                if any(all(env.get(c, None) == p for c, p in cs) and cs for cs in stops):
                    continue
                if any(all(p == (env[c] if c in env else const_truth(c)) for c, p in e.conds if c[0] not in ("while",)) for i, e in calls):
                    continue
                if any(c[0] == "cmp" and any(d == ("not", c) for d in atoms) for c in atoms):
                    continue
                missing = env
                break
            chk.ob("write-to-disk", "%s writes on every path" % q, missing is None, m.where(calls[0][1].node),
                   "nothing is written when " + "; ".join("%s is %s" % (show(c)[:50], v) for c, v in (missing or {}).items()))
        # nothing changes in memory after it is written
        names = self.memory(q)
        for i, e in calls:
            late = [x for x in evs[i + 1:] if self.changes(x, names) and not self.contradict(x, e)]
            chk.ob("write-to-disk", "%s writes the final state" % q, not late, m.where(e.node), "changed in memory after it was written")
        evs = self.C.interp(fn, {"write_to_disk": ("const", False)}, opaque)
        bad = [e for e in evs if self.is_forced(e)]
        chk.ob("write-to-disk", "%s keeps off the disk" % q, not bad, m.where(bad[0].node if bad else fn), "write_to_disk=False writes the file")

    def memory(self, q):
        """attributes the lookup results are kept in"""
        out = set()
        for f in self.m.functions.values():
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in self.look:
                    out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
        return out

    def changes(self, e, names):
        if e.kind == "store_attr":
            return e.a[0] == SELF and e.a[1] in names
        if e.kind == "store_sub":
            return any(x[0] == "attr" and x[1] == SELF and x[2] in names for x in subterms(e.a[0]))
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in ("append", "update", "extend", "insert", "pop", "clear", "setdefault", "remove"):
            return any(x[0] == "attr" and x[1] == SELF and x[2] in names for x in subterms(e.a[0][1]))
        return False

    def contradict(self, a, b):
        return any((c, not p) in b.conds for c, p in a.conds)


def make():
    chk = Check("C13", "lock-set, ordering and effect analysis of every file access reachable from the public functions",
                "Every access to a file under the cache directory (open, exists, remove, replace), helpers and context managers inlined, with "
                "the locks in force at it; every write with what it writes to, when it is closed and when it replaces the real file; every "
                "removal with where its name comes from; every function with write_to_disk with the paths on which it writes.",
                ["os.replace is atomic within a directory", "fasteners.InterProcessLock excludes other processes",
                 "clear_all_caches is not run concurrently with other uses (it removes the lock files themselves)"])
    chk.rule("thread-lock", "cache files are only touched under a lock shared by all threads")
    chk.rule("process-lock", "cache files are only touched under an inter-process lock")
    chk.rule("lock-shared", "which lock is taken depends only on the directory, not on the graph, object, thread or process")
    chk.rule("one-lock", "all accesses to one directory use the same locks")
    chk.rule("no-reentry", "a lock is not taken while it is already held")
    chk.rule("one-section", "a file is read and replaced within one critical section")
    chk.rule("whole-file", "a cache file is never written in place, only replaced as a whole, whenever it was written")
    chk.rule("complete-before-replace", "the replacement is complete and closed before it is put in place")
    chk.rule("same-directory", "the temporary file lies in the directory of the file it replaces")
    chk.rule("missing-file", "a file that is not there is recomputed or ignored, never an error")
    chk.rule("eviction", "only entries beyond the limit are removed, within the directory, never the current one")
    chk.rule("clear-all", "clearing covers all versions up to the current one and nothing else")
    chk.rule("forced-write", "a forced write stores and returns the given contents")
    chk.rule("write-to-disk", "write_to_disk alone decides whether the file is written, on every path, with the final state")
    C = Cache(chk)
    C.run()
    Writes(chk, C).run()
    chk.need("thread-lock", 8)
    chk.need("whole-file", 4)
    chk.need("one-section", 2)
    chk.need("eviction", 2)
    chk.need("write-to-disk", 6)
    return chk


if __name__ == "__main__":
    main(make)
