"""Path enumeration over pyai: one abstract run per path through the loops of a function.

Ifs outside loops are joined as in pyai; an if inside a loop is decided by a trace of choices, so that what one round of
a search loop does to the state of the next one can be read off a single path.  A condition that was decided before on
the path, or that the `assume` hook knows, is not decided again.  Loops at the outer level run `rounds` times, loops
inside them once.  Nothing is executed and no solver decides which paths are feasible."""
import ast
from pyai import Interp, St, elem, const_truth, own_nodes, alts, subterms

PURE = {"len", "min", "max", "round", "int", "float", "bool", "isinstance", "abs", "number_of_nodes", "number_of_edges", "get", "sum"}


class Cut(Exception):
    pass


class PathInterp(Interp):
    LIMIT = 4000

    def __init__(self, module, rounds=2, assume=None, stop=None, **kw):
        Interp.__init__(self, module, **kw)
        self.rounds, self.assume, self.stop = rounds, assume, stop
        self.inloop = 0
        self.round = 0
        self.exits = {}
        self.ended = "fall"

    def paths(self, fn, bind=None, cls=None):
        """yields (events, how the outer loop ended) for every trace"""
        todo, n = [[]], 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > self.LIMIT:
                raise RuntimeError("more than %d paths in %s" % (self.LIMIT, fn.name))
            self.trace, self.at, self.inloop, self.round, self.ended = list(pre), 0, 0, 0, "fall"
            self.stack, self.mute, self.ctx = [], 0, []
            self.uid = {}
            self.ret = None
            try:
                self.run(fn, bind, cls)
                cut = False
            except Cut:
                cut = True
            yield list(self.events), cut
            for i in range(len(pre), len(self.trace)):
                todo.append(self.trace[:i] + [False])

    def emit(self, kind, a, st, node, fr):
        Interp.emit(self, kind, a, st, node, fr)
        if not self.mute and self.stop is not None and self.stop(self, self.events[-1]):
            raise Cut()

    def decide(self, c, st):
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        t = const_truth(c)
        if t is None and self.assume is not None:
            t = self.assume(self, c, st)
        if t is None and c[0] in ("and", "or"):
            ts = [self.decide(x, st) for x in c[1]]
            if (c[0] == "or") in ts:
                t = c[0] == "or"
            elif all(x is not None for x in ts):
                t = c[0] == "and"
        if t is None and pure(c):
            if (c, True) in st.conds:
                t = True
            elif (c, False) in st.conds:
                t = False
        return None if t is None else t != neg

    def choose(self):
        if self.at < len(self.trace):
            v = self.trace[self.at]
        else:
            v = True
            self.trace.append(v)
        self.at += 1
        return v

    def branch(self, test, body, orelse, st, fr):
        if not self.inloop:
            c = self.ev(test, st, fr)
            t = self.decide(c, st)
            if t is None:
                return Interp.branch(self, test, body, orelse, st, fr)
        else:
            c = self.ev(test, st, fr)
            t = self.decide(c, st)
            if t is None:
                t = self.split(c, st, test, fr)
        if t is None:
            t = self.choose()
        self.push(st, c, t)
        self.narrow(st, c, t)
        self.note(c, t, st, test, fr)
        return self.block(body if t else orelse, st, fr)

    def split(self, c, st, node, fr):
        """and/or in order, so that every decided part is in the conditions of the path"""
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        if c[0] in ("and", "or"):
            for x in c[1]:
                t = self.decide(x, st)
                if t is None:
                    t = self.split(x, st, node, fr)
                if t == (c[0] == "or"):
                    return t != neg
            return (c[0] == "and") != neg
        t = self.choose()
        self.push(st, c, t)
        self.note(c, t, st, node, fr)
        return t != neg

    def note(self, c, t, st, node, fr):
        if self.inloop:
            self.emit("decide", (c, t), st, node, fr)

    def x_IfExp(self, e, st, fr):
        if self.inloop:
            c = self.ev(e.test, st, fr)
            t = self.decide(c, st)
            if t is None:
                t = self.split(c, st, e, fr)
            self.push(st, c, t)
            self.note(c, t, st, e, fr)
            self.narrow(st, c, t)
            return self.ev(e.body if t else e.orelse, st, fr)
        return Interp.x_IfExp(self, e, st, fr)

    def stmt(self, s, st, fr):
        r = Interp.stmt(self, s, st, fr)
        if r is None and isinstance(s, (ast.Break, ast.Continue)):
            self.exits[id(fr)] = (type(s).__name__, st)
        elif r is None and isinstance(s, (ast.Return, ast.Raise)):
            self.exits[id(fr)] = (type(s).__name__, st)
        return r

    def outer(self, s):
        return True

    def loop(self, s, st, fr):
        isfor = not isinstance(s, ast.While)
        it = self.ev(s.iter, st, fr) if isfor else None
        top = self.inloop == 0
        n = self.rounds if top and self.outer(s) else 1
        broke = False
        for rnd in range(n):
            if isfor:
                st.conds.append((("for", it, self.site(s)), True))
                self.inloop += 1
                if top:
                    self.round = rnd + 1
                self.emit("round", (rnd + 1, it), st, s, fr)
                self.assign(s.target, elem(it), st, fr, s)
                if it[0] == "comp":
                    for c in it[5]:        # what the comprehension let through
                        self.push(st, c, True)
            else:
                self.inloop += 1
                if top:
                    self.round = rnd + 1
                self.emit("round", (rnd + 1, None), st, s, fr)
                c = self.ev(s.test, st, fr)
                t = self.decide(c, st)
                if t is None:
                    t = self.split(c, st, s, fr)
                self.push(st, c, t)
                self.note(c, t, st, s.test, fr)
                if not t:
                    self.inloop -= 1
                    if top:
                        self.emit("over", ("test",), st, s, fr)
                    break
            r = self.block(s.body, st, fr)
            self.inloop -= 1
            if r is None:
                how, st = self.exits.pop(id(fr), ("Return", st))
                if how in ("Return", "Raise"):
                    return None
                if how == "Break":
                    broke = True
                    if top:
                        self.emit("over", ("break",), st, s, fr)
                    break
            else:
                st = r
        if s.orelse and not broke:
            return self.block(s.orelse, st, fr)
        return st


class EveryPath(PathInterp):
    """every if of the function is decided path by path, and whether a lookup raises as well"""

    def branch(self, test, body, orelse, st, fr):
        self.inloop += 1
        try:
            c = self.ev(test, st, fr)
            t = self.decide(c, st)
            if t is None:
                t = self.split(c, st, test, fr)
            self.push(st, c, t)
            self.narrow(st, c, t)
        finally:
            self.inloop -= 1
        return self.block(body if t else orelse, st, fr)

    def x_IfExp(self, e, st, fr):
        self.inloop += 1
        try:
            return PathInterp.x_IfExp(self, e, st, fr)
        finally:
            self.inloop -= 1

    def stmt(self, s, st, fr):
        if isinstance(s, ast.Try) and not s.finalbody:
            names = [n for h in s.handlers for n in ([self.names(h.type)] if isinstance(self.names(h.type), str) else self.names(h.type))]
            if any(n.split(".")[-1] in ("KeyError", "LookupError", "IndexError") for n in names):
                subs = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
                if subs:
                    self.mute += 1
                    k, d = self.ev(subs[0].slice, st.copy(), fr), self.ev(subs[0].value, st.copy(), fr)
                    self.mute -= 1
                    c = ("cmp", "in", k, d)
                    self.inloop += 1
                    try:
                        t = self.decide(c, st)
                        if t is None:
                            t = self.split(c, st, s, fr)
                    finally:
                        self.inloop -= 1
                    if t:
                        return self.block(s.body + s.orelse, st, fr)
                    return self.block(s.handlers[0].body, st, fr)
        return PathInterp.stmt(self, s, st, fr)


def pure(c):
    """the value is the same whenever it is asked for (a length is told apart by what was put in)"""
    if isinstance(c, tuple) and c and c[0] == "cmp":
        return all(x[0] == "len" or pure(x) for x in c[2:4])
    for x in subterms(c):
        if x[0] == "call":
            f = x[1]
            if not (f[-1] in PURE if isinstance(f[-1], str) else False):
                return False
        elif x[0] in ("new", "clock"):
            return False
    return True
