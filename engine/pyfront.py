"""Front end for the Python side: .py files through `ast`, .pyx files (with their .pxi includes) through the
project's own Cython compiler, converted into the same `ast` node classes so that the rules see one language.

Conventions of the conversion
  cdef T x = e            AnnAssign(x, Constant('T'), e)       (.cdef = True)
  &x                      Call(Name('__addr__'), [x])
  <T>e                    Call(Name('__cast__'), [Constant('T'), e])
  new C(args)             Call(Name('C'), args)                (.new = True)
  sizeof(x)               Call(Name('__sizeof__'), [...])
  with nogil:             With(Name('nogil'))
Declarations in `cdef extern` blocks go to Module.externs and not into the body.
"""
import ast
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class Extern:
    """A function or method declared in a `cdef extern` block."""

    def __init__(self, cls, name, args, ret, excheck, handler, excvalue, line, file, static=False):
        self.cls, self.name, self.args, self.ret = cls, name, args, ret
        self.excheck, self.handler, self.excvalue = excheck, handler, excvalue
        self.line, self.file = line, file

    @property
    def translated(self):
        return self.excheck == "+"

    def __repr__(self):
        return "%s%s(%s)" % (self.cls + "." if self.cls else "", self.name, ", ".join(map(str, self.args)))


class Module:
    def __init__(self, path, tree, externs, extern_classes, src):
        self.path, self.tree, self.externs, self.extern_classes, self.src = path, tree, externs, extern_classes, src
        self.name = os.path.relpath(path, REPO)
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
        self.functions = {}
        self.classes = {}
        self._index(tree, "")

    def _index(self, node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n.qual = prefix + n.name
                # several definitions under one name (property setters): keep all
                key = n.qual
                for d in n.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                        key += "." + d.attr
                n.key = key
                n.module = self
                self.functions[key] = n
                self._index(n, prefix + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                n.qual = prefix + n.name
                n.module = self
                self.classes[n.qual] = n
                self._index(n, prefix + n.name + ".")
            elif not isinstance(n, ast.expr):
                self._index(n, prefix)

    def where(self, node):
        f = getattr(node, "srcfile", None) or self.path
        return "%s:%s" % (os.path.relpath(f, REPO), getattr(node, "lineno", "?"))


def load_py(path):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    return Module(path, tree, [], {}, src)


# ------------------------------------------------------------------ Cython

def _cython_parse(path):
    from Cython.Compiler import Main, Parsing, Errors
    from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
    from Cython.Compiler.Symtab import ModuleScope
    from Cython import Utils

    opts = Main.CompilationOptions(Main.default_options, language_level=3, cplus=True,
                                   include_path=[os.path.dirname(path)])
    ctx = Main.Context.from_options(opts)
    sd = FileSourceDescriptor(path)
    name = os.path.splitext(os.path.basename(path))[0]
    f = Utils.open_source_file(path)
    try:
        scope = ModuleScope(name, parent_module=None, context=ctx)
        Errors.init_thread()
        s = PyrexScanner(f, sd, source_encoding=f.encoding, scope=scope, context=ctx)
        return Parsing.p_module(s, None, name)
    finally:
        f.close()


class Conv:
    def __init__(self, path):
        self.path = path
        self.externs = []
        self.extern_classes = {}
        self.handlers = []

    # -- helpers
    def at(self, new, node):
        pos = getattr(node, "pos", None)
        if pos:
            new.lineno, new.col_offset = pos[1], pos[2]
            try:
                new.srcfile = pos[0].filename
            except AttributeError:
                pass
        else:
            new.lineno, new.col_offset = 0, 0
        new.end_lineno, new.end_col_offset = new.lineno, new.col_offset
        return new

    def typ(self, b):
        """Text of a Cython type."""
        if b is None:
            return "object"
        k = type(b).__name__
        if k == "CSimpleBaseTypeNode":
            pre = ".".join(b.module_path + [b.name]) if b.module_path else (b.name or "object")
            if b.is_basic_c_type:
                pre = {0: "unsigned ", 1: "", 2: "signed "}.get(b.signed, "") + {-1: "short ", 0: "", 1: "long ", 2: "long long "}.get(b.longness, "") + pre
            return pre
        if k == "TemplatedTypeNode":
            return self.typ(b.base_type_node) + "[" + ", ".join(self.typ(p) for p in b.positional_args) + "]"
        if k == "CComplexBaseTypeNode":
            return self.decl(b.declarator, self.typ(b.base_type))[1]
        if k == "CConstOrVolatileTypeNode":
            return "const " + self.typ(b.base_type)
        if k == "CTupleBaseTypeNode":
            return "(" + ", ".join(self.typ(c) for c in b.components) + ")"
        if k == "CNestedBaseTypeNode":
            return self.typ(b.base_type) + "." + b.name
        if hasattr(b, "name"):
            return str(b.name)
        return k

    def decl(self, d, base):
        """-> (name, type, default expr, extra)"""
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name, base, getattr(d, "default", None), None
        if k == "CPtrDeclaratorNode":
            return self.decl(d.base, base + "*")
        if k == "CReferenceDeclaratorNode":
            return self.decl(d.base, base + "&")
        if k == "CArrayDeclaratorNode":
            n, t, de, x = self.decl(d.base, base)
            return n, t + "[]", de, x
        if k == "CFuncDeclaratorNode":
            n, t, de, x = self.decl(d.base, base)
            return n, t + "()", de, d
        if k == "CConstDeclaratorNode":
            return self.decl(d.base, base)
        raise NotImplementedError(k)

    def func_extern(self, cls, base, d, node):
        n, t, de, fd = self.decl(d, self.typ(base))
        args = [self.decl(a.declarator, self.typ(a.base_type))[1] or "" for a in fd.args]
        argn = [self.decl(a.declarator, self.typ(a.base_type))[0] for a in fd.args]
        h = None
        ev = fd.exception_value
        if ev is not None:
            h = getattr(ev, "name", None) or getattr(ev, "value", None) or type(ev).__name__
        pos = node.pos
        e = Extern(cls, n, args, t, fd.exception_check, h, ev, pos[1], getattr(pos[0], "filename", self.path))
        e.argnames = argn
        e.nogil = bool(fd.nogil)
        self.externs.append(e)

    def extern_block(self, body, cls):
        stats = body.stats if hasattr(body, "stats") else [body]
        for s in stats:
            k = type(s).__name__
            if k == "CVarDefNode":
                for d in s.declarators:
                    n, t, de, fd = self.decl(d, self.typ(s.base_type))
                    if fd is not None:
                        self.func_extern(cls, s.base_type, d, s)
                    elif cls:
                        self.extern_classes.setdefault(cls, {})[n] = t
            elif k == "CppClassNode":
                self.extern_classes.setdefault(s.name, {})
                for a in s.attributes or []:
                    self.extern_block(a, s.name)
            elif k == "CStructOrUnionDefNode":
                self.extern_classes.setdefault(s.name, {})
                for a in s.attributes or []:
                    self.extern_block(a, s.name)
            elif k == "CDefExternNode":
                self.extern_block(s.body, cls)
            elif k == "StatListNode":
                self.extern_block(s, cls)

    # -- statements
    def block(self, b):
        out = []
        if b is None:
            return out
        stats = b.stats if type(b).__name__ == "StatListNode" else [b]
        for s in stats:
            r = self.stmt(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def body(self, b, node=None, doc=None):
        out = self.block(b)
        if doc is not None:
            e = self.at(ast.Expr(self.at(ast.Constant(str(doc)), node or b)), node or b)
            out.insert(0, e)
        if not out:
            out.append(self.at(ast.Pass(), node or b))
        return out

    def stmt(self, s):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise NotImplementedError("statement %s at %s" % (k, s.pos))
        return m(s)

    def s_StatListNode(self, s):
        return self.block(s)

    def s_CDefExternNode(self, s):
        self.extern_block(s.body, None)

    def s_CppClassNode(self, s):
        self.extern_classes.setdefault(s.name, {})
        for a in s.attributes or []:
            self.extern_block(a, s.name)

    def s_CEnumDefNode(self, s):
        return None

    s_CTypeDefNode = s_CEnumDefNode
    s_FusedTypeNode = s_CEnumDefNode
    s_CStructOrUnionDefNode = s_CEnumDefNode
    s_PassStatNode = lambda self, s: self.at(ast.Pass(), s)
    s_BreakStatNode = lambda self, s: self.at(ast.Break(), s)
    s_ContinueStatNode = lambda self, s: self.at(ast.Continue(), s)

    def s_FromCImportStatNode(self, s):
        return self.at(ast.ImportFrom(str(s.module_name), [ast.alias(str(n[1]), str(n[2]) if n[2] else None) for n in s.imported_names], s.relative_level or 0), s)

    def s_CImportStatNode(self, s):
        return self.at(ast.Import([ast.alias(str(s.module_name), s.as_name)]), s)

    def s_FromImportStatNode(self, s):
        mod = s.module
        name = getattr(mod.module_name, "value", "")
        return self.at(ast.ImportFrom(str(name), [ast.alias(str(n), str(t.name)) for n, t in s.items], 0), s)

    def s_ExprStatNode(self, s):
        return self.at(ast.Expr(self.expr(s.expr)), s)

    def s_SingleAssignmentNode(self, s):
        if type(s.rhs).__name__ == "ImportNode":
            return self.at(ast.Import([ast.alias(str(s.rhs.module_name.value), str(s.lhs.name))]), s)
        return self.at(ast.Assign([self.lhs(s.lhs)], self.expr(s.rhs)), s)

    def s_CascadedAssignmentNode(self, s):
        return self.at(ast.Assign([self.lhs(l) for l in s.lhs_list], self.expr(s.rhs)), s)

    def s_InPlaceAssignmentNode(self, s):
        return self.at(ast.AugAssign(self.lhs(s.lhs), self.binop(s.operator), self.expr(s.rhs)), s)

    def s_CVarDefNode(self, s):
        out = []
        for d in s.declarators:
            n, t, de, fd = self.decl(d, self.typ(s.base_type))
            if fd is not None:
                if s.visibility == "extern":
                    self.func_extern(None, s.base_type, d, s)
                continue
            a = ast.AnnAssign(self.at(ast.Name(n, ast.Store()), s), self.at(ast.Constant(t), s),
                              self.expr(de) if de is not None else None, 1)
            a.cdef = True
            out.append(self.at(a, s))
        return out

    def s_ReturnStatNode(self, s):
        return self.at(ast.Return(self.expr(s.value) if s.value is not None else None), s)

    def s_RaiseStatNode(self, s):
        return self.at(ast.Raise(self.expr(s.exc_type) if s.exc_type else None,
                                 self.expr(s.cause) if getattr(s, "cause", None) else None), s)

    def s_ReraiseStatNode(self, s):
        return self.at(ast.Raise(None, None), s)

    def s_PropertyNode(self, s):
        return self.block(s.body)

    def s_ForFromStatNode(self, s):
        def one(e):
            return self.at(ast.BinOp(e, ast.Add(), self.at(ast.Constant(1), s)), s)
        lo, hi = self.expr(s.bound1), self.expr(s.bound2)
        up = s.relation1[0] == "<"
        if s.relation1 in ("<", ">"):
            lo = one(lo) if up else self.at(ast.BinOp(lo, ast.Sub(), self.at(ast.Constant(1), s)), s)
        if s.relation2 in ("<=", ">="):
            hi = one(hi) if up else self.at(ast.BinOp(hi, ast.Sub(), self.at(ast.Constant(1), s)), s)
        args = [lo, hi]
        if s.step is not None or not up:
            step = self.expr(s.step) if s.step is not None else self.at(ast.Constant(1), s)
            args.append(step if up else self.at(ast.UnaryOp(ast.USub(), step), s))
        it = self.at(ast.Call(self.at(ast.Name("range", ast.Load()), s), args, []), s)
        return self.at(ast.For(self.lhs(s.target), it, self.body(s.body, s), self.block(s.else_clause)), s)

    def s_AssertStatNode(self, s):
        return self.at(ast.Assert(self.expr(s.condition if hasattr(s, "condition") else s.cond),
                                  self.expr(s.value) if getattr(s, "value", None) else None), s)

    def s_DelStatNode(self, s):
        return self.at(ast.Delete([self.lhs(a, ast.Del()) for a in s.args]), s)

    def s_GlobalNode(self, s):
        return self.at(ast.Global(list(s.names)), s)

    def s_NonlocalNode(self, s):
        return self.at(ast.Nonlocal(list(s.names)), s)

    def s_IfStatNode(self, s):
        tail = self.block(s.else_clause) if s.else_clause is not None else []
        for c in reversed(s.if_clauses):
            n = self.at(ast.If(self.expr(c.condition), self.body(c.body, c), tail), c)
            tail = [n]
        return tail

    def s_ForInStatNode(self, s):
        it = s.iterator.sequence if hasattr(s.iterator, "sequence") else s.iterator
        return self.at(ast.For(self.lhs(s.target), self.expr(it), self.body(s.body, s), self.block(s.else_clause)), s)

    def s_WhileStatNode(self, s):
        return self.at(ast.While(self.expr(s.condition), self.body(s.body, s), self.block(s.else_clause)), s)

    def s_WithStatNode(self, s):
        tgt = self.lhs(s.target) if getattr(s, "target", None) is not None else None
        return self.at(ast.With([ast.withitem(self.expr(s.manager), tgt)], self.body(s.body, s)), s)

    def s_GILStatNode(self, s):
        return self.at(ast.With([ast.withitem(self.at(ast.Name(s.state, ast.Load()), s), None)], self.body(s.body, s)), s)

    def s_TryExceptStatNode(self, s):
        hs = []
        for c in s.except_clauses:
            pats = c.pattern
            t = None
            if pats:
                es = [self.expr(p) for p in pats]
                t = es[0] if len(es) == 1 else self.at(ast.Tuple(es, ast.Load()), c)
            name = getattr(c.target, "name", None) if c.target is not None else None
            hs.append(self.at(ast.ExceptHandler(t, name, self.body(c.body, c)), c))
        return self.at(ast.Try(self.body(s.body, s), hs, self.block(s.else_clause), []), s)

    def s_TryFinallyStatNode(self, s):
        b = self.body(s.body, s)
        if len(b) == 1 and isinstance(b[0], ast.Try) and not b[0].finalbody:
            b[0].finalbody = self.body(s.finally_clause, s)
            return b[0]
        return self.at(ast.Try(b, [], [], self.body(s.finally_clause, s)), s)

    def arguments(self, s, args):
        pos, ann, defaults, kwonly, kwd = [], [], [], [], []
        for a in args:
            n, t, de, fd = self.decl(a.declarator, self.typ(a.base_type))
            if not n:  # untyped argument: the name was parsed as the type
                n, t = t, "object"
                if a.declarator is not None and getattr(a.declarator, "name", ""):
                    n = a.declarator.name
            arg = self.at(ast.arg(n.strip(), self.at(ast.Constant(t), a)), a)
            dv = a.default if a.default is not None else de
            if getattr(a, "kw_only", 0):
                kwonly.append(arg)
                kwd.append(self.expr(dv) if dv is not None else None)
            else:
                pos.append(arg)
                if dv is not None:
                    defaults.append(self.expr(dv))
        va = getattr(s, "star_arg", None)
        kw = getattr(s, "starstar_arg", None)
        return ast.arguments([], pos, self.at(ast.arg(va.name, None), va) if va else None, kwonly, kwd,
                             self.at(ast.arg(kw.name, None), kw) if kw else None, defaults)

    def s_DefNode(self, s):
        decs = [self.expr(d.decorator) for d in (s.decorators or [])]
        f = ast.FunctionDef(s.name, self.arguments(s, s.args), self.body(s.body, s, s.doc), decs)
        f.cdef = False
        f.returns = None
        return self.at(f, s)

    def s_CFuncDefNode(self, s):
        n, t, de, fd = self.decl(s.declarator, self.typ(s.base_type))
        f = ast.FunctionDef(n, self.arguments(s, fd.args), self.body(s.body, s, getattr(s, "doc", None)),
                            [self.expr(d.decorator) for d in (s.decorators or [])])
        f.returns = self.at(ast.Constant(t), s)
        f.cdef = True
        f.excheck, f.excvalue, f.nogil = fd.exception_check, fd.exception_value, bool(fd.nogil)
        return self.at(f, s)

    def s_CClassDefNode(self, s):
        bases = []
        if getattr(s, "bases", None) is not None:
            bases = [self.expr(b) for b in s.bases.args]
        c = ast.ClassDef(s.class_name, bases, [], self.body(s.body, s, s.doc), [self.expr(d.decorator) for d in (s.decorators or [])])
        c.cdef = True
        return self.at(c, s)

    def s_PyClassDefNode(self, s):
        bases = [self.expr(b) for b in s.bases.args] if s.bases is not None else []
        c = ast.ClassDef(s.name, bases, [], self.body(s.body, s, s.doc), [self.expr(d.decorator) for d in (s.decorators or [])])
        c.cdef = False
        return self.at(c, s)

    # -- expressions
    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
           "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
    CMPS = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "in": ast.In,
            "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}

    def binop(self, op):
        return self.OPS[op.rstrip("=") if op not in self.OPS else op]()

    def lhs(self, e, ctx=None):
        r = self.expr(e)
        ctx = ctx or ast.Store()

        def setc(x):
            if hasattr(x, "ctx"):
                x.ctx = ctx
            if isinstance(x, (ast.Tuple, ast.List)):
                for y in x.elts:
                    setc(y)
        setc(r)
        return r

    def expr(self, e):
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            from Cython.Compiler import ExprNodes
            if isinstance(e, ExprNodes.CmpNode):
                return self.e_cmp(e)
            if isinstance(e, ExprNodes.BinopNode):
                return self.at(ast.BinOp(self.expr(e.operand1), self.binop(e.operator), self.expr(e.operand2)), e)
            raise NotImplementedError("expression %s at %s" % (k, e.pos))
        return self.at(m(e), e)

    def e_NameNode(self, e):
        return ast.Name(str(e.name), ast.Load())

    def e_AttributeNode(self, e):
        return ast.Attribute(self.expr(e.obj), str(e.attribute), ast.Load())

    def e_IndexNode(self, e):
        return ast.Subscript(self.expr(e.base), self.expr(e.index), ast.Load())

    def e_SliceIndexNode(self, e):
        o = lambda x: self.expr(x) if x is not None else None
        return ast.Subscript(self.expr(e.base), self.at(ast.Slice(o(e.start), o(e.stop), None), e), ast.Load())

    def e_SliceNode(self, e):
        o = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.expr(x)
        return ast.Slice(o(e.start), o(e.stop), o(e.step))

    def e_IntNode(self, e):
        v = str(e.value).rstrip("uUlL")
        return ast.Constant(int(v, 0) if not (len(v) > 1 and v[0] == "0" and v.isdigit()) else int(v, 10))

    def e_FloatNode(self, e):
        return ast.Constant(float(e.value))

    def e_BoolNode(self, e):
        return ast.Constant(bool(e.value))

    def e_NoneNode(self, e):
        return ast.Constant(None)

    def e_NullNode(self, e):
        return ast.Name("NULL", ast.Load())

    def e_EllipsisNode(self, e):
        return ast.Constant(Ellipsis)

    def e_UnicodeNode(self, e):
        return ast.Constant(str(e.value))

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, e):
        return ast.Constant(bytes(e.value))

    def e_CharNode(self, e):
        return ast.Constant(str(e.value))

    def e_JoinedStrNode(self, e):
        return ast.JoinedStr([self.expr(v) for v in e.values])

    def e_FormattedValueNode(self, e):
        return ast.FormattedValue(self.expr(e.value), -1, None)

    def e_TupleNode(self, e):
        return ast.Tuple([self.expr(a) for a in e.args], ast.Load())

    def e_ListNode(self, e):
        return ast.List([self.expr(a) for a in e.args], ast.Load())

    def e_SetNode(self, e):
        return ast.Set([self.expr(a) for a in e.args])

    def e_MergedSequenceNode(self, e):
        els = []
        for a in e.args:
            if type(a).__name__ in ("SetNode", "ListNode", "TupleNode"):
                els += [self.expr(x) for x in a.args]
            else:
                els.append(self.at(ast.Starred(self.expr(getattr(a, "arg", a)), ast.Load()), e))
        t = getattr(getattr(e, "type", None), "name", "list")
        return ast.Set(els) if t == "set" else ast.Tuple(els, ast.Load()) if t == "tuple" else ast.List(els, ast.Load())

    def e_AssignmentExpressionNode(self, e):
        return ast.NamedExpr(self.lhs(e.assignment.lhs), self.expr(e.rhs))

    def e_ProxyNode(self, e):
        return self.expr(e.arg)

    def e_YieldFromExprNode(self, e):
        return ast.YieldFrom(self.expr(e.arg))

    def e_AwaitExprNode(self, e):
        return ast.Await(self.expr(e.arg))

    def e_ImagNode(self, e):
        return ast.Constant(complex(0, float(e.value)))

    def e_BackquoteNode(self, e):
        return ast.Call(self.at(ast.Name("repr", ast.Load()), e), [self.expr(e.arg)], [])

    def e_DictNode(self, e):
        return ast.Dict([self.expr(i.key) for i in e.key_value_pairs], [self.expr(i.value) for i in e.key_value_pairs])

    def e_MergedDictNode(self, e):
        ks, vs = [], []
        for a in e.keyword_args:
            if type(a).__name__ == "DictNode":
                d = self.e_DictNode(a)
                ks += d.keys
                vs += d.values
            else:
                ks.append(None)
                vs.append(self.expr(a))
        return ast.Dict(ks, vs)

    def e_AsTupleNode(self, e):
        return self.expr(e.arg)

    def e_SimpleCallNode(self, e):
        f = e.function
        if type(f).__name__ == "NewExprNode":
            c = ast.Call(self.at(ast.Name(self.typ(f.cppclass), ast.Load()), f), [self.expr(a) for a in e.args], [])
            c.new = True
            return c
        return ast.Call(self.expr(f), [self.expr(a) for a in e.args], [])

    def e_NewExprNode(self, e):
        return ast.Name(self.typ(e.cppclass), ast.Load())

    def e_GeneralCallNode(self, e):
        pos = e.positional_args
        args = []
        kp = type(pos).__name__
        if kp == "TupleNode":
            args = [self.expr(a) for a in pos.args]
        elif kp == "AsTupleNode":
            args = [self.at(ast.Starred(self.expr(pos.arg), ast.Load()), e)]
        elif kp == "AddNode":
            def flat(p):
                if type(p).__name__ == "AddNode":
                    return flat(p.operand1) + flat(p.operand2)
                if type(p).__name__ == "AsTupleNode":
                    return [self.at(ast.Starred(self.expr(p.arg), ast.Load()), e)]
                return [self.expr(a) for a in p.args]
            args = flat(pos)
        else:
            args = [self.at(ast.Starred(self.expr(pos), ast.Load()), e)]
        kws = []
        kw = e.keyword_args
        if kw is not None:
            kk = type(kw).__name__
            if kk == "DictNode":
                for i in kw.key_value_pairs:
                    kws.append(self.at(ast.keyword(str(i.key.value), self.expr(i.value)), i))
            elif kk == "MergedDictNode":
                for a in kw.keyword_args:
                    if type(a).__name__ == "DictNode":
                        for i in a.key_value_pairs:
                            kws.append(self.at(ast.keyword(str(i.key.value), self.expr(i.value)), i))
                    else:
                        kws.append(self.at(ast.keyword(None, self.expr(a)), a))
            else:
                kws.append(self.at(ast.keyword(None, self.expr(kw)), kw))
        return ast.Call(self.expr(e.function), args, kws)

    def e_cmp(self, e):
        left = self.expr(e.operand1)
        ops, cs = [], []
        while e is not None:
            ops.append(self.CMPS[e.operator]())
            cs.append(self.expr(e.operand2))
            e = e.cascade
        r = ast.Compare(left, ops, cs)
        r.lineno, r.col_offset = left.lineno, left.col_offset
        r.end_lineno, r.end_col_offset = r.lineno, r.col_offset
        if hasattr(left, "srcfile"):
            r.srcfile = left.srcfile
        return r

    def e_BoolBinopNode(self, e):
        op = ast.And() if e.operator == "and" else ast.Or()
        return ast.BoolOp(op, [self.expr(e.operand1), self.expr(e.operand2)])

    def e_NotNode(self, e):
        return ast.UnaryOp(ast.Not(), self.expr(e.operand))

    def e_UnaryMinusNode(self, e):
        return ast.UnaryOp(ast.USub(), self.expr(e.operand))

    def e_UnaryPlusNode(self, e):
        return ast.UnaryOp(ast.UAdd(), self.expr(e.operand))

    def e_TildeNode(self, e):
        return ast.UnaryOp(ast.Invert(), self.expr(e.operand))

    def e_AmpersandNode(self, e):
        return ast.Call(self.at(ast.Name("__addr__", ast.Load()), e), [self.expr(e.operand)], [])

    def e_TypecastNode(self, e):
        t = self.decl(e.declarator, self.typ(e.base_type))[1] if e.base_type is not None else str(e.type)
        return ast.Call(self.at(ast.Name("__cast__", ast.Load()), e), [self.at(ast.Constant(t), e), self.expr(e.operand)], [])

    def e_SizeofVarNode(self, e):
        return ast.Call(self.at(ast.Name("__sizeof__", ast.Load()), e), [self.expr(e.operand)], [])

    def e_SizeofTypeNode(self, e):
        return ast.Call(self.at(ast.Name("__sizeof__", ast.Load()), e), [self.at(ast.Constant(self.typ(e.base_type)), e)], [])

    def e_CondExprNode(self, e):
        return ast.IfExp(self.expr(e.test), self.expr(e.true_val), self.expr(e.false_val))

    def e_LambdaNode(self, e):
        r = e.result_expr
        return ast.Lambda(self.arguments(e, e.args), self.expr(r))

    def e_StarredUnpackingNode(self, e):
        return ast.Starred(self.expr(e.target), ast.Load())

    def e_YieldExprNode(self, e):
        return ast.Yield(self.expr(e.arg) if e.arg is not None else None)

    def e_ImportNode(self, e):
        return ast.Name("__import__" + str(getattr(e.module_name, "value", "")), ast.Load())

    def comp(self, loop):
        gens = []
        n = loop
        while True:
            k = type(n).__name__
            if k == "ForInStatNode":
                it = n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator
                gens.append(ast.comprehension(self.lhs(n.target), self.expr(it), [], 0))
                n = n.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.expr(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif k == "StatListNode":
                n = n.stats[0]
            elif k == "ExprStatNode":
                n = n.expr
            else:
                return gens, n

    def e_ComprehensionNode(self, e):
        gens, last = self.comp(e.loop)
        k = type(last).__name__
        if k == "DictComprehensionAppendNode":
            return ast.DictComp(self.expr(last.key_expr), self.expr(last.value_expr), gens)
        x = self.expr(last.expr)
        return ast.SetComp(x, gens) if str(e.type) == "set object" or "set" in str(e.type) else ast.ListComp(x, gens)

    def e_GeneratorExpressionNode(self, e):
        gens, last = self.comp(e.loop if getattr(e, "loop", None) is not None else e.def_node.gbody.body)
        return ast.GeneratorExp(self.expr(last.arg if hasattr(last, "arg") else last.expr), gens)


def load_pyx(path):
    tree = _cython_parse(path)
    c = Conv(path)
    body = c.block(tree.body)
    doc = getattr(tree, "doc", None)
    m = ast.Module(body, [])
    return Module(path, m, c.externs, c.extern_classes, open(path, encoding="utf-8").read())


_cache = {}


def load(rel):
    p = os.path.join(REPO, rel)
    if p not in _cache:
        _cache[p] = load_pyx(p) if p.endswith(".pyx") else load_py(p)
    return _cache[p]


if __name__ == "__main__":
    for p in sys.argv[1:]:
        m = load(p)
        print(ast.unparse(m.tree))
        for e in m.externs:
            print("extern", e, "->", e.ret, "exc:", e.excheck, e.handler)
