"""Front end: turns /repo's .py and .pyx sources, mechanically and on every run, into one Python-`ast` form.

.py files go through CPython's parser.  .pyx files go through *Cython's own parser* (the one that compiles the code that
runs) and the resulting Cython tree is translated node by node.  What the translation drops is exactly:
  * C type declarations without an initialiser (``cdef object fut``) -- kept in ``ctypes`` of the function, no code;
  * typecasts ``<T>x`` become ``__cast__("T", x)`` calls, so the engine decides what a cast means;
  * ``cdef extern`` blocks, ``cimport``s of C library functions become names bound to ("cimport", module, name);
  * annotations and docstrings.
Any node kind that is not listed here raises Unsupported: nothing is skipped silently.
"""
import ast
import glob
import os
import sys


class Unsupported(Exception):
    pass


def _cython():
    if "Cython" not in sys.modules:  # the repository's own Cython (the one the build uses), not the tooling venv's
        extra = [p for p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) if p not in sys.path]
        sys.path[:0] = extra
        try:
            import Cython.Compiler.Main  # noqa: F401
            import Cython.Compiler.Parsing  # noqa: F401
            import Cython.Compiler.TreeFragment  # noqa: F401
        finally:
            for p in extra:
                sys.path.remove(p)
    from Cython.Compiler import Main  # noqa: F401  (import order matters)
    from Cython.Compiler import Parsing
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    from Cython.Compiler.TreeFragment import StringParseContext

    return Parsing, PyrexScanner, StringSourceDescriptor, StringParseContext


def parse_pyx(path, src, modname):
    Parsing, PyrexScanner, SSD, SPC = _cython()
    from io import StringIO

    ctx = SPC(modname)
    sd = SSD(path, src)
    scope = ctx.find_module(modname, pos=(sd, 1, 0), need_pxd=False)
    s = PyrexScanner(
        StringIO(src), sd, source_encoding="UTF-8", scope=scope, context=ctx, initial_pos=(sd, 1, 0)
    )
    return Parsing.p_module(s, pxd=path.endswith(".pxd"), full_module_name=modname)


BIN = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
    "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult,
}
CMP = {
    "==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "is": ast.Is,
    "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn, "is not": ast.IsNot, "not in": ast.NotIn,
}


def _s(x):
    return str(x)


class Conv:
    """Cython tree -> ast."""

    def __init__(self, path):
        self.path = path

    # -- helpers -----------------------------------------------------------
    def at(self, node, new):
        pos = getattr(node, "pos", None)
        new.lineno = pos[1] if pos else 1
        new.col_offset = pos[2] if pos else 0
        new.end_lineno = new.lineno
        new.end_col_offset = new.col_offset
        return new

    def bad(self, n, why=""):
        raise Unsupported(f"{self.path}:{getattr(n,'pos',('',0))[1]}: Cython node {type(n).__name__} {why}")

    # -- statements ----------------------------------------------------------
    def body(self, n):
        out = self.stmts(n)
        return out or [self.at(n, ast.Pass())]

    def stmts(self, n):
        if n is None:
            return []
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            self.bad(n)
        r = m(n)
        return r if isinstance(r, list) else [r]

    def st_StatListNode(self, n):
        out = []
        for s in n.stats:
            out += self.stmts(s)
        return out

    def st_PassStatNode(self, n):
        return self.at(n, ast.Pass())

    def st_BreakStatNode(self, n):
        return self.at(n, ast.Break())

    def st_ContinueStatNode(self, n):
        return self.at(n, ast.Continue())

    def st_ExprStatNode(self, n):
        if type(n.expr).__name__ in ("UnicodeNode", "BytesNode", "StringNode"):
            return []
        return self.at(n, ast.Expr(self.ex(n.expr)))

    def st_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            return self.imp(n)
        ann = getattr(n.lhs, "annotation", None)
        if type(n.rhs).__name__ == "EllipsisNode" and ann is not None:
            pass
        return self.at(n, ast.Assign([self.ex(n.lhs, store=True)], self.ex(n.rhs)))

    def imp(self, n):
        r = n.rhs
        if r.name_list is not None:
            self.bad(n, "import name_list")
        name = _s(r.module_name.value)
        asname = _s(n.lhs.name)
        top = getattr(r, "get_top_level_module", False)
        node = ast.Import([ast.alias(name, None if top or asname == name else asname)])
        return self.at(n, node)

    def st_FromImportStatNode(self, n):
        m = n.module
        level = m.level if m.level and m.level > 0 else 0
        names = []
        if any(_s(a) == "*" for a, _ in n.items):
            names = [ast.alias("*", None)]
        else:
            for a, t in n.items:
                names.append(ast.alias(_s(a), _s(t.name) if _s(t.name) != _s(a) else None))
        return self.at(n, ast.ImportFrom(_s(m.module_name.value), names, level))

    def st_FromCImportStatNode(self, n):
        names = []
        for item in n.imported_names:
            name, asname = item[1], item[2]
            names.append(ast.alias(_s(name), _s(asname) if asname and _s(asname) != _s(name) else None))
        node = ast.ImportFrom(_s(n.module_name), names, n.relative_level or 0)
        node.cimport = True
        return self.at(n, node)

    def st_CImportStatNode(self, n):
        node = ast.Import([ast.alias(_s(n.module_name), _s(n.as_name) if n.as_name else None)])
        node.cimport = True
        return self.at(n, node)

    def st_CDefExternNode(self, n):
        return []

    def st_CTypeDefNode(self, n):
        return []

    def st_CStructOrUnionDefNode(self, n):
        """cdef struct -> NAME = __cstruct__(NAME, ((field, type), ...))"""
        if n.kind != "struct" or n.attributes is None:
            return []
        fields = []
        for a in n.attributes:
            for d in a.declarators:
                fields.append(ast.Tuple([ast.Constant(_s(d.name)), ast.Constant(self.ctype(a.base_type))], ast.Load()))
        v = ast.Call(ast.Name("__cstruct__", ast.Load()), [ast.Constant(_s(n.name)), ast.Tuple(fields, ast.Load())], [])
        return self.at(n, ast.Assign([ast.Name(_s(n.name), ast.Store())], v))

    def st_CEnumDefNode(self, n):
        return []

    def st_CascadedAssignmentNode(self, n):
        return self.at(n, ast.Assign([self.ex(x, store=True) for x in n.lhs_list], self.ex(n.rhs)))

    def st_InPlaceAssignmentNode(self, n):
        op = n.operator
        return self.at(n, ast.AugAssign(self.ex(n.lhs, store=True), BIN[op](), self.ex(n.rhs)))

    def st_CVarDefNode(self, n):
        out = []
        ty = self.ctype(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            nm = d
            star = ""
            while type(nm).__name__ == "CPtrDeclaratorNode":
                nm = nm.base
                star += "*"
            name = _s(nm.name)
            default = nm.default
            decl = ast.Expr(
                ast.Call(
                    ast.Name("__cdef__", ast.Load()),
                    [ast.Constant(name), ast.Constant(ty + star)],
                    [],
                )
            )
            out.append(self.at(n, ast.fix_missing_locations(self.at(n, decl))))
            if default is not None:
                out.append(self.at(n, ast.Assign([ast.Name(name, ast.Store())], self.ex(default))))
        return out

    def ctype(self, b):
        t = type(b).__name__
        if t == "CSimpleBaseTypeNode":
            nm = _s(b.name) if b.name else "object"
            if getattr(b, "longness", 0) and b.is_basic_c_type:
                nm = "long " * b.longness + nm
            if b.is_basic_c_type and b.signed == 0:
                nm = "unsigned " + nm
            return nm
        if t == "TemplatedTypeNode":
            return self.ctype(b.base_type_node)
        if t == "CComplexBaseTypeNode":
            d = b.declarator
            star = ""
            while type(d).__name__ == "CPtrDeclaratorNode":
                d = d.base
                star += "*"
            return self.ctype(b.base_type) + star
        if t in ("MemoryViewSliceTypeNode", "CNestedBaseTypeNode", "CConstOrVolatileTypeNode"):
            return t
        return t

    def st_CFuncDefNode(self, n):
        d = n.declarator
        ret = self.ctype(n.base_type)
        while type(d).__name__ == "CPtrDeclaratorNode":
            d = d.base
        if type(d).__name__ != "CFuncDeclaratorNode":
            self.bad(n)
        name = _s(d.base.name)
        args, defaults, ct = self.cargs(d.args)
        fn = ast.FunctionDef(
            name,
            ast.arguments([], args, None, [], [], None, defaults),
            self.body(n.body),
            [],
            None,
        )
        fn.type_params = []
        fn.ctypes = ct
        fn.cret = ret
        fn.cfunc = "cpdef" if n.overridable else "cdef"
        return self.at(n, fn)

    def cargs(self, cargs):
        args, defaults, ct = [], [], {}
        for a in cargs:
            nm, ty = self.argname(a)
            args.append(ast.arg(nm))
            if ty and ty != "object":
                ct[nm] = ty
            if a.default is not None:
                defaults.append(self.ex(a.default))
        return args, defaults, ct

    def argname(self, a):
        d = a.declarator
        star = ""
        while type(d).__name__ == "CPtrDeclaratorNode":
            d = d.base
            star += "*"
        nm = _s(d.name)
        ty = self.ctype(a.base_type) if a.base_type is not None else None
        if not nm:  # plain python arg: cython stores the name in the base type
            nm = _s(a.base_type.name)
            ty = None
        return nm, (ty + star if ty else None)

    def st_DefNode(self, n):
        args, kwonly, defaults, kwdefaults, ct = [], [], [], [], {}
        for a in n.args:
            nm, ty = self.argname(a)
            if ty and ty != "object":
                ct[nm] = ty
            if a.kw_only:
                kwonly.append(ast.arg(nm))
                kwdefaults.append(self.ex(a.default) if a.default is not None else None)
            else:
                args.append(ast.arg(nm))
                if a.default is not None:
                    defaults.append(self.ex(a.default))
        va = ast.arg(_s(n.star_arg.name)) if n.star_arg else None
        kw = ast.arg(_s(n.starstar_arg.name)) if n.starstar_arg else None
        cls = ast.AsyncFunctionDef if n.is_async_def else ast.FunctionDef
        fn = cls(
            _s(n.name),
            ast.arguments([], args, va, kwonly, kwdefaults, kw, defaults),
            self.body(n.body),
            [self.ex(d.decorator) for d in (n.decorators or [])],
            None,
        )
        fn.type_params = []
        fn.ctypes = ct
        fn.cret = None
        return self.at(n, fn)

    def st_CClassDefNode(self, n):
        bases = []
        if n.bases is not None:
            bases = [self.ex(x) for x in n.bases.args]
        c = ast.ClassDef(_s(n.class_name), bases, [], self.body(n.body) if n.body else [ast.Pass()], [])
        c.type_params = []
        c.cclass = True
        return self.at(n, c)

    def st_PyClassDefNode(self, n):
        name = _s(n.name)
        bases, kws = [], []
        cb = n.bases
        if cb is not None:
            tb = type(cb).__name__
            if tb == "TupleNode":
                bases = [self.ex(x) for x in cb.args]
            else:
                bases = self.posargs(cb)
        mk = getattr(n, "mkw", None)
        if mk is not None:
            kws = self.kwargs(mk)
        mc = getattr(n, "metaclass", None)
        if mc is not None and type(mc).__name__ not in ("PyClassMetaclassNode",):
            kws.append(ast.keyword("metaclass", self.ex(mc)))
        c = ast.ClassDef(name, bases, kws, self.body(n.body), [self.ex(d.decorator) for d in (n.decorators or [])])
        c.type_params = []
        return self.at(n, c)

    def st_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause) if n.else_clause else []
        for cl in reversed(n.if_clauses):
            node = self.at(cl, ast.If(self.ex(cl.condition), self.body(cl.body), orelse))
            orelse = [node]
        return orelse

    def st_WhileStatNode(self, n):
        return self.at(
            n,
            ast.While(
                self.ex(n.condition) if n.condition is not None else ast.Constant(True),
                self.body(n.body),
                self.stmts(n.else_clause) if n.else_clause else [],
            ),
        )

    def st_ForInStatNode(self, n):
        return self.at(
            n,
            ast.For(
                self.ex(n.target, store=True),
                self.ex(n.iterator.sequence),
                self.body(n.body),
                self.stmts(n.else_clause) if n.else_clause else [],
            ),
        )

    def st_AsyncForStatNode(self, n):
        return self.at(
            n,
            ast.AsyncFor(
                self.ex(n.target, store=True),
                self.ex(n.iterator.sequence),
                self.body(n.body),
                self.stmts(n.else_clause) if n.else_clause else [],
            ),
        )

    def st_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None
            if c.pattern:
                pats = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                pat = self.ex(pats[0]) if len(pats) == 1 else ast.Tuple([self.ex(p) for p in pats], ast.Load())
            name = _s(c.target.name) if c.target is not None else None
            hs.append(self.at(c, ast.ExceptHandler(pat, name, self.body(c.body))))
        return self.at(
            n, ast.Try(self.body(n.body), hs, self.stmts(n.else_clause) if n.else_clause else [], [])
        )

    def st_TryFinallyStatNode(self, n):
        return self.at(n, ast.Try(self.body(n.body), [], [], self.body(n.finally_clause)))

    def st_RaiseStatNode(self, n):
        if n.exc_value is not None or n.exc_tb is not None:
            self.bad(n, "old raise")
        return self.at(
            n,
            ast.Raise(
                self.ex(n.exc_type) if n.exc_type is not None else None,
                self.ex(n.cause) if n.cause is not None else None,
            ),
        )

    def st_ReraiseStatNode(self, n):
        return self.at(n, ast.Raise(None, None))

    def st_ReturnStatNode(self, n):
        return self.at(n, ast.Return(self.ex(n.value) if n.value is not None else None))

    def st_AssertStatNode(self, n):
        cond = getattr(n, "condition", None) or getattr(n, "cond", None)
        return self.at(n, ast.Assert(self.ex(cond), None))

    def st_DelStatNode(self, n):
        return self.at(n, ast.Delete([self.ex(a, store=True) for a in n.args]))

    def st_GlobalNode(self, n):
        return self.at(n, ast.Global([_s(x) for x in n.names]))

    def st_NonlocalNode(self, n):
        return self.at(n, ast.Nonlocal([_s(x) for x in n.names]))

    def st_WithStatNode(self, n):
        item = ast.withitem(self.ex(n.manager), self.ex(n.target, store=True) if n.target is not None else None)
        cls = ast.AsyncWith if n.is_async else ast.With
        return self.at(n, cls([item], self.body(n.body)))

    # -- expressions -----------------------------------------------------------
    def ex(self, n, store=False):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            if hasattr(n, "operator") and hasattr(n, "operand1") and n.operator in BIN:
                return self.at(n, ast.BinOp(self.ex(n.operand1), BIN[n.operator](), self.ex(n.operand2)))
            self.bad(n)
        r = m(n)
        if store and hasattr(r, "ctx"):
            self._store(r)
        return self.at(n, r)

    def _store(self, r):
        r.ctx = ast.Store()
        for e in getattr(r, "elts", []) or []:
            if hasattr(e, "ctx"):
                self._store(e)
        if isinstance(r, ast.Starred):
            self._store(r.value)

    def ex_NameNode(self, n):
        return ast.Name(_s(n.name), ast.Load())

    def ex_AttributeNode(self, n):
        return ast.Attribute(self.ex(n.obj), _s(n.attribute), ast.Load())

    def ex_NoneNode(self, n):
        return ast.Constant(None)

    def ex_NullNode(self, n):
        return ast.Name("NULL", ast.Load())

    def ex_EllipsisNode(self, n):
        return ast.Constant(...)

    def ex_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def ex_IntNode(self, n):
        return ast.Constant(int(_s(n.value).rstrip("uUlL"), 0))

    def ex_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def ex_UnicodeNode(self, n):
        return ast.Constant(_s(n.value))

    ex_IdentifierStringNode = ex_UnicodeNode

    def ex_StringNode(self, n):
        v = n.unicode_value if getattr(n, "unicode_value", None) is not None else n.value
        return ast.Constant(_s(v))

    def ex_BytesNode(self, n):
        v = n.value
        return ast.Constant(bytes(v) if isinstance(v, bytes) else v.encode("latin1"))

    def ex_TupleNode(self, n):
        return ast.Tuple([self.ex(a) for a in n.args], ast.Load())

    def ex_ListNode(self, n):
        return ast.List([self.ex(a) for a in n.args], ast.Load())

    def ex_SetNode(self, n):
        return ast.Set([self.ex(a) for a in n.args])

    def ex_DictNode(self, n):
        return ast.Dict([self.ex(i.key) for i in n.key_value_pairs], [self.ex(i.value) for i in n.key_value_pairs])

    def ex_MergedDictNode(self, n):
        ks, vs = [], []
        for kw in n.keyword_args:
            if type(kw).__name__ == "DictNode":
                for i in kw.key_value_pairs:
                    ks.append(self.ex(i.key))
                    vs.append(self.ex(i.value))
            else:
                ks.append(None)
                vs.append(self.ex(kw))
        return ast.Dict(ks, vs)

    def ex_StarredUnpackingNode(self, n):
        return ast.Starred(self.ex(n.target), ast.Load())

    def ex_MergedSequenceNode(self, n):
        elts = []
        for a in n.args:
            if type(a).__name__ in ("TupleNode", "ListNode"):
                elts += [self.ex(x) for x in a.args]
            else:
                elts.append(ast.Starred(self.ex(a), ast.Load()))
        t = str(n.type)
        if "set" in t:
            return ast.Set(elts)
        return (ast.Tuple if "tuple" in t else ast.List)(elts, ast.Load())

    def ex_AsTupleNode(self, n):
        return ast.Call(ast.Name("tuple", ast.Load()), [self.ex(n.arg)], [])

    def ex_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.ex(n.operand))

    def ex_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.ex(n.operand))

    def ex_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.ex(n.operand))

    def ex_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.ex(n.operand))

    def ex_BoolBinopNode(self, n):
        op = ast.And if n.operator == "and" else ast.Or
        return ast.BoolOp(op(), [self.ex(n.operand1), self.ex(n.operand2)])

    def ex_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n.operator]()], [self.ex(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            comps.append(self.ex(c.operand2))
            c = c.cascade
        return ast.Compare(self.ex(n.operand1), ops, comps)

    def ex_CondExprNode(self, n):
        t = n.test if getattr(n, "test", None) is not None else n.condition
        return ast.IfExp(self.ex(t), self.ex(n.true_val), self.ex(n.false_val))

    def posargs(self, n):
        """positional_args expression of a GeneralCallNode -> list of ast args"""
        t = type(n).__name__
        if t == "TupleNode":
            return [self.ex(a) for a in n.args]
        if t == "AsTupleNode":
            return [ast.Starred(self.ex(n.arg), ast.Load())]
        if t == "AddNode":
            return self.posargs(n.operand1) + self.posargs(n.operand2)
        if t == "MergedSequenceNode":
            out = []
            for a in n.args:
                out += self.posargs(a) if type(a).__name__ in ("TupleNode",) else [
                    ast.Starred(self.ex(a), ast.Load())
                ]
            return out
        self.bad(n, "positional args")

    def kwargs(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == "DictNode":
            return [ast.keyword(_s(i.key.value), self.ex(i.value)) for i in n.key_value_pairs]
        if t == "MergedDictNode":
            out = []
            for a in n.keyword_args:
                if type(a).__name__ == "DictNode":
                    out += self.kwargs(a)
                else:
                    out.append(ast.keyword(None, self.ex(a)))
            return out
        return [ast.keyword(None, self.ex(n))]

    def ex_SimpleCallNode(self, n):
        return ast.Call(self.ex(n.function), [self.ex(a) for a in n.args], [])

    def ex_GeneralCallNode(self, n):
        return ast.Call(self.ex(n.function), self.posargs(n.positional_args), self.kwargs(n.keyword_args))

    def ex_IndexNode(self, n):
        return ast.Subscript(self.ex(n.base), self.ex(n.index), ast.Load())

    def ex_SliceIndexNode(self, n):
        return ast.Subscript(
            self.ex(n.base),
            ast.Slice(
                self.ex(n.start) if n.start is not None else None, self.ex(n.stop) if n.stop is not None else None
            ),
            ast.Load(),
        )

    def ex_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.ex(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def ex_TypecastNode(self, n):
        ty = self.ctype(n.base_type) if n.base_type is not None else "object"
        return ast.Call(ast.Name("__cast__", ast.Load()), [ast.Constant(ty), self.ex(n.operand)], [])

    def ex_AwaitExprNode(self, n):
        return ast.Await(self.ex(n.arg))

    def ex_YieldExprNode(self, n):
        return ast.Yield(self.ex(n.arg) if n.arg is not None else None)

    def ex_YieldFromExprNode(self, n):
        return ast.YieldFrom(self.ex(n.arg))

    def ex_LambdaNode(self, n):
        args, defaults, ct = self.cargs(n.args)
        va = ast.arg(_s(n.star_arg.name)) if n.star_arg else None
        kw = ast.arg(_s(n.starstar_arg.name)) if n.starstar_arg else None
        return ast.Lambda(ast.arguments([], args, va, [], [], kw, defaults), self.ex(n.result_expr))

    def ex_AssignmentExpressionNode(self, n):
        a = n.assignment
        return ast.NamedExpr(self.ex(a.lhs, store=True), self.ex(a.rhs))

    def ex_JoinedStrNode(self, n):
        return ast.JoinedStr([self.ex(v) for v in n.values])

    def ex_FormattedValueNode(self, n):
        return ast.FormattedValue(self.ex(n.value), -1, None)

    def ex_CloneNode(self, n):
        return self.ex(n.arg)

    ex_ProxyNode = ex_CloneNode

    # comprehensions ---------------------------------------------------------
    def comp_loop(self, loop):
        gens = []
        node = loop
        while True:
            t = type(node).__name__
            if t == "StatListNode" and len(node.stats) == 1:
                node = node.stats[0]
            elif t in ("ForInStatNode", "AsyncForStatNode"):
                gens.append(
                    ast.comprehension(
                        self.ex(node.target, store=True),
                        self.ex(node.iterator.sequence),
                        [],
                        1 if t == "AsyncForStatNode" else 0,
                    )
                )
                node = node.body
            elif t == "IfStatNode":
                gens[-1].ifs.append(self.ex(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            else:
                return gens, node

    def ex_ComprehensionNode(self, n):
        gens, app = self.comp_loop(n.loop)
        t = type(app).__name__
        if t == "DictComprehensionAppendNode":
            return ast.DictComp(self.ex(app.key_expr), self.ex(app.value_expr), gens)
        if t != "ComprehensionAppendNode":
            self.bad(app)
        cls = ast.SetComp if "set" in str(n.type) else ast.ListComp
        return cls(self.ex(app.expr), gens)

    def ex_GeneratorExpressionNode(self, n):
        gens, app = self.comp_loop(n.loop)
        t = type(app).__name__
        if t == "ExprStatNode":
            app = app.expr
            t = type(app).__name__
        if t != "YieldExprNode":
            self.bad(app)
        return ast.GeneratorExp(self.ex(app.arg), gens)


class Source:
    """One module of the package: its ast in the common form plus where it came from."""

    def __init__(self, name, path, tree, kind, pxd=None):
        self.name, self.path, self.tree, self.kind, self.pxd = name, path, tree, kind, pxd or {}


_cache = {}


def load(root, modname):
    key = (root, modname)
    if key in _cache:
        return _cache[key]
    rel = modname.replace(".", "/")
    src = None
    for p, kind in ((rel + ".pyx", "pyx"), (rel + ".py", "py"), (rel + "/__init__.py", "py")):
        full = os.path.join(root, p)
        if os.path.exists(full):
            text = open(full).read()
            if kind == "py":
                tree = ast.parse(text, full)
                src = Source(modname, full, tree, kind)
                src.is_pkg = p.endswith("__init__.py")
            else:
                root_node = parse_pyx(full, text, modname)
                body = Conv(full).stmts(root_node.body)
                tree = ast.Module(body, [])
                ast.fix_missing_locations(tree)
                src = Source(modname, full, tree, kind, load_pxd(root, rel))
                src.is_pkg = False
            break
    _cache[key] = src
    return src


def load_pxd(root, rel):
    """C attribute types of cdef classes, from the .pxd beside the .pyx: {class: {attr: ctype}}"""
    full = os.path.join(root, rel + ".pxd")
    if not os.path.exists(full):
        return {}
    node = parse_pyx(full, open(full).read(), rel.replace("/", "."))
    conv = Conv(full)
    out = {}

    def visit(n):
        t = type(n).__name__
        if t == "StatListNode":
            for s in n.stats:
                visit(s)
        elif t == "CClassDefNode" and n.body is not None:
            attrs = out.setdefault(str(n.class_name), {})
            stats = n.body.stats if type(n.body).__name__ == "StatListNode" else [n.body]
            for s in stats:
                if type(s).__name__ == "CVarDefNode":
                    ty = conv.ctype(s.base_type)
                    for d in s.declarators:
                        star = ""
                        while type(d).__name__ == "CPtrDeclaratorNode":
                            d, star = d.base, star + "*"
                        if type(d).__name__ == "CNameDeclaratorNode":
                            attrs[str(d.name)] = ty + star
    visit(node.body)
    return out


if __name__ == "__main__":
    root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    for f in sorted(
        glob.glob(root + "/a_sync/**/*.pyx", recursive=True) + glob.glob(root + "/a_sync/**/*.py", recursive=True)
    ):
        mod = os.path.relpath(f, root).rsplit(".", 1)[0].replace("/", ".")
        if mod.endswith(".__init__"):
            mod = mod[:-9]
        s = load(root, mod)
        ast.unparse(s.tree)
    if len(sys.argv) > 2:
        print(ast.unparse(load(root, sys.argv[2]).tree))
