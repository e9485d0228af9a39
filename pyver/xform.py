"""Mechanical extraction: /repo/pysolar source -> executable module over symbolic values.

The functions that are verified are the functions of the source files, parsed on every run.  The
transformation keeps every statement and only (1) reads float literals as exact decimals,
(2) routes calls, subscripts, division, power and `%` through the verifier's semantics of those
operations, (3) adds the loop rule's hooks to for-loops, and (4) resolves imports of libraries to the
verifier's models of them.  Dropped: type annotations of variables and arguments, docstrings are kept.
"""
import ast
import builtins
import types
from . import terms as tm

RAW = {"super", "globals", "locals", "vars", "dir", "eval", "exec", "__import__"}


class _Names(ast.NodeVisitor):
    """names assigned in a loop body (not descending into nested scopes)"""

    def __init__(self):
        self.stored, self.loaded = set(), set()

    def visit_Name(self, n):
        (self.loaded if isinstance(n.ctx, ast.Load) else self.stored).add(n.id)

    def visit_FunctionDef(self, n):
        self.stored.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        self.stored.add(n.name)

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class X(ast.NodeTransformer):
    def __init__(self):
        self.consts = []
        self.nloop = 0
        self.infunc = 0

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]:
            if a is not None:
                a.annotation = None
        self.infunc += 1
        n.body = [self.visit(s) for s in n.body]
        n.body = _flat(n.body)
        self.infunc -= 1
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        if not self.infunc:      # dataclass-like bodies keep their annotation
            n.value = self.visit(n.value)
            return n
        return ast.copy_location(ast.Assign([self.visit(n.target)], self.visit(n.value)), n)

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            self.consts.append(n.value)
            return ast.copy_location(ast.Name("__fc%d__" % (len(self.consts) - 1), ast.Load()), n)
        return n

    def visit_UnaryOp(self, n):
        return self.generic_visit(n)

    def _call(self, fname, args, n):
        return ast.copy_location(ast.Call(ast.Name(fname, ast.Load()), args, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__vdiv__", ast.Pow: "__vpow__", ast.Mod: "__vmod__"}.get(type(n.op))
        if f:
            return self._call(f, [n.left, n.right], n)
        return n

    def visit_AugAssign(self, n):
        f = {ast.Div: "__vdiv__", ast.Pow: "__vpow__", ast.Mod: "__vmod__"}.get(type(n.op))
        self.generic_visit(n)
        if f:
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], self._call("__vaug__", [ast.Name(f, ast.Load()), load, n.value], n)), n)
        return n

    def visit_Call(self, n):
        raw = isinstance(n.func, ast.Name) and n.func.id in RAW
        self.generic_visit(n)
        if raw:
            return n
        return ast.copy_location(ast.Call(ast.Name("__vcall__", ast.Load()), [n.func] + n.args, n.keywords), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.type = self._call("__vexc__", [n.type or ast.Name("BaseException", ast.Load())], n)
        return n

    def visit_Try(self, n):
        bad = any(isinstance(x, ast.Return) for s in n.finalbody for x in ast.walk(s)) or _Exits().find(n.finalbody)
        self.generic_visit(n)
        if bad:
            r = ast.Expr(self._call("__vunsup__", [ast.Constant("leaving a finally block early")], n))
            return [ast.copy_location(r, n), n]
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            i = n.slice
            if isinstance(i, ast.Slice):
                none = ast.Constant(None)
                i = ast.Call(ast.Name("slice", ast.Load()), [x or none for x in (i.lower, i.upper, i.step)], [])
                ast.copy_location(i, n)
            elif any(isinstance(x, ast.Slice) for x in ast.walk(i)):
                return n
            return self._call("__vgetitem__", [n.value, i], n)
        return n

    def _comp1(self, n, kind):
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            return self.generic_visit(n)
        import copy
        elem = copy.deepcopy(n)
        elem.__class__ = ast.ListComp
        elem.generators[0].iter = ast.Tuple([ast.Name("__e", ast.Load())], ast.Load())
        native = copy.deepcopy(n)
        native.generators[0].iter = ast.Name("__it", ast.Load())

        def lam(arg, body):
            return ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), body)
        elem = ast.Subscript(self.generic_visit(elem), ast.Constant(0), ast.Load())
        r = self._call("__vcomp__", [ast.Constant(kind), self.visit(g.iter), lam("__e", elem), lam("__it", self.generic_visit(native))], n)
        ast.fix_missing_locations(r)
        return r

    def visit_ListComp(self, n):
        return self._comp1(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp1(n, "gen")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.YieldFrom) and self.infunc:
            y = "__y%d" % self.nloop
            f = ast.For(ast.Name(y, ast.Store()), n.value.value, [ast.Expr(ast.Yield(ast.Name(y, ast.Load())))], [])
            ast.copy_location(f, n)
            ast.fix_missing_locations(f)
            return self.visit(f)
        return self.generic_visit(n)

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self._call("__vciter__", [n.iter], n.iter)
        return n

    def visit_For(self, n):
        v = _Names()
        for s in n.body:
            v.visit(s)
        t = _Names()
        t.visit(n.target)
        mut = sorted(v.stored - t.stored)
        names = sorted((v.stored | v.loaded | t.stored))
        carried = sorted(set(mut) & _carried(n.body))
        self.generic_visit(n)
        lv = "__L%d" % self.nloop
        self.nloop += 1
        return self._loop(n, lv, mut, names, carried)

    def visit_While(self, n):
        v = _Names()
        for s in n.body:
            v.visit(s)
        v.visit(n.test)
        test = ast.copy_location(ast.Expr(n.test), n)
        carried = sorted(v.stored & _carried([test] + n.body))
        mut, names = sorted(v.stored), sorted(v.stored | v.loaded)
        ok = self.infunc and not _Exits().find(n.orelse)
        self.generic_visit(n)
        if not ok:
            return n
        lv = "__L%d" % self.nloop
        self.nloop += 1

        def get(x):
            return ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load()))
        d = ast.Dict([ast.Constant(x) for x in names], [get(x) for x in names])
        mk = ast.Assign([ast.Name(lv, ast.Store())],
                        ast.Call(ast.Name("__vwhile__", ast.Load()), [d, ast.Constant((lv, n.lineno)), ast.Constant(tuple(mut)),
                                                                      ast.Constant(tuple(carried))], []))

        def meth(m, *a):
            return ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), m, ast.Load()), [ast.Constant(x) for x in a], [])
        seed = [ast.Assign([ast.Name(x, ast.Store())], meth("enter", x)) for x in carried] or [ast.Pass()]
        # a carried variable that is not bound before the loop stays unbound
        head = [ast.If(meth("step"), seed, [])]
        leave = ast.Expr(meth("leave"))
        body = _Leave(leave).block(n.body)
        w = ast.While(ast.Constant(True), head + [ast.If(n.test, [ast.Pass()], [leave] + n.orelse + [ast.Break()])] + body, [])
        out = [mk, w]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out

    def _loop(self, n, lv, mut, names, carried):
        def get(x):
            return ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load()))
        d = ast.Dict([ast.Constant(x) for x in names], [get(x) for x in names])
        site = ast.Constant((lv, n.lineno))
        mk = ast.Assign([ast.Name(lv, ast.Store())],
                        ast.Call(ast.Name("__vloop__", ast.Load()), [n.iter, d, site, ast.Constant(tuple(mut)), ast.Constant(tuple(carried))], []))
        sym = ast.Attribute(ast.Name(lv, ast.Load()), "sym", ast.Load())

        def asg(meth):
            return [ast.Assign([ast.Name(x, ast.Store())],
                               ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), meth, ast.Load()),
                                        [ast.Constant(x)], [])) for x in mut]
        pre = [ast.If(sym, asg("enter"), [])] if mut else []
        post = [ast.If(sym, asg("leave"), [])] if mut else []
        n.iter = ast.Name(lv, ast.Load())
        n.body = pre + n.body
        if post:
            n.orelse = post + n.orelse
        out = [mk, n]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out


class _Exits(ast.NodeVisitor):
    """break or continue that leaves the statements"""

    def find(self, body):
        self.hit = False
        for s in body:
            self.visit(s)
        return self.hit

    def visit_Break(self, n):
        self.hit = True
    visit_Continue = visit_Break

    def _stop(self, n):
        pass
    visit_For = visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = _stop


class _Leave(ast.NodeTransformer):
    """put `leave` before the breaks of this loop and before returns"""

    def __init__(self, leave):
        self.leave, self.depth = leave, 0

    def block(self, body):
        return _flat([self.visit(s) for s in body])

    def visit_Break(self, n):
        return n if self.depth else [self.leave, n]

    def visit_Return(self, n):
        return [self.leave, n]

    def _loop(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_For = visit_While = _loop

    def _stop(self, n):
        return n
    visit_FunctionDef = visit_Lambda = visit_ClassDef = _stop


def _carried(body):
    """names that may be read in an iteration before that iteration assigns them (conservative)"""
    written, read = set(), set()

    def loads(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}

    def stores(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def run(stmts, w):
        """names definitely written after the statements, given those written before"""
        for s in stmts:
            if isinstance(s, ast.Assign):
                read.update(loads(s.value) - w)
                for t in s.targets:
                    read.update(loads(t) - w)
                    w = w | stores(t)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                read.update((loads(s.value) | loads(s.target)) - w)
                w = w | stores(s.target)
            elif isinstance(s, ast.AugAssign):
                read.update((loads(s.value) | loads(s.target) | stores(s.target)) - w)
            elif isinstance(s, ast.If):
                read.update(loads(s.test) - w)
                w = run(s.body, w) & run(s.orelse, w)
            elif isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                read.update(loads(s) - w)
                return w | {"*"} | ALL
            else:
                read.update((loads(s) | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del)}) - w)
                for x in ast.walk(s):
                    if isinstance(x, ast.AugAssign):
                        read.update(stores(x.target) - w)
        return w
    ALL = set()
    for s in body:
        ALL |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
    run(body, set())
    return read


def _flat(l):
    out = []
    for x in l:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def compile_source(src, filename):
    tree = ast.parse(src, filename)
    x = X()
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec"), x.consts, tree
