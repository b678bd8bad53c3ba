"""AST instrumentation of the code under test.

The source of /repo is parsed on every run and syntax that CPython would
evaluate in C without giving the proxies a say (calls of C functions, dict
subscripts, `in`, f-strings, `%` on strings, `is True`, displays with hashed
elements) is routed through hooks.py.  Control flow is untouched.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "__import__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, *args):
    return ast.Call(func=_name(n), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    # functions: record entry (which functions were encoded)
    def _func(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else None for d in node.args.kw_defaults]
        body = [self.visit_stmt(b) for b in node.body]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        doc = []
        if (
            flat
            and isinstance(flat[0], ast.Expr)
            and isinstance(flat[0].value, ast.Constant)
            and isinstance(flat[0].value.value, str)
        ):
            doc, flat = flat[:1], flat[1:]
        enter = ast.Expr(_call("__sx_enter__", ast.Constant(self.modname + ":" + q)))
        node.body = doc + [enter] + flat
        self.stack.pop()
        return node

    def visit_stmt(self, s):
        return self.visit(s)

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        body = []
        for b in node.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        return ast.Call(func=_name("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            return _call("__sx_getitem__", node.value, self._index(node.slice))
        self.generic_visit(node)
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(func=_name("slice"), args=[s.lower or n, s.upper or n, s.step or n], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            obj = self.visit(t.value)
            idx = self._index(self.visit(t.slice))
            # Python evaluates the value first, then the target
            return ast.Expr(_call("__sx_setitem_v__", val, obj, idx))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            obj = self.visit(node.target.value)
            idx = self._index(self.visit(node.target.slice))
            val = self.visit(node.value)
            op = type(node.op).__name__
            return ast.Expr(
                ast.Call(
                    func=_name("__sx_augitem__"),
                    args=[obj, idx, ast.Constant(op), ast.Lambda(args=_noargs(), body=val)],
                    keywords=[],
                )
            )
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            val = self.visit(node.value)
            return ast.Assign(
                targets=[node.target],
                value=_call("__sx_mod__", _name(node.target.id), val),
            )
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(
                    ast.Expr(_call("__sx_delitem__", self.visit(t.value), self._index(self.visit(t.slice))))
                )
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = [isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops]
        if not any(special):
            return node
        if len(node.ops) == 1:
            return self._cmp1(node.left, node.ops[0], node.comparators[0])
        # chained comparison with in/is: a OP b OP c -> via walrus-free lambda helper
        ops = [ast.Constant(type(o).__name__) for o in node.ops]
        return _call(
            "__sx_chain__",
            ast.List(elts=ops, ctx=ast.Load()),
            *[ast.Lambda(args=_noargs(), body=e) for e in [node.left] + node.comparators],
        )

    def _cmp1(self, a, op, b):
        if isinstance(op, ast.In):
            return _call("__sx_in__", a, b)
        if isinstance(op, ast.NotIn):
            return _call("__sx_not_in__", a, b)
        if isinstance(op, ast.Is):
            return _call("__sx_is__", a, b)
        if isinstance(op, ast.IsNot):
            return _call("__sx_is_not__", a, b)
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant("")
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(
                    ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load())
                )
        return _call("__sx_fstr__", ast.List(elts=parts, ctx=ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call("__sx_mod__", node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = [
            ast.Tuple(elts=[k if k is not None else _name("__sx_star__"), v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)
        ]
        return _call("__sx_dict__", ast.List(elts=items, ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("__sx_set__", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call(
            "__sx_dict__",
            ast.ListComp(
                elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
            ),
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("__sx_set__", ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        guard = ast.Expr(_call("__sx_except__"))
        node.body = [guard] + node.body
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    def visit_Global(self, node):
        return node


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    # annotations are dropped: they have no effect on behaviour
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = None
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                a.annotation = None
            if n.args.vararg:
                n.args.vararg.annotation = None
            if n.args.kwarg:
                n.args.kwarg.annotation = None
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


CODE = {}  # compiled once per process


class Loader(importlib.abc.Loader):
    def __init__(self, finder, fullname, path):
        self.finder = finder
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks

        code = CODE.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                src = f.read().decode("utf-8")
            code = CODE[self.path] = transform(src, self.path, self.fullname)
        module.__file__ = self.path
        module.__dict__.update(hooks.NAMESPACE)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Loads earthkit.regrid from the tree under test, instrumented."""

    def __init__(self, root, package="earthkit.regrid", skip=("earthkit.regrid._version",)):
        self.root = root  # directory holding the package's files
        self.package = package
        self.skip = skip

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        rel = fullname[len(self.package):].lstrip(".").replace(".", "/")
        base = os.path.join(self.root, rel) if rel else self.root
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, Loader(self, fullname, p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            if fullname in self.skip:
                return None
            return importlib.machinery.ModuleSpec(fullname, Loader(self, fullname, p), origin=p)
        return None


def install(root):
    f = Finder(root)
    sys.meta_path.insert(0, f)
    return f
