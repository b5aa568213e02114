"""
Loads the code under test from its CURRENT source with every operation that a
symbolic value could flow through (calls, membership, identity, subscripts,
f-strings, dict/set displays, `|` and `%`) routed through `symx.hooks`.

The source is read from /repo on every run; nothing is cached on disk.
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import hooks

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INSTRUMENTED_FILES: set[str] = set()

NO_HOOK_NAMES = {"super", "locals", "globals", "eval", "exec", "__sx_enter__"}


def _name(id_):
    return ast.Name(id=id_, ctx=ast.Load())


def _call(fn, *args, keywords=()):
    return ast.Call(func=_name(fn), args=list(args), keywords=list(keywords))


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.in_msg = 0

    # -- scopes
    def _func(self, node):
        self.stack.append(node.name)
        qual = f"{self.mod}:{'.'.join(self.stack)}"
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        enter = ast.Expr(value=_call("__sx_enter__", ast.Constant(qual)))
        at = 0
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
        ):
            at = 1
        body.insert(at, enter)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_TypeAlias(self, node):
        return node

    # patterns contain expressions that must stay as they are
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        return node

    # -- messages
    def visit_Raise(self, node):
        self.in_msg += 1
        try:
            return self.generic_visit(node)
        finally:
            self.in_msg -= 1

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        if node.msg is not None:
            self.in_msg += 1
            node.msg = self.visit(node.msg)
            self.in_msg -= 1
        return node

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_HOOK_NAMES:
            return node
        if (
            isinstance(node.func, ast.Name)
            and node.func.id in ("vars", "dir")
            and not node.args
        ):
            return node
        return ast.copy_location(
            ast.Call(
                func=_name("__sx_call__"),
                args=[node.func] + node.args,
                keywords=node.keywords,
            ),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            fn = {
                ast.In: "__sx_in__",
                ast.NotIn: "__sx_notin__",
            }.get(type(op))
            if fn is None and isinstance(op, (ast.Is, ast.IsNot)):
                # only booleans need help: `x is True` / `x is not False`
                if any(
                    isinstance(x, ast.Constant) and isinstance(x.value, bool)
                    for x in (l, r)
                ):
                    fn = "__sx_is__" if isinstance(op, ast.Is) else "__sx_isnot__"
            if fn:
                return ast.copy_location(_call(fn, l, r), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = (
                    self.visit(v.format_spec)
                    if v.format_spec is not None
                    else ast.Constant("")
                )
                parts.append(
                    ast.Tuple(
                        elts=[
                            self.visit(v.value),
                            ast.Constant(v.conversion),
                            spec,
                        ],
                        ctx=ast.Load(),
                    )
                )
        fn = "__sx_msg__" if self.in_msg else "__sx_fstr__"
        return ast.copy_location(_call(fn, *parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, (ast.Slice, ast.Tuple)):
                return node
            return ast.copy_location(_call("__sx_getitem__", node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                # python evaluates the value first
                return ast.copy_location(
                    ast.Expr(value=_call("__sx_setitem__", node.value, t.value, t.slice)),
                    node,
                )
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                return ast.copy_location(
                    ast.Expr(value=_call("__sx_delitem__", t.value, t.slice)), node
                )
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys if k is not None) and all(
            k is not None for k in node.keys
        ):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_call("__sx_dict__", *items), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators,
        )
        return ast.copy_location(_call("__sx_dictcomp__", lc), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("__sx_set__", ast.List(elts=node.elts, ctx=ast.Load())), node
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("__sx_set__", lc), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        fn = {
            ast.BitOr: "__sx_or__",
            ast.Mod: "__sx_mod__",
            ast.BitAnd: "__sx_and__",
            ast.Sub: "__sx_sub__",
        }.get(type(node.op))
        if fn:
            return ast.copy_location(_call(fn, node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.BitOr) and isinstance(
            node.target, (ast.Name, ast.Attribute)
        ):
            import copy

            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            return ast.copy_location(
                ast.Assign(
                    targets=[node.target], value=_call("__sx_ior__", load, node.value)
                ),
                node,
            )
        return node


def transform_source(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        INSTRUMENTED_FILES.add(self.path)
        code = transform_source(src, self.path, self.name)
        module.__dict__.update(hooks.EXPORTS)
        saved, hooks.core.CUR = hooks.core.CUR, None
        try:
            exec(code, module.__dict__)
        finally:
            hooks.core.CUR = saved


class Finder(importlib.abc.MetaPathFinder):
    """maps top-level package names to source roots that are instrumented"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, True),
                submodule_search_locations=[base],
            )
            return spec
        if os.path.isfile(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, False)
            )
        return None


def install():
    """instrument recap (from the repo) and the harness package"""
    sys.meta_path.insert(0, Finder({"recap": REPO, "props": VERIF}))
    load_shadows()


def load_shadow(real_name, shadow_name, strip_decorators=("lru_cache",)):
    """instrumented private copy of a pure-python stdlib module"""
    real = importlib.import_module(real_name)
    path = real.__file__
    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)):
            node.decorator_list = [
                d for d in node.decorator_list if not any(s in ast.dump(d) for s in strip_decorators)
            ]
    for node in ast.walk(tree):
        if isinstance(node, ast.ImportFrom) and any(n.name == "_path_normpath" for n in node.names):
            node.names = [ast.alias(name="_no_such_name")]  # use the fallback written in python
    tree = Transformer(shadow_name).visit(tree)
    ast.fix_missing_locations(tree)
    import types

    m = types.ModuleType(shadow_name)
    m.__file__ = path
    m.__dict__.update(hooks.EXPORTS)
    sys.modules[shadow_name] = m
    exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)
    return real, m


def load_shadows():
    import types

    real, m = load_shadow("urllib.parse", "_sx_urllib_parse")
    for k, v in vars(real).items():
        if k in ("quote", "quote_plus", "unquote", "unquote_plus", "unquote_to_bytes"):
            continue
        if isinstance(v, (types.FunctionType, type)) and getattr(v, "__module__", "") == "urllib.parse":
            hooks.SHADOW[v] = getattr(m, k)
        elif hasattr(v, "__wrapped__"):
            hooks.SHADOW[v] = getattr(m, k)
    # quoting inside the copy goes to the models, too
    for k in ("quote", "quote_plus", "unquote", "unquote_plus"):
        f = getattr(real, k)
        hooks.SHADOW[getattr(m, k)] = lambda *a, f=f, **kw: hooks.sx_call(f, *a, **kw)
    # os.path: pure functions of the path's text
    real, m = load_shadow("posixpath", "_sx_posixpath")
    gp, gm = load_shadow("genericpath", "_sx_genericpath")
    m.genericpath = gm
    for k in ("join", "split", "splitext", "basename", "dirname", "normpath", "isabs"):
        hooks.SHADOW[getattr(real, k)] = getattr(m, k)
