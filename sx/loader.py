"""Import hook: loads the code under test from its current source with the
instrumentation that lets symbolic values flow through it."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VFB_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, *args):
    return ast.Call(func=_name(n), args=list(args), keywords=[])


class Tx(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = v.format_spec or ast.Constant("")
                parts.append(
                    ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load())
                )
            else:
                parts.append(v)
        return ast.copy_location(
            _call("__sx_fstr__", ast.List(parts, ast.Load())), node
        )

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__sx_mod__", node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("__sx_not__", node.operand), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _call("__sx_in__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                c = _call("__sx_not__", c)
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = node.slice
            if isinstance(k, ast.Slice):
                k = _call(
                    "slice",
                    k.lower or ast.Constant(None),
                    k.upper or ast.Constant(None),
                    k.step or ast.Constant(None),
                )
            elif isinstance(k, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in k.elts
            ):
                return node
            return ast.copy_location(_call("__sx_getitem__", node.value, k), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if (
            len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, ast.Slice)
        ):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(
                    ast.Call(
                        func=ast.Lambda(
                            args=ast.arguments(
                                posonlyargs=[], args=[ast.arg("v"), ast.arg("o"), ast.arg("k")],
                                kwonlyargs=[], kw_defaults=[], defaults=[],
                            ),
                            body=_call("__sx_setitem__", _name("o"), _name("k"), _name("v")),
                        ),
                        args=[node.value, t.value, t.slice],
                        keywords=[],
                    )
                ),
                node,
            )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute):
            base = node.func.value
            attr = node.func.attr
            if attr.startswith("__") and not attr.endswith("__"):
                return node  # keep name mangling
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super":
                return node
            return ast.copy_location(
                ast.Call(
                    func=_name("__sx_call__"),
                    args=[base, ast.Constant(node.func.attr)] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                k = _name("__sx_star__")
            pairs.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(
            _call("__sx_dict__", ast.List(pairs, ast.Load())), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call(
                "__sx_dict__",
                ast.ListComp(
                    ast.Tuple([node.key, node.value], ast.Load()), node.generators
                ),
            ),
            node,
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("__sx_set__", ast.List(node.elts, ast.Load())), node
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("__sx_set__", ast.ListComp(node.elt, node.generators)), node
        )

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name("Exception")
        return node

    def visit_AnnAssign(self, node):
        # annotations stay as they are
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.body = [self.visit(s) for s in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Tx().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from sx.shims import BUILTINS

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {package prefix: directory that contains it}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        for prefix, root in self.roots.items():
            if fullname == prefix or fullname.startswith(prefix + "."):
                break
        else:
            return None
        rel = fullname.replace(".", os.sep)
        p = os.path.join(root, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(f), submodule_search_locations=[p]
            )
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f))
        return None


VENV = "/opt/venv/lib/python3.12/site-packages"


def install(extra=()):
    if VENV not in sys.path:
        sys.path.append(VENV)
    roots = {"vfbLib": SRC, "checks": "/verif"}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    roots["checks"] = here
    for p in extra:
        roots[p] = VENV
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
