"""Points in docria's code at which a thread may be interrupted: docria is imported again from an instrumented syntax tree.

A point comes before every statement of a function, and (fine) after every call, attribute access and subscription: between the reading of shared state and its use.
"""
import ast
import importlib.abc
import importlib.machinery
import sys

SCHEDULER = None   # the one in charge; None: points do nothing
SITES = []         # (file, line, column)


def stmt(site):
    s = SCHEDULER
    if s is not None:
        s.point(site)


def expr(site, value):
    s = SCHEDULER
    if s is not None and s.fine:
        s.point(site)
    return value


class Points(ast.NodeTransformer):
    def __init__(self, path):
        self.path, self.inside = path, 0

    def site(self, node):
        SITES.append((self.path, node.lineno, node.col_offset))
        return ast.Constant(len(SITES) - 1)

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            point = None
            if not isinstance(s, (ast.Global, ast.Nonlocal)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                point = ast.copy_location(ast.Expr(self.call("__mc_stmt__", self.site(s))), s)
            new = self.visit(s)
            if point is not None:
                out.append(point)
            out.append(new)
        return out

    def block(self, node):
        """Statement: its blocks get points before every statement, its expressions points within."""
        for field, old in ast.iter_fields(node):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(node, field, self.body(old))
            elif isinstance(old, list):
                setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def generic_visit(self, node):
        if self.inside and isinstance(node, (ast.stmt, ast.ExceptHandler)):
            return self.block(node)
        return super().generic_visit(node)

    def function(self, node):
        self.inside += 1
        try:
            node.body = self.body(node.body)
        finally:
            self.inside -= 1
        return node   # decorators, defaults and annotations are left alone

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, node):
        inside, self.inside = self.inside, 0
        try:
            return super().generic_visit(node)
        finally:
            self.inside = inside

    def visit_Lambda(self, node):
        self.inside += 1
        try:
            node.body = self.visit(node.body)
        finally:
            self.inside -= 1
        return node

    def visit_AnnAssign(self, node):
        if self.inside and node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Match(self, node):
        return node

    def value(self, node):
        node = super().generic_visit(node)
        if not self.inside or not isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            return node
        return ast.copy_location(self.call("__mc_expr__", self.site(node), node), node)

    visit_Call = visit_Attribute = visit_Subscript = value


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, **_):
        tree = ast.fix_missing_locations(Points(path).visit(ast.parse(data, path)))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__mc_stmt__, module.__mc_expr__ = stmt, expr
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "docria":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    for name in [n for n in sys.modules if n.split(".")[0] == "docria"]:
        del sys.modules[name]
    sys.meta_path.insert(0, Finder())
    import docria
    import docria.model, docria.codec, docria.collection, docria.algorithm, docria.printout  # noqa
