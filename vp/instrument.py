"""Loads /repo's current sources under the package name symwampproto, rewritten so that operations that CPython would
perform in C on concrete values only (calls of builtins, membership, identity, displays, formatting) go through hooks."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from operator import is_

REPO = "/repo"
REAL = "wampproto"
ROOT = "symwampproto"
KEEP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
H = "_vp_h"

SOURCES = {}  # module name -> (path, source lines)
FUNCTIONS = set()  # (module, qualname) entered during the run (see trace in hooks)


class Rewriter(ast.NodeTransformer):
    """Rewrites expressions; annotations are left alone."""

    def _h(self, name):
        return ast.Attribute(ast.Name(H, ast.Load()), name, ast.Load())

    def _call(self, name, *args):
        return ast.Call(self._h(name), list(args), [])

    # -- imports
    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == REAL or a.name.startswith(REAL + "."):
                new = ROOT + a.name[len(REAL):]
                if a.asname is None:
                    # binds the root package under its real name
                    out.append(ast.Import([ast.alias(new, None)]))
                    out.append(ast.Assign([ast.Name(REAL, ast.Store())], ast.Name(ROOT, ast.Load())))
                else:
                    out.append(ast.Import([ast.alias(new, a.asname)]))
            else:
                out.append(ast.Import([a]))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and (node.module == REAL or node.module.startswith(REAL + ".")):
            node.module = ROOT + node.module[len(REAL):]
        return node

    # -- things not to touch
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in KEEP:
            self.generic_visit(node)
            return node
        # "...".format(...) goes through the hook as any other call
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(self._h("call"), [func] + args, kws), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(self._call("in_", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(self._call("not_in", l, r), node)
            if isinstance(op, ast.Is):
                return ast.copy_location(self._call("is_", l, r), node)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(self._call("is_not", l, r), node)
            return node
        if not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops):
            return node
        # chained comparison: a op b op c -> _cmp chain with single evaluation
        terms = [node.left] + node.comparators
        names = [f"_vp_t{i}" for i in range(len(terms))]
        parts = []
        for i, op in enumerate(node.ops):
            left = ast.Name(names[i], ast.Load())
            if i == 0:
                left = ast.NamedExpr(ast.Name(names[0], ast.Store()), terms[0])
            right = ast.NamedExpr(ast.Name(names[i + 1], ast.Store()), terms[i + 1])
            if isinstance(op, (ast.In, ast.NotIn)):
                # keep evaluation order: left first
                parts.append(self._call("in_" if isinstance(op, ast.In) else "not_in", left, right))
            elif isinstance(op, (ast.Is, ast.IsNot)):
                parts.append(self._call("is_" if isinstance(op, ast.Is) else "is_not", left, right))
            else:
                parts.append(ast.Compare(left, [op], [right]))
        return ast.copy_location(ast.BoolOp(ast.And(), parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            return ast.copy_location(self._call("getitem", node.value, self._slice(sl)), node)
        return node

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self._slice(x) for x in sl.elts], ast.Load())
        return sl

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(self._call("mkdict", ast.Tuple(items, ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self._call("mkdict", lc), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkset", ast.ListComp(node.elt, node.generators)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(self._call("fstr", *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("mod", node.left, node.right), node)
        return node

    # -- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        return node

    def _try(self, node):
        self.generic_visit(node)
        reraise = ast.ExceptHandler(self._h("Control"), None, [ast.Raise(None, None)])
        broad = False
        for h in node.handlers:
            if h.type is None or "BaseException" in ast.dump(h.type):
                broad = True
        if broad:
            node.handlers.insert(0, reraise)
        return node

    visit_Try = _try
    visit_TryStar = _try

    def visit_Match(self, node):
        subject = self.visit(node.subject)
        simple = True
        for c in node.cases:
            for p in ast.walk(c.pattern):
                if isinstance(p, (ast.MatchSequence, ast.MatchMapping, ast.MatchClass, ast.MatchSingleton)):
                    simple = False
        node.subject = subject if simple else self._call("resolve", subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = self._body(c.body)
        return node


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    doc = []
    body = tree.body
    # keep the docstring and __future__ imports first
    while body and (
        (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str))
        or (isinstance(body[0], ast.ImportFrom) and body[0].module == "__future__")
    ):
        doc.append(body.pop(0))
    tree = Rewriter().visit(tree)
    hook = ast.ImportFrom("vp", [ast.alias("hooks", H)], 0)
    tree.body = doc + [hook] + tree.body
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[module.__name__] = self.path
        code = rewrite(src, self.path)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != ROOT and not name.startswith(ROOT + "."):
            return None
        rel = name[len(ROOT):].lstrip(".").replace(".", "/")
        base = os.path.join(REPO, REAL, rel) if rel else os.path.join(REPO, REAL)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(name, init, loader=Loader(init),
                                                              submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def load(root, mods):
    """Import the package root (ROOT or REAL) and the given submodules; returns a namespace object."""
    install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    pkg = importlib.import_module(root)
    for m in mods:
        importlib.import_module(root + "." + m)
    return pkg


# --------------------------------------------------------------------------------------------------------------------
# module-level mutable state is restored before every path


class Snapshot:
    """Contents of all mutable containers and objects reachable from the package's modules, classes and defaults."""

    def __init__(self, root):
        from . import sym

        self.saved = []
        self.seen = set()
        self.root = root
        self.sym = sym
        for name, mod in sorted(sys.modules.items()):
            if name == root or name.startswith(root + "."):
                self._module(mod)

    def _skip_type(self, t):
        return t.__module__ not in sys.modules or not (
            t.__module__ == self.root or t.__module__.startswith(self.root + "."))

    def _module(self, mod):
        names = {k: v for k, v in vars(mod).items() if not k.startswith("__")}
        self.saved.append(("attrs", mod, (names, len(vars(mod)))))
        for v in list(names.values()):
            self._walk(v)

    def _walk(self, v, depth=0):
        if id(v) in self.seen or depth > 8:
            return
        s = self.sym
        t = type(v)
        if isinstance(v, (list, dict, set, bytearray)) and t not in s.SYM_TYPES:
            self.seen.add(id(v))
            self.saved.append(("cont", v, v.copy()))
            for x in (list(v.values()) + list(v) if isinstance(v, dict) else list(v)):
                self._walk(x, depth + 1)
        elif t in (s.SymDict, s.SymDefaultDict):
            self.seen.add(id(v))
            self.saved.append(("symdict", v, ([list(it) for it in v.items_], v.base, set(v.pulled))))
            for it in v.items_:
                self._walk(it[1], depth + 1)
        elif t is s.SymSet:
            self.seen.add(id(v))
            self.saved.append(("symset", v, list(v.items_)))
        elif isinstance(v, tuple):
            for x in v:
                self._walk(x, depth + 1)
        elif isinstance(v, types.FunctionType):
            if not v.__module__ or not v.__module__.startswith(self.root):
                return
            self.seen.add(id(v))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self._walk(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self.saved.append(("cell", c, c.cell_contents))
                    self._walk(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            if v.__dict__:
                self.saved.append(("dict", v.__dict__, dict(v.__dict__)))
        elif isinstance(v, (classmethod, staticmethod)):
            self._walk(v.__func__, depth + 1)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self._walk(f, depth + 1)
        elif isinstance(v, type):
            if self._skip_type(v):
                return
            self.seen.add(id(v))
            import enum

            if not issubclass(v, enum.Enum):
                names = {k: x for k, x in vars(v).items() if not k.startswith("__")}
                self.saved.append(("cls", v, (names, len(vars(v)))))
            for x in list(vars(v).values()):
                self._walk(x, depth + 1)
        elif hasattr(v, "__dict__") and not self._skip_type(t) and not isinstance(v, types.ModuleType):
            self.seen.add(id(v))
            self.saved.append(("dict", v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._walk(x, depth + 1)
        elif hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.saved.append(("cache", v, None))

    def restore(self):
        for kind, o, c in self.saved:
            if kind == "cont":
                if isinstance(o, (list, bytearray)):
                    o[:] = c
                else:
                    if o != c if isinstance(o, set) else True:
                        o.clear()
                        o.update(c)
            elif kind == "symdict":
                o.items_ = [list(it) for it in c[0]]
                o.base = c[1]
                o.pulled = set(c[2])
            elif kind == "symset":
                o.items_ = list(c)
            elif kind == "dict":
                if len(o) != len(c) or any(o.get(k, o) is not x for k, x in c.items()):
                    o.clear()
                    o.update(c)
            elif kind == "attrs":
                d = vars(o)
                if len(d) == c[1] and all(map(is_, map(d.get, c[0]), c[0].values())):
                    continue
                for k in [k for k in d if not k.startswith("__") and k not in c[0]]:
                    if not isinstance(d[k], types.ModuleType):
                        del d[k]
                for k, x in c[0].items():
                    if d.get(k, d) is not x:
                        d[k] = x
            elif kind == "cls":
                d = vars(o)
                if len(d) == c[1] and all(map(is_, map(d.get, c[0]), c[0].values())):
                    continue
                for k in [k for k in d if not k.startswith("__") and k not in c[0]]:
                    delattr(o, k)
                for k, x in c[0].items():
                    if d.get(k, d) is not x:
                        setattr(o, k, x)
            elif kind == "cell":
                o.cell_contents = c
            elif kind == "cache":
                o.cache_clear()
