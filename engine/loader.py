"""Loads modules of the code under test from their current source, for symbolic execution.

List displays and comprehensions are routed through the engine (they may have symbolic length); everything
else runs as ordinary Python with stub modules and wrapped builtins."""
import ast
import builtins as _b
import os
import sys as _sys
import types as _types

from . import expr as X
from . import sym as S
from . import snp, smods, spd

REPO = os.environ.get("VERIF_REPO", "/repo")


class _T(ast.NodeTransformer):
    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        parts = []
        for e in node.elts:
            st = isinstance(e, ast.Starred)
            parts.append(ast.Tuple(elts=[ast.Constant(value="s" if st else "e"), e.value if st else e], ctx=ast.Load()))
        return self._call("__pl__", parts, node)

    def _mapped(self, target, elt, it, node):
        """elements elt for target in it, as a list that may have symbolic length"""
        if isinstance(elt, ast.Name) and elt.id == target:
            return self._call("__pl__", [ast.Tuple(elts=[ast.Constant(value="s"), it], ctx=ast.Load())], node)
        return self._call("__lcomp__", [ast.Lambda(args=_args([target]), body=elt), it], node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[-1]
        if not g.ifs and isinstance(g.target, ast.Name) and not any(isinstance(n, (ast.NamedExpr, ast.Await)) for n in ast.walk(node)):
            inner = self._mapped(g.target.id, node.elt, g.iter, node)
            if len(node.generators) == 1:
                return inner
            names = sorted({n.id for o in node.generators[:-1] for n in ast.walk(o.target) if isinstance(n, ast.Name)})
            # the outer variables are bound now: elements may be computed later
            one = ast.Call(func=ast.Lambda(args=_args(names), body=inner), args=[ast.Name(id=n, ctx=ast.Load()) for n in names], keywords=[])
            return self._call("__lcat__", [ast.GeneratorExp(elt=one, generators=node.generators[:-1])], node)
        return self._call("__mklist__", [node], node)

    def visit_Set(self, node):
        return self._call("__mkset__", [self.visit_List(ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node))], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("__mkset__", [ast.copy_location(ast.GeneratorExp(elt=node.elt, generators=node.generators), node)], node)

    def visit_For(self, node):
        self.generic_visit(node)
        if len(node.body) == 1 and not node.orelse and isinstance(node.target, ast.Name) and isinstance(node.body[0], ast.Expr):
            c = node.body[0].value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, (ast.Name, ast.Attribute)) and len(c.args) == 1 and not c.keywords \
                    and isinstance(c.args[0], ast.Name) and c.args[0].id == node.target.id:
                c.func.attr = "extend"
                c.args[0] = node.iter
                return ast.copy_location(ast.Expr(value=c), node)
        return node


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


_code = {}


def compiled(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _code.get(key)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(_T().visit(tree))
            c = compile(tree, path, "exec")
        _code[key] = c
    return c


class _Dummy(_types.ModuleType):
    """module whose use is outside the encoding"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name[:1].isupper():
            return type(name, (object,), {})

        def f(*a, **k):
            raise S.Unsupported("%s.%s" % (self.__name__, name))

        return f


STUBBED = ("matplotlib", "plotly", "xlsxwriter", "scipy")
PASS = ("typing", "json", "itertools", "functools", "collections", "copy", "string", "re", "operator", "enum", "dataclasses", "abc", "contextlib", "numbers", "fractions", "calendar", "bisect", "heapq",
        "types", "__future__", "logging", "textwrap", "inspect", "statistics", "argparse", "os", "sys", "time", "pathlib", "io", "shutil", "importlib", "pickle", "decimal", "cmath", "traceback", "hashlib", "uuid", "tempfile", "concurrent", "queue", "threading", "csv", "glob")


class _Sys(_types.ModuleType):
    """the interpreter's sys with its own search path and module table"""

    def __init__(self, world):
        _types.ModuleType.__init__(self, "sys")
        self.path = [""]
        self.modules = world.files

    def __getattr__(self, name):
        return getattr(_sys, name)


def _make_importlib(world):
    def module(name, **k):
        m = _types.ModuleType(name)
        m.__dict__.update(k)
        return m

    class Loader(object):
        def __init__(self, name, path):
            self.name, self.path = name, path

        def create_module(self, spec):
            return None

        def exec_module(self, m):
            world.run_file(self.name, self.path, m)

        def load_module(self, name=None):
            m = _types.ModuleType(self.name)
            world.files[self.name] = m
            return world.run_file(self.name, self.path, m)

    class Spec(object):
        def __init__(self, name, loader, origin=None, **k):
            self.name, self.loader, self.origin = name, loader, origin
            self.submodule_search_locations = None
            self.parent = name.rpartition(".")[0]

    def spec_from_file_location(name, location=None, loader=None, **k):
        if loader is None and not os.fspath(location).endswith(".py"):
            return None
        return Spec(name, loader or Loader(name, location), location)

    def module_from_spec(spec):
        m = _types.ModuleType(spec.name)
        m.__spec__ = spec
        m.__file__ = spec.origin
        m.__loader__ = spec.loader
        return m

    def reload(m):
        return world.run_file(m.__name__, m.__file__, m)

    def import_module(name, package=None):
        if package is not None:
            raise S.Unsupported("import_module(package)")
        return world.import_dotted(name)

    def run_path(path, init_globals=None, run_name=None):
        m = _types.ModuleType(run_name or "<run_path>")
        m.__dict__.update(init_globals or {})
        return dict(world.run_file(m.__name__, path, m).__dict__)

    util = module("importlib.util", spec_from_file_location=spec_from_file_location, module_from_spec=module_from_spec, spec_from_loader=lambda name, loader, **k: Spec(name, loader, getattr(loader, "path", None)))
    mach = module("importlib.machinery", SourceFileLoader=Loader, ModuleSpec=Spec)
    il = module("importlib", import_module=import_module, reload=reload, invalidate_caches=lambda: None, util=util, machinery=mach)
    return {"importlib": il, "importlib.util": util, "importlib.machinery": mach, "runpy": module("runpy", run_path=run_path)}


class World(object):
    """one fresh instance of the code under test and its environment (created per path)"""

    def __init__(self, stateful_rng=False, overrides=None):
        self.rng = smods.Rng("r", stateful_rng)
        self.mods = {}
        rnd = smods.make_random(self.rng)
        self.random = rnd
        self.np_random = smods.make_np_random(self.rng)
        self.np = snp.make_module(self.np_random)
        self.pd = spd.make_module()
        self.warnings = smods.make_warnings()
        self.std = {
            "numpy": self.np,
            "pandas": self.pd,
            "random": rnd,
            "numpy.random": self.np_random,
            "math": smods.make_math(),
            "warnings": self.warnings,
            "tqdm": smods.make_tqdm(),
            "tqdm.auto": smods.make_tqdm(),
            "multiprocessing": smods.make_mp(rnd),
            "datetime": smods.make_datetime(),
            "calendar": smods.make_calendar(),
            "json": smods.make_json(),
            "itertools": smods.make_itertools(),
        }
        self.roots = []
        self.files = {}
        self.std["sys"] = _Sys(self)
        self.std.update(_make_importlib(self))
        self.std.update(spd.make_openpyxl())
        self.std["multiprocessing.pool"] = self.std["multiprocessing"]
        self.mp = self.std["multiprocessing"]
        if overrides:
            self.std.update(overrides)
        self.inputs = []
        bl = dict(_b.__dict__)
        bl.update(
            {
                "int": smods.INT,
                "float": smods.FLOAT,
                "bool": smods.BOOL,
                "list": smods.LIST,
                "set": smods.SET,
                "range": smods.srange,
                "len": smods.slen,
                "min": S.pymin,
                "max": S.pymax,
                "sum": S.pysum,
                "abs": smods._abs,
                "round": S.sround,
                "sorted": smods._sorted,
                "print": lambda *a, **k: None,
                "input": self._input,
                "open": self._open,
                "__import__": self._import,
                "__pl__": smods.pl,
                "__lcomp__": smods.lcomp,
                "__lcat__": smods.lcat,
                "__mklist__": smods._mklist,
                "__mkset__": smods.mkset,
            }
        )
        self.builtins = bl

    def _input(self, prompt=""):
        if self.inputs:
            return self.inputs.pop(0)
        raise S.Unsupported("input()")

    def load_std(self, name):
        return self.std[name]

    def allow(self, folder):
        """a scratch folder whose files the code may read, write and import"""
        self.roots.append(os.path.realpath(folder))

    def inside(self, path):
        p = os.path.realpath(os.fspath(path))
        return any(p.startswith(r + os.sep) for r in self.roots)

    def _open(self, path, *a, **k):
        if not self.inside(path):
            raise S.Unsupported("open()")
        return _b.open(path, *a, **k)

    def run_file(self, name, path, m=None):
        """executes a python file of a scratch folder (or of the code under test) as a module"""
        path = os.path.abspath(os.fspath(path))
        if not self.inside(path):
            raise S.Unsupported("import of %s" % path)
        if m is None:
            m = _types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        with _b.open(path, encoding="utf-8") as f:
            src = f.read()
        exec(compile(ast.fix_missing_locations(_T().visit(ast.parse(src, path))), path, "exec"), m.__dict__)
        return m

    def import_dotted(self, name):
        """importlib.import_module"""
        if name.startswith("."):
            raise TypeError("the 'package' argument is required to perform a relative import for %r" % name)
        if name in self.files:
            return self.files[name]
        if name.split(".")[0] in ("ramp",) or name in self.std:
            return self._import(name, fromlist=("x",)) if name in self.std else self.load(name)
        rel = os.path.join(*name.split(".")) if name else ""
        for d in self.std["sys"].path:
            p = os.path.join(d or os.getcwd(), rel + ".py")
            if rel and os.path.exists(p):
                if not self.inside(p):
                    raise S.Unsupported("import of %s" % p)
                parts = name.split(".")
                m = _types.ModuleType(name)
                self.files[name] = m
                try:
                    self.run_file(name, p, m)
                except BaseException:
                    self.files.pop(name, None)
                    raise
                return m
        raise ModuleNotFoundError("No module named %r" % name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if root == "ramp":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.load("ramp")
        if name in self.std:
            return self.std[name] if fromlist or "." not in name else self.std.get(root, self.std[name])
        if root in self.std:
            sub = self.std[root]
            if fromlist:
                for p in name.split(".")[1:]:
                    sub = getattr(sub, p)
            return sub
        if name in self.files:
            return self.files[name]
        if root in STUBBED:
            m = _Dummy(name)
            if fromlist:
                return m
            r = _Dummy(root)
            return r
        if root in PASS:
            return _b.__import__(name, None, None, fromlist, 0)
        for d in self.std["sys"].path:
            p = os.path.join(d or os.getcwd(), *name.split(".")) + ".py"
            if os.path.exists(p) and self.inside(p):
                return self.import_dotted(name)
        raise ImportError("module %s is not available in the symbolic environment" % name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        rel = os.path.join(REPO, *name.split("."))
        if os.path.isdir(rel):
            m = _types.ModuleType(name)
            m.__path__ = [rel]
            m.__package__ = name
            m.__file__ = os.path.join(rel, "__init__.py")
            self.mods[name] = m
            if "." in name:
                parent, leaf = name.rsplit(".", 1)
                setattr(self.load(parent), leaf, m)
            return m
        path = rel + ".py"
        if not os.path.exists(path):
            raise ImportError("No module named %r" % name)
        m = _types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.rsplit(".", 1)[0] if "." in name else ""
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        try:
            exec(compiled(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            setattr(self.load(parent), leaf, m)
        return m
