"""Loads /repo's Python sources afresh on every run, instrumented for symbolic execution.

The transformation is semantics preserving on concrete values: call targets go through `hookf` (so constructors, builtins
and library routines can accept symbolic values), `/` on plain numbers is exact, and `%` formatting tolerates symbolic
arguments.  Nothing about the code's own control flow or data flow is altered."""
import ast
import builtins
import os
import sys
import types
from . import stubs

REPO = os.environ.get("SYMX_REPO", "/repo")
SKIP = {"__symx_enter__", "super", "locals", "globals", "vars", "dir", "__symx_hook__", "__symx_div__", "__symx_mod__"}


ENTERED = set()


class T(ast.NodeTransformer):
    stack = ()

    def visit_ClassDef(self, n):
        self.stack = self.stack + (n.name,)
        self.generic_visit(n)
        self.stack = self.stack[:-1]
        return n

    def visit_FunctionDef(self, n):
        self.stack = self.stack + (n.name,)
        self.generic_visit(n)
        tag = ".".join(self.stack)
        self.stack = self.stack[:-1]
        if self.track:
            e = ast.Expr(ast.Call(ast.Name("__symx_enter__", ast.Load()), [ast.Constant(self.track + ":" + tag)], []))
            i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
            n.body.insert(i, ast.copy_location(e, n.body[0]))
        return n

    def __init__(self, track=""):
        self.track = track

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in SKIP:
            return n
        n.func = ast.copy_location(ast.Call(ast.Name("__symx_hook__", ast.Load()), [n.func], []), n.func)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__symx_div__", ast.Mod: "__symx_mod__"}.get(type(n.op))
        if f is None:
            return n
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n


def instrument(src, fname):
    t = ast.parse(src, fname)
    t = T(os.path.relpath(fname, REPO) if fname.startswith(REPO + "/") else "").visit(t)
    ast.fix_missing_locations(t)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return compile(t, fname, "exec", dont_inherit=True)


CODE = {}


def code_for(path):
    if path not in CODE:
        with open(path) as f:
            CODE[path] = instrument(f.read(), path)
    return CODE[path]


class Importer:
    """A private module table: hpelm.* from the repository, environment modules from the model, the rest real."""

    def __init__(self, fakes, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.fakes = fakes
        self.files = set()
        self.b = dict(vars(builtins))
        self.b["__import__"] = self.imp
        self.b["__symx_hook__"] = stubs.hookf
        self.b["__symx_enter__"] = ENTERED.add
        self.b["__symx_div__"] = stubs.op_div
        self.b["__symx_mod__"] = stubs.op_mod

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.repo, *name.split("."))
        ispkg = os.path.isdir(base)
        path = os.path.join(base, "__init__.py") if ispkg else base + ".py"
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name)
        parent = name.rpartition(".")[0]
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        self.files.add(path)
        try:
            exec(code_for(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(p, name.rpartition(".")[2], m)
        return m

    def load_extra(self, name, path):
        """a harness module, under the same instrumentation (so that it may compute with symbolic values)"""
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.b
        exec(code_for(path), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if top == "hpelm":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if top == "checks" and full != "checks":
            if full not in self.mods:
                self.mods[full] = self.load_extra(full, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *full.split(".")) + ".py")
            return self.mods[full]
        if full in self.fakes:
            if fromlist:
                return self.fakes[full]
            return self.fakes[top]
        if top in self.fakes:
            raise ModuleNotFoundError("No module named %r (model)" % full)
        return builtins.__import__(name, globals, locals, fromlist, level)
