"""Loads the current source of /repo into a private set of modules.

Every path of an exploration gets fresh module objects (module level state of
the code under test is therefore always initial).  Imports of the code under
test are answered by `Loader.importer`: ortools, time, random (and, while
values are symbolic, numpy and some sklearn helpers) come from stubs, which
are ordinary Python and are interpreted like the code under test.
"""
import ast
import builtins
import fractions
import os
import sys
import types
import warnings
import numpy as np

REPO = os.environ.get("SYMVM_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class Source:
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            self.text = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.text, path)
            self.code = compile(self.tree, path, "exec")
        self.index = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                self.index[(n.name, line)] = n
            elif isinstance(n, ast.Lambda):
                self.index.setdefault(("<lambda>", n.lineno), []).append(n)
        self._exact = None

    def exact(self):
        """The same code with its float literals as exact fractions, for replays in exact arithmetic."""
        if self._exact is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t = ast.fix_missing_locations(_ExactLiterals().visit(ast.parse(self.text, self.path)))
                self._exact = compile(t, self.path, "exec")
        return self._exact


class _ExactLiterals(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float) and n.value - n.value == 0:
            a, b = n.value.as_integer_ratio()
            return ast.copy_location(ast.Call(ast.Name("__exact__", ast.Load()), [ast.Constant(a), ast.Constant(b)], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n


_sources = {}


def source(path):
    s = _sources.get(path)
    if s is None:
        s = _sources[path] = Source(path)
    return s


def is_generator(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Loader:
    """One instance per process; `fresh(env, symbolic)` makes module sets."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.pkg = os.path.join(repo, "col_gen_estimator")
        self.files = {}
        self.nodes = {}

    # ------------------------------------------------------------ interpreter
    def node_for(self, code):
        k = id(code)
        r = self.nodes.get(k)
        if r is not None and r[0] is code:
            return r[1]
        n = None
        fn = code.co_filename
        if fn.startswith(self.repo) or fn.startswith(STUBS):
            src = _sources.get(fn)
            if src is not None:
                n = src.index.get((code.co_name, code.co_firstlineno))
                if isinstance(n, list):
                    args = code.co_varnames[:code.co_argcount]
                    n = [x for x in n if tuple(a.arg for a in x.args.posonlyargs + x.args.args) == args]
                    n = n[0] if len(n) == 1 else None
        self.nodes[k] = (code, n)
        return n

    def sut_name(self, code):
        fn = code.co_filename
        if fn.startswith(self.repo):
            return os.path.relpath(fn, self.repo) + ":" + code.co_qualname
        return None

    @staticmethod
    def np_astype(arr, t):
        from . import npstub
        return npstub.astype(arr, t)

    @staticmethod
    def np_method(name):
        from . import npstub
        return npstub.METHODS.get(name)

    @staticmethod
    def np_optseq(pairs):
        from . import npstub
        return npstub.optseq(pairs)

    @staticmethod
    def np_select(a, mask):
        from . import npstub
        return npstub.select(a, mask)

    # ----------------------------------------------------------------- modules
    def fresh(self, env, symbolic, exact=False):
        return Modules(self, env, symbolic, exact)


def exact_checks(real):
    """sklearn's input checks, which would round an array of fractions to floats"""
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})

    def fractions_in(X):
        return getattr(X, "dtype", None) == object and any(isinstance(v, fractions.Fraction) for v in X.flat)

    def kept(X, A):
        if not fractions_in(X) or A.shape != X.shape:
            return A
        out = A.astype(object)
        for i in np.ndindex(*X.shape):
            # unless converted to another type than the float it stands for
            out[i] = X[i] if A[i] == float(X[i]) else fractions.Fraction(float(A[i]))
        return out

    def check_X_y(X, y, *args, **kw):
        A, y = real.check_X_y(X, y, *args, **kw)
        return kept(X, A), y

    def check_array(X, *args, **kw):
        return kept(X, real.check_array(X, *args, **kw))
    m.check_X_y, m.check_array = check_X_y, check_array
    return m


class Modules:
    def __init__(self, loader, env, symbolic, exact=False):
        self.exact = exact
        self.loader = loader
        self.env = env
        self.symbolic = symbolic
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self.imp
        self.builtins["print"] = self.noprint
        self.builtins["__exact__"] = fractions.Fraction
        if symbolic:
            self.builtins["super"] = super

    @staticmethod
    def noprint(*a, **k):
        return None

    def _exec(self, name, path, is_pkg=False):
        src = source(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            exec(src.exact() if self.exact else src.code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

    def stub(self, name):
        key = "stub:" + name
        if key not in self.mods:
            src = source(os.path.join(STUBS, name + ".py"))
            m = types.ModuleType(key)
            m.__file__ = src.path
            m.__dict__["__builtins__"] = self.builtins
            m.__dict__["_ENV"] = self.env
            self.mods[key] = m
            exec(src.code, m.__dict__)
        return self.mods[key]

    def sut(self, name):
        """A module of the code under test, by dotted name."""
        if name in self.mods:
            return self.mods[name]
        if name == "col_gen_estimator":
            return self._exec(name, os.path.join(self.loader.pkg, "__init__.py"), True)
        if name.startswith("col_gen_estimator."):
            self.sut("col_gen_estimator")
            if name in self.mods:
                return self.mods[name]
            sub = name.split(".", 1)[1].replace(".", "/")
            p = os.path.join(self.loader.pkg, sub + ".py")
            m = self._exec(name, p)
            setattr(self.mods["col_gen_estimator"], sub, m)
            return m
        if name == "examples":
            return self._exec(name, os.path.join(self.loader.repo, "examples", "__init__.py"), True)
        if name.startswith("examples."):
            m = self._exec(name, os.path.join(self.loader.repo, "examples", name.split(".", 1)[1] + ".py"))
            return m
        raise ImportError(name)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "col_gen_estimator"
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
            m = self.sut(full)
            return m
        top = name.split(".")[0]
        if top in ("col_gen_estimator", "examples"):
            m = self.sut(name)
            return m if fromlist else self.sut(top)
        if top == "ortools":
            return self.ortools(name, fromlist)
        if top == "time":
            return self.stub("timestub")
        if top == "random":
            return self.stub("randomstub")
        if top == "multiprocessing":
            return self.stub("mpstub")
        if top == "pandas":
            return self.blank(name)
        if self.exact and name in ("sklearn.utils", "sklearn.utils.validation") and fromlist:
            return exact_checks(builtins.__import__(name, globals, locals, fromlist, 0))
        if self.symbolic:
            if top == "numpy":
                from . import npstub
                return npstub.numpy_proxy()
            if top == "sklearn":
                return self.sklearn(name, globals, locals, fromlist, level)
            if top in ("copy",):
                return self.stub("copystub")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def blank(self, name):
        m = types.ModuleType(name)
        return m

    def ortools(self, name, fromlist):
        a = types.ModuleType("ortools.linear_solver")
        a.pywraplp = self.stub("pywraplp")
        a.linear_solver_pb2 = self.stub("linear_solver_pb2")
        b = types.ModuleType("ortools.sat.python")
        b.cp_model = self.stub("cp_model")
        if name == "ortools.linear_solver":
            return a
        if name == "ortools.sat.python":
            return b
        if name == "ortools.linear_solver.pywraplp" and fromlist:
            return a.pywraplp
        if name == "ortools.sat.python.cp_model" and fromlist:
            return b.cp_model
        top = types.ModuleType("ortools")
        top.linear_solver = a
        top.sat = types.ModuleType("ortools.sat")
        top.sat.python = b
        return top

    def sklearn(self, name, globals, locals, fromlist, level):
        real = builtins.__import__(name, globals, locals, fromlist or ("x",), 0)
        st = self.stub("sklearnstub")
        m = types.ModuleType(name)
        m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        for k in list(fromlist or ()):
            if not hasattr(m, k):
                v = getattr(real, k, None)
                if v is not None:
                    setattr(m, k, v)
        for k in ("check_X_y", "check_array", "unique_labels", "LabelEncoder", "check_is_fitted"):
            if hasattr(m, k):
                setattr(m, k, getattr(st, k))
        if not fromlist:
            return real
        return m
