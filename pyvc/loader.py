"""Loads gpkit from a scratch copy of /repo's working tree.

`load(instrumented=True)` executes the instrumented text of the very source
files found in /repo; `load(False)` the unmodified text.  /repo is only read.
"""
import atexit
import importlib
import importlib.abc
import importlib.machinery
import os
import shutil
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("PV_REPO", "/repo")
_state = {}


def scratch():
    if "dir" not in _state:
        d = tempfile.mkdtemp(prefix="pyvc_")
        atexit.register(shutil.rmtree, d, True)
        src = os.path.join(REPO, "gpkit")
        dst = os.path.join(d, "gpkit")

        def ignore(path, names):
            return [n for n in names if n == "__pycache__" or
                    n.endswith((".pyc", ".png", ".pdf", ".pkl", ".ipynb"))]
        shutil.copytree(src, dst, ignore=ignore)
        env = os.path.join(dst, "env")
        os.makedirs(env, exist_ok=True)
        with open(os.path.join(env, "__init__.py"), "a"):
            pass
        with open(os.path.join(env, "settings"), "w") as f:
            f.write("installed_solvers : cvxopt\n")
        _state["dir"] = d
        _state["main_pid"] = os.getpid()
    return _state["dir"]


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from .instr import instrument
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code, _ = instrument(src, self.path, self.name)
        exec(code, module.__dict__)   # pylint: disable=exec-used


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "gpkit" and not fullname.startswith("gpkit."):
            return None
        parts = fullname.split(".")
        if "tests" in parts:
            return None
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            if not os.path.exists(p):
                return None
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        p = base + ".py"
        if not os.path.exists(p):
            return None
        spec = importlib.machinery.ModuleSpec(
            fullname, Loader(fullname, p), origin=p)
        spec.has_location = True
        return spec


def load(instrumented=True):
    "import gpkit; returns a namespace of what the harnesses use"
    if "gp" in _state:
        assert _state["instrumented"] == instrumented
        return _state["gp"]
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    d = scratch()
    sys.path.insert(0, d)
    if instrumented:
        sys.meta_path.insert(0, Finder(d))
    import gpkit
    ns = types.SimpleNamespace(gpkit=gpkit)
    ns.small_classes = importlib.import_module("gpkit.small_classes")
    ns.map = importlib.import_module("gpkit.nomials.map")
    ns.math = importlib.import_module("gpkit.nomials.math")
    ns.data = importlib.import_module("gpkit.nomials.data")
    ns.units_mod = importlib.import_module("gpkit.units")
    ns.globals = importlib.import_module("gpkit.globals")
    ns.HashVector = ns.small_classes.HashVector
    ns.EMPTY_HV = ns.small_classes.EMPTY_HV
    ns.NomialMap = ns.map.NomialMap
    ns.VarKey = gpkit.VarKey
    ns.Quantity = ns.units_mod.Quantity
    ns.DimensionalityError = gpkit.DimensionalityError
    ns.Signomial = ns.math.Signomial
    ns.Posynomial = ns.math.Posynomial
    ns.Monomial = ns.math.Monomial
    for n in ("PosynomialInequality", "MonomialEquality",
              "SignomialInequality", "SingleSignomialEquality",
              "ScalarSingleEquationConstraint"):
        setattr(ns, n, getattr(ns.math, n))
    ns.exceptions = gpkit.exceptions
    ns.PrimalInfeasible = gpkit.exceptions.PrimalInfeasible
    ns.InvalidGPConstraint = gpkit.exceptions.InvalidGPConstraint
    ns.InvalidPosynomial = gpkit.exceptions.InvalidPosynomial
    ns.SignomialsEnabled = gpkit.SignomialsEnabled
    _state["gp"] = ns
    _state["instrumented"] = instrumented
    if instrumented:
        from . import rt
        rt.GP = ns
        rt.late_handlers(ns)
        ns.HashVector.pv_kind = "hv"
        ns.NomialMap.pv_kind = "nm"
    return ns
