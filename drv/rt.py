"""Runtime for the conformance drivers.

echidna is Python 2 code; this sandbox's test interpreter is PyPy 3.9.  The
import hook below loads every module of the `echidna` package from the
repository's working tree, translating Python 2 syntax and dict idioms with
lib2to3 in memory (files that already are valid Python 3 go through the same
fixers, which leave them alone).  Nothing is written to the repository.

Libraries this sandbox lacks (h5py, scipy.interpolate, matplotlib, ROOT/rat)
are replaced by small stand-ins in drv/shims.
"""
import sys
import os
import io
import ast
import hashlib
import logging
import warnings
import importlib.abc
import importlib.util

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("VT_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

FIXERS = ["dict", "except", "exec", "execfile", "filter", "has_key",
          "itertools", "long", "map", "metaclass", "ne", "next",
          "numliterals", "raise", "raw_input", "reduce", "repr", "throw",
          "tuple_params", "unicode", "basestring", "xrange", "zip"]


def _translate(source, path):
    from lib2to3 import refactor
    if not source.endswith("\n"):
        source += "\n"
    try:
        ast.parse(source)
        py3 = True
    except SyntaxError:
        py3 = False
    names = ["lib2to3.fixes.fix_" + f for f in FIXERS]
    opts = {}
    if py3:
        opts["print_function"] = True
    else:
        names.append("lib2to3.fixes.fix_print")
    tool = refactor.RefactoringTool(names, opts)
    lg = logging.getLogger("RefactoringTool")
    lg.setLevel(logging.CRITICAL)
    try:
        tree = tool.refactor_string(source, path)
        out = str(tree)
        ast.parse(out)
        return out
    except Exception:
        if py3:
            return source
        # e.g. print("x", file=f) next to a print statement elsewhere
        tool = refactor.RefactoringTool(names, {"print_function": True})
        return str(tool.refactor_string(source, path))


def load_source(path):
    """The Python 3 text of one of the repository's files."""
    with io.open(path, encoding="utf-8") as f:
        src = f.read()
    cache = os.environ.get("VT_PYCACHE")
    if cache:
        key = os.path.join(cache, hashlib.sha1(
            src.encode("utf-8")).hexdigest() + ".py3")
        if os.path.exists(key):
            with io.open(key, encoding="utf-8") as f:
                return f.read()
    out = _translate(src, path)
    if cache:
        tmp = key + ".%d" % os.getpid()
        with io.open(tmp, "w", encoding="utf-8") as f:
            f.write(out)
        os.replace(tmp, key)
    return out


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        exec(compile(load_source(self.path), self.path, "exec"),
             module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "echidna" and not name.startswith("echidna."):
            return None
        rel = name.replace(".", "/")
        pkg = os.path.join(REPO, rel, "__init__.py")
        mod = os.path.join(REPO, rel + ".py")
        if os.path.isfile(pkg):
            return importlib.util.spec_from_loader(
                name, _Loader(pkg, True), is_package=True, origin=pkg)
        if os.path.isfile(mod):
            return importlib.util.spec_from_loader(
                name, _Loader(mod, False), origin=mod)
        stub = os.path.join(HERE, "shims", rel + ".py")
        if os.path.isfile(stub):      # modules absent from the repository
            return importlib.util.spec_from_loader(
                name, _Loader(stub, False), origin=stub)
        return None


def _patch_spec(f):
    def find_spec(self, name, path=None, target=None):
        spec = f(self, name, path, target)
        if spec is not None and spec.submodule_search_locations is not None:
            spec.submodule_search_locations = [os.path.dirname(spec.origin)]
        return spec
    return find_spec


_Finder.find_spec = _patch_spec(_Finder.find_spec)


def install():
    sys.meta_path.insert(0, _Finder())
    shims = os.path.join(HERE, "shims", "site")
    if os.path.isdir(shims):
        sys.path.append(shims)      # after site-packages: real ones win
    logging.disable(logging.CRITICAL)
    try:
        sys.getsizeof(0)
    except TypeError:           # PyPy: an estimate in CPython's terms
        sys.getsizeof = lambda o, d=0: 49 + (
            len(o) if isinstance(o, (str, bytes)) else 0)


install()
