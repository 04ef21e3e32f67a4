"""The analysed Python sources: module loading and name resolution."""

import os
import re
import sys

from .values import *  # noqa
from .values import K, Q, T, ModV, Cls
from .interp import Interp, Module, Env, AnalysisError

REPO = os.environ.get("VERIF_REPO", "/repo")

# import name -> file, for the packages of the repository
ROOTS = [
    ("torch_mlir", "python/torch_mlir"),
    ("torch_mlir", "projects/pt1/python/torch_mlir"),
    ("torch_mlir_e2e_test", "projects/pt1/python/torch_mlir_e2e_test"),
]


DTYPE = re.compile(r"(u?int\d+|float\d+(_\w+)?|bfloat16|bool|complex\d+|qu?int\w+|bits\w+)$")
LAYOUTS = {"torch." + x for x in ("strided", "sparse_coo", "sparse_csr", "sparse_csc", "sparse_bsr", "sparse_bsc", "_mkldnn", "jagged")}
MEMORY_FORMATS = {"torch." + x for x in ("contiguous_format", "preserve_format", "channels_last", "channels_last_3d")}


def installed_torch():
    try:
        m = re.search(r"^__version__ = '([^']+)'", open("/opt/venv/lib/python3.12/site-packages/torch/version.py").read(), re.M)
        return m.group(1)
    except (OSError, AttributeError):
        return "2.14.0"


class Project:
    def __init__(self, repo=REPO, extra=None):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        self.enum_values = {}
        self.constants = {}  # values of external names
        self.torch_version = installed_torch()  # the analysed configuration
        self.decorations = {}
        self.star = {}
        self.loading = set()
        self.extra = extra or {}
        self.texts = {}  # sources made from other files of the repository
        self.analyse = None  # names allowed to be loaded as sources (None: any)
        sys.setrecursionlimit(20000)

    def find(self, name):
        if name in self.extra:
            return os.path.join(self.repo, self.extra[name])
        parts = name.split(".")
        for pkg, root in ROOTS:
            if parts[0] != pkg:
                continue
            p = os.path.join(self.repo, root, *parts[1:])
            if os.path.isfile(p + ".py"):
                return p + ".py"
        for pkg, root in ROOTS:
            if parts[0] != pkg:
                continue
            p = os.path.join(self.repo, root, *parts[1:], "__init__.py")
            if os.path.isfile(p):
                return p
        return None

    def is_pkg_prefix(self, name):
        parts = name.split(".")
        for pkg, root in ROOTS:
            if parts[0] == pkg and os.path.isdir(os.path.join(self.repo, root, *parts[1:])):
                return True
        return False

    def load(self, name):
        """Load a module of the repository, interpreting its top level."""
        m = self.load_analysed(name, None)
        if m is None:
            raise AnalysisError(f"anchor vanished: module {name} not found in {self.repo}")
        return m

    def load_analysed(self, name, interp):
        if name in self.modules:
            return self.modules[name]
        if self.analyse is not None and name not in self.analyse:
            return None
        path = self.find(name)
        if path is None:
            return None
        if name in self.loading:
            return None
        self.loading.add(name)
        m = Module(name, path, self.repo, self.texts.get(name))
        self.modules[name] = m
        it = Interp(self)
        it.module_mode = True
        env = Env(m)
        env.vars = m.globals
        from .interp import PyRaise, CutPath

        for s in m.tree.body:
            it.total = it.steps = 0
            try:
                it.stmt(s, env)
            except (PyRaise, CutPath) as e:
                # e.g. an optional import guarded elsewhere
                continue
        self.loading.discard(name)
        m.done = True
        return m

    def resolve_relative(self, mod, name, level):
        if not level:
            return name
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([name] if name else []))

    def import_module(self, name, interp):
        m = self.load_analysed(name, interp) if self._wanted(name) else None
        if m is not None:
            return ModV(m)
        return Q(name)

    def _wanted(self, name):
        return name.split(".")[0] in ("torch_mlir", "torch_mlir_e2e_test") or name in self.extra

    def import_from(self, base, name, interp):
        sub = f"{base}.{name}" if base else name
        if self._wanted(sub):
            m = self.load_analysed(base, interp)
            if m is not None and name in m.globals:
                return m.globals[name]
            if self.find(sub):
                m2 = self.load_analysed(sub, interp)
                if m2 is not None:
                    return ModV(m2)
        return Q(sub)

    def analysed_attr(self, base, name, interp):
        """attribute of an external-looking dotted name that is a repo module."""
        if not self._wanted(base):
            return None
        m = self.modules.get(base)
        if m and name in m.globals:
            return m.globals[name]
        sub = f"{base}.{name}"
        if self.find(sub):
            m2 = self.load_analysed(sub, interp)
            if m2 is not None:
                return ModV(m2)
        return None

    def module_policy(self, atom):
        from .values import show, walk

        s = show(atom)
        if "__version__" in s:
            # the analysed configuration is a recent PyTorch
            return False if atom.op in ("lt", "le", "eq") and "__version__" in show(atom.args[0]) else True
        if "__name__" in s and "__main__" in s:
            return False
        return True

    def q_types(self, name):
        if name.startswith("torch.") and DTYPE.match(name[6:]):
            return "torch.dtype"
        if name in LAYOUTS:
            return "torch.layout"
        if name in MEMORY_FORMATS:
            return "torch.memory_format"
        if name in self.enum_values:
            return name.rsplit(".", 1)[0]
        return None

    def class_by_qual(self, q):
        return self.classes.get(q)

    # ---------------------------------------------------------------- lookup
    def func(self, module, qual):
        """Find a function/method/class by dotted name within a module."""
        m = self.load(module)
        cur = None
        parts = qual.split(".")
        v = m.globals.get(parts[0])
        for p in parts[1:]:
            if isinstance(v, Cls):
                v = v.lookup(p)
            else:
                v = None
        if v is None:
            raise AnalysisError(f"anchor vanished: {module}:{qual}")
        return v
