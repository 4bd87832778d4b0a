"""Give the code under test the numpy-1.21 behaviour its requirements.txt pins.

Only numpy 2.x exists here.  Two behaviours the repository uses were removed since 1.21:
ragged np.array() (fell back to dtype=object) and float() of a one-element array.  Both are
restored here for the modules loaded from the repository, without touching its files.
"""
import importlib.abc
import importlib.machinery
import sys

import numpy as np

_orig_array = np.array


def _legacy_array(obj, *a, **k):
    try:
        return _orig_array(obj, *a, **k)
    except ValueError as e:
        if "inhomogeneous" not in str(e) or a or k.get("dtype") is not None:
            raise
        out = np.empty(len(obj), dtype=object)
        for i, x in enumerate(obj):
            out[i] = x
        return out


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].size == 1:
            return float(a[0].item())
        return float(*a)

    def __getattr__(cls, n):
        return getattr(float, n)


LegacyFloat = _FloatMeta("float", (), {})


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not spec.origin or not spec.origin.startswith(self.root) \
                or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return None
        inner = spec.loader.exec_module

        def exec_module(module):
            module.__dict__.setdefault("float", LegacyFloat)
            inner(module)
        spec.loader.exec_module = exec_module
        return spec


def install(root):
    np.array = _legacy_array
    sys.meta_path.insert(0, _Finder(root.rstrip("/") + "/"))
