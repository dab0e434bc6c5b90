"""Load the code under test from the repository's current working tree.

Two modes, chosen by the environment variable PBT_MODE:

  interp (default)  NUMBA_DISABLE_JIT=1: numba's own documented debugging mode,
                    in which every @njit function is the plain Python function.
                    numba's jitclass is not usable in that mode as it stands
                    (deferred types need `.class_type`), so `jitclass` is
                    replaced by a small stand-in which keeps the semantics the
                    code can observe: attributes must be declared in the spec,
                    undeclared ones are an error, int64/float64 attributes
                    coerce, arrays must have the declared dtype and rank, and
                    attributes read before being set are zero.
  jit               the real thing, compiled, with NUMBA_BOUNDSCHECK=1 so that
                    an out-of-bounds access is an IndexError.
"""
import os
import sys

MODE = os.environ.get("PBT_MODE", "interp")
REPO = os.environ.get("PBT_REPO", "/repo")

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
if MODE == "interp":
    os.environ["NUMBA_DISABLE_JIT"] = "1"
else:
    os.environ.pop("NUMBA_DISABLE_JIT", None)
    os.environ.setdefault("NUMBA_BOUNDSCHECK", "1")

import numpy as np  # noqa: E402
import numba as nb  # noqa: E402
from numba import types as nbtypes  # noqa: E402


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


REAL_STDOUT = sys.stdout


def say(*a, **k):
    print(*a, file=REAL_STDOUT, flush=True)


class _FakeType:
    """What nb.typeof() gives for a dict in interp mode."""
    name = "dict"


DICT_TYPE = _FakeType()


def _make_jitclass():
    def jitclass(cls_or_spec=None, spec=None):
        if isinstance(cls_or_spec, type):
            return wrap(cls_or_spec, spec)
        the_spec = cls_or_spec if cls_or_spec is not None else spec

        def deco(cls):
            return wrap(cls, the_spec)
        return deco

    def wrap(cls, spec):
        fields = dict(spec or [])
        kinds = {}
        for k, ty in fields.items():
            if isinstance(ty, nbtypes.Integer):
                kinds[k] = "i"
            elif isinstance(ty, nbtypes.Float):
                kinds[k] = "f"
            elif isinstance(ty, nbtypes.Boolean):
                kinds[k] = "b"
            elif isinstance(ty, nbtypes.Array):
                kinds[k] = (np.dtype(str(ty.dtype)), ty.ndim)
            else:
                kinds[k] = None

        def __setattr__(self, name, value):
            try:
                kind = kinds[name]
            except KeyError:
                raise AttributeError(
                    f"'{cls.__name__}' has no field '{name}' in its spec")
            if kind == "i":
                value = int(value)
            elif kind == "f":
                value = float(value)
            elif kind == "b":
                value = bool(value)
            elif kind is not None:
                if not isinstance(value, np.ndarray):
                    raise TypeError(f"{cls.__name__}.{name}: not an array")
                if value.ndim != kind[1] or value.dtype != kind[0]:
                    raise TypeError(
                        f"{cls.__name__}.{name}: {value.dtype}{value.ndim}d "
                        f"is not {kind[0]}{kind[1]}d")
            self.__dict__[name] = value

        def __getattr__(self, name):      # only reached when not in __dict__
            kind = kinds.get(name, 0)
            if kind == "i":
                return 0
            if kind == "f":
                return 0.0
            if kind == "b":
                return False
            if isinstance(kind, tuple):
                return np.zeros((0,) * kind[1], dtype=kind[0])
            raise AttributeError(name)

        ns = dict(cls.__dict__)
        for drop in ("__dict__", "__weakref__"):
            ns.pop(drop, None)
        ns["__setattr__"] = __setattr__
        ns["__getattr__"] = __getattr__

        class _CT:
            instance_type = nbtypes.none
        ns["class_type"] = _CT
        return type(cls.__name__, (object,), ns)
    return jitclass


class _BoolAsNumber:
    """numpy, as the repository's modules see it in interp mode.

    numba evaluates `np.greater(x, a) - np.greater(x, b)` as numbers, numpy
    refuses to subtract booleans: the comparison functions return int64 here.
    """
    _cmp = ("greater", "greater_equal", "less", "less_equal", "equal",
            "not_equal")

    def __getattr__(self, name):
        val = getattr(np, name)
        if name in self._cmp:
            def compare(*a, _f=val, **k):
                return _f(*a, **k).astype(np.int64)
            val = compare
        self.__dict__[name] = val
        return val


NPX = _BoolAsNumber()
PKG = "moving_mesh_transport"
_loaded = False


def load():
    """Put the repository on sys.path and silence its chatter."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if MODE == "interp":
        import numba.experimental as nbx
        nbx.jitclass = _make_jitclass()
        real_typeof = nb.typeof

        def typeof(val, *a, **k):
            if isinstance(val, dict):
                return DICT_TYPE
            return real_typeof(val, *a, **k)
        nb.typeof = typeof
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.stdout = _Null()


def mod(name):
    """Import moving_mesh_transport.<name> from the working tree."""
    import importlib
    load()
    m = importlib.import_module(PKG + "." + name)
    if MODE == "interp":
        for n, other in list(sys.modules.items()):
            if n.startswith(PKG) and getattr(other, "np", None) is np:
                other.np = NPX
    return m


def D(**kw):
    """A parameter dictionary of the kind the code takes."""
    load()
    d = nb.typed.Dict.empty(key_type=nb.typeof("par_1"), value_type=nb.typeof(1))
    for k, v in kw.items():
        d[k] = int(v)
    return d
