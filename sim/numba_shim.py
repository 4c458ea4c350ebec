"""Interpreted stand-in for the parts of numba the solver uses.

The JIT compiler is the one component the simulator replaces by default: a
cold compile of the solver's jitclasses costs minutes per process, and the
compiled code is a translation of the same Python source.  This module keeps
the observable semantics the source relies on (declared fields start zeroed,
scalar fields are coerced to their declared type, typed dictionaries hold
int64 values, a missing key raises KeyError) and otherwise runs the class
bodies as plain Python.  Unknown names resolve to inert placeholders so that a
change in which numba helpers the source imports does not break the harness.

`install()` puts it in sys.modules; it must run before the repository is
imported.  `SIM_JIT=1` in the environment makes the harness skip this and use
real numba (see world.py); the cross-check compares the two.
"""
import ctypes
import importlib
import sys
import types as _t
import numpy as np


class _Type:
    """a numba type expression: float64, float64[:], float64(int64) ..."""
    def __init__(self, name, kind=None):
        self.name, self.kind = name, kind

    def __getitem__(self, item):
        nd = len(item) if isinstance(item, tuple) else 1
        return _Type(f'{self.name}[{nd}]', ('array', self.kind, nd))

    def __call__(self, *args):
        if args and self.kind == 'int' and not isinstance(args[0], _Type):
            return int(args[0])
        if args and self.kind == 'float' and not isinstance(args[0], _Type):
            return float(args[0])
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Type(f'{self.name}.{name}')


class _Deferred(_Type):
    def __init__(self):
        super().__init__('deferred')

    def define(self, other):
        self.target = other


class TypedDict(dict):
    _coerce = None

    @classmethod
    def empty(cls, key_type=None, value_type=None, **_kw):
        d = cls()
        k = getattr(value_type, 'kind', None)
        d._coerce = {'int': int, 'float': float}.get(k)
        return d

    def __setitem__(self, k, v):
        super().__setitem__(k, self._coerce(v) if self._coerce else v)


class TypedList(list):
    @classmethod
    def empty_list(cls, *_a, **_k):
        return cls()


def typeof(x):
    if isinstance(x, (bool, np.bool_)):
        return _Type('bool', 'int')
    if isinstance(x, (int, np.integer)):
        return _Type('int64', 'int')
    if isinstance(x, (float, np.floating)):
        return _Type('float64', 'float')
    if isinstance(x, str):
        return _Type('unicode_type')
    return _Type(type(x).__name__)


def _passthrough(*dargs, **dkw):
    if len(dargs) == 1 and callable(dargs[0]) and not isinstance(dargs[0], (_Type, str)):
        return dargs[0]
    return lambda fn: fn


def vectorize(*dargs, **dkw):
    if len(dargs) == 1 and callable(dargs[0]) and not isinstance(dargs[0], _Type):
        return np.vectorize(dargs[0])
    return lambda fn: np.vectorize(fn)


def guvectorize(sigs, layout=None, *a, **k):
    """only the pattern (in..., out) with the output passed by the caller"""
    def deco(fn):
        def call(*args):
            return fn(*args)
        return call
    return deco


def jitclass(spec=None, *_a, **_k):
    def build(cls, spec):
        items = list(spec.items()) if isinstance(spec, dict) else list(spec or [])
        scal, defaults, arrays = {}, {}, {}
        for name, ty in items:
            kind = getattr(ty, 'kind', None)
            if kind == 'int':
                scal[name], defaults[name] = int, 0
            elif kind == 'float':
                scal[name], defaults[name] = float, 0.0
            elif kind == 'single':
                scal[name], defaults[name] = (lambda v: float(np.float32(v))), 0.0
            elif isinstance(kind, tuple) and kind[0] == 'array':
                dt = np.int64 if kind[1] == 'int' else np.float64
                defaults[name] = np.zeros((0,) * kind[2], dtype=dt)
                if kind[1] in ('int', 'float'):
                    arrays[name] = (kind[1][0], kind[2])
        declared = {n for n, _ in items}
        body = {k: v for k, v in cls.__dict__.items()
                if k not in ('__dict__', '__weakref__')}
        for n, d in defaults.items():
            body.setdefault(n, d)

        def __setattr__(self, name, value, _s=scal, _d=declared, _a=arrays,
                        _set=object.__setattr__):
            c = _s.get(name)
            if c is not None:
                value = c(value)
            elif name in _a:
                if isinstance(value, np.ndarray) and (value.dtype.kind, value.ndim) != _a[name]:
                    # as numba: the elements of an array are not converted
                    raise TypeError(f'{cls.__name__}.{name}: cannot store array({value.dtype}, {value.ndim}d)')
            elif name not in _d:
                raise AttributeError(
                    f'{cls.__name__} has no declared field {name!r}')
            _set(self, name, value)
        body['__setattr__'] = __setattr__
        new = type(cls.__name__, cls.__bases__, body)
        new.__module__ = cls.__module__
        new.class_type = _t.SimpleNamespace(instance_type=_Type(cls.__name__))
        return new
    if isinstance(spec, type):
        ann = getattr(spec, '__annotations__', {})
        return build(spec, ann)
    return lambda cls: build(cls, spec)


def get_cython_function_address(module_name, function_name):
    mod = importlib.import_module(module_name)
    cap = mod.__pyx_capi__[function_name]
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype = ctypes.c_char_p
    api.PyCapsule_GetName.argtypes = [ctypes.py_object]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    return api.PyCapsule_GetPointer(cap, api.PyCapsule_GetName(cap))


class _Mod(_t.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Type(name)


def install():
    if 'numba' in sys.modules:
        raise RuntimeError('numba is already imported')
    nb = _Mod('numba')
    i64, f64 = _Type('int64', 'int'), _Type('float64', 'float')
    common = dict(int64=i64, int32=i64, uint64=i64, intp=i64, uint8=i64,
                  boolean=_Type('boolean', 'int'), b1=_Type('boolean', 'int'),
                  float64=f64, float32=_Type('float32', 'single'), double=f64,
                  unicode_type=_Type('unicode_type'), string=_Type('unicode_type'))
    for k, v in common.items():
        setattr(nb, k, v)
    nb.__version__ = '0.68.shim'
    nb.njit = nb.jit = nb.generated_jit = nb.stencil = nb.cfunc = _passthrough
    nb.vectorize, nb.guvectorize = vectorize, guvectorize
    nb.prange = range
    nb.typeof = typeof
    nb.deferred_type = _Deferred
    nb.objmode = None

    ty = _Mod('numba.types')
    for k, v in common.items():
        setattr(ty, k, v)
    ty.Tuple = ty.UniTuple = ty.DictType = ty.ListType = lambda *a, **k: _Type('composite')
    typed = _Mod('numba.typed')
    typed.Dict, typed.List = TypedDict, TypedList
    exp = _Mod('numba.experimental')
    exp.jitclass = jitclass
    ext = _Mod('numba.extending')
    ext.get_cython_function_address = get_cython_function_address
    ext.overload = ext.register_jitable = ext.intrinsic = _passthrough
    core = _Mod('numba.core')
    err = _Mod('numba.core.errors')
    for n in ('NumbaWarning', 'NumbaDeprecationWarning', 'NumbaPendingDeprecationWarning',
              'NumbaPerformanceWarning'):
        setattr(err, n, type(n, (Warning,), {}))
    core.errors, core.types = err, ty
    nb.types, nb.typed, nb.experimental, nb.extending, nb.core = ty, typed, exp, ext, core
    for m in (nb, ty, typed, exp, ext, core, err):
        sys.modules[m.__name__] = m
    sys.modules['numba.core.types'] = ty
    sys.modules['numba.experimental.jitclass'] = _Mod('numba.experimental.jitclass')
    return nb
