"""Runtime called by the rewritten code (see rewrite.py)."""
from __future__ import annotations

import builtins
import enum
import functools
import itertools
import keyword
import operator
import os
import os.path
import types
from typing import Any

from . import ops, symre, vfs
from .core import SymBool, SymInt, Unsupported, engine, f_or, has_sym, is_sym_char
from .ops import (  # noqa: F401  (used by the rewritten code)
    contains, decide, deep_sym, delitem, eq, f_eq, ge, getitem, gt, le, lt, mkdict, mkset, ne, repr_, setitem,
)

FUNCTIONS: set = set()
enter = FUNCTIONS.add

_BUILTIN_TYPES = (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodWrapperType,
                  types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType)


def not_contains(a, b):
    return not contains(a, b)


def is_none(x):
    return x is None


CMP = {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge, "in": contains, "not_in": not_contains,
       "is": operator.is_, "is_not": operator.is_not}


def chain(names, *vals):
    r = True
    for i, n in enumerate(names):
        r = CMP[n](vals[i], vals[i + 1])
        if not r:
            return r
    return r


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
        "BitAnd": operator.iand, "Mod": operator.imod, "FloorDiv": operator.ifloordiv, "Div": operator.itruediv,
        "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift, "Pow": operator.ipow}


def augitem(o, k, op, v):
    setitem(o, k, _AUG[op](getitem(o, k), v))


# ------------------------------------------------------------------------------------------------ builtins
def _bi_set(*a):
    return mkset(*a) if a and deep_sym(a[0] if isinstance(a[0], (list, tuple, set, frozenset, dict)) else (a := (list(a[0]),))[0]) else set(*a)


def _frozenset(*a):
    return frozenset(_bi_set(*a))


def _bi_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        return mkdict(list(a[0]), **k)
    return dict(*a, **k)


def _bi_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _all(it):
    for x in it:
        if not x:
            return False
    return True


def _map(f, *its):
    return map(wrap_callable(f), *its)


def _filter(f, it):
    return filter(wrap_callable(f) if f is not None else None, it)


def _isinstance(x, t):
    if isinstance(x, SymInt):
        return isinstance(0, t)
    if isinstance(x, SymBool):
        return isinstance(True, t)
    return isinstance(x, t)


def _getattr(o, n, *d):
    if has_sym(n):
        n = engine().concretize(n)
    return getattr(o, n, *d)


def _hasattr(o, n):
    if has_sym(n):
        n = engine().concretize(n)
    return hasattr(o, n)


def _hash(x):
    if deep_sym(x):
        return ops.SYM_HASH
    return hash(x)


def _print(*a, **k):
    return None


def _list(*a):
    return list(*a)


BUILTINS = {
    str: ops.str_, repr: repr_, int: ops.int_, float: ops.float_, ord: ops.ord_, chr: ops.chr_,
    sorted: ops.sorted_, set: _bi_set, frozenset: _frozenset, dict: _bi_dict, sum: _bi_sum, any: _any, all: _all,
    map: _map, filter: _filter, isinstance: _isinstance, getattr: _getattr, hasattr: _hasattr, hash: _hash,
    print: _print,
    min: functools.partial(ops.minmax, min), max: functools.partial(ops.minmax, max),
    keyword.iskeyword: lambda s: decide(f_or([f_eq(s, k) for k in keyword.kwlist])) if has_sym(s) else keyword.iskeyword(s),
    bool: lambda x=False: builtins.bool(x),
}

vfs.install(BUILTINS)

_SAFE_BUILTINS = {list, tuple, enumerate, zip, reversed, iter, next, len, callable, type, id, super, object, range,
                  setattr, isinstance, issubclass, property, staticmethod, classmethod, Exception,
                  itertools.chain, itertools.islice, itertools.dropwhile, itertools.takewhile, itertools.count,
                  itertools.repeat, itertools.zip_longest, functools.partial, functools.reduce, operator.attrgetter}

_SAFE_MODULES = {"copy", "xml", "logging", "traceback", "munch", "dataclasses", "typing", "enum", "contextlib",
                 "tempfile", "inspect", "abc", "symx", "io", "pathlib", "time", "unittest", "_elementtree", "srcml_caller",
                 "collections", "pyexpat", "sys", "functools"}

INSTRUMENTED_ROOTS = ("codemanip", "srcmlcpp", "litgen", "srcmlcpp_tools", "props")

_CONCRETIZE_ARGS_MODULES = {"posixpath", "os", "genericpath", "shutil", "posix"}


def wrap_callable(f):
    """a callable that is handed to native code (map, key=...)"""
    if isinstance(f, (types.FunctionType, types.MethodType)) and not isinstance(f, type):
        return f
    return lambda *a, **k: call(f, *a, **k)


_STR_DESCRIPTORS = {getattr(str, n): n for n in dir(str) if isinstance(getattr(str, n), (types.MethodDescriptorType, types.WrapperDescriptorType))}


def call(f, *args, **kw):
    t = type(f)
    if t is types.FunctionType:
        mod = f.__module__
        if mod is not None and mod.partition(".")[0] in INSTRUMENTED_ROOTS:
            return f(*args, **kw)
        m = BUILTINS.get(f)
        return m(*args, **kw) if m is not None else _foreign(f, args, kw)
    if t is types.MethodType:
        return _method(f, args, kw)
    try:
        m = BUILTINS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            ts = type(s)
            if ts in _MODELLED or s is str or s is dict or (isinstance(s, dict) and hasattr(dict, f.__name__)):
                return mcall(s, f.__name__, *args, **kw)
            return _foreign_method(f, s, args, kw)
        return _foreign(f, args, kw)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if args and f.__objclass__ in _MODELLED:
            return mcall(args[0], f.__name__, *args[1:], **kw)
        return f(*args, **kw) if f.__objclass__ is object else _foreign(f, args, kw)
    if isinstance(f, type):
        if issubclass(f, enum.Enum) and len(args) == 1 and deep_sym(args[0]):
            for member in f:
                if eq(member.value, args[0]):
                    return member
            raise ValueError(f"not a valid {f.__name__}")
        if f is str or issubclass(f, str):
            return f(*args, **kw)
        mod = (f.__module__ or "").partition(".")[0]
        if mod in INSTRUMENTED_ROOTS or mod in _SAFE_MODULES or f in _SAFE_BUILTINS or issubclass(f, BaseException):
            return f(*args, **kw)
        return _foreign(f, args, kw)
    return f(*args, **kw)


_MODELLED = {str, list, dict, set, frozenset, tuple}
_SAFE_SELF_MODULES = {"builtins", "_io", "xml", "_elementtree", "collections", "itertools", "symx", "logging", "munch",
                      "re", "abc", "typing"} | set(INSTRUMENTED_ROOTS)


def _foreign_method(f, s, args, kw):
    """a C method of an object that is not modelled (an XML element, a file, an inherited object.__init__ ...): these
    store or return their arguments without inspecting characters, except for the few listed in the modelled types"""
    if not (deep_sym(args) or deep_sym(kw)):
        return f(*args, **kw)
    mod = (type(s).__module__ or "").partition(".")[0]
    if mod in _SAFE_SELF_MODULES and type(s) not in (int, float, bytes, bytearray):
        return f(*args, **kw)
    raise Unsupported(f"native method {type(s).__name__}.{f.__name__} with symbolic arguments")


def _method(f, args, kw):
    mod = getattr(f.__func__, "__module__", None) or ""
    root = mod.partition(".")[0]
    if root in INSTRUMENTED_ROOTS:
        return f(*args, **kw)
    return _foreign(f, args, kw)


def _foreign(f, args, kw):
    """a function that is neither instrumented nor modelled"""
    if not (deep_sym(args) or deep_sym(kw)):
        return f(*args, **kw)
    try:
        if f in _SAFE_BUILTINS:
            return f(*args, **kw)
    except TypeError:
        pass
    mod = (getattr(f, "__module__", None) or "").partition(".")[0]
    if mod in _SAFE_MODULES or mod in INSTRUMENTED_ROOTS:
        return f(*args, **kw)
    if mod in _CONCRETIZE_ARGS_MODULES:
        args = tuple(engine().concretize(a) if has_sym(a) else a for a in args)
        return f(*args, **kw)
    raise Unsupported(f"native call {mod}.{getattr(f, '__qualname__', f)} with symbolic arguments")


_LIST_SAFE = {"append", "extend", "insert", "pop", "reverse", "copy", "clear", "__len__", "__iter__", "__init__"}
_DICT_SAFE = {"items", "keys", "values", "copy", "clear", "popitem", "__len__", "__iter__", "__init__"}
_SET_SAFE = {"copy", "clear", "pop", "__len__", "__iter__"}
_DICT_MODELS = {"get": ops.d_get, "setdefault": ops.d_setdefault, "pop": ops.d_pop,
                "__getitem__": getitem, "__setitem__": setitem, "__delitem__": delitem}


def mcall(o, name, *args, **kw):
    t = type(o)
    if t is str:
        m = ops.STR_MODELS.get(name)
        if not o.isascii() and has_sym(o):
            pass
        else:
            for a in args:
                ta = type(a)
                if ta is str:
                    if not a.isascii() and has_sym(a):
                        break
                elif ta is tuple or ta is SymInt:
                    if deep_sym(a):
                        break
            else:
                return getattr(o, name)(*args, **kw)
        if m is None:
            raise Unsupported("str." + name)
        return m(o, *args, **kw)
    if t is list:
        if name in _LIST_SAFE:
            return getattr(o, name)(*args, **kw)
        if name == "sort":
            return ops.l_sort(o, **kw)
        if name in ("index", "count", "remove"):
            if deep_sym(args) or deep_sym(o, 2):
                return {"index": ops.l_index, "count": ops.l_count, "remove": ops.l_remove}[name](o, *args)
        return getattr(o, name)(*args, **kw)
    if t is dict or (isinstance(o, dict) and hasattr(dict, name) and getattr(t, name, None) is getattr(dict, name)):
        if name in _DICT_SAFE:
            return getattr(o, name)(*args, **kw)
        if name in _DICT_MODELS:
            if args and ops._dict_sym(o, args[0]):
                return _DICT_MODELS[name](o, *args, **kw)
            return getattr(o, name)(*args, **kw)
        if name == "update":
            return ops.d_update(o, *args, **kw)
        if name == "__contains__":
            return contains(args[0], o)
        if name == "fromkeys":
            r = {}
            for k in args[0]:
                setitem(r, k, args[1] if len(args) > 1 else None)
            return r
        return getattr(o, name)(*args, **kw)
    if t is set or t is frozenset:
        if name in _SET_SAFE:
            return getattr(o, name)(*args, **kw)
        if name == "add":
            return ops.set_add(o, *args)
        if name == "discard":
            return ops.set_discard(o, *args) if (deep_sym(args) or deep_sym(o)) else o.discard(*args)
        if name == "remove":
            return ops.set_discard(o, args[0], True) if (deep_sym(args) or deep_sym(o)) else o.remove(*args)
        if name == "__contains__":
            return contains(args[0], o)
        if deep_sym(o) or deep_sym([list(a) for a in args]):
            return ops.set_op(name, o, *args)
        return getattr(o, name)(*args, **kw)
    if t is tuple and name in ("index", "count"):
        if deep_sym(args) or deep_sym(o, 2):
            return {"index": ops.l_index, "count": ops.l_count}[name](o, *args)
        return getattr(o, name)(*args, **kw)
    if o is str and name in ops.STR_MODELS:
        return mcall(args[0], name, *args[1:], **kw)
    if o is str and name == "maketrans":
        return str.maketrans(*args)
    if o is dict and name == "fromkeys":
        return mcall({}, name, *args)
    return call(getattr(o, name), *args, **kw)


def str_attr(o, name):
    """o.name used as a value, where name is the name of a str method"""
    t = type(o)
    if o is str:
        return lambda s, *a, **k: mcall(s, name, *a, **k)
    if t is str:
        return lambda *a, **k: mcall(o, name, *a, **k)
    return getattr(o, name)


def path_cache(f):
    """functools.lru_cache, functools.cache: the cache is emptied at the beginning of each path"""

    def key(x):
        t = type(x)
        if t is tuple:
            return (tuple, tuple(key(y) for y in x))
        if t in (str, int, bool, float, bytes, type(None)):
            return (t, x)
        hash(x)  # TypeError, as the real one
        return (t, id(x))

    @functools.wraps(f)
    def wrapper(*args, **kw):
        e = engine()
        if not e.active:
            return f(*args, **kw)
        k = (f, key(args), tuple((n, key(v)) for n, v in kw.items()))
        found = e.cached.get(k)
        if found is None:
            found = e.cached[k] = (f(*args, **kw), args, kw)
        return found[0]

    wrapper.cache_clear = lambda: [engine().cached.pop(k) for k in list(engine().cached) if k[0] is f]
    wrapper.__wrapped__ = f
    return wrapper
