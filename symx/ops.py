"""Models of the builtin operations that inspect characters (str methods, containers with symbolic keys...).

Every model falls through to the native operation when no symbolic character is involved.
"""
from __future__ import annotations

import dataclasses
import functools
from typing import Any

import z3

from .core import (
    PUA_BASE, W, Atom, Formula, SymBool, SymInt, Unsupported, engine, f_and, f_char_eq_atoms, f_iff, f_in, f_not,
    f_or, has_sym, is_sym_char, mask_codes, mask_of, pred_mask,
)


# --------------------------------------------------------------------------------------------------------
#  formulas on chars and strings
# --------------------------------------------------------------------------------------------------------
def f_char_in(c: str, mask: int) -> Any:
    """c (a one-char string) is in mask"""
    if ord(c) < PUA_BASE:
        return bool(mask >> ord(c) & 1)
    a = engine().atom_of(c)
    return f_in(a.var, a.preimage(mask))


def f_char_pred(c: str, key: str, pred) -> Any:
    if ord(c) < PUA_BASE:
        return pred(c)
    a = engine().atom_of(c)
    return f_in(a.var, a.preimage(pred_mask(key, pred, a.image_mask())))


def f_char_eq(c: str, d: str) -> Any:
    if c == d:
        return True
    sc, sd = ord(c) >= PUA_BASE, ord(d) >= PUA_BASE
    if not sc and not sd:
        return False
    e = engine()
    if sc and sd:
        return f_char_eq_atoms(e.atom_of(c), e.atom_of(d))
    if sd:
        c, d = d, c
    a = e.atom_of(c)
    return f_in(a.var, a.preimage(1 << ord(d)))


def f_char_lt(c: str, d: str) -> Any:
    sc, sd = ord(c) >= PUA_BASE, ord(d) >= PUA_BASE
    if not sc and not sd:
        return c < d
    e = engine()
    if sc and not sd:
        a = e.atom_of(c)
        return f_in(a.var, a.preimage((1 << ord(d)) - 1))
    if sd and not sc:
        a = e.atom_of(d)
        return f_in(a.var, a.preimage(~((1 << (ord(c) + 1)) - 1)))
    a, b = e.atom_of(c), e.atom_of(d)
    if a is b:
        return False
    return Formula("z", z3.ULT(a.z3expr(), b.z3expr()), frozenset([a.var, b.var]))


def f_str_eq(a: str, b: str) -> Any:
    if len(a) != len(b):
        return False
    if a == b:
        return True
    return f_and([f_char_eq(x, y) for x, y in zip(a, b)])


def f_str_contains(s: str, sub: str) -> Any:
    return f_or([f_str_eq(s[i : i + len(sub)], sub) for i in range(len(s) - len(sub) + 1)])


def f_str_lt(a: str, b: str) -> Any:
    parts, prefix = [], True
    for x, y in zip(a, b):
        parts.append(f_and([prefix, f_char_lt(x, y)]))
        prefix = f_and([prefix, f_char_eq(x, y)])
    if len(a) < len(b):
        parts.append(prefix)
    return f_or(parts)


def decide(f) -> bool:
    if f is True or f is False:
        return f
    return engine().decide(f)


# --------------------------------------------------------------------------------------------------------
#  deep helpers
# --------------------------------------------------------------------------------------------------------
def _generated_eq(t: type) -> bool:
    """t is a dataclass whose __eq__ was generated"""
    if "__dataclass_fields__" not in t.__dict__ and not hasattr(t, "__dataclass_fields__"):
        return False
    eq = t.__eq__
    code = getattr(getattr(eq, "__wrapped__", eq), "__code__", None)
    return code is not None and code.co_filename == "<string>"


def deep_sym(x: Any, depth: int = 4) -> bool:
    """x contains symbolic data that native equality / hashing would mishandle"""
    t = type(x)
    if t is str:
        return has_sym(x)
    if t is int or t is bool or x is None or t is float:
        return False
    if t is SymInt or t is SymBool:
        return True
    if depth == 0:
        return False
    if t is list or t is tuple or t is set or t is frozenset:
        for y in x:
            if deep_sym(y, depth - 1):
                return True
        return False
    if t is dict:
        for k, v in x.items():
            if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                return True
        return False
    if isinstance(x, (str, list, dict, tuple)):
        if isinstance(x, str):
            return has_sym(str(x)) if t.__str__ is str.__str__ else False
        return deep_sym(list(x.items()) if isinstance(x, dict) else list(x), depth - 1)
    if hasattr(t, "__dataclass_fields__") and _generated_eq(t):
        for f in dataclasses.fields(x):
            if deep_sym(getattr(x, f.name, None), depth - 1):
                return True
        return False
    h = t.__hash__
    if h is not object.__hash__ and h is not None and type(h) is _FUNCTION and t.__module__.partition(".")[0] in _ROOTS:
        return hash(x) == SYM_HASH  # the class defines its own hash: rt._hash gives SYM_HASH to symbolic data
    return False


SYM_HASH = 0x5EED
_FUNCTION = type(lambda: 0)
_ROOTS = ("codemanip", "srcmlcpp", "litgen", "srcmlcpp_tools")


def f_eq(a: Any, b: Any) -> Any:
    """formula for a == b"""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return f_str_eq(a, b)
    if ta is SymBool or tb is SymBool:
        if ta is not SymBool:
            a, b = b, a
        if isinstance(b, SymBool):
            return f_iff(a.formula, b.formula)
        if isinstance(b, bool):
            return a.formula if b else f_not(a.formula)
        return False
    if ta is SymInt or tb is SymInt:
        r = a == b
        return r.formula if isinstance(r, SymBool) else bool(r)
    if a is b:
        return True
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        return f_and([f_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return f_and([f_or([f_and([f_eq(k, k2), f_eq(v, v2)]) for k2, v2 in b.items()]) for k, v in a.items()])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return False
        return f_and([f_or([f_eq(x, y) for y in b]) for x in a])
    if ta is tb and _generated_eq(ta):
        return f_and(
            [f_eq(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a) if f.compare]
        )
    r = a == b
    if isinstance(r, SymBool):
        return r.formula
    return bool(r)


def eq(a: Any, b: Any) -> Any:
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a.isascii() and b.isascii():
            return a == b
        return decide(f_str_eq(a, b))
    if ta is SymBool or tb is SymBool or ta is SymInt or tb is SymInt:
        return decide(f_eq(a, b))
    if ta in _CONTAINERS or tb in _CONTAINERS or hasattr(ta, "__dataclass_fields__"):
        if deep_sym(a) or deep_sym(b):
            return decide(f_eq(a, b))
    return a == b


_CONTAINERS = {list, tuple, dict, set, frozenset}


def ne(a: Any, b: Any) -> Any:
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return not eq(a, b)
    if ta is SymBool or tb is SymBool or ta is SymInt or tb is SymInt:
        return not decide(f_eq(a, b))
    if ta in _CONTAINERS or tb in _CONTAINERS or hasattr(ta, "__dataclass_fields__"):
        if deep_sym(a) or deep_sym(b):
            return not decide(f_eq(a, b))
    return a != b


def _seq_cmp(a, b):
    """-1, 0, 1 lexicographic compare (decided)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for x, y in zip(a, b):
            if eq(x, y):
                continue
            return -1 if lt(x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))
    if eq(a, b):
        return 0
    return -1 if lt(a, b) else 1


def lt(a: Any, b: Any) -> Any:
    if type(a) is str and type(b) is str:
        if has_sym(a) or has_sym(b):
            return decide(f_str_lt(a, b))
        return a < b
    if isinstance(a, (list, tuple)) and (deep_sym(a) or deep_sym(b)):
        return _seq_cmp(a, b) < 0
    r = a < b
    return bool(r) if isinstance(r, SymBool) else r


def gt(a, b):
    return lt(b, a) if isinstance(a, (str, list, tuple, SymInt)) else a > b


def le(a, b):
    if isinstance(a, (str, list, tuple)):
        return not lt(b, a) if (deep_sym(a) or deep_sym(b)) else a <= b
    r = a <= b
    return bool(r) if isinstance(r, SymBool) else r


def ge(a, b):
    if isinstance(a, (str, list, tuple)):
        return not lt(a, b) if (deep_sym(a) or deep_sym(b)) else a >= b
    r = a >= b
    return bool(r) if isinstance(r, SymBool) else r


def contains(item: Any, container: Any) -> bool:
    """item in container"""
    tc = type(container)
    if tc is str:
        if type(item) is str and (has_sym(item) or has_sym(container)):
            return decide(f_str_contains(container, item))
        return item in container
    if tc is list or tc is tuple:
        if deep_sym(item) or deep_sym(container, 2):
            for x in container:
                if x is item or eq(x, item):
                    return True
            return False
        return item in container
    if tc in (dict, set, frozenset) or isinstance(container, (dict, set, frozenset, _DictViews)):
        if deep_sym(item) or any(deep_sym(x) for x in container):
            return decide(f_or([f_eq(x, item) for x in container]))
        return item in container
    return item in container


_DictViews = (type({}.keys()), type({}.values()), type({}.items()))


# --------------------------------------------------------------------------------------------------------
#  str methods
# --------------------------------------------------------------------------------------------------------
WS = mask_of("".join(chr(i) for i in range(0x300) if chr(i).isspace()))


def _idx(s: str, start, end):
    n = len(s)
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def _at(s: str, i: int, sub: str) -> bool:
    return decide(f_str_eq(s[i : i + len(sub)], sub))


def s_find(s, sub, start=None, end=None):
    b, e = _idx(s, start, end)
    if b > len(s):
        return -1
    for i in range(b, e - len(sub) + 1):
        if _at(s, i, sub):
            return i
    return -1


def s_rfind(s, sub, start=None, end=None):
    b, e = _idx(s, start, end)
    for i in range(e - len(sub), b - 1, -1):
        if _at(s, i, sub):
            return i
    return -1


def s_index(s, sub, start=None, end=None):
    r = s_find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_rindex(s, sub, start=None, end=None):
    r = s_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_count(s, sub, start=None, end=None):
    b, e = _idx(s, start, end)
    if sub == "":
        return max(0, e - b + 1)
    n, i = 0, b
    while i <= e - len(sub):
        if _at(s, i, sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def s_startswith(s, prefix, start=None, end=None):
    b, e = _idx(s, start, end)
    w = s[b:e]
    if isinstance(prefix, tuple):
        return decide(f_or([f_str_eq(w[: len(p)], p) if len(p) <= len(w) else False for p in prefix]))
    return len(prefix) <= len(w) and decide(f_str_eq(w[: len(prefix)], prefix))


def s_endswith(s, suffix, start=None, end=None):
    b, e = _idx(s, start, end)
    w = s[b:e]
    sufs = suffix if isinstance(suffix, tuple) else (suffix,)
    return decide(f_or([f_str_eq(w[len(w) - len(p) :], p) if len(p) <= len(w) else False for p in sufs]))


def s_replace(s, old, new, count=-1):
    count = int(count)
    if old == "":
        parts = []
        n = 0
        for c in s:
            if count < 0 or n < count:
                parts.append(new)
                n += 1
            parts.append(c)
        if count < 0 or n < count:
            parts.append(new)
        return "".join(parts)
    out, i, n = [], 0, 0
    while i < len(s):
        if (count < 0 or n < count) and i + len(old) <= len(s) and _at(s, i, old):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def _is_ws(c):
    return decide(f_char_in(c, WS)) if is_sym_char(c) else c.isspace()


def s_split(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    if sep is None:
        out, i, n = [], 0, len(s)
        while i < n:
            while i < n and _is_ws(s[i]):
                i += 1
            if i >= n:
                break
            if 0 <= maxsplit <= len(out):
                rest = s[i:]
                out.append(s_rstrip(rest))
                return out
            j = i
            while j < n and not _is_ws(s[j]):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    if sep == "":
        raise ValueError("empty separator")
    out, b, i = [], 0, 0
    while i + len(sep) <= len(s):
        if 0 <= maxsplit <= len(out):
            break
        if _at(s, i, sep):
            out.append(s[b:i])
            i += len(sep)
            b = i
        else:
            i += 1
    out.append(s[b:])
    return out


def s_rsplit(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    if maxsplit < 0:
        return s_split(s, sep)
    if sep is None:
        out, i = [], len(s)
        while i > 0:
            while i > 0 and _is_ws(s[i - 1]):
                i -= 1
            if i == 0:
                break
            if len(out) >= maxsplit:
                out.append(s_lstrip(s[:i]))
                break
            j = i
            while j > 0 and not _is_ws(s[j - 1]):
                j -= 1
            out.append(s[j:i])
            i = j
        return out[::-1]
    out, e, i = [], len(s), len(s)
    while i - len(sep) >= 0 and len(out) < maxsplit:
        if _at(s, i - len(sep), sep):
            out.append(s[i:e])
            i -= len(sep)
            e = i
        else:
            i -= 1
    out.append(s[:e])
    return out[::-1]


_LINE_BREAKS = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def s_splitlines(s, keepends=False):
    out, b, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if decide(f_char_in(c, _LINE_BREAKS)):
            j = i + 1
            if j < len(s) and decide(f_and([f_char_eq(c, "\r"), f_char_eq(s[j], "\n")])):
                j += 1
            out.append(s[b : j if keepends else i])
            b = i = j
        else:
            i += 1
    if b < len(s):
        out.append(s[b:])
    return out


def _strip_pred(chars):
    if chars is None:
        return _is_ws
    return lambda c: decide(f_or([f_char_eq(c, d) for d in chars]))


def s_lstrip(s, chars=None):
    p = _strip_pred(chars)
    i = 0
    while i < len(s) and p(s[i]):
        i += 1
    return s[i:]


def s_rstrip(s, chars=None):
    p = _strip_pred(chars)
    i = len(s)
    while i > 0 and p(s[i - 1]):
        i -= 1
    return s[:i]


def s_strip(s, chars=None):
    return s_rstrip(s_lstrip(s, chars), chars)


def s_partition(s, sep):
    i = s_find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep) :])


def s_rpartition(s, sep):
    i = s_rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep) :])


def s_removeprefix(s, p):
    return s[len(p) :] if s_startswith(s, p) else s


def s_removesuffix(s, p):
    return s[: len(s) - len(p)] if p and s_endswith(s, p) else s


_MAP_CACHE: dict = {}


def _map_char(c: str, key: str, fn) -> str:
    if not is_sym_char(c):
        return fn(c)
    e = engine()
    a: Atom = e.atom_of(c)
    ck = (key, a.var.dom, a.fmap)
    r = _MAP_CACHE.get(ck)
    if r is None:
        d = dict(a.fmap or ())
        new = {}
        multi = 0
        for o in mask_codes(a.var.dom):
            v = fn(chr(d.get(o, o)))
            if len(v) != 1:
                multi |= 1 << o
            elif ord(v) != o:
                new[o] = ord(v)
        r = (tuple(sorted(new.items())) or None, multi)
        _MAP_CACHE[ck] = r
    fmap, multi = r
    if multi:
        if decide(f_in(a.var, multi)):
            return fn(e.concretize_char(c))
        return _map_char(c, key, fn)
    # the map depends on the current domain: extending it with the codes outside of the domain is harmless
    return chr(e.atom(a.var, fmap).code)


def s_lower(s):
    return "".join(_map_char(c, "lower", str.lower) for c in s)


def s_upper(s):
    return "".join(_map_char(c, "upper", str.upper) for c in s)


def s_casefold(s):
    return "".join(_map_char(c, "casefold", str.casefold) for c in s)


def s_swapcase(s):
    return "".join(_map_char(c, "swapcase", str.swapcase) for c in s)


def s_capitalize(s):
    return _map_char(s[0], "title", str.title) + s_lower(s[1:]) if s else ""


def s_title(s):
    out, prev_cased = [], False
    for c in s:
        out.append(_map_char(c, "lower", str.lower) if prev_cased else _map_char(c, "title", str.title))
        prev_cased = decide(f_char_pred(c, "cased", _cased))
    return "".join(out)


def _cased(c):
    return c.isupper() or c.islower() or c.istitle()


def f_isx(s, name):
    if name in ("isupper", "islower"):
        fn = str.isupper if name == "isupper" else str.islower
        bad = (lambda c: _cased(c) and not c.isupper()) if name == "isupper" else (lambda c: _cased(c) and not c.islower())
        return f_and([f_or([f_char_pred(c, name, fn) for c in s])] + [f_not(f_char_pred(c, "not" + name, bad)) for c in s])
    if name == "isidentifier":
        if not s:
            return False
        return f_and(
            [f_char_pred(s[0], "idstart", str.isidentifier)]
            + [f_char_pred(c, "idcont", lambda x: ("a" + x).isidentifier()) for c in s[1:]]
        )
    if name == "isascii":
        return f_and([f_char_in(c, (1 << 128) - 1) for c in s])
    fn = getattr(str, name)
    if not s:
        return fn(s)
    return f_and([f_char_pred(c, name, fn) for c in s])


def _mk_is(name):
    return lambda s: decide(f_isx(s, name))


def s_translate(s, table):
    out = []
    for c in s:
        if not is_sym_char(c):
            out.append(c.translate(table))
            continue
        a = engine().atom_of(c)
        dom = a.image_mask()
        keys = [k for k in table if dom >> k & 1]
        m = 0
        for k in keys:
            m |= 1 << k
        if keys and decide(f_in(a.var, a.preimage(m))):
            out.append(engine().concretize_char(c).translate(table))
        else:
            out.append(c)
    return "".join(out)


def s_format(s, *args, **kw):
    s = _concretize_specials(s, "{}")
    return s.format(*args, **kw)


def _concretize_specials(s: str, specials: str) -> str:
    m = mask_of(specials)
    out = []
    for c in s:
        if is_sym_char(c) and decide(f_char_in(c, m)):
            c = engine().concretize_char(c)
        out.append(c)
    return "".join(out)


def s_join(s, it):
    return s.join([x for x in it])


def s_expandtabs(s, tabsize=8):
    return _concretize_specials(s, "\t\n\r").expandtabs(tabsize)


def s_native(name):
    fn = getattr(str, name)

    def f(s, *a, **k):
        return fn(s, *a, **k)

    return f


def s_zfill(s, w):
    if s and is_sym_char(s[0]) and decide(f_char_in(s[0], mask_of("+-"))):
        s = engine().concretize_char(s[0]) + s[1:]
    return s.zfill(w)


def s_encode(s, *a, **k):
    return s.encode(*a, **k)


STR_MODELS = {
    "find": s_find, "rfind": s_rfind, "index": s_index, "rindex": s_rindex, "count": s_count,
    "startswith": s_startswith, "endswith": s_endswith, "replace": s_replace, "split": s_split,
    "rsplit": s_rsplit, "splitlines": s_splitlines, "strip": s_strip, "lstrip": s_lstrip, "rstrip": s_rstrip,
    "partition": s_partition, "rpartition": s_rpartition, "removeprefix": s_removeprefix,
    "removesuffix": s_removesuffix, "lower": s_lower, "upper": s_upper, "casefold": s_casefold,
    "swapcase": s_swapcase, "capitalize": s_capitalize, "title": s_title, "translate": s_translate,
    "format": s_format, "join": s_join, "expandtabs": s_expandtabs, "zfill": s_zfill, "encode": s_encode,
    "ljust": s_native("ljust"), "rjust": s_native("rjust"), "center": s_native("center"),
    "__len__": len, "__contains__": lambda s, x: contains(x, s), "__eq__": lambda s, x: eq(s, x),
    "__add__": lambda s, x: s + x, "__getitem__": lambda s, i: s[i],
}
for _n in ("isupper", "islower", "isidentifier", "isascii", "isalpha", "isalnum", "isdigit", "isdecimal", "isnumeric",
           "isspace", "isprintable"):
    STR_MODELS[_n] = _mk_is(_n)


# --------------------------------------------------------------------------------------------------------
#  conversions
# --------------------------------------------------------------------------------------------------------
_PRINTABLE_SAFE = None


def repr_(x: Any) -> str:
    t = type(x)
    if t is str:
        if not has_sym(x):
            return repr(x)
        has_sq = decide(f_str_contains(x, "'"))
        quote = '"' if has_sq and not decide(f_str_contains(x, '"')) else "'"
        out = []
        for c in x:
            if is_sym_char(c):
                a = engine().atom_of(c)
                special = pred_mask("repr" + quote, lambda ch, q=quote: (len(repr(ch)) != 3 or ch in "\\'\""), a.image_mask())
                if decide(f_in(a.var, a.preimage(special))):
                    c = engine().concretize_char(c)
                else:
                    out.append(c)
                    continue
            if c == quote:
                out.append("\\" + c)
            elif c in "'\"":
                out.append(c)
            else:
                out.append(repr(c)[1:-1])
        return quote + "".join(out) + quote
    if t is list:
        return "[" + ", ".join(repr_(y) for y in x) + "]"
    if t is tuple:
        return "(" + ", ".join(repr_(y) for y in x) + ("," if len(x) == 1 else "") + ")"
    if t is dict:
        return "{" + ", ".join(repr_(k) + ": " + repr_(v) for k, v in x.items()) + "}"
    r = repr(x)
    if "\\U000f" in r or "\\U0010" in r:
        raise Unsupported(f"repr of {t}")
    return r


def str_(x: Any = "", *a, **k) -> str:
    t = type(x)
    if t is str:
        return x
    if t in (list, tuple, dict) and deep_sym(x):
        return repr_(x)
    if t in (set, frozenset) and deep_sym(x):
        raise Unsupported("str(set)")
    r = str(x, *a, **k)
    if "\\U000f" in r or "\\U0010" in r:
        raise Unsupported(f"str of {t}")
    return r


def int_(x: Any = 0, base: Any = None) -> Any:
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if type(x) is str and has_sym(x):
        return _parse_int(x, 10 if base is None else int(base))
    return int(x) if base is None else int(x, base)


def _parse_int(s: str, base: int) -> Any:
    orig = s
    s = s_strip(s)
    err = ValueError(f"invalid literal for int() with base {base}")
    neg = False
    if s and decide(f_char_in(s[0], mask_of("+-"))):
        neg = decide(f_char_eq(s[0], "-"))
        s = s[1:]
    zero_only = False
    if base in (0, 2, 8, 16):
        pre = {"x": 16, "o": 8, "b": 2}
        found = None
        if len(s) >= 2 and decide(f_char_eq(s[0], "0")):
            for ch, b in pre.items():
                if base in (0, b) and decide(f_char_in(s[1], mask_of(ch + ch.upper()))):
                    found = b
                    break
        if found:
            base = found
            s = s[2:]
            if s and decide(f_char_eq(s[0], "_")):
                s = s[1:]
        elif base == 0:
            base = 10
            zero_only = bool(s) and decide(f_char_eq(s[0], "0"))
    if not s:
        raise err
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    dm = mask_of(digits + digits.upper())
    total: Any = 0
    prev_us = True
    for i, c in enumerate(s):
        if decide(f_char_eq(c, "_")):
            if prev_us:
                raise err
            prev_us = True
            continue
        prev_us = False
        if not decide(f_char_in(c, dm)):
            if is_sym_char(c) and decide(f_char_pred(c, "nonasciidigit", lambda ch: ord(ch) > 127 and ch.isdecimal())):
                raise Unsupported("non ascii digit")
            raise err
        total = total * base + digit_value(c)
    if prev_us:
        raise err
    if zero_only and not decide(f_eq(total, 0)):
        raise err
    return -total if neg else total


def digit_value(c: str) -> Any:
    if not is_sym_char(c):
        return int(c, 36)
    a = engine().atom_of(c)
    codes = mask_codes(a.image_mask())
    if len(codes) == 1:
        return int(chr(codes[0]), 36)
    z = a.z3expr()
    e = z - 48
    lo, hi = 9, 0
    vals = [int(chr(k), 36) for k in codes]
    if any(k > 57 for k in codes):
        e = z3.If(z3.ULE(z, 57), z - 48, z3.If(z3.ULE(z, 90), z - 55, z - 87))
    return SymInt(z3.ZeroExt(W - 21, e), frozenset([a.var]), min(vals), max(vals))


def float_(x: Any = 0.0) -> float:
    if type(x) is str and has_sym(x):
        from . import symre
        if symre.compile(r"\s*[+-]?(\d+(_\d+)*\.?(\d+(_\d+)*)?|\.\d+(_\d+)*)([eE][+-]?\d+(_\d+)*)?\s*").fullmatch(x) or symre.compile(
            r"(?i)\s*[+-]?(inf|infinity|nan)\s*"
        ).fullmatch(x):
            return FloatToken(1.0)
        raise ValueError("could not convert string to float")
    return float(x)


class FloatToken(float):
    """value of float(symbolic string): only the fact that the conversion succeeded may be used"""

    def _bad(self, *a):
        raise Unsupported("value of float(symbolic string) inspected")

    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __sub__ = __mul__ = __int__ = __str__ = __repr__ = __bool__ = _bad  # type: ignore
    __hash__ = float.__hash__


def ord_(c: str) -> Any:
    if type(c) is str and len(c) == 1 and is_sym_char(c):
        a = engine().atom_of(c)
        codes = mask_codes(a.image_mask())
        return SymInt(z3.ZeroExt(W - 21, a.z3expr()), frozenset([a.var]), codes[0], codes[-1])
    return ord(c)


def chr_(i: Any) -> str:
    return chr(int(i))


# --------------------------------------------------------------------------------------------------------
#  containers
# --------------------------------------------------------------------------------------------------------
def _dict_sym(d, k) -> bool:
    if deep_sym(k):
        return True
    for x in d:
        if type(x) is str:
            if not x.isascii() and has_sym(x):
                return True
        elif deep_sym(x):
            return True
    return False


_MISSING = object()


def _dict_find(d, k) -> Any:
    """the key of d equal to k, or _MISSING (decided)"""
    for x in d:
        if decide(f_eq(x, k)):
            return x
    return _MISSING


def is_plain_dict(o) -> bool:
    t = type(o)
    return t is dict or (isinstance(o, dict) and t.__getitem__ is dict.__getitem__)


def getitem(o: Any, k: Any) -> Any:
    t = type(o)
    if isinstance(o, dict) and _dict_sym(o, k):
        x = _dict_find(o, k)
        if x is _MISSING:
            if hasattr(t, "__missing__"):
                return o.__missing__(k)
            raise KeyError(k)
        return o[x]
    if isinstance(k, SymInt):
        k = int(k)
    return o[k]


def setitem(o: Any, k: Any, v: Any) -> None:
    if isinstance(o, dict) and _dict_sym(o, k):
        x = _dict_find(o, k)
        o[k if x is _MISSING else x] = v
        return
    if isinstance(k, SymInt):
        k = int(k)
    o[k] = v


def delitem(o: Any, k: Any) -> None:
    if isinstance(o, dict) and _dict_sym(o, k):
        x = _dict_find(o, k)
        if x is _MISSING:
            raise KeyError(k)
        del o[x]
        return
    del o[k]


def d_get(d, k, default=None):
    x = _dict_find(d, k)
    return default if x is _MISSING else d[x]


def d_setdefault(d, k, default=None):
    x = _dict_find(d, k)
    if x is _MISSING:
        d[k] = default
        return default
    return d[x]


def d_pop(d, k, *default):
    x = _dict_find(d, k)
    if x is _MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(x)


def d_update(d, *a, **kw):
    for src in list(a) + [kw]:
        items = src.items() if isinstance(src, dict) else src
        for k, v in items:
            setitem(d, k, v)


def mkdict(items=(), **kw):
    r: dict = {}
    src = items.items() if isinstance(items, dict) else items
    for k, v in src:
        setitem(r, k, v)
    for k, v in kw.items():
        r[k] = v
    return r


class OrderedSymSet(set):
    pass


def set_add(s, x):
    if deep_sym(x) or any(deep_sym(y) for y in s):
        if not decide(f_or([f_eq(y, x) for y in s])):
            set.add(s, x)
    else:
        set.add(s, x)


def set_discard(s, x, raise_=False):
    for y in list(s):
        if decide(f_eq(y, x)):
            set.discard(s, y)
            return
    if raise_:
        raise KeyError(x)


def mkset(items=()):
    r: set = set()
    for x in items:
        set_add(r, x)
    return r


def set_op(name, s, *others):
    if name == "update":
        for o in others:
            for x in o:
                set_add(s, x)
        return None
    if name in ("union", "__or__"):
        r = mkset(s)
        for o in others:
            for x in o:
                set_add(r, x)
        return r
    o = [x for it in others for x in it]
    if name in ("difference", "__sub__"):
        return mkset([x for x in s if not contains(x, o)])
    if name in ("intersection", "__and__"):
        return mkset([x for x in s if contains(x, o)])
    if name == "issubset":
        return all(contains(x, o) for x in s)
    if name == "issuperset":
        return all(contains(x, list(s)) for x in o)
    if name == "isdisjoint":
        return not any(contains(x, o) for x in s)
    raise Unsupported("set." + name)


def l_index(l, x, *a):
    for i, y in enumerate(l):
        if a and i < a[0]:
            continue
        if y is x or eq(y, x):
            return i
    raise ValueError("not in list")


def l_count(l, x):
    return sum(1 for y in l if y is x or eq(y, x))


def l_remove(l, x):
    del l[l_index(l, x)]


def sorted_(it, key=None, reverse=False):
    items = list(it)
    keys = [key(x) for x in items] if key is not None else items
    if not any(deep_sym(k) for k in keys):
        return sorted(items, key=key, reverse=reverse)
    pairs = list(zip(keys, items))
    cmp = functools.cmp_to_key(lambda a, b: _seq_cmp(a[0], b[0]))
    return [p[1] for p in sorted(pairs, key=cmp, reverse=reverse)]


def l_sort(l, key=None, reverse=False):
    l[:] = sorted_(l, key=key, reverse=reverse)


def minmax(fn, *args, key=None, **kw):
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    keys = [key(x) for x in items] if key else items
    if not any(deep_sym(k) for k in keys):
        if key is not None:
            kw["key"] = key
        return fn(*args, **kw)
    best = 0
    for i in range(1, len(items)):
        if lt(keys[i], keys[best]) if fn is min else lt(keys[best], keys[i]):
            best = i
    return items[best]
