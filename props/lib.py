"""Oracles shared by the harnesses (plain Python: they run symbolically and on concrete values)."""
from __future__ import annotations

from typing import Any

from symx.harness import *  # noqa

PY_KEYWORDS = [
    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del",
    "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal",
    "not", "or", "pass", "raise", "return", "try", "while", "with", "yield",
]


def f_is_py_keyword(s: str) -> Any:
    return f_or([f_str_eq(s, k) for k in PY_KEYWORDS if len(k) == len(s)])


def f_is_identifier(s: str) -> Any:
    if len(s) == 0:
        return False
    return f_and([f_not(f_char_in(s[0], mask_of(DIGITS)))] + [f_char_in(c, mask_of(IDENT)) for c in s])


def make_options(nano: bool = False, **kw: Any) -> Any:
    import litgen

    o = litgen.LitgenOptions()
    if nano:
        o.bind_library = litgen.BindLibraryType.nanobind
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def gen(o: Any, code: str) -> Any:
    import litgen

    return litgen.generate_code(o, code)


def between(s: str, a: str, b: str, start: int = 0) -> str:
    """the text between the first `a` after start and the next `b` ("" + error if missing)"""
    i = s.find(a, start)
    if i < 0:
        return "<missing " + a + ">"
    i = i + len(a)
    j = s.find(b, i)
    if j < 0:
        return "<missing " + b + ">"
    return s[i:j]


def norm_spaces(s: str) -> str:
    return " ".join(s.split())


def read_cpp_literal(s: str, i: int) -> Any:
    """decodes the C++ string literal that starts at s[i] == '"'. Returns (value, position after it) or None"""
    if i >= len(s) or s[i] != '"':
        return None
    i += 1
    out = ""
    while i < len(s):
        c = s[i]
        if c == '"':
            return out, i + 1
        if c == "\n":
            return None
        if c != "\\":
            out += c
            i += 1
            continue
        if i + 1 >= len(s):
            return None
        d = s[i + 1]
        i += 2
        if d == "n":
            out += "\n"
        elif d == "t":
            out += "\t"
        elif d == "r":
            out += "\r"
        elif d == "\\" or d == '"' or d == "'" or d == "?":
            out += d
        elif d in "abfv":
            out += {"a": "\a", "b": "\b", "f": "\f", "v": "\v"}[d]
        elif d in "01234567":
            v = ord(d) - 48
            n = 1
            while n < 3 and i < len(s) and s[i] in "01234567":
                v = v * 8 + ord(s[i]) - 48
                i += 1
                n += 1
            out += chr(v)
        elif d == "x":
            v = 0
            n = 0
            while i < len(s) and s[i] in "0123456789abcdefABCDEF":
                v = v * 16 + int(s[i], 16)
                i += 1
                n += 1
            if n == 0 or v > 255:
                return None
            out += chr(v)
        else:
            return None
    return None


def read_py_literal(s: str, i: int) -> Any:
    """decodes the Python string literal that starts at s[i] (a quote, simple or triple). (value, end) or None"""
    q = s[i]
    if q != '"' and q != "'":
        return None
    triple = s[i : i + 3] == q + q + q
    i += 3 if triple else 1
    out = ""
    while i < len(s):
        c = s[i]
        if c == q:
            if not triple:
                return out, i + 1
            if s[i : i + 3] == q + q + q:
                return out, i + 3
            out += c
            i += 1
            continue
        if c == "\n" and not triple:
            return None
        if c != "\\":
            out += c
            i += 1
            continue
        if i + 1 >= len(s):
            return None
        d = s[i + 1]
        i += 2
        if d == "\n":
            pass
        elif d == "n":
            out += "\n"
        elif d == "t":
            out += "\t"
        elif d == "r":
            out += "\r"
        elif d == "\\" or d == '"' or d == "'":
            out += d
        elif d in "abfv":
            out += {"a": "\a", "b": "\b", "f": "\f", "v": "\v"}[d]
        elif d in "01234567":
            v = ord(d) - 48
            n = 1
            while n < 3 and i < len(s) and s[i] in "01234567":
                v = v * 8 + ord(s[i]) - 48
                i += 1
                n += 1
            out += chr(v)
        elif d in "xuUN":
            return None  # (a truncated escape is a syntax error; a complete one would not be the text of the comment)
        else:
            out += "\\" + d
    return None
