"""Parsers for the generated code (stub and bindings).  They run natively on texts whose unknown characters are
identifier characters (checked by `guard`), so that they never depend on the value of an unknown character."""
from __future__ import annotations

import re
from typing import Any, Optional

from .core import Unsupported, engine, has_sym, is_sym_char, mask_of
from .harness import IDENT

_IDENT_MASK = mask_of(IDENT)
I_ = "[A-Za-z0-9_\U000F0000-\U0010FFFD]"
_WORD = re.compile(I_ + "+")
_IDENT_RE = re.compile(I_ + "+\\Z")


class Malformed(ValueError):
    """the generated code cannot be parsed"""


def guard(s: str) -> None:
    if s.isascii() or not has_sym(s):
        return
    e = engine()
    seen = set()
    for c in s:
        if c not in seen and is_sym_char(c):
            seen.add(c)
            if e.atom_of(c).image_mask() & ~_IDENT_MASK:
                raise Unsupported("outparse: an unknown char may not be an identifier character")


def is_word(s: str) -> bool:
    return _IDENT_RE.match(s) is not None


def norm(s: str) -> str:
    """the text without comments, with normalized blanks"""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i > 0 and is_word(s[i - 1]))):
            j = _str_end(s, i)
            out.append(s[i:j])
            i = j
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i)
            i = n if j < 0 else j + 2
        elif c.isspace():
            while i < n and s[i].isspace():
                i += 1
            out.append(" ")
        else:
            out.append(c)
            i += 1
    return re.sub(" +", " ", "".join(out)).strip() if '"' not in s else "".join(out).strip()


def tight(s: str) -> str:
    """norm(s) without the blanks that do not separate two words"""
    s = norm(s)
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i > 0 and is_word(s[i - 1]))):
            j = _str_end(s, i)
            out.append(s[i:j])
            i = j
            continue
        if c == " ":
            j = i
            while j < n and s[j] == " ":
                j += 1
            if i > 0 and j < n and is_word(s[i - 1]) and is_word(s[j]):
                out.append(" ")
            i = j
            continue
        out.append(c)
        i += 1
    return "".join(out)


def _str_end(s: str, i: int) -> int:
    q = s[i]
    if q == '"' and i > 0 and s[i - 1] == "R" and not (i > 1 and is_word(s[i - 2])):
        j = s.find("(", i)
        k = -1 if j < 0 else s.find(")" + s[i + 1 : j] + '"', j)
        if k < 0:
            raise Malformed("unterminated raw literal: " + s[i : i + 60])
        return k + 2 + j - i - 1
    j = i + 1
    while j < len(s):
        if s[j] == "\\":
            j += 2
            continue
        if s[j] == q:
            return j + 1
        if s[j] == "\n":
            break
        j += 1
    raise Malformed("unterminated literal: " + s[i : i + 60])


def cpp_literal(s: str) -> str:
    """value of a C++ string literal"""
    assert s[0] == '"' and s[-1] == '"'
    out = []
    i = 1
    while i < len(s) - 1:
        if s[i] == "\\":
            d = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(d, d))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


_OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}


def _skip_ws(s: str, i: int) -> int:
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i)
            if j < 0:
                raise Malformed("unterminated comment")
            i = j + 2
        else:
            break
    return i


def _angle_opens(s: str, i: int) -> bool:
    """is s[i] == '<' the start of template arguments ?"""
    if s.startswith("<<", i) or s.startswith("<=", i) or (i > 0 and s[i - 1] == "<"):
        return False
    if i == 0 or not is_word(s[i - 1]):
        return False
    # look for the matching >
    depth = 0
    j = i
    while j < len(s):
        c = s[j]
        if c == "<":
            depth += 1
        elif c == ">" and s[j - 1] != "-":
            depth -= 1
            if depth == 0:
                return True
        elif c == "(":
            j = match(s, j) - 1
        elif s.startswith("&&", j):
            k = _skip_ws(s, j + 2)  # (a && at the end of a type)
            if k >= len(s) or s[k] not in ">,)":
                return False
            j += 1
        elif c in ";{}|\"":
            return False
        j += 1
    return False


def match(s: str, i: int) -> int:
    """s[i] opens a bracket: the index after the matching one"""
    stack = []
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i > 0 and is_word(s[i - 1]))):
            i = _str_end(s, i)
            continue
        if s.startswith("//", i) or s.startswith("/*", i):
            i = _skip_ws(s, i)
            continue
        if c in "([{":
            stack.append(c)
        elif c == "<" and (not stack or stack[-1] != "{") and _angle_opens(s, i):
            stack.append(c)
        elif c == ">" and stack and stack[-1] == "<" and s[i - 1] != "-":
            stack.pop()
        elif c in ")]}":
            while stack and stack[-1] == "<":
                stack.pop()
            if not stack or _OPEN[stack[-1]] != c:
                raise Malformed("unbalanced " + c + " near: " + s[max(0, i - 60) : i + 20])
            stack.pop()
        i += 1
        if not stack:
            return i
    raise Malformed("unbalanced brackets: " + s[:60])


def split_top(s: str, sep: str = ",") -> list:
    """split at the top level separators"""
    r = []
    start = i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i > 0 and is_word(s[i - 1]))):
            i = _str_end(s, i)
            continue
        if s.startswith("//", i) or s.startswith("/*", i):
            i = _skip_ws(s, i)
            continue
        if c in "([{" or (c == "<" and _angle_opens(s, i)):
            i = match(s, i)
            continue
        if c in ")]}":
            raise Malformed("unbalanced " + c + " in: " + s[:80])
        if c == sep:
            r.append(s[start:i])
            start = i + 1
        i += 1
    r.append(s[start:])
    if len(r) == 1 and r[0].strip() == "":
        return []
    return r


class Lambda:
    def __init__(self, s: str) -> None:
        s = s.strip()
        i = match(s, 0)
        self.capture = s[1 : i - 1].strip()
        i = _skip_ws(s, i)
        if i >= len(s) or s[i] != "(":
            raise Malformed("lambda without parameters: " + s[:60])
        j = match(s, i)
        self.params = [cpp_param(p) for p in split_top(s[i + 1 : j - 1])]
        k = s.find("{", j)
        if k < 0:
            raise Malformed("lambda without body: " + s[:60])
        between = s[j:k].strip()
        self.ret: Optional[str] = None
        if between.startswith("->"):
            self.ret = tight(between[2:])
        elif between not in ("", "mutable"):
            raise Malformed("lambda: " + between)
        e = match(s, k)
        if s[e:].strip() != "":
            raise Malformed("text after a lambda: " + s[e : e + 60])
        self.body = s[k + 1 : e - 1]


def cpp_param(p: str) -> tuple:
    """-> (type, name, default or None)"""
    p = norm(p)
    default = None
    parts = split_top(p, "=")
    if len(parts) > 1:
        default = p[len(parts[0]) + 1 :].strip()
        p = parts[0].strip()
    m = re.search("(" + I_ + "+)((?:\\[[^\\]]*\\])*)\\Z", p)
    if m is None:
        return tight(p), "", default
    return tight(p[: m.start()] + m.group(2)), m.group(1), default


class Binding:
    """one thing that the bindings publish"""

    def __init__(self, kind: str, path: tuple, name: str, method: str = "") -> None:
        self.kind = kind  # class, enum, value, def, init, attr, prop, module, export, other
        self.path = path  # python names of the parents
        self.name = name
        self.method = method  # def, def_static, def_readwrite ...
        self.cpp = ""  # class, enum: C++ type;   def: target (tight);   value: C++ value
        self.bases: list = []
        self.target = ""  # raw text of the target
        self.params: list = []  # (name, default or None)
        self.doc = ""
        self.extras: list = []
        self.lambda_: Optional[Lambda] = None
        self.init_types: Optional[list] = None
        self.arg_mods: dict = {}

    def __repr__(self) -> str:
        return f"{self.kind} {'.'.join(self.path + (self.name,))} {self.method} {self.params} -> {self.cpp}"


class Scope:
    def __init__(self, parent: Any) -> None:
        self.parent = parent
        self.vars: dict = {}

    def get(self, name: str) -> Any:
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        raise Malformed("undeclared variable " + name)


class Pydef:
    def __init__(self, code: str, nano: bool) -> None:
        guard(code)
        self.code = code
        self.py = "nb" if nano else "py"
        self.bindings: list = []
        self.loose: list = []  # statements that are not understood (user code)
        root = Scope(None)
        root.vars["m"] = ()
        self._block(code, 0, len(code), root)

    def _block(self, s: str, i: int, end: int, scope: Scope) -> None:
        while True:
            i = _skip_ws(s, i)
            if i >= end:
                return
            if s[i] == "{":
                j = match(s, i)
                self._block(s[: j - 1], i + 1, j - 1, Scope(scope))
                i = j
                continue
            if s[i] == ";":
                i += 1
                continue
            j = self._statement_end(s, i, end)
            self._statement(s[i:j], scope)
            i = j + 1

    def _statement_end(self, s: str, i: int, end: int) -> int:
        while i < end:
            c = s[i]
            if c == ";":
                return i
            if c == '"' or (c == "'" and not (i > 0 and is_word(s[i - 1]))):
                i = _str_end(s, i)
            elif s.startswith("//", i) or s.startswith("/*", i):
                i = _skip_ws(s, i)
            elif c in "([{":
                i = match(s, i)
            else:
                i += 1
        raise Malformed("statement without ;")

    def _statement(self, s: str, scope: Scope) -> None:
        var = None
        m = re.match("(?:auto|" + self.py + "::module_)\\s+(" + I_ + "+)\\s*=", s)
        if m:
            var = m.group(1)
            if var in scope.vars:
                raise Malformed("redeclaration of " + var)
            s = s[m.end() :]
        i = _skip_ws(s, 0)
        m = re.compile("(" + self.py + "::(class_|enum_)\\s*<)").match(s, i)
        if m:
            j = m.end() - 1
            e = match(s, j)
            targs = [tight(x) for x in split_top(s[j + 1 : e - 1])]
            i = _skip_ws(s, e)
            if i >= len(s) or s[i] != "(":
                raise Malformed("class_ without arguments: " + s[:80])
            e = match(s, i)
            args = [norm(x) for x in split_top(s[i + 1 : e - 1])]
            path = scope.get(args[0])
            name = self._name(args[1])
            b = Binding("class" if m.group(2) == "class_" else "enum", path, name)
            b.cpp = targs[0]
            b.bases = targs[1:]
            for a in args[2:]:
                if a.startswith('"'):
                    b.doc = cpp_literal(a)
                else:
                    b.extras.append(tight(a))
            self.bindings.append(b)
            here = path + (name,)
            i = e
        else:
            m = _WORD.match(s, i)
            if not m:
                raise Malformed("statement: " + s[:80])
            k = _skip_ws(s, m.end())
            try:
                here = scope.get(m.group(0))
            except Malformed:
                if k < len(s) and s[k] == ".":
                    raise
                self.loose.append(norm(s))
                return
            i = m.end()
        # chain of calls
        while True:
            i = _skip_ws(s, i)
            if i >= len(s):
                break
            if s[i] != ".":
                raise Malformed("expected . in: " + s[i : i + 80])
            i = _skip_ws(s, i + 1)
            m = _WORD.match(s, i)
            if not m:
                raise Malformed("expected a method in: " + s[i : i + 80])
            meth = m.group(0)
            i = _skip_ws(s, m.end())
            if i < len(s) and s[i] == "=":  # m.attr(...) = value is handled below; .doc() = ""
                raise Malformed("unexpected =")
            targs = ""
            if i < len(s) and s[i] == "<":
                e = match(s, i)
                targs = s[i + 1 : e - 1]
                i = _skip_ws(s, e)
            if i >= len(s) or s[i] != "(":
                raise Malformed("expected ( in: " + s[i : i + 80])
            e = match(s, i)
            args = [x.strip() for x in split_top(s[i + 1 : e - 1])]
            i = _skip_ws(s, e)
            if any(a == "" for a in args):
                raise Malformed("empty argument in ." + meth + s[: 80])
            value = None
            if i < len(s) and s[i] == "=":
                value = norm(s[i + 1 :])
                i = len(s)
            r = self._call(here, meth, args, value, targs)
            if meth == "def_submodule":
                here = r
        if var is not None:
            scope.vars[var] = here

    def _name(self, a: str) -> str:
        a = norm(a)
        if not (a.startswith('"') and _str_end(a, 0) == len(a)):
            raise Malformed("expected a name: " + a[:60])
        return cpp_literal(a)

    def _call(self, here: tuple, meth: str, args: list, value: Any, targs: str) -> Any:
        py = self.py
        if meth == "def_submodule":
            b = Binding("module", here, self._name(args[0]), meth)
            if len(args) > 1:
                b.doc = cpp_literal(norm(args[1]))
            self.bindings.append(b)
            return here + (b.name,)
        if meth == "attr":
            b = Binding("attr", here, self._name(args[0]), meth)
            b.cpp = "" if value is None else tight(value)
            self.bindings.append(b)
            return None
        if meth == "value":
            b = Binding("value", here, self._name(args[0]), meth)
            b.cpp = tight(args[1])
            if len(args) > 2:
                b.doc = cpp_literal(norm(args[2]))
            self.bindings.append(b)
            return None
        if meth == "export_values":
            b = Binding("export", here, "", meth)
            self.bindings.append(b)
            return None
        if meth.startswith("def_read") or meth in ("def_rw", "def_ro", "def_rw_static", "def_ro_static", "def_property", "def_property_readonly", "def_prop_ro", "def_prop_rw"):
            b = Binding("prop" if "prop" in meth else "member", here, self._name(args[0]), meth)
            b.target = args[1]
            rest = args[1:]
            b.cpp = tight(args[1])
            for a in rest:
                a = norm(a)
                if a.startswith('"'):
                    b.doc = cpp_literal(a)
                elif a.startswith("["):
                    b.extras.append(Lambda(a))
                elif a != norm(args[1]):
                    b.extras.append(tight(a))
            self.bindings.append(b)
            return None
        if meth in ("def", "def_static"):
            first = norm(args[0])
            rest = args[1:]
            if first.startswith('"'):
                b = Binding("def", here, self._name(first), meth)
                if not rest:
                    raise Malformed("def without a target: " + first)
                b.target = rest[0]
                rest = rest[1:]
                if b.name == "__init__":
                    b.kind = "init"
            elif re.match(py + "::init\\b", first):
                b = Binding("init", here, "__init__", meth)
                k = _skip_ws(first, len(py) + len("::init"))
                if first[k] == "<":
                    e = match(first, k)
                    b.init_types = [tight(x) for x in split_top(first[k + 1 : e - 1])]
                    k = e
                e = match(first, k)
                b.target = first[k + 1 : e - 1].strip()
                if b.target != "":
                    b.init_types = None
            else:
                b = Binding("other", here, tight(first), meth)  # def(py::self + py::self) ...
                b.extras = [tight(a) for a in rest]
                self.bindings.append(b)
                return None
            b.cpp = tight(b.target)
            b.target = t = b.target[_skip_ws(b.target, 0) :].strip()
            if t.startswith("["):
                b.lambda_ = Lambda(t)
            for a in rest:
                a = norm(a)
                if a.startswith('"'):
                    if b.doc != "":
                        raise Malformed("two docstrings for " + b.name)
                    b.doc = cpp_literal(a)
                elif re.match(py + "::arg\\s*\\(", a):
                    k = a.index("(")
                    e = match(a, k)
                    name = self._name(a[k + 1 : e - 1])
                    tail = a[e:].strip()
                    default = None
                    mm = re.match("\\.\\s*(\\w+)\\s*\\(\\s*\\)", tail)
                    if mm:
                        b.arg_mods[name] = mm.group(1)
                        tail = tail[mm.end() :].strip()
                    if tail.startswith("="):
                        default = tail[1:].strip()
                        if default == "":
                            raise Malformed("empty default value for " + name)
                    elif tail != "":
                        raise Malformed("argument: " + a)
                    b.params.append((name, default))
                else:
                    b.extras.append(tight(a))
            self.bindings.append(b)
            return None
        b = Binding("other", here, meth, meth)
        b.extras = [tight(a) for a in args]
        self.bindings.append(b)
        return None

    # ---- queries
    def at(self, path: tuple, kind: Optional[str] = None) -> list:
        return [b for b in self.bindings if b.path == path and (kind is None or b.kind == kind)]

    def find(self, kind: str, path: tuple, name: str) -> list:
        return [b for b in self.bindings if b.kind == kind and b.path == path and b.name == name]


def parse_pydef(code: str, nano: bool = False) -> Pydef:
    return Pydef(code, nano)


# ------------------------------------------------------------------------------------------------------------- stub
class Item:
    def __init__(self, kind: str, path: tuple, name: str = "") -> None:
        self.kind = kind  # class, def, attr, pass, doc, comment, other
        self.path = path
        self.name = name
        self.bases: list = []
        self.params: list = []  # (name, annotation or None, default or None)
        self.ret: Optional[str] = None
        self.decorators: list = []
        self.ann: Optional[str] = None
        self.value: Optional[str] = None
        self.comment = ""
        self.doc: Optional[str] = None
        self.items: list = []

    def __repr__(self) -> str:
        return f"{self.kind} {'.'.join(self.path + (self.name,))} {self.decorators} {self.params} {self.ann} {self.value}"


def _py_logical_lines(code: str) -> list:
    """[(indent, text without comments, comment)], docstrings are kept in the text"""
    r = []
    i, n = 0, len(code)
    while i < n:
        j = i
        while j < n and code[j] == " ":
            j += 1
        indent = j - i
        if j < n and code[j] == "\t":
            raise Malformed("tab in the indentation")
        out = []
        comments = []
        depth = 0
        k = j
        while k < n:
            c = code[k]
            if c == "\n":
                if depth == 0:
                    break
                out.append(" ")
                k += 1
            elif c == "#":
                e = code.find("\n", k)
                e = n if e < 0 else e
                comments.append(code[k + 1 : e])
                k = e
            elif c == '"' or c == "'":
                if code[k : k + 3] == c * 3:
                    e = k + 3
                    while e < n and code[e : e + 3] != c * 3:
                        e += 2 if code[e] == "\\" else 1
                    if e >= n:
                        raise Malformed("unterminated docstring")
                    e += 3
                else:
                    e = _str_end(code, k)
                out.append(code[k:e])
                k = e
            else:
                if c in "([{":
                    depth += 1
                elif c in ")]}":
                    depth -= 1
                    if depth < 0:
                        raise Malformed("unbalanced " + c + " in the stub: " + code[max(0, k - 60) : k + 10])
                out.append(c)
                k += 1
        if depth != 0:
            raise Malformed("unbalanced brackets in the stub")
        text = "".join(out).strip()
        if text != "" or comments:
            r.append((indent, text, " ".join(comments)))
        i = k + 1
    return r


def py_split(s: str, sep: str) -> list:
    """split a Python expression at top level (no < >)"""
    r = []
    start = i = 0
    depth = 0
    while i < len(s):
        c = s[i]
        if c == '"' or c == "'":
            i = _str_end(s, i)
            continue
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth < 0:
                raise Malformed("unbalanced " + c + ": " + s[:60])
        elif c == sep and depth == 0 and not (sep == "=" and (s[i + 1 : i + 2] == "=" or s[i - 1] in "=!<>")):
            r.append(s[start:i])
            start = i + 1
        i += 1
    r.append(s[start:])
    if len(r) == 1 and r[0].strip() == "":
        return []
    return r


def py_ws(s: str) -> str:
    return " ".join(s.split()) if '"' not in s and "'" not in s else s.strip()


class Stub:
    def __init__(self, code: str) -> None:
        guard(code)
        self.code = code
        self.lines = _py_logical_lines(code)
        self.items: list = []  # flat list
        self.root = Item("module", (), "")
        i = 0
        while i < len(self.lines):
            i = self._item(i, 0, self.root, ())

    def _item(self, i: int, indent: int, parent: Item, path: tuple) -> int:
        ind, text, comment = self.lines[i]
        if text == "":  # comment line: its indentation is free
            it = Item("comment", path)
            it.comment = comment
            parent.items.append(it)
            self.items.append(it)
            return i + 1
        if ind != indent:
            raise Malformed("unexpected indent: " + text)
        decorators = []
        while text.startswith("@"):
            decorators.append(text[1:].strip())
            i += 1
            while i < len(self.lines) and self.lines[i][1] == "":
                i += 1
            if i >= len(self.lines):
                raise Malformed("decorator without function")
            ind, text, comment = self.lines[i]
            if ind != indent:
                raise Malformed("unexpected indent: " + text)
        m = re.match("(class|def)\\s+(" + I_ + "+)\\s*", text)
        if m is None:
            if decorators:
                raise Malformed("decorator without function")
            it = self._simple(text, path)
            it.comment = comment
            parent.items.append(it)
            self.items.append(it)
            if it.kind == "doc" and parent.doc is None and all(x.kind in ("comment", "pass") for x in parent.items[:-1]):
                parent.doc = it.value
            return i + 1
        it = Item("class" if m.group(1) == "class" else "def", path, m.group(2))
        it.decorators = decorators
        it.comment = comment
        k = m.end()
        inner = None
        if k < len(text) and text[k] == "(":
            e = self._py_match(text, k)
            inner = text[k + 1 : e - 1]
            k = e
        tail = text[k:].strip()
        if it.kind == "def":
            if inner is None:
                raise Malformed("def without parameters: " + text)
            parts = py_split(inner, ",")
            for p in parts:
                if p.strip() == "":
                    raise Malformed("empty parameter: " + text)
                it.params.append(self._param(p))
            seen_default = False
            for name, _a, d in it.params:
                if d is not None:
                    seen_default = True
                elif seen_default and not name.startswith("*"):
                    raise Malformed("parameter without default after a default: " + text)
            if tail.startswith("->"):
                cut = py_split(tail[2:], ":")
                if len(cut) != 2:
                    raise Malformed("def: " + text)
                it.ret = py_ws(cut[0])
                tail = ":" + cut[1]
        else:
            it.bases = [py_ws(x) for x in py_split(inner, ",")] if inner is not None else []
        if not tail.startswith(":"):
            raise Malformed("missing colon: " + text)
        parent.items.append(it)
        self.items.append(it)
        body = tail[1:].strip()
        i += 1
        if body != "":
            if body not in ("pass", "..."):
                raise Malformed("inline body: " + text)
            return i
        # block
        j = i
        while j < len(self.lines) and self.lines[j][1] == "":
            j += 1
        if j >= len(self.lines) or self.lines[j][0] <= indent:
            raise Malformed("empty body: " + text)
        sub = self.lines[j][0]
        last = i
        while i < len(self.lines):
            ind, t, _c = self.lines[i]
            if t == "":
                # a comment belongs to the block if a line of the block follows
                j = i
                while j < len(self.lines) and self.lines[j][1] == "":
                    j += 1
                if j >= len(self.lines) or self.lines[j][0] <= indent:
                    if ind <= indent:
                        break
            elif ind <= indent:
                break
            i = self._item(i, sub, it, path + (it.name,))
        return i

    def _py_match(self, s: str, k: int) -> int:
        depth = 0
        while k < len(s):
            c = s[k]
            if c == '"' or c == "'":
                k = _str_end(s, k)
                continue
            if c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
                if depth == 0:
                    return k + 1
            k += 1
        raise Malformed("unbalanced: " + s[:60])

    def _param(self, p: str) -> tuple:
        default = None
        parts = py_split(p, "=")
        if len(parts) > 1:
            default = py_ws(p[len(parts[0]) + 1 :])
            if default == "":
                raise Malformed("empty default: " + p)
        d = py_split(parts[0], ":")
        name = d[0].strip()
        ann = py_ws(parts[0][len(d[0]) + 1 :]) if len(d) > 1 else None
        if ann == "":
            raise Malformed("empty annotation: " + p)
        if not is_word(name.lstrip("*")):
            raise Malformed("parameter name: " + p)
        return name, ann, default

    def _simple(self, text: str, path: tuple) -> Item:
        if text in ("pass", "..."):
            return Item("pass", path)
        if text[0] in "\"'":
            it = Item("doc", path)
            q = 3 if text[:3] == text[0] * 3 else 1
            it.value = text[q:-q]
            return it
        parts = py_split(text, "=")
        left = parts[0]
        d = py_split(left, ":")
        name = d[0].strip()
        if not is_word(name) or (len(parts) == 1 and len(d) == 1):
            it = Item("other", path)
            it.value = text
            if not (text.startswith("from ") or text.startswith("import ")):
                raise Malformed("stub line: " + text)
            return it
        it = Item("attr", path, name)
        if len(d) > 1:
            it.ann = py_ws(left[len(d[0]) + 1 :])
            if it.ann == "":
                raise Malformed("empty annotation: " + text)
        if len(parts) > 1:
            it.value = py_ws(text[len(left) + 1 :])
            if it.value == "":
                raise Malformed("empty value: " + text)
        return it

    # ---- queries
    def find(self, kind: str, path: tuple, name: str) -> list:
        return [x for x in self.items if x.kind == kind and x.path == path and x.name == name]

    def at(self, path: tuple, kind: Optional[str] = None) -> list:
        return [x for x in self.items if x.path == path and (kind is None or x.kind == kind)]


def parse_stub(code: str) -> Stub:
    return Stub(code)


# -------------------------------------------------------------------------------------------------------- agreement
def disagreement(stub: Stub, pydef: Pydef, ignore: tuple = (), overloads: bool = True) -> Optional[str]:
    """compares what the stub announces with what the bindings register; None if they agree
    (names are compared as they are written: overloads=False when two unknown names may be the same)"""
    published: dict = {}
    for b in pydef.bindings:
        p = (b.path, b.name)
        if b.kind in ("class", "enum", "module"):
            published.setdefault(p, []).append((b.kind,))
        elif b.kind in ("def", "init"):
            published.setdefault(p, []).append(("def", tuple((n, d is not None) for n, d in b.params)))
        elif b.kind in ("member", "prop", "value", "attr"):
            published.setdefault(p, []).append(("attr",))
    announced: dict = {}
    modules = {b.path + (b.name,) for b in pydef.bindings if b.kind == "module"}
    classes = {b.path + (b.name,) for b in pydef.bindings if b.kind == "class"}
    enums = {b.path + (b.name,) for b in pydef.bindings if b.kind == "enum"}
    for it in stub.items:
        p = (it.path, it.name)
        full = it.path + (it.name,)
        if it.kind == "class":
            kind = "module" if full in modules else "enum" if full in enums else "class"
            announced.setdefault(p, []).append((kind,))
        elif it.kind == "def":
            params = list(it.params)
            in_class = it.path in classes
            if in_class and "staticmethod" not in it.decorators:
                if not params or params[0][0] != "self":
                    return "method without self in the stub: " + repr(it)
                params = params[1:]
            elif it.path in modules:
                if "staticmethod" not in it.decorators:
                    return "function of a submodule which is not static in the stub: " + repr(it)
            announced.setdefault(p, []).append(("def", tuple((n, d is not None) for n, _a, d in params)))
        elif it.kind == "attr":
            announced.setdefault(p, []).append(("attr",))
    for b in pydef.bindings:
        if b.kind == "def" and b.path in classes:
            its = stub.find("def", b.path, b.name)
            for it in its:
                if ("staticmethod" in it.decorators) != any(x.method == "def_static" for x in pydef.find("def", b.path, b.name)) and len(its) == 1:
                    return "static in the bindings or in the stub only: " + repr(it)
    for p in published:
        if p[1] in ignore:
            continue
        a = sorted(set(map(repr, published[p])))
        if p not in announced:
            return "missing in the stub: " + ".".join(p[0] + (p[1],))
        c = sorted(set(map(repr, announced[p])))
        # (overloads that are the same function in Python are announced once)
        if a != c or len(announced[p]) > len(published[p]):
            return "different in the stub and in the bindings: " + ".".join(p[0] + (p[1],)) + " " + repr(c) + " / " + repr(a)
    for p in announced:
        if p[1] not in ignore and p not in published:
            return "missing in the bindings: " + ".".join(p[0] + (p[1],))
    # overloads are decorated if and only if there are several functions of this name
    for it in stub.items:
        if it.kind == "def" and overloads:
            several = len(stub.find("def", it.path, it.name)) > 1
            if ("overload" in it.decorators) != several:
                return "overload decorator: " + repr(it)
    # as many arguments as the target has parameters
    for b in pydef.bindings:
        if b.init_types is not None and len(b.init_types) != len(b.params):
            return "init: number of arguments: " + repr(b)
        if b.lambda_ is not None and b.kind in ("def", "init"):
            n = len(b.lambda_.params)
            if b.kind == "init" and b.name == "__init__" and b.target.startswith("[") and pydef.py == "nb":
                n -= 1
            elif b.kind == "def" and b.method == "def" and b.path in classes:
                n -= 1
            if n != len(b.params):
                return "lambda: number of arguments: " + repr(b)
    return None


# ---------------------------------------------------------------- C++ classes of the glue code
class GlueMethod:
    """a method of a class of the glue code"""

    def __init__(self, ret: str, name: str, params: list, after: str, body: str) -> None:
        self.ret, self.name, self.params, self.after = ret, name, params, after
        self.macro, self.args = "", []  # the macro that the body calls, if it is a single call
        b = norm(body)
        m = re.match("(?:return )?(" + I_ + "+) ?\\(", b)
        if m:
            e = match(b, m.end() - 1)
            if b[e:].strip(" ;") == "":
                self.macro = m.group(1)
                self.args = [tight(x) for x in split_top(b[m.end() : e - 1])]


class GlueClass:
    def __init__(self, scope: tuple, name: str, bases: list) -> None:
        self.scope, self.name, self.bases = scope, name, bases
        self.qualified = "::".join(scope + (name,))
        self.usings: list = []
        self.methods: list = []
        self.calls: list = []  # (macro, args)


def parse_glue(code: str) -> list:
    """the classes that derive from another one"""
    guard(code)
    out: list = []
    _glue_block(code, 0, len(code), (), out)
    return out


def _glue_block(s: str, i: int, end: int, scope: tuple, out: list) -> None:
    while True:
        i = _skip_ws(s, i)
        if i >= end:
            return
        if s[i] == "#":
            j = s.find("\n", i)
            i = end if j < 0 else j
            continue
        k = i
        while k < end and s[k] not in "{;":
            if s[k] in "(\"'":
                k = match(s, k) if s[k] == "(" else _str_end(s, k)
            else:
                k += 1
        head = norm(s[i:k])
        if k >= end or s[k] == ";":
            i = k + 1
            continue
        e = match(s, k)
        m = re.match("(class|struct) (" + I_ + "+)(?: final)? ?:(?!:) ?(.*)\\Z", head)
        if head.startswith("namespace"):
            names = head[len("namespace") :].strip()
            _glue_block(s, k + 1, e - 1, scope + tuple([x.strip() for x in names.split("::") if x.strip() != ""]), out)
        elif m:
            c = GlueClass(scope, m.group(2), [re.sub("^(public|virtual) ", "", norm(x)) for x in split_top(m.group(3))])
            c.bases = [tight(b) for b in c.bases]
            _glue_class(s, k + 1, e - 1, c)
            out.append(c)
        i = e


def _glue_class(s: str, i: int, end: int, c: GlueClass) -> None:
    while True:
        i = _skip_ws(s, i)
        if i >= end:
            return
        m = re.compile("(public|protected|private)\\s*:").match(s, i)
        if m:
            i = m.end()
            continue
        if s[i] == ";":
            i += 1
            continue
        k = i
        par = -1
        while k < end and s[k] not in "{;":
            if s[k] == "(":
                if norm(s[i:k]).endswith("operator"):
                    k = match(s, k)  # operator()
                    continue
                if par < 0:
                    par = k
                k = match(s, k)
            elif s[k] == "<" and par < 0 and _angle_opens(s, k) and not norm(s[i:k]).endswith("operator"):
                k = match(s, k)
            else:
                k += 1
        head = norm(s[i:k])
        if head.startswith("using "):
            c.usings.append(tight(head[len("using ") :]))
            i = k + 1
            continue
        if par < 0:
            raise Malformed("member of a class of the glue code: " + head[:80])
        if k >= end or s[k] == ";":
            e = match(s, par)
            c.calls.append((norm(s[i:par]), [tight(x) for x in split_top(s[par + 1 : e - 1])]))
            i = k + 1
            continue
        e = match(s, par)
        sig = norm(s[i:par])
        m = re.search("((?:operator ?[^A-Za-z0-9_ ]+)|operator [a-z ]+|" + I_ + "+)\\Z", sig)
        if m is None:
            raise Malformed("method of the glue code: " + sig[:80])
        body_end = match(s, k)
        c.methods.append(GlueMethod(tight(sig[: m.start()]), m.group(1), [cpp_param(p) for p in split_top(s[par + 1 : e - 1])], norm(s[e:k]), s[k + 1 : body_end - 1]))
        i = body_end


_NAMED = re.compile(r'\s*(?:def |class |\.\w+\("|m\.def\("|' + I_ + r'+\.def\("|py::\w+<|nb::\w+<)?(?:' + I_ + "+::)*(" + I_ + "+)")


def located(text: str, token: str) -> list:
    """the lines which end with a location (`<token> file:12`): -> [(file, line, name or None, text)]"""
    r = []
    for line in text.split("\n"):
        m = re.search(" " + token + " ([^ ]*):([0-9]+)\\Z", line)
        if m is not None:
            guard(line)
            n = _NAMED.match(line)
            r.append((m.group(1), int(m.group(2)), None if n is None or "init<" in line else n.group(1), line))
    return r
