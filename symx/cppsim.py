"""A small interpreter of the C++ lambdas that the bindings contain.

It runs the adapters that litgen writes (nested lambdas, boxed values, std::optional, std::array, std::vector, buffers,
tuples...) on abstract Python arguments, and hands every call of a bound C++ function to the harness, which sees the
arguments as C++ would, and may write through the references and the pointers it receives.

It is strict: whatever a C++ compiler would refuse in these lambdas (undeclared or uncaptured variables, redeclared
names, a reference or a pointer to another type, a missing return...) raises Malformed, and whatever it does not know
raises Unsupported.  Names may contain unknown identifier characters: `same(a, b)` decides whether two names are equal.
"""
from __future__ import annotations

import re
from typing import Any, Callable, Optional

from .core import Unsupported
from .outparse import I_, Malformed, norm, tight

_TOKEN = re.compile(
    "\\s+|//[^\\n]*|/\\*.*?\\*/|(" + I_ + "+(?:\\.[0-9]*f?)?"
    + '|"(?:[^"\\\\]|\\\\.)*"|\'(?:[^\'\\\\]|\\\\.)*\'|::|->|\\+\\+|--|&&|\\|\\||==|!=|<=|>=|\\+=|-=|\\*=|/=|[-+*/%<>=!&|^~?:;,.(){}\\[\\]])',
    re.S,
)
_WORD = re.compile(I_ + "+\\Z")
_NUMBER = re.compile("[0-9]")
_BUILTIN_WORDS = {"unsigned", "signed", "long", "short", "int", "char", "double", "float", "bool", "void"}
_SPECIFIERS = {"const", "static", "constexpr", "volatile"}
NULL = ("null",)


class Tok:
    """an opaque value"""

    def __init__(self, name: str, ctype: str = "") -> None:
        self.name = name
        self.ctype = ctype

    def __repr__(self) -> str:
        return "<" + self.name + ">"


class Cell:
    """an object in memory (or a temporary)"""

    def __init__(self, v: Any = None, ctype: str = "", const: bool = False, temp: bool = False) -> None:
        self.v = v
        self.ctype = ctype  # tight C++ type of the object, "" if unknown
        self.const = const
        self.temp = temp

    def __repr__(self) -> str:
        return "Cell(" + repr(self.v) + ":" + self.ctype + ")"


class Ptr:
    """pointer to cells[i]"""

    def __init__(self, cells: list, i: int, ctype: str, const: bool = False) -> None:
        self.cells, self.i, self.ctype, self.const = cells, i, ctype, const

    @property
    def cell(self) -> Cell:
        if not 0 <= self.i < len(self.cells):
            raise Malformed("pointer out of bounds")
        return self.cells[self.i]

    def __repr__(self) -> str:
        return "Ptr(" + repr(self.cells) + ")"


class Struct:
    def __init__(self, name: str, fields: dict) -> None:
        self.name, self.fields = name, fields


class Opt:
    def __init__(self, cell: Optional[Cell], ctype: str) -> None:
        self.cell, self.ctype = cell, ctype


class Vec:
    """C array, std::array, std::vector"""

    def __init__(self, kind: str, cells: list, ctype: str) -> None:
        self.kind, self.cells, self.ctype = kind, cells, ctype
        self.label = ""  # if given, the size is an unknown Count of that name


class Str:
    """std::string"""

    def __init__(self, tok: Any) -> None:
        self.tok = tok


class CStr:
    """const char *"""

    def __init__(self, tok: Any, owner: Any = None) -> None:
        self.tok = tok
        self.owner = owner  # the std::string that holds the characters, if any

    def __repr__(self) -> str:
        return "CStr(" + repr(self.tok) + ")"


class Tup:
    def __init__(self, cells: list) -> None:
        self.cells = cells


class Native:
    """an object of the harness: .get(name) -> value or callable"""


class SelfObj:
    pass


class Count(Tok):
    """an unknown size, of which only `bits` bits are left after the conversions"""

    def __init__(self, name: str, bits: int = 64) -> None:
        super().__init__(name)
        self.bits = bits


_BITS = {"int": 32, "unsigned": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8, "bool": 1}


def bits_of(ctype: str) -> int:
    """the number of bits of an integral type (Linux, 64 bits)"""
    m = re.match("(?:std::)?u?int(8|16|32|64)_t\\Z", ctype)
    return int(m.group(1)) if m else _BITS.get(ctype, 64)


# enumerators that the bindings use
_ENUMERATORS = {"nb::dlpack::dtype_code::" + k: v for k, v in {"Int": 0, "UInt": 1, "Float": 2, "Bfloat": 4, "Complex": 5, "Bool": 6}.items()}
_SIZEOF = {"float": 4, "double": 8, "long double": 16}


class Fn:
    def __init__(self, params: list, ret: Optional[str], body: list, env: "Env", name: str = "lambda") -> None:
        self.params, self.ret, self.body, self.env, self.name = params, ret, body, env, name


class Bound:
    """member function of an object"""

    def __init__(self, f: Callable) -> None:
        self.f = f


class External:
    def __init__(self, path: str, self_cell: Optional[Cell] = None) -> None:
        self.path, self.self_cell = path, self_cell


class _Break(Exception):
    pass


class _Return(Exception):
    def __init__(self, cell: Optional[Cell]) -> None:
        self.cell = cell


class Thrown(Exception):
    """the C++ code throws"""

    def __init__(self, value: Any) -> None:
        self.value = value


class Env:
    def __init__(self, parent: Optional["Env"], function: bool = False) -> None:
        self.parent = parent
        self.vars: list = []  # [name, Cell]
        self.function = function  # scope of the parameters of a lambda
        self.types: dict = {}


def copy_value(v: Any) -> Any:
    if isinstance(v, Struct):
        return Struct(v.name, {k: Cell(copy_value(c.v), c.ctype) for k, c in v.fields.items()})
    if isinstance(v, Opt):
        return Opt(None if v.cell is None else Cell(copy_value(v.cell.v), v.cell.ctype), v.ctype)
    if isinstance(v, Vec) and v.kind != "carray":
        return Vec(v.kind, [Cell(copy_value(c.v), c.ctype) for c in v.cells], v.ctype)
    if isinstance(v, Tup):
        return Tup([Cell(copy_value(c.v), c.ctype) for c in v.cells])
    if isinstance(v, Str):
        return Str(v.tok)
    return v


def tokenize(s: str) -> list:
    out = []
    i = 0
    while i < len(s):
        if s[i] == "R" and s[i + 1 : i + 2] == '"':
            m = re.compile('R"([^(]*)\\(').match(s, i)
            j = -1 if m is None else s.find(")" + m.group(1) + '"', i)
            if j < 0:
                raise Malformed("C++: raw string")
            out.append('"raw"')
            i = j + len(m.group(1)) + 2
            continue
        if s[i] == "." and not s[i + 1 : i + 2].isdigit():
            out.append(".")
            i += 1
            continue
        m = _TOKEN.match(s, i)
        if m is None:
            raise Malformed("cppsim: bad character: " + s[i : i + 30])
        t = m.group(1)
        if t is not None:
            if "." in t and t[0] not in "\"'" and not t[0].isdigit():
                # a word followed by a dot
                t = t[: t.index(".")]
                out.append(t)
                i += len(t)
                continue
            out.append(t)
        i = m.end()
    return out


def preprocess(s: str) -> str:
    """#ifdef of an undefined macro, #define f(x) ..., #undef"""
    out: list = []
    macros: dict = {}
    stack: list = []
    for line in s.split("\n"):
        t = line.strip()
        if t.startswith("#"):
            d = t[1:].strip()
            if d.startswith("ifdef") or d.startswith("if "):
                stack.append(False)
            elif d.startswith("ifndef"):
                stack.append(True)
            elif d.startswith("else"):
                stack[-1] = not stack[-1]
            elif d.startswith("endif"):
                stack.pop()
            elif all(stack):
                if d.startswith("define"):
                    m = re.match("define\\s+(" + I_ + "+)\\((" + I_ + "+)\\)\\s+(.*)", d)
                    if m is None:
                        raise Unsupported("cppsim: " + d)
                    macros[m.group(1)] = (m.group(2), m.group(3))
                elif d.startswith("undef"):
                    macros.pop(d.split()[1], None)
                else:
                    raise Unsupported("cppsim: #" + d)
            continue
        if not all(stack):
            continue
        for name, (arg, body) in macros.items():
            line = re.sub("\\b" + name + "\\(([^()]*)\\)", lambda m: re.sub("\\b" + arg + "\\b", m.group(1), body), line)
        out.append(line)
    return "\n".join(out)


class Parser:
    def __init__(self, toks: list) -> None:
        self.t = toks
        self.i = 0

    def peek(self, k: int = 0) -> str:
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self) -> str:
        t = self.peek()
        self.i += 1
        return t

    def expect(self, x: str) -> None:
        if self.next() != x:
            raise Malformed("C++ syntax: expected " + x + " in: " + " ".join(self.t[max(0, self.i - 12) : self.i + 6]))

    # ---- statements
    def block(self) -> list:
        out = []
        while self.peek() not in ("}", ""):
            out.append(self.statement())
        return out

    def statement(self) -> tuple:
        t = self.peek()
        if t == "{":
            self.next()
            b = self.block()
            self.expect("}")
            return ("block", b)
        if t == ";":
            self.next()
            return ("block", [])
        if t == "return":
            self.next()
            e = None
            if self.peek() != ";":
                e = self.init_expr()
            self.expect(";")
            return ("return", e)
        if t == "throw":
            self.next()
            e = self.expr()
            self.expect(";")
            return ("throw", e)
        if t == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.statement()
            b = None
            if self.peek() == "else":
                self.next()
                b = self.statement()
            return ("if", c, a, b)
        if t == "for":
            self.next()
            self.expect("(")
            ty = self.type_()
            if self.peek() == "[":
                self.next()
                names = [self.next()]
                while self.peek() == ",":
                    self.next()
                    names.append(self.next())
                self.expect("]")
            else:
                names = self.next()
            if self.peek() != ":":
                raise Unsupported("cppsim: for loop")
            self.next()
            e = self.expr()
            self.expect(")")
            return ("for", ty, names, e, self.statement())
        if t == "switch":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            self.expect("{")
            items: list = []
            while self.peek() != "}":
                if self.peek() == "case":
                    self.next()
                    items.append(("case", self.binary(0)))
                    self.expect(":")
                elif self.peek() == "default":
                    self.next()
                    self.expect(":")
                    items.append(("default",))
                else:
                    items.append(self.statement())
            self.expect("}")
            return ("switch", c, items)
        if t == "break":
            self.next()
            self.expect(";")
            return ("break",)
        if t == "using":
            self.next()
            name = self.next()
            self.expect("=")
            ty = self.type_()
            self.expect(";")
            return ("using", name, ty)
        d = self.declaration()
        if d is not None:
            return d
        e = self.expr()
        self.expect(";")
        return ("expr", e)

    def declaration(self) -> Optional[tuple]:
        start = self.i
        try:
            ty = self.type_()
        except Malformed:
            self.i = start
            return None
        if ty is None or not _WORD.match(self.peek() or "-") or self.peek()[0].isdigit():
            self.i = start
            return None
        name = self.next()
        dims = []
        while self.peek() == "[":
            self.next()
            dims.append(None if self.peek() == "]" else self.expr())
            self.expect("]")
        init = None
        if self.peek() == "=":
            self.next()
            init = self.init_expr()
        elif self.peek() == "{":
            init = self.braces()
        elif self.peek() == "(":
            self.next()
            init = ("ctor", self.args(")"))
        if self.peek() != ";":
            self.i = start
            return None
        self.next()
        return ("decl", ty, name, dims, init)

    def type_(self) -> Any:
        """-> (const, base, [modifiers]) : base is the tight text of the type, or None"""
        const = False
        words: list = []
        while self.peek() in _SPECIFIERS:
            const = const or self.next() in ("const", "constexpr")
        if self.peek() in _BUILTIN_WORDS:
            while self.peek() in _BUILTIN_WORDS or self.peek() == "const":
                w = self.next()
                if w == "const":
                    const = True
                else:
                    words.append(w)
            base = " ".join(words)
        else:
            if self.peek() == "::":
                self.next()
            if not _WORD.match(self.peek() or "-") or self.peek()[0].isdigit():
                return None
            base = self.next()
            while True:
                if self.peek() == "::" and _WORD.match(self.peek(1) or "-"):
                    self.next()
                    base += "::" + self.next()
                elif self.peek() == "<":
                    j = self.angle(self.i)
                    if j is None:
                        break
                    base += self.text(self.i, j)
                    self.i = j
                else:
                    break
            if self.peek() == "const":
                self.next()
                const = True
        mods = []
        while self.peek() in ("*", "&", "&&", "const"):
            m = self.next()
            if m == "const":
                if mods:
                    mods[-1] += " const"
                else:
                    const = True
            else:
                mods.append(m)
        return (const, base, mods)

    def angle(self, i: int) -> Optional[int]:
        """end of the template arguments that open at i, or None"""
        depth = 0
        j = i
        while j < len(self.t):
            t = self.t[j]
            if t == "<":
                depth += 1
            elif t == ">":
                depth -= 1
                if depth == 0:
                    return j + 1
            elif t in (";", "{", "}", "&&", "||") or (t == ")" and self.t[i:j].count("(") <= self.t[i:j].count(")")):
                return None
            j += 1
        return None

    def text(self, i: int, j: int) -> str:
        return tight(" ".join(self.t[i:j]))

    # ---- expressions
    def init_expr(self) -> tuple:
        return self.braces() if self.peek() == "{" else self.expr()

    def braces(self) -> tuple:
        self.expect("{")
        out = []
        while self.peek() != "}":
            out.append(self.init_expr())
            if self.peek() == ",":
                self.next()
        self.expect("}")
        return ("braces", out)

    def args(self, close: str) -> list:
        out = []
        while self.peek() != close:
            out.append(self.init_expr())
            if self.peek() == ",":
                self.next()
            elif self.peek() != close:
                raise Malformed("C++ syntax: arguments: " + " ".join(self.t[max(0, self.i - 12) : self.i + 6]))
        self.expect(close)
        return out

    def expr(self) -> tuple:
        a = self.binary(0)
        if self.peek() == "=":
            self.next()
            return ("assign", a, self.init_expr())
        if self.peek() == "?":
            self.next()
            b = self.expr()
            self.expect(":")
            return ("cond", a, b, self.expr())
        return a

    _LEVELS = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]

    def binary(self, level: int) -> tuple:
        if level == len(self._LEVELS):
            return self.unary()
        a = self.binary(level + 1)
        while self.peek() in self._LEVELS[level]:
            op = self.next()
            a = ("binary", op, a, self.binary(level + 1))
        return a

    def unary(self) -> tuple:
        if self.peek() == "(" and self.peek(1) in _BUILTIN_WORDS:
            start = self.i
            self.next()
            ty = self.type_()
            if ty is not None and self.peek() == ")" and not ty[2]:
                self.next()
                return ("ccast", ty, self.unary())
            self.i = start
        if self.peek() in ("&", "*", "!", "-", "+"):
            op = self.next()
            return ("unary", op, self.unary())
        if self.peek() == "new":
            raise_at = " ".join(self.t[self.i : self.i + 8])
            self.next()
            where = None
            if self.peek() == "(":
                self.next()
                where = self.args(")")
            ty = self.type_()
            if ty is None:
                raise Malformed("C++ syntax: " + raise_at)
            args = []
            if self.peek() == "(":
                self.next()
                args = self.args(")")
            return ("new", where, ty, args)
        return self.postfix()

    def postfix(self) -> tuple:
        e = self.primary()
        while True:
            t = self.peek()
            if t in (".", "->"):
                self.next()
                if self.peek() == "template":
                    self.next()
                name = self.next()
                if name == "operator":
                    name += self.next()
                if not _WORD.match(name) and not name.startswith("operator"):
                    raise Malformed("C++ syntax: member " + name)
                if self.peek() == "<":
                    j = self.angle(self.i)
                    if j is not None and j < len(self.t) and self.t[j] == "(":
                        name += self.text(self.i, j)
                        self.i = j
                e = ("member", t, e, name)
            elif t == "(":
                self.next()
                e = ("call", e, self.args(")"))
            elif t == "[":
                self.next()
                k = self.expr()
                self.expect("]")
                e = ("index", e, k)
            else:
                return e

    def primary(self) -> tuple:
        t = self.peek()
        if t == "(":
            self.next()
            e = self.expr()
            self.expect(")")
            return e
        if t == "sizeof" and self.peek(1) == "(":
            self.next()
            self.next()
            ty = self.type_()
            self.expect(")")
            if ty is None:
                raise Malformed("C++ syntax: sizeof")
            return ("sizeof", ty)
        if t == "[":
            return self.lambda_()
        if t == "{":
            return self.braces()
        if t == "":
            raise Malformed("C++ syntax: unexpected end")
        if t[0] in "\"'":
            self.next()
            return ("lit", t)
        if _NUMBER.match(t):
            self.next()
            return ("lit", t)
        if t == "::" or _WORD.match(t):
            if t in _BUILTIN_WORDS or t in ("const", "auto"):
                start = self.i
                ty = self.type_()
                if self.peek() not in ("(", "{"):
                    raise Malformed("C++ syntax: " + " ".join(self.t[start : self.i + 4]))
                return ("path", ty[1])
            path = ""
            if t == "::":
                self.next()
            path = self.next()
            while True:
                if self.peek() == "::":
                    self.next()
                    w = self.next()
                    if w == "template":
                        w = self.next()
                    if not _WORD.match(w or "-"):
                        raise Malformed("C++ syntax: " + path + "::" + w)
                    path += "::" + w
                elif self.peek() == "<":
                    j = self.angle(self.i)
                    if j is None or j >= len(self.t) or self.t[j] not in ("(", "::", "{"):
                        break
                    path += self.text(self.i, j)
                    self.i = j
                else:
                    break
            if self.peek() == "{" and path not in ("else", "do", "try"):
                self.next()
                return ("call", ("path", path), self.args("}"))
            return ("path", path)
        raise Malformed("C++ syntax: unexpected " + t + " in: " + " ".join(self.t[max(0, self.i - 12) : self.i + 6]))

    def lambda_(self) -> tuple:
        self.expect("[")
        captures = []
        while self.peek() != "]":
            c = self.next()
            if c == "&" and _WORD.match(self.peek() or "-"):
                c += self.next()
            captures.append(c)
            if self.peek() == ",":
                self.next()
        self.expect("]")
        self.expect("(")
        params = self.params()
        ret = None
        while self.peek() in ("mutable", "noexcept"):
            self.next()
        if self.peek() == "->":
            self.next()
            ret = self.type_()
            if ret is None:
                raise Malformed("C++ syntax: return type of a lambda")
        self.expect("{")
        b = self.block()
        self.expect("}")
        return ("lambda", captures, params, ret, b)

    def params(self) -> list:
        """after '(' -> [(type, name, dims)]"""
        out = []
        while self.peek() != ")":
            ty = self.type_()
            if ty is None:
                raise Malformed("C++ syntax: parameter: " + " ".join(self.t[self.i : self.i + 6]))
            name = self.next() if _WORD.match(self.peek() or "-") else ""
            dims = []
            while self.peek() == "[":
                self.next()
                dims.append(None if self.peek() == "]" else self.next())
                self.expect("]")
            default = None
            if self.peek() == "=":
                self.next()
                default = self.init_expr()
            out.append((ty, name, dims, default))
            if self.peek() == ",":
                self.next()
            elif self.peek() != ")":
                raise Malformed("C++ syntax: parameters: " + " ".join(self.t[max(0, self.i - 12) : self.i + 6]))
        self.expect(")")
        return out


_LIKE = {"string": "std::string", "std::uint8_t": "uint8_t"}


class Sim:
    """structs: {name: {field: tight C++ type}}
    external(path, self_cell, args) -> Cell or None (void) or NotImplemented"""

    def __init__(self, external: Callable, same: Callable, structs: Optional[dict] = None, letters: Optional[dict] = None) -> None:
        self.external, self.same_name = external, same
        self.structs = structs or {}
        self.steps = 0

    # ---- names
    def same(self, a: str, b: str) -> bool:
        return a == b or self.same_name(a, b)

    def same_type(self, a: str, b: str) -> bool:
        a, b = _LIKE.get(a, a), _LIKE.get(b, b)
        return a == b or self.same_name(a, b)

    def lookup(self, env: Env, name: str) -> Optional[Cell]:
        e: Optional[Env] = env
        while e is not None:
            for n, c in e.vars:
                if n == name:
                    return c
            for n, c in e.vars:
                if self.same(n, name):
                    return c
            e = e.parent
        return None

    def declare(self, env: Env, name: str, cell: Cell) -> None:
        if name == "":
            return
        e: Optional[Env] = env
        while e is not None:
            for n, c in e.vars:
                if self.same(n, name):
                    raise Malformed("C++: " + name + " is declared twice in the same scope")
            # the outermost block of a function may not redeclare its parameters
            e = e.parent if e.parent is not None and e.parent.function and not e.function else None
        env.vars.append([name, cell])

    def type_alias(self, env: Env, base: str) -> str:
        e: Optional[Env] = env
        while e is not None:
            if base in e.types:
                return e.types[base]
            e = e.parent
        return base

    # ---- lambdas
    def run(self, binding_lambda: Any, args: list) -> Optional[Cell]:
        """calls a lambda of the bindings (outparse.Lambda)"""
        head = "[" + binding_lambda.capture + "](" + ", ".join([p[0] if p[1] == "" else self.param_text(p) for p in binding_lambda.params]) + ")"
        text = head + (" -> " + binding_lambda.ret if binding_lambda.ret is not None else "") + "{" + preprocess(binding_lambda.body) + "}"
        p = Parser(tokenize(text))
        tree = p.lambda_()
        if p.i != len(p.t):
            raise Malformed("C++ syntax: text after the lambda")
        fn = self.closure(tree, Env(None), "binding")
        return self.call_fn(fn, args)

    @staticmethod
    def param_text(p: tuple) -> str:
        m = re.match("(.*?)((?:\\[[^\\]]*\\])+)\\Z", p[0], re.S)
        return (m.group(1) + " " + p[1] + m.group(2)) if m else p[0] + " " + p[1]

    def closure(self, tree: tuple, env: Env, name: str) -> Fn:
        _, captures, params, ret, body = tree
        inner = Env(None)
        if any(c in ("&", "=") for c in captures):
            inner.parent = env
        else:
            e: Optional[Env] = env
            while e is not None:
                inner.types.update({k: v for k, v in e.types.items() if k not in inner.types})
                e = e.parent
        for c in captures:
            if c in ("&", "="):
                continue
            n = c[1:] if c.startswith("&") else c
            v = self.lookup(env, n)
            if v is None:
                raise Malformed("C++: the lambda captures " + n + ", which is not declared")
            inner.vars.append([n, v if c.startswith("&") else Cell(copy_value(v.v), v.ctype, True)])
        return Fn(params, ret, body, inner, name)

    def call_fn(self, fn: Fn, args: list) -> Optional[Cell]:
        if len(args) > len(fn.params) or any(p[3] is None for p in fn.params[len(args) :]):
            raise Malformed("C++: a lambda with " + str(len(fn.params)) + " parameters is called with " + str(len(args)) + " arguments")
        env = Env(fn.env, True)
        for k, (ty, name, dims, default) in enumerate(fn.params):
            a = args[k] if k < len(args) else self.eval(default, env)
            self.declare(env, name, self.bind(ty, dims, a, env, "parameter " + name))
        body = Env(env)
        try:
            for s in fn.body:
                self.exec(s, body)
        except _Return as r:
            if r.cell is None:
                if fn.ret is not None and fn.ret[1] != "void":
                    raise Malformed("C++: return without a value")
                return None
            if fn.ret is None:
                return Cell(copy_value(r.cell.v), r.cell.ctype, temp=True)
            if fn.ret[1] == "void" and not fn.ret[2]:
                raise Malformed("C++: a value is returned by a void lambda")
            return self.bind(fn.ret, [], r.cell, env, "returned value", ret=True)
        if fn.ret is not None and not (fn.ret[1] == "void" and not fn.ret[2]):
            raise Malformed("C++: a lambda which returns a value ends without return")
        return None

    # ---- initialization of a variable of type ty by a cell
    def bind(self, ty: tuple, dims: list, a: Optional[Cell], env: Env, what: str, ret: bool = False) -> Cell:
        const, base, mods = ty
        base = self.type_alias(env, base)
        if a is None:
            raise Malformed("C++: " + what + " is initialized with void")
        if dims:
            mods = mods + ["*"]
        ms = [m.split(" ")[0] for m in mods]
        if ms and ms[-1] in ("&", "&&"):
            if len(ms) == 1 and base != "auto":
                want = base
                if not self.compatible(want, a):
                    if const:
                        return Cell(self.convert(want, a, what), want, True, True)
                    raise Malformed("C++: " + what + ": a reference to " + want + " is bound to a " + (a.ctype or str(type(a.v).__name__)))
            if not const and ms[-1] == "&":
                if a.temp and not ret:
                    raise Malformed("C++: " + what + ": a reference is bound to a temporary")
                if a.const and base != "auto":
                    raise Malformed("C++: " + what + ": a reference to a constant")
            if ret and a.temp and not isinstance(a.v, (Tok, SelfObj, Native)):
                raise Malformed("C++: " + what + ": a reference to a temporary is returned")
            if const and not a.const:
                b = a
                return b
            return a
        if ms and ms[-1] == "*":
            v = a.v
            if isinstance(v, Vec) and v.kind == "carray":
                v = Ptr(v.cells, 0, v.ctype)
            if v is NULL or base == "auto":
                return Cell(v, tight(base + " " + " ".join(ms)))
            if isinstance(v, Ptr):
                if v.const and not const:
                    raise Malformed("C++: " + what + ": a pointer is initialized with a pointer to const")
                if const and not v.const and len(ms) == 1:
                    v = Ptr(v.cells, v.i, v.ctype, True)
                if base != "void" and v.ctype != "" and len(ms) == 1 and not self.same_type(v.ctype, base):
                    raise Malformed("C++: " + what + ": a pointer to " + base + " is initialized with a pointer to " + v.ctype)
                return Cell(v, tight(base + " " + " ".join(ms)))
            if isinstance(v, CStr):
                if base != "char":
                    raise Malformed("C++: " + what + ": " + base + " * is initialized with a string")
                if not const and not ret:
                    raise Malformed("C++: " + what + ": const char * converted to char *")
                return Cell(v, "const char*")
            if isinstance(v, (Tok, Native)):
                return Cell(v, a.ctype)
            raise Malformed("C++: " + what + ": a pointer is initialized with " + repr(v))
        if base == "auto":
            v = a.v
            if isinstance(v, Vec) and v.kind == "carray":
                v = Ptr(v.cells, 0, v.ctype)
            return Cell(copy_value(v), a.ctype, const, ret)
        return Cell(copy_value(self.convert(base, a, what)), base, const, ret)

    def compatible(self, want: str, a: Cell) -> bool:
        if a.ctype == "" or want == "":
            return True
        return self.same_type(a.ctype, want) or self.same_type("const " + a.ctype, want)

    def convert(self, want: str, a: Cell, what: str) -> Any:
        """the value of a, converted to the type `want`"""
        v = a.v
        if isinstance(v, External) and v.self_cell is None and "::" in v.path and self.same_type(v.path[: v.path.rindex("::")], want):
            return v  # an enumerator
        if isinstance(v, (Fn, Bound, External)):
            raise Malformed("C++: " + what + ": " + want + " is initialized with a function")
        m = re.match("(std::)?(optional|tuple|vector|array)<(.*)>\\Z", want, re.S)
        if m is None:
            if isinstance(v, Count):
                return Count(v.name, min(v.bits, bits_of(want)))
            if isinstance(v, (Opt, Tup, Ptr)) or v is NULL or (isinstance(v, Vec) and v.kind == "carray"):
                raise Malformed("C++: " + what + ": " + want + " is initialized with " + type(v).__name__ + " " + a.ctype)
            if want in ("std::string", "string"):
                if isinstance(v, (Str, CStr)):
                    return Str(v.tok)
                if isinstance(v, Tok):
                    return v
                raise Malformed("C++: " + what + ": a string is initialized with " + repr(v))
            if isinstance(v, Struct) and not self.same_type(v.name, want):
                raise Malformed("C++: " + what + ": " + want + " is initialized with " + v.name)
            return v
        kind, inner = m.group(2), m.group(3)
        parts = split_args(inner)
        if kind == "optional":
            if isinstance(v, Opt):
                return v
            if v == ("nullopt",):
                return Opt(None, inner)
            return Opt(Cell(self.convert(unconst(inner), a, what), inner), inner)
        if kind == "tuple":
            cells = v.cells if isinstance(v, (Tup, Vec)) else None
            if cells is None or len(cells) != len(parts):
                raise Malformed("C++: " + what + ": a tuple of " + str(len(parts)) + " values is initialized with " + repr(v))
            out = []
            for p, c in zip(parts, cells):
                if p.endswith("&"):
                    raise Unsupported("cppsim: tuple of references")
                if p.endswith("*"):
                    if not (isinstance(c.v, (Ptr, CStr, Tok, Native)) or c.v is NULL):
                        raise Malformed("C++: " + what + ": " + p + " is initialized with " + repr(c.v))
                    out.append(Cell(c.v, p))
                else:
                    out.append(Cell(copy_value(self.convert(unconst(p), c, what)), p))
            return Tup(out)
        if isinstance(v, Vec):
            if kind == "array" and v.kind not in ("array", "braces"):
                raise Malformed("C++: " + what + ": std::array is initialized with " + v.kind)
            if kind == "array" and v.kind == "array" and a.ctype != "" and not self.same_type(a.ctype, want):
                raise Malformed("C++: " + what + ": " + want + " is initialized with " + a.ctype)
            cells = v.cells
            if v.kind == "braces":
                # {{ ... }}
                if len(cells) == 1 and isinstance(cells[0].v, Vec) and cells[0].v.kind == "braces" and not parts[0].startswith("std::array"):
                    cells = cells[0].v.cells
                cells = [Cell(self.convert(unconst(parts[0]), c, what), parts[0]) for c in cells]
                if kind == "array" and len(cells) > int(parts[1]):
                    raise Malformed("C++: " + what + ": too many values")
            return Vec(kind, cells, parts[0])
        if isinstance(v, (Tok, Native)):
            return v
        raise Malformed("C++: " + what + ": " + want + " is initialized with " + repr(v))

    # ---- statements
    def exec(self, s: tuple, env: Env) -> None:
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported("cppsim: too many steps")
        k = s[0]
        if k == "block":
            e = Env(env)
            for x in s[1]:
                self.exec(x, e)
        elif k == "expr":
            self.eval(s[1], env)
        elif k == "return":
            if s[1] is None:
                raise _Return(None)
            raise _Return(self.eval(s[1], env))
        elif k == "throw":
            raise Thrown(self.eval(s[1], env))
        elif k == "if":
            e = Env(env)
            if self.truth(self.eval(s[1], e)):
                self.exec(s[2], Env(e))
            elif s[3] is not None:
                self.exec(s[3], Env(e))
        elif k == "switch":
            c = self.eval(s[1], env)
            if not isinstance(c.v, (int, str)):
                raise Unsupported("cppsim: switch on " + repr(c.v))
            at = None
            for i, x in enumerate(s[2]):
                if x[0] == "case" and self.eval(x[1], env).v == c.v:
                    at = i
                    break
            if at is None:
                for i, x in enumerate(s[2]):
                    if x[0] == "default":
                        at = i
            e = Env(env)
            try:
                for x in s[2][at:] if at is not None else []:
                    if x[0] not in ("case", "default"):
                        self.exec(x, e)
            except _Break:
                pass
        elif k == "break":
            raise _Break()
        elif k == "using":
            env.types[s[1]] = self.type_alias(env, s[2][1])
        elif k == "for":
            r = self.eval(s[3], env)
            if not isinstance(r.v, Vec):
                raise Unsupported("cppsim: for over " + repr(r.v))
            for c in r.v.cells:
                e = Env(env)
                if isinstance(s[2], list):
                    if not isinstance(c.v, Tup) or len(c.v.cells) != len(s[2]):
                        raise Malformed("C++: structured binding")
                    for n, x in zip(s[2], c.v.cells):
                        self.declare(e, n, x)
                else:
                    self.declare(e, s[2], self.bind(s[1], [], c, env, "variable"))
                self.exec(s[4], Env(e))
        elif k == "decl":
            _, ty, name, dims, init = s
            if init is not None and init[0] == "lambda":
                cell = Cell(self.closure(init, env, name), "lambda")
                self.declare(env, name, cell)
                return
            if dims:
                if len(dims) != 1 or dims[0] is None or init is not None:
                    raise Unsupported("cppsim: array declaration")
                n = self.eval(dims[0], env).v
                base = self.type_alias(env, ty[1])
                if not isinstance(n, int):
                    raise Malformed("C++: size of an array: " + repr(n))
                if ty[0]:
                    raise Malformed("C++: a constant array is not initialized")
                ct = base + "".join(ty[2])
                self.declare(env, name, Cell(Vec("carray", [Cell(None, ct) for _ in range(n)], ct), ct + "[]"))
                return
            if init is None:
                if [m for m in ty[2] if m.startswith("&")] or ty[1] == "auto":
                    raise Malformed("C++: " + name + " is not initialized")
                base = self.type_alias(env, ty[1])
                m = re.match("(?:std::)?vector<(.*)>\\Z", base, re.S)
                v: Any = Vec("vector", [], m.group(1)) if m else Str("") if base in ("std::string", "string") else None
                self.declare(env, name, Cell(v, base + "".join(ty[2])))
                return
            if init[0] == "ctor":
                if len(init[1]) != 1:
                    raise Unsupported("cppsim: constructor call")
                init = init[1][0]
            # (the name is in scope in its own initializer)
            holder = Cell(None, "")
            self.declare(env, name, holder)
            a = self.eval(init, env)
            c = self.bind(ty, [], a, env, "variable " + name)
            for entry in env.vars:
                if entry[1] is holder:
                    entry[1] = c
        else:
            raise Unsupported("cppsim: " + k)

    def truth(self, c: Optional[Cell]) -> bool:
        v = c.v if c is not None else None
        if isinstance(v, bool):
            return v
        if v is NULL:
            return False
        if isinstance(v, (Ptr, CStr)):
            return True
        if isinstance(v, Opt):
            return v.cell is not None
        raise Unsupported("cppsim: condition on " + repr(v))

    # ---- expressions
    def eval(self, e: tuple, env: Env) -> Any:
        self.steps += 1
        k = e[0]
        if k == "lit":
            t = e[1]
            if t[0] == '"':
                return Cell(CStr(t), "const char*", True, True)
            if t[0] == "'":
                return Cell(t[1:-1], "char", False, True)
            try:
                return Cell(int(t, 0), "int", False, True)
            except ValueError:
                return Cell(Tok("literal " + t), "", False, True)
        if k == "path":
            p = e[1]
            c = self.lookup(env, p) if "::" not in p and "<" not in p else None
            if c is not None:
                if c.v is None and c.ctype == "":
                    raise Malformed("C++: " + p + " is used in its own initializer")
                return c
            if p in ("nullptr", "NULL"):
                return Cell(NULL, "", False, True)
            if p in ("true", "false"):
                return Cell(p == "true", "bool", False, True)
            if p in _ENUMERATORS:
                return Cell(_ENUMERATORS[p], "enum", True, True)
            if p == "std::nullopt":
                return Cell(("nullopt",), "", False, True)
            return Cell(External(p), "", False, True)
        if k == "sizeof":
            t = self.type_alias(env, e[1][1])
            if e[1][2]:
                return Cell(8, "size_t", False, True)
            if t not in _SIZEOF and bits_of(t) == 64 and not re.match("(std::)?(u?int64_t|size_t|ssize_t|np_u?int_l)\\Z|(unsigned )?long( long)?\\Z", t):
                raise Unsupported("cppsim: sizeof(" + t + ")")
            return Cell(_SIZEOF[t] if t in _SIZEOF else bits_of(t) // 8, "size_t", False, True)
        if k == "ccast":
            return self.cast(e[1], self.value(self.eval(e[2], env)), env)
        if k == "lambda":
            return Cell(self.closure(e, env, "lambda"), "lambda", False, True)
        if k == "braces":
            return Cell(Vec("braces", [self.value(self.eval(x, env)) for x in e[1]], ""), "", False, True)
        if k == "assign":
            a, b = self.eval(e[1], env), self.eval(e[2], env)
            if b is None:
                raise Malformed("C++: void is assigned")
            if a.temp:
                raise Malformed("C++: a temporary is assigned")
            if a.const:
                raise Malformed("C++: a constant is assigned")
            if a.ctype.endswith("*"):
                v = b.v
                if isinstance(v, CStr):
                    if a.ctype != "const char*" and a.ctype != "char*":
                        raise Malformed("C++: a string is assigned to a " + a.ctype)
                elif isinstance(v, Ptr):
                    if v.ctype != "" and not self.same_type(v.ctype, a.ctype[:-1]):
                        raise Malformed("C++: a " + v.ctype + "* is assigned to a " + a.ctype)
                elif v is not NULL:
                    raise Malformed("C++: " + repr(v) + " is assigned to a pointer")
                a.v = v
                return a
            a.v = copy_value(self.convert(a.ctype, b, "assignment")) if a.ctype else copy_value(b.v)
            return a
        if k == "cond":
            return self.eval(e[2] if self.truth(self.eval(e[1], env)) else e[3], env)
        if k == "unary":
            op = e[1]
            a = self.eval(e[2], env)
            if op == "&":
                if a.temp:
                    raise Malformed("C++: address of a temporary")
                if isinstance(a.v, Vec) and a.v.kind == "carray":
                    raise Unsupported("cppsim: address of an array")
                return Cell(Ptr([a], 0, a.ctype), "", False, True)
            if op == "*":
                if isinstance(a.v, Ptr):
                    return a.v.cell
                if isinstance(a.v, Opt):
                    if a.v.cell is None:
                        raise Malformed("C++: an empty optional is dereferenced")
                    return a.v.cell
                if isinstance(a.v, Vec) and a.v.kind == "carray":
                    return a.v.cells[0]
                raise Malformed("C++: * applied to " + repr(a.v))
            if op == "!":
                return Cell(not self.truth(a), "bool", False, True)
            if isinstance(a.v, int) and not isinstance(a.v, bool):
                return Cell(-a.v if op == "-" else a.v, a.ctype, False, True)
            return Cell(Tok(op + repr(a.v)), "", False, True)
        if k == "binary":
            op = e[1]
            a = self.eval(e[2], env)
            if op == "&&":
                return Cell(self.truth(a) and self.truth(self.eval(e[3], env)), "bool", False, True)
            if op == "||":
                return Cell(self.truth(a) or self.truth(self.eval(e[3], env)), "bool", False, True)
            b = self.eval(e[3], env)
            x, y = a.v, b.v
            if op in ("==", "!="):
                if x is NULL or y is NULL:
                    o = y if x is NULL else x
                    if not (o is NULL or isinstance(o, (Ptr, CStr))):
                        raise Malformed("C++: " + repr(o) + " is compared with a null pointer")
                    r = o is NULL
                elif isinstance(x, (int, str)) and isinstance(y, (int, str)):
                    r = x == y
                elif isinstance(x, Count) and isinstance(y, Count):
                    r = x.name == y.name
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    r = x == y
                elif isinstance(x, External) or isinstance(y, External):
                    r = isinstance(x, External) and isinstance(y, External) and x.path == y.path
                else:
                    raise Unsupported("cppsim: comparison of " + repr(x) + " and " + repr(y))
                return Cell(r if op == "==" else not r, "bool", False, True)
            if isinstance(x, int) and isinstance(y, int):
                v = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "+": x + y, "-": x - y, "*": x * y}.get(op)
                if op in ("/", "%"):
                    v = x // y if op == "/" else x % y
                return Cell(v, "int", False, True)
            if op == "+":
                return Cell(Str((x, y)), "std::string", False, True)
            raise Unsupported("cppsim: " + op + " on " + repr(x) + " and " + repr(y))
        if k == "index":
            a, i = self.eval(e[1], env), self.eval(e[2], env).v
            if isinstance(a.v, Vec) and isinstance(i, int):
                if not 0 <= i < len(a.v.cells):
                    raise Malformed("C++: index " + str(i) + " out of an array of " + str(len(a.v.cells)))
                return a.v.cells[i]
            if isinstance(a.v, Ptr) and isinstance(i, int):
                return Ptr(a.v.cells, a.v.i + i, a.v.ctype).cell
            if isinstance(a.v, Native):
                return self.result(a.v.get("[]")(i))
            raise Malformed("C++: [] applied to " + repr(a.v))
        if k == "member":
            return self.member(e, env)
        if k == "call":
            return self.call(e, env)
        if k == "new":
            _, where, ty, args = e
            r = self.external("new " + ty[1], None if not where else self.eval(where[0], env), [self.value(self.eval(x, env)) for x in args])
            if r is NotImplemented:
                raise Unsupported("cppsim: new " + ty[1])
            return self.result(r)
        raise Unsupported("cppsim: " + k)

    def value(self, c: Optional[Cell]) -> Cell:
        if c is None:
            raise Malformed("C++: a void value is used")
        return c

    def result(self, r: Any) -> Optional[Cell]:
        return r if r is None or isinstance(r, Cell) else Cell(r, "", False, True)

    def member(self, e: tuple, env: Env) -> Cell:
        _, op, obj, name = e
        a = self.value(self.eval(obj, env))
        v = a.v
        if op == "->":
            if isinstance(v, Ptr):
                a = v.cell
                v = a.v
            elif isinstance(v, Opt):
                if v.cell is None:
                    raise Malformed("C++: an empty optional is dereferenced")
                a = v.cell
                v = a.v
            elif v is NULL:
                raise Malformed("C++: a null pointer is dereferenced")
            elif not isinstance(v, (SelfObj, Native)):
                raise Malformed("C++: -> applied to " + repr(v))
        elif isinstance(v, Ptr):
            raise Malformed("C++: . applied to a pointer")
        if isinstance(v, Struct):
            for f, c in v.fields.items():
                if self.same(f, name):
                    return c
            raise Malformed("C++: " + v.name + " has no member " + name)
        if isinstance(v, SelfObj):
            return Cell(External(name, a), "", False, True)
        if isinstance(v, Native):
            r = v.get(name)
            return Cell(Bound(r) if callable(r) else r, "", False, True)
        if isinstance(v, Opt):
            o = v

            def get() -> Cell:
                if o.cell is None:
                    raise Thrown("bad_optional_access")
                return o.cell

            table = {"has_value": lambda: o.cell is not None, "value": get}
            if name in table:
                return Cell(Bound(table[name]), "", False, True)
        if isinstance(v, Vec) and v.kind in ("vector", "array"):
            w = v
            table2: dict = {"size": lambda: Count(w.label) if w.label else len(w.cells), "data": lambda: Ptr(w.cells, 0, w.ctype), "empty": lambda: len(w.cells) == 0}
            if w.kind == "vector":

                def push(x: Cell) -> None:
                    ct = w.ctype
                    if ct.endswith("*"):
                        w.cells.append(Cell(x.v, ct))
                    else:
                        w.cells.append(Cell(copy_value(self.convert(ct, x, "push_back")), ct))

                def reserve(x: Cell) -> None:
                    return None

                table2.update({"push_back": push, "reserve": reserve, "emplace_back": push})
            if name in table2:
                return Cell(Bound(table2[name]), "", False, True)
        if isinstance(v, Str):
            st = v
            if name in ("c_str", "data"):
                return Cell(Bound(lambda: CStr(st.tok, st)), "", False, True)
            if name == "size":
                return Cell(Bound(lambda: Tok("size")), "", False, True)
        raise Malformed("C++: " + repr(v) + " has no member " + name)

    def call(self, e: tuple, env: Env) -> Any:
        f = self.value(self.eval(e[1], env)).v
        if isinstance(f, Fn):
            return self.call_fn(f, [self.value(self.eval(x, env)) for x in e[2]])
        args = [self.value(self.eval(x, env)) for x in e[2]]
        if isinstance(f, Bound):
            return self.result(f.f(*args))
        if isinstance(f, External):
            p = f.path
            if f.self_cell is None:
                m = re.match("static_cast<(.*)>\\Z", p, re.S)
                if m:
                    if len(args) != 1:
                        raise Malformed("C++: static_cast of " + str(len(args)) + " values")
                    q = Parser(tokenize(m.group(1)))
                    ty = q.type_()
                    if ty is None or q.i != len(q.t):
                        raise Malformed("C++: " + p)
                    return self.cast(ty, args[0], env)
                if p == "std::runtime_error":
                    return Cell(Tok("std::runtime_error"), "std::runtime_error", False, True)
                if p == "std::make_tuple":
                    return Cell(Tup([Cell(copy_value(a.v), a.ctype) for a in args]), "", False, True)
                if p in ("std::move", "std::ref"):
                    return args[0]
                if p in ("std::string", "string") and len(args) == 1:
                    return Cell(self.convert("std::string", args[0], "std::string(...)"), "std::string", False, True)
            r = self.external(p, f.self_cell, args)
            if r is NotImplemented:
                raise Unsupported("cppsim: call of " + p)
            return self.result(r)
        raise Malformed("C++: " + repr(f) + " is called")

    def cast(self, ty: tuple, a: Cell, env: Env) -> Cell:
        base = self.type_alias(env, ty[1])
        if ty[2]:
            ct = base + "".join([m.split(" ")[0] for m in ty[2]])
            v = a.v
            if isinstance(v, Native):
                r = v.get("cast")(("const " if ty[0] else "") + ct)
                return Cell(r, ct, False, True)
            if isinstance(v, Ptr):
                if v.const and not ty[0]:
                    raise Malformed("C++: static_cast of a pointer to const to " + ct)
                return Cell(Ptr(v.cells, v.i, base, ty[0]), ct, False, True)
            if v is NULL:
                return Cell(v, ct, False, True)
            raise Unsupported("cppsim: static_cast<" + ct + ">")
        return Cell(copy_value(self.convert(base, a, "static_cast")), base, False, True)


def unconst(t: str) -> str:
    return t[6:] if t.startswith("const ") else t


def split_args(s: str) -> list:
    """splits template arguments"""
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if c == "," and depth == 0:
            out.append(tight(cur))
            cur = ""
        else:
            cur += c
    out.append(tight(cur))
    return out


def glue_structs(glue: str) -> dict:
    """the structs of the glue code: {name: ({field: type}, text of the struct)}"""
    out: dict = {}
    for m in re.finditer("struct\\s+(" + I_ + "+)\\s*\\{", glue):
        depth, j = 0, m.end() - 1
        while True:
            if glue[j] == "{":
                depth += 1
            elif glue[j] == "}":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        body = glue[m.end() : j]
        fields = {}
        for d in re.finditer("(?:^|[;}\\n])\\s*([^;(){}]+?)\\s+(" + I_ + "+)\\s*;", body):
            fields[d.group(2)] = tight(norm(d.group(1)))
        if m.group(1) in out:
            raise Malformed("C++: struct " + m.group(1) + " is defined twice")
        out[m.group(1)] = (fields, body)
    return out


# ---------------------------------------------------------------------- what pybind11 and nanobind pass to the lambdas
def from_python(ctype: str, v: Any, same: Callable, structs: Optional[dict] = None) -> Cell:
    """the C++ argument for a Python value: None, Tok (number, string, object), list, Struct (an instance), Native"""
    ct = tight(ctype)
    m = re.match("(?:const )?((?:std::)?(?:optional|array|vector|tuple)<.*>)(&&|&)?\\Z", ct, re.S)
    if m:
        kind = re.match("(?:std::)?([a-z]+)<(.*)>\\Z", m.group(1), re.S)
        parts = split_args(kind.group(2))
        const = ct.startswith("const ")
        if kind.group(1) == "optional":
            c = None if v is None else from_python(unconst(parts[0]), v, same, structs)
            return Cell(Opt(c, parts[0]), m.group(1), const)
        if not isinstance(v, list):
            raise Malformed("python: " + repr(v) + " is not a list, for " + ct)
        if kind.group(1) == "array" and str(len(v)) != parts[1]:
            raise Malformed("python: a list of " + str(len(v)) + " values for " + ct)
        if kind.group(1) == "tuple":
            raise Unsupported("from_python: tuple")
        cells = [from_python(unconst(parts[0]), x, same, structs) for x in v]
        return Cell(Vec(kind.group(1), cells, parts[0]), m.group(1), const)
    m = re.match("(const )?(.*?)(\\*|&&|&|\\[[0-9]*\\])?( ?const)?\\Z", ct, re.S)
    const, base, mod = m.group(1) is not None, m.group(2).strip(), m.group(3) or ""
    if base == "char" and mod == "*":
        if v is None:
            return Cell(NULL, "const char*")
        return Cell(CStr(v), ct)
    if isinstance(v, Struct):
        if not (v.name == base or same(v.name, base)):
            raise Malformed("python: a " + v.name + " is passed for " + ct)
        cell = Cell(v, base, const)
        if mod == "*":
            return Cell(Ptr([cell], 0, base), base + "*")
        return cell if mod else Cell(copy_value(v), base)
    if v is None:
        if mod == "*":
            return Cell(NULL, base + "*")
        raise Malformed("python: None is passed for " + ct)
    if isinstance(v, list):
        raise Malformed("python: a list is passed for " + ct)
    cell = Cell(Str(v) if base in ("std::string", "string") else v, base, const)
    if mod == "*" or mod.startswith("["):
        return Cell(Ptr([cell], 0, base), base + "*")
    return cell


def to_python(c: Optional[Cell]) -> Any:
    """the Python value of a C++ result: None, Tok, list, tuple"""
    if c is None:
        return None
    v = c.v
    if v is NULL:
        return None
    if isinstance(v, Opt):
        return None if v.cell is None else to_python(v.cell)
    if isinstance(v, Tup):
        return tuple([to_python(x) for x in v.cells])
    if isinstance(v, Vec):
        return [to_python(x) for x in v.cells]
    if isinstance(v, (Str, CStr)):
        return v.tok
    if isinstance(v, Ptr):
        return to_python(v.cell)
    return v
