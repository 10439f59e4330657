"""C02 comments in the bindings: every C++ docstring is a well formed literal that decodes to the text of the comment"""
from .lib import *

from codemanip import code_utils
from codemanip.code_replacements import RegexReplacementList
from litgen.internal import cpp_to_python

ASSUMPTIONS = ["e2e cases: the comment replacements of the options are empty; the comment does not end with a backslash (a C++ line continuation)"]

NASTY = "\\\"'ntxo0ub{}%/* #?@<>&"


def kernel(h, n, alphabet, nl):
    s = h.str("comment", n, alphabet)
    r = h.need(code_utils, "format_cpp_comment_on_one_line")(s)
    h.observe(r)
    d = read_cpp_literal('"' + r + '"', 0)
    h.check(d is not None, "the text is a well formed C++ literal", (s, r))
    h.check(d[1] == len(r) + 2, "the literal ends where it should", (s, r))
    expected = s if nl else s.strip()
    h.eq(d[0], expected, "the literal decodes to the text of the comment")


def kernel_default(h, n, alphabet):
    """with the default replacements (true -> True, 1.5f -> 1.5 ...)"""
    o = make_options()
    s = h.str("comment", n, alphabet)
    r = h.need(cpp_to_python, "comment_pydef_one_line")(o, s)
    h.observe(r)
    d = read_cpp_literal('"' + r + '"', 0)
    h.check(d is not None, "the text is a well formed C++ literal", (s, r))
    h.check(d[1] == len(r) + 2, "the literal ends where it should", (s, r))


def cpp_strings(code):
    """decoded string literals of a C++ code (None if one of them is not well formed)"""
    r = []
    i = 0
    n = len(code)
    while i < n:
        c = code[i]
        if c == '"':
            d = read_cpp_literal(code, i)
            if d is None:
                return None
            r.append(d[0])
            i = d[1]
        elif c == "/" and code[i : i + 2] == "//":
            j = code.find("\n", i)
            i = n if j < 0 else j
        else:
            i += 1
    return r


KINDS = ["function", "function_eol", "method", "static", "ctor", "class", "member", "member_eol", "enum", "enumvalue", "namespace",
         "block", "two_lines"]


def source(kind, c):
    """-> (code, text expected in the bindings)"""
    if kind == "function":
        return "\n//" + c + "\nvoid fff(int a1);\n", c.strip()
    if kind == "function_eol":
        return "void fff(int a1); //" + c + "\n", c.strip()
    if kind == "method":
        return "struct Ccc {\n  int aa;\n\n  //" + c + "\n  void fff(int a1);\n};\n", c.strip()
    if kind == "static":
        return "struct Ccc {\n  int aa;\n\n  //" + c + "\n  static void fff(int a1);\n};\n", c.strip()
    if kind == "ctor":
        return "struct Ccc {\n  int aa;\n\n  //" + c + "\n  Ccc(int a1);\n};\n", c.strip()
    if kind == "class":
        return "\n//" + c + "\nstruct Ccc {\n  int aa;\n};\n", c.strip()
    if kind == "member":
        return "struct Ccc {\n  int aa;\n\n  //" + c + "\n  int bb;\n};\n", c.strip()
    if kind == "member_eol":
        return "struct Ccc {\n  int aa;\n  int bb; //" + c + "\n};\n", c.strip()
    if kind == "enum":
        return "\n//" + c + "\nenum class Eee {\n  aa,\n  bb\n};\n", c.strip()
    if kind == "enumvalue":
        return "enum class Eee {\n  aa,\n  bb //" + c + "\n};\n", c.strip()
    if kind == "namespace":
        return "\n//" + c + "\nnamespace Nnn {\n  int fff();\n}\n", c.strip()
    if kind == "block":
        return "\n/*" + c + "*/\nvoid fff(int a1);\n", c.strip()
    if kind == "two_lines":
        return "\n//" + c + "\n// second \\line \"\nvoid fff(int a1);\n", c.rstrip() + "\n second \\line \""
    raise KeyError(kind)


def e2e(h, n, kind, nano, alphabet, pre="a", post="b"):
    o = make_options(nano)
    o.comments_replacements = RegexReplacementList()
    mid = h.text("comment", n, alphabet)
    c = pre + mid + post
    if kind == "block":
        h.assume(f_not(f_str_contains(c, "*/")))
    code, expected = source(kind, c)
    r = gen(o, code)
    h.observe(r.pydef_code)
    strings = cpp_strings(r.pydef_code)
    h.check(strings is not None, kind + ": every literal of the bindings is well formed", (c, r.pydef_code))
    h.check(f_or([f_str_eq(s, expected) for s in strings]), kind + ": one literal decodes to the text of the comment", (c, r.pydef_code))


def token(h, n, kind, nano):
    """a text that looks like a token of the code templates"""
    o = make_options(nano)
    o.comments_replacements = RegexReplacementList()
    mid = h.text("comment", n, LOWER + "_")
    c = "a {" + mid + "} b"
    code, expected = source(kind, c)
    r = gen(o, code)
    h.observe(r.pydef_code)
    strings = cpp_strings(r.pydef_code)
    h.check(strings is not None, kind + ": every literal of the bindings is well formed", (c, r.pydef_code))
    h.check(f_or([f_str_eq(s, expected) for s in strings]), kind + ": one literal decodes to the text of the comment", (c, r.pydef_code))


def _e2e(n, more):
    r = []
    for k in KINDS:
        for nano in (False, True):
            r.append(dict(n=n, kind=k, nano=nano, alphabet="\\\"n{ /"))
            r.append(dict(n=1 if not more else 2, kind=k, nano=nano, alphabet=PRINTABLE))
    return r


TOK = ["function", "method", "ctor", "class", "member", "enum", "enumvalue", "namespace"]

CASES = [
    Case("kernel", kernel,
         [dict(n=n, alphabet=TEXT.replace("\n", "") + "\u00e9", nl=False) for n in (0, 1, 2, 3, 4)]
         + [dict(n=n, alphabet="\\\"nt'x ", nl=False) for n in (5, 6)],
         [dict(n=n, alphabet=TEXT.replace("\n", "") + "\u00e9", nl=False) for n in (0, 1, 2, 3, 4, 5)]
         + [dict(n=n, alphabet="\\\"nt'x ", nl=False) for n in (6, 7, 8)],
         bounds="every one line comment of up to 4 printable characters, 6 characters among quotes, backslash, space, n t x"),
    Case("replacements", kernel_default,
         [dict(n=n, alphabet="\\\"ntrue1f. \n") for n in (1, 2, 3)] + [dict(n=4, alphabet="\\\"nt1f"), dict(n=5, alphabet="\\\"1f")],
         [dict(n=n, alphabet="\\\"ntrue1f. \n") for n in (1, 2, 3, 4)] + [dict(n=5, alphabet="\\\"nt1f"), dict(n=6, alphabet="\\\"1f")],
         bounds="default comment replacements, comments of up to 5 characters"),
    Case("e2e", e2e, _e2e(3, False), _e2e(4, True),
         bounds="comment with 1 printable / 3 nasty unknown characters on every kind of C++ element, through the whole generator"),
    Case("token", token, [dict(n=n, kind=k, nano=False) for k in TOK for n in (2, 3, 8, 10, 11, 13, 15)],
         [dict(n=n, kind=k, nano=nano) for k in TOK for n in range(1, 26) for nano in (False, True)],
         bounds="comment with {token}, for every lower case token of the lengths listed"),
]
