"""C01 names: valid, stable, identical on both sides"""
from .lib import *

from codemanip import code_utils
from litgen.internal import cpp_to_python

ASSUMPTIONS = ["user supplied name replacements are empty (the default)"]


def _check_name(h, cpp: str, py: str, snake: bool, label: str):
    h.check(f_is_identifier(py), label + ": valid python identifier", (cpp, py))
    h.check(f_not(f_is_py_keyword(py)), label + ": not a python keyword", (cpp, py))
    a = cpp.lower().replace("_", "")
    b = py.lower().replace("_", "")
    h.eq(a, b, label + ": letters and digits are kept, in order")
    if snake:
        h.eq(py, py.lower(), label + ": snake case is lower case")


def kernel(h, n, kind, snake, alphabet=IDENT):
    o = make_options()
    o.python_convert_to_snake_case = snake
    s = h.str("name", n, alphabet)
    h.assume(f_not(f_char_in(s[0], mask_of(DIGITS))))
    fn = {
        "var": "var_name_to_python", "fn": "function_name_to_python",
        "ns": "namespace_name_to_python", "class": "_class_name_to_python",
        "enum": "enum_name_to_python",
    }[kind]
    fn = h.need(cpp_to_python, fn)
    snake = snake and kind in ("var", "fn", "ns")
    if kind in ("class", "enum"):
        # names of C++ types are translated on purpose
        for k in ("int", "signed", "unsigned", "long", "short", "double", "float", "void", "const", "mutable", "size_t", "ssize_t", "ptrdiff_t", "intptr_t", "intmax_t", "uintptr_t", "uintmax_t"):
            h.assume(f_not(f_str_eq(s, k)))
    py = fn(o, s)
    h.observe(py)
    _check_name(h, s, py, snake, kind)
    h.eq(fn(o, py), py, kind + ": translating twice changes nothing")
    if not snake:
        # without snake case conversion, only keywords change
        h.check(f_or([f_str_eq(py, s), f_and([f_is_py_keyword(s), f_str_eq(py, s + "_")])]), kind + ": only keywords change", (s, py))
    kw = f_and([f_is_py_keyword(s), f_str_eq(s, s.lower())]) if snake else f_is_py_keyword(s)
    h.check(f_implies(kw, f_str_eq(py, s + "_")), kind + ": keyword gets one underscore", (s, py))


def snake_kernel(h, n):
    s = h.str("name", n, IDENT)
    r = code_utils.to_snake_case(s)
    h.observe(r)
    h.eq(code_utils.to_snake_case(r), r, "snake case is idempotent")
    # a name that is already in snake case is unchanged
    h.check(f_implies(f_str_eq(s, s.lower()), f_str_eq(r, s)), "snake case names are unchanged", (s, r))
    # a boundary lower->Upper always gets an underscore
    for i in range(n - 1):
        low_up = f_and([f_char_in(s[i], mask_of(LOWER)), f_char_in(s[i + 1], mask_of(UPPER))])
        pre = s[i].lower() + "_" + s[i + 1].lower()
        h.check(f_implies(low_up, f_str_contains(r, pre)), "a lower to upper boundary is marked", (s, r))
    # no underscore inside a run of lower case letters and digits
    h.check(f_implies(f_and([f_char_in(c, mask_of(LOWER + DIGITS)) for c in s]), f_str_eq(r, s)), "lower case runs are not cut", (s, r))


def e2e(h, n, what, nano, snake, alphabet, prefix=""):
    o = make_options(nano)
    o.python_convert_to_snake_case = snake
    if prefix:
        s = h.ident("name", n, prefix=prefix, alphabet=alphabet)
    else:
        s = h.ident("name", n, alphabet=alphabet)
    if what == "function":
        r = gen(o, "int " + s + "(int a1);")
        py = between(r.stub_code, "def ", "(")
        pd = between(r.pydef_code, 'm.def("', '"')
    elif what == "param":
        r = gen(o, "int fff(int " + s + ");")
        py = between(r.stub_code, "fff(", ":")
        pd = between(r.pydef_code, '::arg("', '"')
    elif what == "member":
        h.assume(f_not(f_str_eq(s, "Ccc")))
        r = gen(o, "struct Ccc { int " + s + "; };")
        py = between(r.stub_code, "\n    ", ":")
        pd = between(r.pydef_code, ".def_rw(\"" if nano else ".def_readwrite(\"", '"')
    elif what == "method":
        h.assume(f_not(f_str_eq(s, "Ccc")))
        r = gen(o, "struct Ccc { Ccc(); int " + s + "(int a1) const; };")
        py = between(r.stub_code, "def ", "(self, a")
        py = py[py.rfind(" ") + 1 :]
        pd = between(r.pydef_code, '.def("', '"')
    elif what == "namespace":
        r = gen(o, "namespace " + s + " { int fff(); }")
        py = between(r.stub_code, "class ", ":")
        pd = between(r.pydef_code, 'm.def_submodule("', '"')
        if prefix == "":
            py = py.replace("(metaclass=abc.ABCMeta)", "")
    elif what == "enum":
        r = gen(o, "enum class " + s + " { aa, bb };")
        py = between(r.stub_code, "class ", "(")
        pd = between(r.pydef_code, '(m, "', '"')
        snake = False
    elif what == "enumvalue":
        o.enum_flag_skip_count = False
        r = gen(o, "enum class Eee { " + s + ", zzzz };")
        py = between(r.stub_code, ":\n    ", " = ")
        pd = between(r.pydef_code, '.value("', '"')
    elif what == "class":
        r = gen(o, "struct " + s + " { int aa; };")
        py = between(r.stub_code, "class ", ":")
        pd = between(r.pydef_code, '(m, "', '"')
        snake = False
    h.observe(r.stub_code)
    h.observe(r.pydef_code)
    _check_name(h, s, py, snake, what)
    h.eq(py, pd, what + ": same name in the bindings and in the stub")
    # the C++ side keeps the original name
    h.contains(r.pydef_code, s, what + ": the bindings refer to the C++ name") if what != "param" else None


def _e2e_list(th):
    r = []
    for what in ("function", "param", "member", "method", "namespace", "enum", "enumvalue", "class"):
        for nano in (False, True):
            r.append(dict(n=2, what=what, nano=nano, snake=True, alphabet=LOWER))
            r.append(dict(n=4 if not th else 5, what=what, nano=nano, snake=not nano, alphabet="aflmsprw"))
            r.append(dict(n=2 if not th else 3, what=what, nano=nano, snake=True, alphabet=IDENT, prefix="aB"))
    return r


CASES = [
    Case("snake", snake_kernel, [dict(n=n) for n in (1, 2, 3, 4, 5)], [dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7)],
         bounds="every string of up to 5 (thorough: 7) identifier characters"),
    Case("kernel", kernel,
         [dict(n=n, kind=k, snake=sn) for k in ("var", "fn", "ns", "class", "enum") for sn in (True, False) for n in (1, 2, 3, 4)]
         + [dict(n=n, kind=k, snake=True, alphabet=LOWER + UPPER[:2]) for k in ("var", "fn", "ns") for n in (5,)]
         + [dict(n=n, kind=k, snake=False, alphabet=LOWER + UPPER) for k in ("var", "fn", "ns", "class", "enum") for n in (5, 6, 7, 8)]
         + [dict(n=n, kind=k, snake=True, alphabet=LOWER) for k in ("var", "fn", "ns") for n in (6, 7, 8)],
         [dict(n=n, kind=k, snake=sn) for k in ("var", "fn", "ns", "class", "enum") for sn in (True, False) for n in (1, 2, 3, 4, 5, 6)]
         + [dict(n=n, kind=k, snake=False, alphabet=LOWER + UPPER) for k in ("var", "fn", "ns", "class", "enum") for n in (7, 8, 9)]
         + [dict(n=n, kind=k, snake=True, alphabet=LOWER) for k in ("var", "fn", "ns") for n in (7, 8, 9)],
         bounds="every identifier of up to 4 characters (snake case on or off), lower case identifiers up to 8 characters"),
    Case("e2e", e2e, _e2e_list(False), _e2e_list(True),
         bounds="one C++ declaration with an unknown name of 2 to 4 characters, through the whole generator (pybind11 and nanobind)"),
]
