"""C23 constants: a #define that is published has the same value in C++ and in Python; the others are left out"""
from .model import *
from .lib import read_cpp_literal, read_py_literal
from .c13 import bool_of, f_selected, how_matches

NAME = "KK_VALUE"
PLACES23 = ["", "ns", "nested", "ifdef"]


def place(where, define):
    """-> (C++ code, scope in Python). (a macro belongs to no scope in C++: it goes where it is written)"""
    if where == "ns":
        return "namespace Nn {\n" + define + "int keep();\n}\n", ("nn",)
    if where == "nested":
        return "namespace Nn {\nnamespace Mm {\n" + define + "}\nint keep();\n}\n", ("nn", "mm")
    if where == "ifdef":
        return "#ifndef FOO_H\n#define FOO_H\n" + define + "int keep();\n#endif\n", ()
    return define + "int keep();\n", ()


def constants(h, nano, where, value, name=NAME, before="", after="", setup=None):
    """publishes `#define name value`: -> ([values in the stub], [values in the bindings], detail)"""
    o = make_options(nano)
    o.macro_define_include_by_name__regex = "^KK"
    if setup is not None:
        setup(o)
    code, path = place(where, before + "#define " + name + value + after + "\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    return r, path, (code, r.stub_code, r.pydef_code)


def lines_after(text, marker):
    """what follows marker on the lines which start with it (the text may be unknown)"""
    return [x[len(marker):] for x in [y.strip() for y in text.split("\n")] if x.startswith(marker)]


def values(h, r, path, detail, name=NAME, keep=True):
    py = lines_after(r.stub_code, name + " = ")
    m = "m" if not path else "pyNsNn" + ("_NsMm" if len(path) > 1 else "")
    cpp = lines_after(r.pydef_code, m + '.attr("' + name + '") = ')
    h.check(len(py) == len(cpp), "the constant is in both outputs or in none", detail)
    h.check(len(py) <= 1, "the constant is published once", detail)
    h.check(r.pydef_code.count(".attr(") == len(py), "nothing else is published", detail)
    if keep:
        h.check("def keep(" in r.stub_code and '"keep"' in r.pydef_code, "the neighbours are published", detail)
    return py, cpp


def integers(h, nano, nd, wheres):
    """integers, in any base, with any digits"""
    where = h.choose("where", wheres)
    sign = h.choose("sign", ["", "-", "+"])
    base = h.choose("base", ["", "0", "0x", "0X"])
    digits = h.str("digits", nd, {"": "0123456789", "0": "01234567"}.get(base, "019afAF"))
    if base == "" and nd > 1:
        h.assume(f_not(f_str_eq(digits[0], "0")))
    sep = h.choose("blank", [" ", "   ", "\t", " \\\n   "])
    number = sign + base + digits
    r, path, detail = constants(h, nano, where, sep + number, after=h.choose("after", ["", " // c", " "]))
    py, cpp = values(h, r, path, detail)
    h.check(len(py) == 1, "the integer is published", detail)
    octal = base == "0"
    h.eq(py[0], sign + ("0o" if octal else base) + digits, "the stub announces the same integer")
    h.eq(cpp[0], number + ";", "the bindings use the C++ integer")


def floats(h, nano, nd, wheres):
    """floating point numbers, with any digits, with or without an exponent"""
    where = h.choose("where", wheres)
    sign = h.choose("sign", ["", "-", "+"])
    d1 = h.str("int", h.choose("ni", [0, 1, nd]), "0123456789")
    d2 = h.str("frac", h.choose("nf", [0, nd]), "0123456789")
    h.assume(len(d1) + len(d2) > 0)
    e = h.choose("exp", ["", "e3", "E-2", "e+07"])
    number = sign + d1 + "." + d2 + e
    r, path, detail = constants(h, nano, where, " " + number)
    py, cpp = values(h, r, path, detail)
    h.check(len(py) == 1, "the number is published", detail)
    h.eq(py[0], number, "the stub announces the same number")
    h.eq(cpp[0], number + ";", "the bindings use the C++ number")


TEXT23 = "ab 0'.,;(){}=+-/*#<>&|:%!?mK_"


def strings(h, nano, n, wheres):
    """strings: their text is never modified"""
    where = h.choose("where", wheres)
    t = h.text("text", n, TEXT23)
    form = h.choose("form", ["plain", "quote", "escape", "two", "spaced", "replaced"])
    lit = {"plain": '"' + t + '"', "quote": '"' + t + '\\"' + t + '"', "escape": '"\\\\\\n' + t + '\\t"', "two": '"' + t + '" "b"', "spaced": '" ' + t + '  "', "replaced": '"KK_' + t + ' std::string nullptr 1.5f {m} {published_name} {macro_value}"'}[form]
    r, path, detail = constants(h, nano, where, " " + lit, setup=lambda o: o.macro_name_replacements.add_first_replacement("^KK_V", "KK_V"))
    py, cpp = values(h, r, path, detail)
    h.check(len(py) == 1, "the string is published", detail)
    a, b, c = read_cpp_literal(lit, 0), read_py_literal(py[0], 0), read_cpp_literal(cpp[0], 0)
    h.check(b is not None and c is not None, "there are strings in both outputs", detail)
    h.check(f_eq(a[0], b[0]), "the stub announces the same string", (a[0], b[0], detail))
    h.check(f_eq(a[0], c[0]), "the bindings use the same string", (a[0], c[0], detail))
    h.eq(py[0][b[1]:], ' "b"' if form == "two" else "", "nothing after the string of the stub")
    h.eq(cpp[0][c[1]:], (' "b"' if form == "two" else "") + ";", "nothing after the string of the bindings")


OTHERS = ["%", "-%", "%()", "(%)", "1 + %", "% + 1", "0x%", "1.%", "1.0f", "0x1u", "12u", "12%", "1'000", '"a" %', '"a" % "b"', '% "b"', 'L"a%"', '"a"[%]', "'%'", "(1)", "1 + 1", "1, 2", "1; 2", "{1, 2}", "1.2.3", "08", "-", "+", "--1", "- -1", "- 010", "+ 010", "~1", "!0", "1 << 2", "do { % } while (0)", "extern \"C\"",
          "__declspec(dllexport)", "true", "NULL", "1e5", "0b11", "0x1.8p3", ".", "1..", "1.5.", "int", "std::string(\"a\")", "__attribute__((visibility(\"default\")))", "a.b", "\"a\" + \"b\""]


def others(h, nano, n, kinds, wheres):
    """what is not a simple literal is not published, or is published with the right value; the others are not disturbed"""
    where = h.choose("where", wheres)
    f = h.choose("value", kinds)
    x = low(h, "name", n)
    value = f.replace("%", x)
    r, path, detail = constants(h, nano, where, " " + value, before="#define KK_BEFORE 1\n", after="\n#define KK_AFTER 2.5")
    h.check(len(lines_after(r.stub_code, NAME)) == 0, "what is not a simple literal is left out", detail)
    h.check(NAME not in r.pydef_code, "what is not a simple literal is left out", detail)
    for name, v in (("KK_BEFORE", "1"), ("KK_AFTER", "2.5")):
        py = lines_after(r.stub_code, name + " = ")
        h.check(len(py) == 1 and py[0] == v, "the neighbours are published", (name, detail))
        h.check(r.pydef_code.count('.attr("' + name + '") = ' + v + ";") == 1, "the neighbours are published", (name, detail))


def shapes(h, nano, n, wheres):
    """macros with parameters, or without a value, are not published"""
    where = h.choose("where", wheres)
    x = low(h, "param", n)
    shape = h.choose("shape", ["(%) 12", "() 12", "(%, b) 1.5", "(...) \"a\"", "", " ", "(%) %", " // 12", " /* 12 */"])
    r, path, detail = constants(h, nano, where, shape.replace("%", x))
    py, cpp = values(h, r, path, detail)
    h.check(len(py) == 0 and NAME not in r.pydef_code, "no constant", detail)


def names(h, nano, n, how, where, comment):
    """the names are those selected by the options, replaced as the options say; the comments are those of the macro"""
    a, b, w, p = up(h, "a", n), up(h, "b", n), up(h, "word", n), up(h, "to", 1, prefix="R")
    h.distinct(a, b)
    o = make_options(nano)
    how_matches(o, "macro_define_include_by_name__regex", how, w)
    renamed = h.choose("renamed", ["no", "prefix", "whole"])
    if renamed == "prefix":
        o.macro_name_replacements.add_first_replacement("^Q", p)
    elif renamed == "whole":
        o.macro_name_replacements.add_first_replacement("^" + a + "$", p)
    before = {"none": "", "top": "// about it\n", "eol": ""}[comment]
    code, path = place(where, before + "#define " + a + " 12" + (" // about it" if comment == "eol" else "") + "\n#define " + b + ' "a"\n')
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, r.stub_code, r.pydef_code)
    count = 0
    for x, v in ((a, "12"), (b, '"a"')):
        want = x
        if renamed == "prefix":
            want = p + x[1:]
        elif renamed == "whole" and x is a:
            want = p
        sel = bool_of(h, f_selected(how, w, x))
        got = stub.find("attr", path, want)
        bound = pydef.find("attr", path, want)
        if not sel:
            h.check(len(got) == 0 and len(bound) == 0, "a macro that is not selected is not published", (x, detail))
            continue
        count += 1
        e = one(h, got, "a macro that is selected is in the stub", (x, detail))
        one(h, bound, "a macro that is selected is bound", (x, detail))
        h.check(f_eq(tight(e.value), v), "with its value", (x, detail))
        h.check(r.pydef_code.count('.attr("' + want + '") = ' + v + ";") == 1, "with its value, in the bindings", (x, detail))
        if x is a and comment != "none":
            k = r.stub_code.find(want + " = ")
            h.check(r.stub_code[:k].rstrip().endswith("# about it") or r.stub_code[k:].split("\n")[0].endswith("# about it"), "with its comment", detail)
    h.check(r.pydef_code.count(".attr(") == count, "nothing else is published", detail)


ASSUMPTIONS = [
    "the escapes `\\?`, `\\e` and the hexadecimal escapes of more than 2 digits, which mean another character in Python, are outside the domain",
    "the macros inside classes are not published (litgen emits a warning); the same macro defined several times is outside the domain",
]

_W = [dict(where=w, comment=c, how=how) for w in PLACES23 for c in ("none", "top", "eol") for how in ("regex", "prefix", "callable")]
CASES = [
    Case("integers", integers, [dict(nano=False, nd=2, wheres=["", "nested"]), dict(nano=True, nd=1, wheres=["ns", "ifdef"])], [dict(nano=nano, nd=nd, wheres=PLACES23) for nano in (False, True) for nd in (1, 2, 3)],
         bounds="4 bases, up to 3 unknown digits, 3 signs, 4 places, continuation lines and comments"),
    Case("floats", floats, [dict(nano=False, nd=1, wheres=[""]), dict(nano=True, nd=2, wheres=["ns"])], [dict(nano=nano, nd=nd, wheres=PLACES23) for nano in (False, True) for nd in (1, 2)],
         bounds="up to 2 unknown digits before and after the dot, 3 signs, 4 exponents"),
    Case("strings", strings, [dict(nano=False, n=3, wheres=["", "nested"]), dict(nano=True, n=2, wheres=["ns"])], [dict(nano=nano, n=n, wheres=PLACES23) for nano in (False, True) for n in (1, 2, 4)],
         bounds="up to 4 unknown characters, escapes, adjacent strings, texts that look like code"),
    Case("others", others, [dict(nano=i % 2 == 1, n=1, kinds=OTHERS[i::2], wheres=[""]) for i in (0, 1)], [dict(nano=nano, n=2, kinds=OTHERS[i::3], wheres=["", "ns"]) for nano in (False, True) for i in (0, 1, 2)],
         bounds="%d kinds of values which are no simple literal, with an unknown identifier" % len(OTHERS)),
    Case("shapes", shapes, [dict(nano=False, n=1, wheres=["", "ns"])], [dict(nano=nano, n=2, wheres=PLACES23) for nano in (False, True)], bounds="macros with parameters or without a value"),
    Case("names", names, [dict(_W[i], nano=i % 2 == 0, n=1) for i in range(0, len(_W), 5)], [dict(w, nano=nano, n=n) for w in _W for nano in (False, True) for n in (1, 2)],
         bounds="2 macros and a pattern with unknown names of 2 or 3 characters, 3 kinds of patterns, 2 kinds of replacements, 4 places"),
]
