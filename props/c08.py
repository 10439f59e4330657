"""C08 preprocessor regions: only the code of the accepted regions, in their first branch, is bound"""
from .lib import *

ASSUMPTIONS = ["regions are balanced; `#if` conditions start with the macro that decides (documented best effort)"]

SUFFIXES = ["_h_", "_h", "_H", "_H_", "hpp", "HPP", "hxx", "HXX"]

# %0, %1: directives that open a region; D<n>: a declaration
SHAPES = {
    "simple": "D0\n%0\nD1\n#endif\nD2\n",
    "else": "D0\n%0\nD1\n#else\nD2\n#endif\nD3\n",
    "elif": "D0\n%0\nD1\n#elif defined(FOO_H)\nD2\n#else // c\nD3\n#endif // c\nD4\n",
    "nested": "%0 // guard\nD0\n%1\nD1\n#endif\nD2\n#endif\nD3\n",
    "nested_else": "D0\n%0\nD1\n%1\nD2\n#else\nD3\n#endif\nD4\n#else\nD5\n%1\nD6\n#endif\nD7\n#endif\nD8\n",
    "two": "%0\nD0\n#endif\n%1\nD1\n#else\nD2\n#endif // end\nD3\n",
    "struct": "struct SSS {\n%0\nD0\n#endif\nD1\n%1\nD2\n#else\nD3\n#endif\nD4\n};\nint last();\n",
    "namespace": "%0\nnamespace NNN {\nD0\n%1\nD1\n#endif\nD2\n}\n#else\nD3\n#endif\nD4\n",
}
OPEN = ["#ifdef M", "#ifndef M", "#if M", "#if defined(M)", "#if defined(M) && OTHER", "#ifdef M // comment", "#if M > 3"]


def expected(shape, macros, accepted):
    """numbers of the declarations that are kept (accepted: list of formulas, one per macro)"""
    stack = []
    r = {}
    for line in shape.split("\n"):
        if line.startswith("%"):
            stack.append([accepted[int(line[1])], True])
        elif line.startswith("#el"):
            stack[-1][1] = False
        elif line.startswith("#endif"):
            stack.pop()
        elif line.startswith("D"):
            r[int(line[1])] = f_and([f_and([a, p]) for a, p in stack])
        elif line.startswith("struct") or line.startswith("}"):
            pass
    return r


def f_ends(s, suffix):
    return f_str_eq(s[len(s) - len(suffix) :], suffix) if len(suffix) <= len(s) else False


def e2e(h, shape, n, nano, alphabet, opens, regex=None):
    o = make_options(nano)
    text = SHAPES[shape]
    macros, accepted, directives = [], [], []
    if regex == "word":
        w = h.ident("word", n, prefix="M", alphabet=alphabet)
        o.srcmlcpp_options.header_filter_acceptable__regex = "^" + w + "$"
    elif regex == "callable":
        w = h.ident("word", n, prefix="M", alphabet=alphabet)
        o.srcmlcpp_options.header_filter_acceptable__regex = lambda x: x == w
    for i in range(2 if "%1" in text else 1):
        m = h.ident("macro" + str(i), n, prefix="M", alphabet=alphabet)
        macros.append(m)
        if regex is None:
            accepted.append(f_or([f_ends(m, s) for s in SUFFIXES] + [f_str_contains(m, "__cplusplus")]))
        else:
            accepted.append(f_str_eq(m, w))
        directives.append(h.choose("open" + str(i), opens).replace("M", m, 1))
    want = expected(text, macros, accepted)
    code = text
    for i, d in enumerate(directives):
        code = code.replace("%" + str(i), d)
    for k in want:
        code = code.replace("D" + str(k) + "\n", "int ddd" + str(k) + "(int a);  // comment " + str(k) + "\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    for k in want:
        name = "ddd" + str(k) + "("
        h.check(f_iff(f_str_contains(r.stub_code, name), want[k]), "a declaration is in the stub if and only if its region is accepted", (code, r.stub_code))
        h.check(f_iff(f_str_contains(r.pydef_code, '"ddd' + str(k) + '"'), want[k]), "a declaration is bound if and only if its region is accepted", (code, r.pydef_code))


def off(h, shape, n):
    """with the filter off, everything is bound"""
    o = make_options()
    o.srcmlcpp_options.header_filter_preprocessor_regions = False
    code = SHAPES[shape]
    for i in range(2):
        code = code.replace("%" + str(i), h.choose("open" + str(i), OPEN).replace("M", h.ident("macro" + str(i), n, prefix="M", alphabet="HX_")))
    r = {}
    for k in range(9):
        if "D" + str(k) in code:
            r[k] = True
            code = code.replace("D" + str(k) + "\n", "int ddd" + str(k) + "(int a);\n")
    g = gen(o, code)
    for k in r:
        h.contains(g.stub_code, "ddd" + str(k) + "(", "without the filter, everything is in the stub")
        h.contains(g.pydef_code, '"ddd' + str(k) + '"', "without the filter, everything is bound")


def kinds(h, kind, n):
    """every kind of declaration is filtered"""
    o = make_options()
    m = h.ident("macro", n, prefix="M", alphabet="H_x")
    d = {
        "struct": "struct Ddd { int x; };", "enum": "enum class Ddd { a };", "namespace": "namespace Ddd { int x(); }",
        "function": "int Ddd();", "inline": "inline int Ddd() { return 1; }", "define": "#define Ddd 42", "typedef": "struct Ddd;\nstruct Ddd { int y(); };",
        "template": "template<typename T> T Ddd(T x);",
    }[kind]
    if kind == "template":
        o.fn_template_options.add_specialization("^Ddd$", ["int"], add_suffix_to_function_name=False)
    o.macro_define_include_by_name__regex = "^Ddd$"
    code = "int first();\n#ifdef " + m + "\n" + d + "\n#endif\nint last();\n"
    g = gen(o, code)
    ok = f_or([f_ends(m, s) for s in SUFFIXES])
    low = g.stub_code.lower()
    h.check(f_iff(f_str_contains(low, "ddd"), ok), kind + ": in the stub if and only if its region is accepted", (code, g.stub_code))
    h.check(f_iff(f_str_contains(g.pydef_code.lower(), "ddd"), ok), kind + ": bound if and only if its region is accepted", (code, g.pydef_code))
    h.contains(g.stub_code, "def last(", "what follows the region is in the stub")
    h.contains(g.pydef_code, '"first"', "what precedes the region is bound")


_q = [dict(shape=s, n=2, nano=i % 2 == 1, alphabet="H_x", opens=OPEN[:1] + OPEN[3:4] if "%1" in SHAPES[s] else OPEN) for i, s in enumerate(SHAPES)]
_q += [dict(shape="else", n=3, nano=False, alphabet="HhXxPp_", opens=OPEN[:1]), dict(shape="nested", n=1, nano=False, alphabet="AB", opens=OPEN[:1], regex="word"),
       dict(shape="nested_else", n=1, nano=False, alphabet="AB", opens=OPEN[1:3], regex="callable"), dict(shape="two", n=2, nano=True, alphabet="AB", opens=OPEN[2:3], regex="word")]
_t = [dict(shape=s, n=3, nano=nano, alphabet="HhXxPp_", opens=OPEN) for s in SHAPES for nano in (False, True)]
_t += [dict(shape=s, n=2, nano=False, alphabet="AB_", opens=OPEN, regex=r) for s in SHAPES for r in ("word", "callable")]

CASES = [
    Case("e2e", e2e, _q, _t, bounds="8 region shapes (nested, else, elif, in classes and namespaces), unknown macro names of 2 or 3 (thorough: 3) characters, 7 kinds of #if directives"),
    Case("off", off, [dict(shape=s, n=1) for s in ("nested", "struct")], [dict(shape=s, n=1) for s in SHAPES if s not in ("elif",)], bounds="filter off"),
    Case("kinds", kinds, [dict(kind=k, n=2) for k in ("struct", "enum", "namespace", "function", "inline", "define", "typedef", "template")], bounds="8 kinds of declarations, unknown macro names"),
]
