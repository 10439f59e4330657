"""C31 layout and display options change the layout, and nothing of what is published"""
from . import c21
from .c20 import ALL20, opts
from symx.ops import f_str_contains
from symx.outparse import located

from .model import *

EXTRA31 = {
    "braces": ("struct C { int q; };\n// doc of F\nint F(C E = {});\nstruct CD\n{\n    // about\n    CD(C E = {}, int other = {1}); // eol\n    int F(C E = {}) const; // eol \"x\"\n    static int E(C E = {});\n};\n", "C"),
    "long": ("int F(int first_parameter, double second_parameter = 2., const std::string& third_parameter = \"a # b\", bool E = false);\nstruct C\n{\n    C(int first_parameter, double second_parameter = 2., const char* third_parameter = NULL, bool E = false);\n    int F(int first_parameter_of, double second_parameter, int& E, bool another = false) const;\n    static int E(int first_parameter, double second_parameter, std::vector<std::map<int, std::string>> m, bool E);\n};\n", "C"),
    "docs": ("// F does E\n//\n// and then:\n//     E\nint F();\n\n/* E\n\n   more */\nint E(); // eol\n\n// group\nint xa(); // \"a\"\nint xb(); // b \\ c\n\n/** C **/\nstruct C\n{\n    // before\n\n    // about\n    // E\n    int E = 1; // eol\n\n    int F; // eol\n    // lonely\n};\n// last\n", "C"),
    "docs only": ("// alone\n//  *ptr = -E\n//  / half\n// - F\n\n\n// F\n/* E */\n\n// C\nenum class C\n{\n    // doc\n    E, // eol\n\n    F, // eol\n    // end\n};\n", "C"),
    "empty class": ("struct C\n{\n};\nclass CD\n{\nprivate:\n    int E;\n};\n// doc\nenum class CE\n{\n};\nnamespace N\n{\n}\nnamespace N\n{\nint F();\n}\n", "C"),
    "spread": ("int\nF(\n    int E, // first\n    double b = 2.  /* second */\n    );\nstruct C\n{\n    template<typename T>\n    T\n    F(\n        T E\n    )\n    const;\n};\n", "C"),
}
ALL31 = {**ALL20, **EXTRA31}

# name -> [(option, value)]
LAYOUTS = {
    "python indent 1": [("python_indent_size", 1)], "python indent 3": [("python_indent_size", 3)], "python tabs": [("python_ident_with_tabs", True), ("python_indent_size", 1)], "two tabs": [("python_ident_with_tabs", True), ("python_indent_size", 2)],
    "cpp indent 2": [("cpp_indent_size", 2)], "cpp tabs": [("cpp_indent_with_tabs", True), ("cpp_indent_size", 1)], "no cpp indent": [("cpp_indent_size", 0)],
    "short lines": [("python_max_line_length", 20)], "long lines": [("python_max_line_length", 1000)], "unlimited lines": [("python_max_line_length", -1)],
    "own layout": [("python_reproduce_cpp_layout", False)], "strip": [("python_strip_empty_comment_lines", True)],
    "locations": [("original_location_flag_show", True)], "full locations": [("original_location_flag_show", True), ("original_location_nb_parent_folders", -1)], "signatures": [("original_signature_flag_show", True)],
    "no decoration": [("fn_template_decorate_in_stub", False), ("class_template_decorate_in_stub", False)],
    "all": [("python_indent_size", 2), ("cpp_indent_size", 3), ("python_max_line_length", 30), ("original_location_flag_show", True), ("original_signature_flag_show", True), ("python_strip_empty_comment_lines", True)],
    "short own layout": [("python_reproduce_cpp_layout", False), ("python_max_line_length", 20), ("original_signature_flag_show", True), ("python_indent_size", 2)],
}


def code31(h, kind, n):
    saved = c21.KINDS21
    c21.KINDS21 = ALL31
    try:
        return c21.header(h, kind, 1, n)[0]
    finally:
        c21.KINDS21 = saved


def words(doc):
    """the documentation, whatever its layout"""
    return " ".join([line.strip() for line in (doc or "").split("\n") if line.strip() != ""])


def untab(text, width):
    out = []
    for line in text.split("\n"):
        rest = line.lstrip(" \t")
        out.append(line[: len(line) - len(rest)].replace("\t", " " * width) + rest)
    return "\n".join(out)


def declared(text):
    """what the stub declares; as in Python, its structure may not depend on the width of a tab"""
    if "\t" not in text:
        return declared_(parse_stub(text))
    a, b = declared_(parse_stub(untab(text, 8))), declared_(parse_stub(untab(text, 1)))
    if [(x.kind, x.path) for x in a] != [(x.kind, x.path) for x in b]:
        raise SyntaxError("TabError")
    return a


def commentary(text):
    """the words of the comments of the stub"""
    r = ""
    for x in parse_stub(untab(text, 1)).items:
        for line in (x.comment or "").split("\n"):
            r += " " + line.strip().lstrip("#").strip()
    return [w for w in r.split(" ") if w != "" and w != "#"]


def displays(settings):
    return any([k.startswith("original_") or k.endswith("_decorate_in_stub") for k, v in settings])


def f_indented(text, unit):
    """each declaration is indented by a number of units"""
    for line in text.split("\n"):
        rest = line.lstrip(" \t")
        if not (rest.startswith("def ") or rest.startswith("class ") or rest == "pass"):
            continue
        blank = line[: len(line) - len(rest)]
        if blank != unit * (len(blank) // len(unit)):
            return False
    return True


def declared_(stub):
    return [x for x in stub.items if x.kind not in ("comment", "pass", "doc", "other")]


def layouts(h, kinds, n, names, variants, nano, file=""):
    """the stub declares the same things, and the bindings are the same"""
    kind = h.choose("kind", kinds)
    variant = h.choose("variant", variants)
    code = code31(h, kind, n)
    layout = h.choose("layout", names)
    r = []
    for settings in ([], LAYOUTS[layout]):
        o = opts(nano, kind, variant)
        for k, v in settings:
            h.check(hasattr(o, k), "the option exists", k)
            setattr(o, k, v)
        r.append(gen(o, code))
    detail = (code, variant, layout, r[0].stub_code, r[1].stub_code, r[1].pydef_code)
    h.observe(r[1].stub_code)
    a, b = declared(r[0].stub_code), declared(r[1].stub_code)
    h.check(len(a) == len(b), "the stub declares as many things", detail)
    for x, y in zip(a, b):
        h.check(x.kind == y.kind and len(x.path) == len(y.path) and f_and([f_eq(u, v) for u, v in zip(x.path + (x.name,), y.path + (y.name,))]), "the stub declares the same things in the same order", (x, y, detail))
        h.check(len(x.params) == len(y.params) and f_and([same(u[i], v[i]) for u, v in zip(x.params, y.params) for i in range(3)]), "with the same parameters", (x, y, detail))
        h.check(f_and([same(x.ret, y.ret), same(x.ann, y.ann), same(x.value, y.value)]), "with the same types and values", (x, y, detail))
        h.check(len(x.decorators) == len(y.decorators) and f_and([f_eq(u, v) for u, v in zip(x.decorators, y.decorators)]) and len(x.bases) == len(y.bases) and f_and([f_eq(u, v) for u, v in zip(x.bases, y.bases)]), "with the same decorators and bases", (x, y, detail))
        h.check(f_eq(words(x.doc), words(y.doc)), "with the same documentation", (x, y, x.doc, y.doc, detail))
    if not displays(LAYOUTS[layout]):
        u, v = commentary(r[0].stub_code), commentary(r[1].stub_code)
        # (a layout may place a comment before what it describes, or after it)
        h.check(len(u) == len(v) and f_and([f_or([f_eq(i, j) for j in v]) for i in u] + [f_or([f_eq(i, j) for i in u]) for j in v]), "with the same comments", (u, v, detail))
    o = dict(LAYOUTS[layout])
    h.check(f_indented(r[1].stub_code, ("\t" if o.get("python_ident_with_tabs") else " ") * o.get("python_indent_size", 4)), "the stub is indented as requested", detail)
    p, q = parse_pydef(r[0].pydef_code, nano), parse_pydef(r[1].pydef_code, nano)
    h.check(len(p.bindings) == len(q.bindings), "the bindings publish as many things", detail)
    for x, y in zip(p.bindings, q.bindings):
        h.check(x.kind == y.kind and x.method == y.method and len(x.path) == len(y.path) and f_and([f_eq(u, v) for u, v in zip(x.path + (x.name,), y.path + (y.name,))]), "the bindings publish the same things in the same order", (x, y, detail))
        h.check(f_and([f_eq(x.cpp, y.cpp), f_eq(tight(x.target), tight(y.target))]), "from the same C++ code", (x.target, y.target, detail))
        h.check(len(x.params) == len(y.params) and f_and([same(u[i], v[i]) for u, v in zip(x.params, y.params) for i in range(2)]), "with the same arguments", (x, y, detail))
        h.check(len(x.extras) == len(y.extras) and f_and([f_eq(tight(u), tight(v)) for u, v in zip(x.extras, y.extras) if isinstance(u, str)]), "with the same policies", (x, y, detail))
        h.check(f_and([f_eq(tight(u.body), tight(v.body)) for u, v in zip(x.extras + [x.lambda_], y.extras + [y.lambda_]) if hasattr(u, "body")]), "with the same code", (x, y, detail))
        h.check(f_eq(words(x.doc), words(y.doc)), "with the same documentation", (x.doc, y.doc, detail))
    h.check(f_eq(tight(r[0].glue_code or ""), tight(r[1].glue_code or "")), "the glue code is the same", (r[0].glue_code, r[1].glue_code, detail))


def same(u, v):
    return (u is None) == (v is None) and (u is None or f_eq(tight(u), tight(v)))


FILES = {"": ["Line", "Line", "Line"], "one.h": ["one.h"] * 3, "one/two/three.h": ["three.h", "two/three.h", "one/two/three.h"], "/r/two.x/three.h": ["three.h", "two.x/three.h", "/r/two.x/three.h"]}


def locations(h, kinds, n, variants, nano, files):
    """each location is the one of the declaration, in the header of this name"""
    kind = h.choose("kind", kinds)
    variant = h.choose("variant", variants)
    before = h.choose("before", [0, 3])
    o = opts(nano, kind, variant)
    o.original_location_flag_show = True
    f = h.choose("file", files)
    i = h.choose("parents", [0, 1, -1])
    o.original_location_nb_parent_folders = i
    code = "\n" * before + code31(h, kind, n)
    g = c21.run(o, [(f, code)])
    stub, pydef = g.stub_code(), g.pydef_code()
    h.observe(stub)
    detail = (code, stub, pydef)
    lines = code.split("\n")
    marked = 0
    for f_, k, name, line in located(stub, "#") + located(pydef, "//"):
        marked += 1
        h.eq(f_, FILES[f][i], "the file is the one of the header")
        h.check(1 <= k <= len(lines), "the line is a line of the header", (line, detail))
        if name is None:
            continue
        near = "\n".join(lines[k - 1 : k + 2]) if kind == "spread" or lines[k - 1].strip().startswith("template") else lines[k - 1]
        for suffix in ("_int", "_double", "_float"):
            name = name[: len(name) - len(suffix)] if name.endswith(suffix) else name
        if not name.startswith("__"):
            h.check(f_str_contains(near, name), "the location is the one of the declaration", (name, near, line, detail))
    h.check(marked > 0 or kind in ("empty", "define", "define 4", "global"), "the locations are shown", detail)


_K = list(ALL31)
_L = list(LAYOUTS)
SITES31 = {"root": ("%s\n\nint fa();\n", 0), "namespace": ("namespace Ns {\n%s\n\nint fa();\n}\n", 1), "class": ("struct A {\n%s\n\nint fa();\n};\n", 1), "block": ("%s\n\nstruct A {\nint fa();\n};\n", 0)}


def blanks(h, n, pads, sites, layouts, nano):
    """the lines of a comment which stands alone are in the stub, with their own indentation when the layout of C++ is reproduced"""
    o = make_options(nano)
    o.python_reproduce_cpp_layout = h.choose("layout", layouts)
    text, level = SITES31[h.choose("site", sites)]
    lines = [h.choose("pad" + str(i), pads) + h.text("first" + str(i), 1, "a*-") + h.choose("gap" + str(i), [" ", "   "]) + h.text("second" + str(i), 1, "b1") for i in range(n)]
    code = text % "\n".join(["//" + x for x in lines])
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code)
    found = [x.strip(" ") for x in r.stub_code.split("\n") if x.strip(" ").startswith("#") and "submodule" not in x]
    h.check(len(found) == n, "as many lines of comment", detail)
    for u, v in zip(found, lines):
        h.eq(u, "#" + v if o.python_reproduce_cpp_layout else "# " + v.lstrip(" "), "line of the comment")


CASES = [
    Case("blanks", blanks, quick=[dict(n=2, pads=["", "   "], sites=["class"], layouts=[True], nano=False), dict(n=1, pads=["", " ", "     "], sites=list(SITES31), layouts=[True, False], nano=True)],
         thorough=[dict(n=3, pads=["", " ", "    "], sites=[s], layouts=[True, False], nano=False) for s in SITES31], bounds="2 lines (thorough: 3) of two unknown characters, 3 indentations, 4 places"),
    Case("layouts", layouts, [dict(kinds=list(EXTRA31)[i::3], n=1, names=_L, variants=[["none", "all", "returned"][i]], nano=i == 1) for i in range(3)] + [dict(kinds=_K[i::12], n=1, names=_L[i % 3 :: 3], variants=[["none", "all", "returned"][i % 3]], nano=i % 2 == 1) for i in range(12)],
         [dict(kinds=_K[i::8], n=n, names=_L[j::3], variants=["none", "all", "returned"], nano=nano) for i in range(8) for j in range(3) for n in (1, 2) for nano in (False, True)],
         bounds="%d kinds of headers, unknown names, %d layout settings, 3 sets of options" % (len(_K), len(_L))),
    Case("locations", locations, [dict(kinds=_K[i::6], n=1, variants=[["none", "all", "returned"][i % 3]], nano=i % 2 == 1, files=list(FILES)[i % 4 : i % 4 + 2]) for i in range(6)],
         [dict(kinds=_K[i::6], n=n, variants=["none", "all", "returned"], nano=nano, files=list(FILES)) for i in range(6) for n in (1, 2) for nano in (False, True)],
         bounds="%d kinds of headers, unknown names, 4 file names, with 0, 1 or all parent folders" % len(_K)),
]
