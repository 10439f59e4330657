"""C16 custom bindings: user code is added once, where it was asked, and nowhere else"""
import litgen

from .model import *
from .c14 import decide_
from .c15 import canon, open_ns


def layout_code(kind, names):
    """-> (C++ code, [(C++ name, path in the stub and in the bindings, is a class)] of the scopes that custom code may name)"""
    a, b, c = names
    if kind == "classes":
        return "struct " + a + " { int aa; };\nstruct " + b + " { int bb; };\n", [(a, (a,), True), (b, (b,), True)]
    if kind == "ns class":
        return open_ns([a], "", "struct " + c + " { int aa; };\n") + "struct " + b + " { int bb; };\n", [(a + "::" + c, (a.lower(), c), True), (b, (b,), True), (a, (a.lower(),), False)]
    if kind == "inner":
        return "struct " + a + " {\nstruct " + c + " { int aa; };\nint cc;\n};\nstruct " + b + " { int bb; };\n", [(a, (a,), True), (a + "::" + c, (a, c), True), (b, (b,), True)]
    if kind == "nested":
        return open_ns([a, b], "", "int ff(int aa);\n"), [(a, (a.lower(),), False), (a + "::" + b, (a.lower(), b.lower()), False)]
    if kind == "reopened":
        return open_ns([a], "", "int ff(int aa);\n") + open_ns([b], "", "int gg();\n") + open_ns([a], "", "struct " + c + " { int aa; };\n"), [(a, (a.lower(),), False), (b, (b.lower(),), False), (a + "::" + c, (a.lower(), c), True)]
    if kind == "same name":
        return open_ns([a], "", "struct " + c + " { int aa; };\n") + open_ns([b], "", "struct " + c + " { int bb; };\n"), [(a + "::" + c, (a.lower(), c), True), (b + "::" + c, (b.lower(), c), True), (c, None, True), (a, (a.lower(),), False), (b, (b.lower(),), False)]
    raise AssertionError(kind)


def stub_text(name, style, is_class, static):
    sig = "def " + name + "(" + ("self, " if is_class and not static else "") + "aa: int) -> int"
    deco = "@staticmethod\n" if static else ""
    if style == "plain":
        return deco + sig + ": ..."
    if style == "indented":
        return "\n" + "\n".join("        " + x for x in (deco + sig + ': ...').split("\n")) + "\n    "
    text = deco + sig + ":\n    \"\"\"doc one\n\n    doc two\"\"\"\n    ..."
    return "\n" + "\n".join(("    " + x) if x else "" for x in text.split("\n")) + "\n"


def pydef_text(var, name, style, method, nano, is_method):
    params = ("const MyType & self, " if is_method else "") + "int aa"
    arg = ("nb" if nano else "py") + '::arg("aa")'
    if style == "plain":
        return var + "." + method + '("' + name + '", [](' + params + ") { return aa; }, " + arg + ");"
    text = var + "." + method + '("' + name + '",\n    [](' + params + ")\n    {\n        return aa;\n    }, " + arg + ");"
    if style == "indented":
        return "\n" + "\n".join("        " + x for x in text.split("\n")) + "\n    "
    return "\n" + text + "\n\n"


def scopes(h, nano, kinds, styles, n, alphabet, two):
    """custom code for a scope whose name is unknown: it is in this scope, once, in both outputs, if the scope exists"""
    o = make_options(nano)
    kind = h.choose("layout", kinds)
    known = []
    names = [canon(known, h.ident(x, n, prefix="N", alphabet=alphabet)) for x in ("n1", "n2", "n3")]
    h.assume(names[0] is not names[1] and names[0] is not names[2])
    h.assume(names[1] is not names[2])
    code, targets = layout_code(kind, names)
    i = h.choose("target", list(range(len(targets))))
    # the custom code names its scope on its own: equal or not to the one of the program
    parts = [h.ident("s" + str(j), n, prefix="N", alphabet=alphabet) for j in range(targets[i][0].count("::") + 1)]
    parts = [canon(known, x) for x in parts]
    scope = "::".join(parts)
    path = None
    for cpp, p, is_class in targets:
        if cpp == scope:
            h.assume(is_class == targets[i][2])  # a class is named for add_custom_bindings_to_class, a namespace for the other one
            path = p
    is_class = targets[i][2]
    style = h.choose("style", styles)
    which = h.choose("which", ["both", "stub", "pydef"])
    f1, f2 = low(h, "f1", n), low(h, "f2", n, prefix="x")
    static = is_class and h.bool("static")
    add = o.custom_bindings.add_custom_bindings_to_class if is_class else o.custom_bindings.add_custom_bindings_to_submodule
    var = "LG_CLASS" if is_class else "LG_SUBMODULE"
    method = "def_static" if static else "def"
    fs = [f1, f2] if two else [f1]
    for f in fs:
        add(scope, stub_text(f, style, is_class, static or not is_class) if which != "pydef" else None, pydef_text(var, f, style, method, nano, is_class and not static) if which != "stub" else None)
    for turn in range(2):
        r = gen(o, code)
        if turn == 0:
            h.observe(r.stub_code)
        detail = (code, scope, which, r.stub_code, r.pydef_code)
        stub, pydef = parsed(h, r, nano, ignore=fs)
        for fs1, where in ((fs, "added"),):
            bs = [b for b in pydef.bindings if b.name in fs1]
            its = [x for x in stub.items if x.name in fs1]
            h.check([b.name for b in bs] == (fs1 if path is not None and which != "stub" else []), "the custom bindings are added once, in order, if and only if their scope is published", detail)
            h.check([x.name for x in its] == (fs1 if path is not None and which != "pydef" else []), "the custom stub code is added once, in order, if and only if its scope is published", detail)
            for b in bs:
                h.check(b.path == path and b.kind == "def" and b.method == method, "the custom bindings are added to this scope", (b.path, path, detail))
            for x in its:
                h.check(x.path == path and x.kind == "def" and ("staticmethod" in x.decorators) == (static or not is_class), "the custom stub code is inside the class of this scope", (x.path, path, detail))
        check_rest(h, stub, pydef, fs, detail)


def check_rest(h, stub, pydef, fs, detail):
    """the program itself is published as usual"""
    for nm in ("aa", "bb", "cc"):
        members = [b for b in pydef.bindings if b.kind == "member" and b.name == nm]
        attrs = [x for x in stub.items if x.kind == "attr" and x.name == nm]
        h.check(len(members) == len(attrs), "the members are published as usual", detail)
    for nm in ("ff", "gg"):
        h.check(len([b for b in pydef.bindings if b.kind == "def" and b.name == nm]) == len([x for x in stub.items if x.kind == "def" and x.name == nm]), "the functions are published as usual", detail)


def modules(h, nano, n, headers, styles):
    """custom code for the main module and for submodules: once for a generator, however many headers it processes"""
    o = make_options(nano)
    style = h.choose("style", styles)
    f1, f2 = low(h, "f1", n), low(h, "f2", n, prefix="x")
    o.custom_bindings.add_custom_bindings_to_main_module(stub_text(f1, style, False, False), pydef_text("LG_MODULE", f1, style, "def", nano, False))
    o.custom_bindings.add_custom_bindings_to_submodule("Na", stub_text(f2, style, False, True), pydef_text("LG_SUBMODULE", f2, style, "def", nano, False))
    bodies = {"empty": "", "global": "int gg@();\n", "ns": "namespace Na { int ff@(); }\n", "two": "namespace Na { int ff@(); }\nint gg@();\nnamespace Na { int hh@(); }\n"}
    kinds = [h.choose("header" + str(i), sorted(bodies)) for i in range(headers)]
    for turn in range(2):
        generator = litgen.LitgenGenerator(o)
        for i, k in enumerate(kinds):
            generator.process_cpp_code(bodies[k].replace("@", str(i)), "")
        stub_code, pydef_code = generator.stub_code(), generator.pydef_code()
        if turn == 0:
            h.observe(stub_code)
        detail = (kinds, turn, stub_code, pydef_code)
        stub, pydef = parse_stub(stub_code), parse_pydef(pydef_code, nano)
        h.check(len([b for b in pydef.bindings if b.name == f1]) == 1 and len([x for x in stub.items if x.name == f1]) == 1, "the custom code of the main module is added once", detail)
        b, x = pydef.find("def", (), f1), stub.find("def", (), f1)
        h.check(len(b) == 1 and len(x) == 1, "it is in the main module", detail)
        has_ns = any([k in ("ns", "two") for k in kinds])
        want = 1 if has_ns else 0
        h.check(len(pydef.find("def", ("na",), f2)) == want and len(stub.find("def", ("na",), f2)) == want, "the custom code of a submodule is added once, if the submodule exists", detail)
        h.check(len([b for b in pydef.bindings if b.name == f2]) == want and len([x for x in stub.items if x.name == f2]) == want, "and nowhere else", detail)
        for i, k in enumerate(kinds):
            for nm, ks, path in (("ff", ("ns", "two"), ("na",)), ("gg", ("global", "two"), ()), ("hh", ("two",), ("na",))):
                m = 1 if k in ks else 0
                h.check(len(pydef.find("def", path, nm + str(i))) == m and len(stub.find("def", path, nm + str(i))) == m, "the functions of the headers are published as usual", detail)


ASSUMPTIONS = [
    "custom code for a submodule is given for a namespace that is a submodule (root and excluded namespaces are not); the user code is valid Python and C++",
    "a header processed later by the same generator may open a namespace again: its functions are then in a second class of the same name in the stub (see C21)",
]
CASES = [
    Case("scopes", scopes,
         [dict(nano=False, kinds=["classes", "ns class", "inner"], styles=["plain"], n=1, alphabet="xyz", two=False), dict(nano=True, kinds=["nested", "reopened", "same name"], styles=["indented"], n=1, alphabet="xyz", two=False),
          dict(nano=False, kinds=["reopened", "inner"], styles=["doc"], n=1, alphabet="xyz", two=True)],
         [dict(nano=nano, kinds=["classes", "ns class", "inner", "nested", "reopened", "same name"], styles=["plain", "indented", "doc"], n=1, alphabet="wxyz", two=two) for nano in (False, True) for two in (False, True)],
         bounds="programs with up to 3 scopes of unknown names, custom code for one of them named by an unknown qualified name, 3 styles of code"),
    Case("modules", modules,
         [dict(nano=False, n=1, headers=2, styles=["plain", "indented", "doc"]), dict(nano=True, n=1, headers=1, styles=["plain"])],
         [dict(nano=nano, n=2, headers=3, styles=["plain", "doc"]) for nano in (False, True)], bounds="up to 3 headers of 4 kinds, generated twice with the same options"),
]
