"""C10 functions and methods: published with their parameters, defaults and types, and the bindings call the right C++ function"""
from .model import *

TYPE_NAMES = list(TYPES)


def params(h, n, types, names, allow_default=True):
    """n parameters with unknown names: [(type, name, default, python type, python default)]"""
    r = []
    must = False
    for i in range(n):
        t = h.choose("type" + str(i), types[i])
        py, defaults = TYPES[t]
        d = None
        if must:
            d = defaults[0] if defaults else (t + "()", None)
        elif allow_default and defaults:
            d = h.choose("default" + str(i), [None] + defaults)
            must = d is not None
        elif allow_default:
            pass
        r.append((t, names[i], d[0] if d else None, py, d[1] if d else None))
    return r


def cpp_decl(ps):
    return ", ".join([p[0] + " " + p[1] + (" = " + p[2] if p[2] is not None else "") for p in ps])


def check_params(h, it, b, ps, label, is_method, detail):
    sp = it.params[1:] if is_method else it.params
    h.check(len(sp) == len(ps), label + ": number of parameters in the stub", detail)
    h.check(len(b.params) == len(ps), label + ": number of parameters in the bindings", detail)
    for i in range(len(ps)):
        t, name, d, py, pyd = ps[i]
        h.eq(sp[i][0], name, label + ": name of a parameter in the stub")
        h.eq(b.params[i][0], name, label + ": name of a parameter in the bindings")
        if pyd == "None" and not py.startswith("Optional"):
            py = "Optional[" + py + "]"
        h.check(sp[i][1] == py, label + ": type of a parameter in the stub", (t, sp[i][1], detail))
        h.check((sp[i][2] is None) == (d is None), label + ": a parameter has a default value in the stub if and only if it has one in C++", detail)
        h.check((b.params[i][1] is None) == (d is None), label + ": a parameter has a default value in the bindings if and only if it has one in C++", detail)
        if d is not None:
            none = tight(b.params[i][1]) in ("nb::none()", "py::none()") and pyd == "None"
            h.check(none or tight(b.params[i][1]) == tight(d), label + ": default value in the bindings", (d, detail))
            if pyd is not None:
                h.check(sp[i][2] == pyd, label + ": default value in the stub", (pyd, sp[i][2], detail))


RETURNS = [("void", "None"), ("int", "int"), ("const std::string &", "str"), ("std::vector<double>", "List[float]"), ("bool", "bool"), ("double", "float")]


def free(h, n, nano, ns, types, forms, show=()):
    """a free function"""
    o = make_options(nano)
    for x in show:
        setattr(o, "original_" + x + "_flag_show", h.choose(x, [False, True]))
    fn = low(h, "function", 2)
    names = [low(h, "param" + str(i), 1, prefix="q") for i in range(n)]
    h.distinct(*names)
    ps = params(h, n, types, names)
    form = h.choose("form", forms)
    ret, pyret = h.choose("ret", RETURNS if n < 2 else RETURNS[:3])
    decl = ret + " " + fn + "(" + cpp_decl(ps) + ")"
    code = {"decl": decl + ";\n", "inline": "inline " + decl + " { return {}; }\n", "static": "static " + decl + ";\n", "noexcept": decl + " noexcept;\n",
            "extern": "extern " + decl + ";\n", "constexpr": "constexpr " + decl + " { return {}; }\n", "body": decl + " { /* } */ foo(\"}\"); }\n",
            "nodiscard": "[[nodiscard]] " + decl + ";\n", "auto": "auto " + fn + "(" + cpp_decl(ps) + ") -> " + ret + ";\n"}[form]
    path = ()
    qual = fn
    if ns:
        code = "namespace Nnn {\n" + code + "}\n"
        path = ("nnn",)
        qual = "Nnn::" + fn
    r = gen(o, "int first();\n" + code + "int last();\n")
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    it = one(h, stub.find("def", path, fn), "the function is in the stub once", detail)
    b = one(h, pydef.find("def", path, fn), "the function is bound once", detail)
    check_params(h, it, b, ps, "function", False, detail)
    h.check(it.ret == pyret, "return type in the stub", (pyret, it.ret, detail))
    h.check(b.cpp == qual or b.cpp == "&" + qual or f_str_contains(b.cpp, qual + "("), "the bindings call the function", detail)
    one(h, pydef.find("def", (), "first"), "its neighbours are bound", detail)
    one(h, pydef.find("def", (), "last"), "its neighbours are bound", detail)


def method(h, n, nano, types, scope, kinds, show=()):
    """a method"""
    o = make_options(nano)
    for x in show:
        setattr(o, "original_" + x + "_flag_show", h.choose(x, [False, True]))
    cls = up(h, "class", 1)
    fn = low(h, "method", 1)
    names = [low(h, "param" + str(i), 1, prefix="q") for i in range(n)]
    h.distinct(*names)
    ps = params(h, n, types, names)
    kind = h.choose("kind", kinds)
    ret, pyret = h.choose("ret", RETURNS[:3])
    sig = ret + " " + fn + "(" + cpp_decl(ps) + ")"
    decl = {"plain": sig + ";", "const": sig + " const;", "static": "static " + sig + ";", "virtual": "virtual " + sig + ";", "pure": "virtual " + sig + " = 0;",
            "override": sig + " override;", "inline": sig + " { return {}; }", "const_inline": "inline " + sig + " const { return {}; }", "noexcept": sig + " const noexcept;",
            "static_inline": "static inline " + sig + " { return {}; }"}[kind]
    code = "struct " + cls + " {\n    int first();\n    " + decl + "\n    int last() const;\n};\n"
    path = (cls,)
    qual = cls
    if scope == "ns":
        code = "namespace Nnn {\n" + code + "}\n"
        path = ("nnn", cls)
        qual = "Nnn::" + cls
    elif scope == "class":
        code = "struct Out {\n" + code + "int x;\n};\n"
        path = ("Out", cls)
        qual = "Out::" + cls
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    it = one(h, stub.find("def", path, fn), "the method is in the stub once", detail)
    b = one(h, pydef.find("def", path, fn), "the method is bound once", detail)
    st = kind.startswith("static")
    h.check(("staticmethod" in it.decorators) == st, "static in the stub if and only if it is static in C++", detail)
    h.check((b.method == "def_static") == st, "static in the bindings if and only if it is static in C++", detail)
    check_params(h, it, b, ps, "method", not st, detail)
    h.check(it.ret == pyret, "return type in the stub", (pyret, it.ret, detail))
    h.check(b.cpp == "&" + qual + "::" + fn, "the bindings call the method", (b.cpp, detail))
    one(h, pydef.find("def", path, "first"), "its neighbours are bound", detail)
    one(h, pydef.find("def", path, "last"), "its neighbours are bound", detail)


def ctor(h, n, nano, types, scope, kinds, show=()):
    """constructors"""
    o = make_options(nano)
    for x in show:
        setattr(o, "original_" + x + "_flag_show", h.choose(x, [False, True]))
    cls = up(h, "class", 1)
    names = [low(h, "param" + str(i), 1, prefix="q") for i in range(n)]
    h.distinct(*names)
    ps = params(h, n, types, names)
    kind = h.choose("kind", kinds)
    sig = cls + "(" + cpp_decl(ps) + ")"
    decl = {"plain": sig + ";", "explicit": "explicit " + sig + ";", "inline": sig + " : a1(1), a2{2} {}", "deleted": sig + " = delete;", "two": sig + ";\n    " + cls + "(char only);",
            "private": "private: " + sig + ";", "protected": "protected: " + sig + ";", "constexpr": "constexpr " + sig + " {}", "default": sig + " = default;"}[kind]
    code = "class " + cls + " {\npublic:\n    int first();\n    " + decl + "\n};\n"
    path = (cls,)
    qual = cls
    if scope == "ns":
        code = "namespace Nnn {\n" + code + "}\n"
        path = ("nnn", cls)
    elif scope == "class":
        code = "struct Out {\n" + code + "int x;\n};\n"
        path = ("Out", cls)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    inits = pydef.find("init", path, "__init__")
    its = stub.find("def", path, "__init__")
    if kind in ("deleted", "private", "protected"):
        h.check(len(inits) == 0 and len(its) == 0, "a constructor that is not accessible is not published (and no default one is invented)", detail)
        return
    h.check(len(inits) == (2 if kind == "two" else 1), "the constructors are bound", detail)
    b, it = inits[0], its[0]
    check_params(h, it, b, ps, "constructor", True, detail)
    h.check(b.init_types == [tight(p[0]) for p in ps], "the bindings call the constructor with its types", (b.init_types, detail))


def multi(h, n, nano, layout):
    """several functions: all of them are published, in order, each with its own target"""
    o = make_options(nano)
    fns = [low(h, "f" + str(i), 1) for i in range(n)]
    h.distinct(*fns)
    body = ""
    for i in range(n):
        body += "    " + h.choose("t" + str(i), ["int", "void"]) + " " + fns[i] + "(int a" + str(i) + ");" + h.choose("sep" + str(i), ["\n", "\n\n", " // comment\n"])
    if layout == "class":
        code, path, pre = "struct Ccc {\n" + body + "};\n", ("Ccc",), "&Ccc::"
    elif layout == "ns":
        code, path, pre = "namespace Nnn {\n" + body + "}\n", ("nnn",), "Nnn::"
    elif layout == "two_ns":
        k = body.index(fns[1])
        k = body.rindex("    ", 0, k)
        code, path, pre = "namespace Nnn {\n" + body[:k] + "}\nint other();\nnamespace Nnn {\n" + body[k:] + "}\n", ("nnn",), "Nnn::"
    elif layout == "extern":
        code, path, pre = 'extern "C" {\n' + body + "}\n", (), ""
    else:
        code, path, pre = body, (), ""
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    bs = [b for b in pydef.at(path, "def") if b.name != "other"]
    its = [x for x in stub.at(path, "def") if x.name not in ("other", "__init__")]
    h.check(len(bs) == n and len(its) == n, "every function is published once", detail)
    for i in range(n):
        h.eq(bs[i].name, fns[i], "the functions are bound in order")
        h.eq(its[i].name, fns[i], "the functions are in the stub in order")
        h.eq(bs[i].cpp, pre + fns[i], "each name is bound to its own function")
        h.eq(bs[i].params[0][0], "a" + str(i), "each function has its own parameters")
        h.eq(its[i].params[-1][0], "a" + str(i), "each function has its own parameters in the stub")


SIMPLE = ["int", "double", "const std::string &", "bool"]
SHOW = ["location", "signature"]
FORMS = ["decl", "inline", "static", "noexcept", "extern", "constexpr", "body", "nodiscard", "auto"]
KINDS = ["plain", "const", "static", "virtual", "pure", "inline", "const_inline", "noexcept", "static_inline"]
CTORS = ["plain", "explicit", "inline", "deleted", "two", "private", "protected", "constexpr", "default"]

CASES = [
    Case("free", free,
         [dict(n=0, nano=False, ns=True, types=[], forms=FORMS), dict(n=1, nano=True, ns=False, types=[TYPE_NAMES], forms=["decl"]),
          dict(n=2, nano=False, ns=True, types=[SIMPLE, SIMPLE], forms=["decl", "inline"]), dict(n=1, nano=False, ns=False, types=[SIMPLE], forms=FORMS),
          dict(n=3, nano=True, ns=True, types=[["int"], SIMPLE[1:3], ["float", "std::vector<int>"]], forms=["decl"]),
          dict(n=1, nano=False, ns=False, types=[SIMPLE[2:]], forms=["decl", "body"], show=SHOW)],
         [dict(n=1, nano=nano, ns=ns, types=[TYPE_NAMES], forms=FORMS) for nano in (False, True) for ns in (False, True)]
         + [dict(n=2, nano=nano, ns=True, types=[TYPE_NAMES, SIMPLE], forms=["decl", "inline"]) for nano in (False, True)]
         + [dict(n=3, nano=nano, ns=False, types=[SIMPLE, SIMPLE, TYPE_NAMES[:6]], forms=["decl"]) for nano in (False, True)],
         bounds="functions with up to 3 parameters of 22 types, with and without default values, unknown names, 9 forms of declarations, original location and signature shown or not"),
    Case("method", method,
         [dict(n=1, nano=False, types=[SIMPLE], scope="ns", kinds=KINDS), dict(n=2, nano=True, types=[["int", "double"], SIMPLE[2:]], scope="class", kinds=["plain", "static", "const"]),
          dict(n=0, nano=True, types=[], scope="", kinds=KINDS), dict(n=0, nano=False, types=[], scope="class", kinds=["plain", "static", "const_inline"], show=SHOW)],
         [dict(n=2, nano=nano, types=[SIMPLE, SIMPLE], scope=s, kinds=KINDS) for nano in (False, True) for s in ("", "ns", "class")],
         bounds="methods with up to 2 parameters, 9 kinds, in classes, inner classes and namespaces, unknown names"),
    Case("ctor", ctor,
         [dict(n=1, nano=False, types=[SIMPLE], scope="ns", kinds=CTORS), dict(n=2, nano=True, types=[["int", "double"], SIMPLE[2:]], scope="class", kinds=["plain", "inline"]),
          dict(n=0, nano=True, types=[], scope="", kinds=CTORS), dict(n=0, nano=False, types=[], scope="", kinds=["plain", "explicit", "default", "two"], show=SHOW),
          dict(n=1, nano=True, types=[SIMPLE[2:]], scope="ns", kinds=["plain", "two"], show=SHOW)],
         [dict(n=2, nano=nano, types=[SIMPLE, SIMPLE], scope=s, kinds=CTORS) for nano in (False, True) for s in ("", "ns", "class")],
         bounds="constructors with up to 2 parameters, 9 kinds, unknown names"),
    Case("multi", multi, [dict(n=2, nano=i % 2 == 0, layout=l) for i, l in enumerate(("", "class", "ns", "two_ns", "extern"))],
         [dict(n=3, nano=nano, layout=l) for nano in (False, True) for l in ("", "class", "ns", "two_ns", "extern")], bounds="2 (thorough: 3) functions with unknown names in 5 layouts"),
]
