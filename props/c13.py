"""C13 exclusion options: what they select disappears from the stub and from the bindings, and nothing else does"""
from .model import *

import re


def how_matches(o, attr, how, w):
    """sets an option that selects exactly the name w"""
    if how == "regex":
        setattr(o, attr, "^" + w + "$")
    elif how == "callable":
        setattr(o, attr, lambda s: s == w)
    elif how == "alternatives":
        setattr(o, attr, "^zzz1$|^" + w + "$")
    elif how == "prefix":
        setattr(o, attr, "^" + w)


def f_selected(how, w, name):
    if how == "prefix":
        return f_str_eq(name[: len(w)], w) if len(w) <= len(name) else False
    return f_str_eq(name, w)


def low_(camel):
    """the Python suffix of a name whose C++ suffix is `camel`"""
    return "_val" if camel != "" else ""


HOWS = ["regex", "callable", "alternatives", "prefix"]


def published(h, stub, pydef, kind, path, name, want, label, detail):
    """published in both outputs if and only if `want` holds (it is decided on this path)"""
    want = bool_of(h, want)
    skinds = {"def": ("def",), "class": ("class",), "enum": ("class",), "module": ("class",), "attr": ("attr",)}[kind]
    pkinds = {"def": ("def", "init"), "class": ("class",), "enum": ("enum",), "module": ("module",), "attr": ("member", "prop", "attr", "value")}[kind]
    n_stub = len([x for x in stub.items if x.kind in skinds and x.path == path and x.name == name])
    n_pydef = len([x for x in pydef.bindings if x.kind in pkinds and x.path == path and x.name == name])
    h.check((n_stub > 0) == want, label + ": in the stub if and only if it is not excluded", detail)
    h.check((n_pydef > 0) == want, label + ": bound if and only if it is not excluded", detail)


def bool_of(h, f):
    if f is True or f is False:
        return f
    return decide_(f)


def decide_(f):
    try:
        from symx import core, ops

        return ops.decide(f) if core._ENGINE is not None else bool(f)
    except ImportError:
        return bool(f)


PLACES = {
    "free": ("%s\nint keep();\n", ()),
    "ns": ("namespace Nnn {\n%s\nint keep();\n}\n", ("nnn",)),
    "struct": ("struct Ccc {\n%s\nint keep();\n};\n", ("Ccc",)),
    "inner": ("struct Out {\nstruct Ccc {\n%s\nint keep();\n};\n};\n", ("Out", "Ccc")),
}


def fn_name(h, how, n, place, nano):
    o = make_options(nano)
    f1, f2 = low(h, "f1", n), low(h, "f2", n)
    w = low(h, "word", n)
    h.distinct(f1, f2)
    camel = h.choose("camel", ["", "Val"])  # (the options select C++ names, not Python names)
    p1, f1, w = f1 + low_(camel), f1 + camel, w + camel
    how_matches(o, "fn_exclude_by_name__regex", how, w)
    text, path = PLACES[place]
    pre = h.choose("static", ["", "static "]) if place in ("struct", "inner") else ""
    code = text % (pre + "int " + f1 + "(int a);\nint " + f2 + "x(int a = 1);")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, r.stub_code, r.pydef_code)
    published(h, stub, pydef, "def", path, p1, f_not(f_selected(how, w, f1)), "function", detail)
    published(h, stub, pydef, "def", path, f2 + "x", f_not(f_selected(how, w, f2 + "x")), "function", detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


TYPES13 = ["int", "int *", "const int &", "Foo", "Foo &", "const Foo &", "std::vector<Foo>", "unsigned int", "FooCallback"]
REGEX13 = ["^int$", r"^int\s*\*$", "Foo", "^Foo$", r"&$", "Callback$", r"^const\s", "std::vector", "^int$|^Foo$"]


def fn_type(h, place, nano, pos):
    """functions excluded by the type of a parameter or by the return type"""
    o = make_options(nano)
    t = h.choose("type", TYPES13)
    rx = h.choose("regex", REGEX13)
    how = h.choose("how", ["regex", "callable"])
    o.fn_exclude_by_param_type__regex = rx if how == "regex" else (lambda s: re.search(rx, s) is not None)
    fn = low(h, "f", 1)
    text, path = PLACES[place]
    decl = {"first": "void " + fn + "(" + t + " a, char b);", "last": "void " + fn + "(char b, " + t + " a);", "ret": t + " " + fn + "(char b);"}[pos]
    code = text.replace("int keep()", "void keep()") % decl
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, rx, r.stub_code, r.pydef_code)
    published(h, stub, pydef, "def", path, fn, re.search(rx, t) is None, "function", detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


def fn_signature(h, place, nano, n):
    """functions excluded by name and signature"""
    o = make_options(nano)
    f1, f2, w = low(h, "f1", n), low(h, "f2", n), low(h, "word", n)
    h.distinct(f1, f2)
    sigs = ["int", "int, Foo", "const Foo &", ""]
    sig = h.choose("excluded", sigs[:3])
    o.fn_exclude_by_name_and_signature = {w: sig}
    text, path = PLACES[place]
    s1, s2 = h.choose("s1", sigs), h.choose("s2", sigs)

    def decl(s):
        return ", ".join([t + " a" + str(i) for i, t in enumerate(s.split(", "))]) if s != "" else ""

    code = text % ("void " + f1 + "(" + decl(s1) + ");\nvoid " + f2 + "(" + decl(s2) + ");")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, sig, r.stub_code, r.pydef_code)
    for f, s in ((f1, s1), (f2, s2)):
        published(h, stub, pydef, "def", path, f, f_not(f_and([f_str_eq(f, w), s == sig])), "function", detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


def fn_overload(h, place, nano):
    """one of two overloads is excluded: the other one is published, and the binding still designates it"""
    o = make_options(nano)
    fn = low(h, "f", 1)
    which = h.choose("which", [0, 1, 2])
    how = h.choose("how", ["type", "signature"])
    decls = ["void " + fn + "(int a);", "void " + fn + "(const Foo & b, char c);"]
    if which < 2:
        if how == "type":
            o.fn_exclude_by_param_type__regex = "^int$" if which == 0 else "Foo"
        else:
            o.fn_exclude_by_name_and_signature = {fn: "int" if which == 0 else "const Foo &, char"}
    text, path = PLACES[place]
    code = text.replace("int keep()", "void keep()") % "\n".join(decls)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    want = [["b", "c"]] if which == 0 else [["a"]] if which == 1 else [["a"], ["b", "c"]]
    bs = pydef.find("def", path, fn)
    h.check([[p[0] for p in b.params] for b in bs] == want, "the overloads that are not excluded are bound", detail)
    for b in bs:
        types = "int" if b.params[0][0] == "a" else "const Foo &,char"
        h.check(f_str_contains(b.cpp, "overload_cast<" + tight(types) + ">"), "the binding says which overload it calls", detail)


def fn_params(h, nano, n, place, what):
    """parameters removed by name or by type (if they have a default value)"""
    o = make_options(nano)
    names = [low(h, "p" + str(i), 1) for i in range(n)]
    h.distinct(*names)
    w = low(h, "word", 1)
    types = [h.choose("t" + str(i), ["int", "double"]) for i in range(n)]
    first = h.choose("first_default", list(range(n + 1)))
    defaults = [("1" if types[i] == "int" else "2.5") + str(i) if i >= first else None for i in range(n)]
    if what == "name":
        how = h.choose("how", ["regex", "callable"])
        how_matches(o, "fn_params_exclude_names__regex", how, w)
    else:
        o.fn_params_exclude_types__regex = "^int$"
    text, path = PLACES[place]
    decl = "void fff(" + ", ".join([types[i] + " " + names[i] + (" = " + defaults[i] if defaults[i] else "") for i in range(n)]) + ");"
    code = text % decl
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, r.stub_code, r.pydef_code)
    it = one(h, stub.find("def", path, "fff"), "in the stub", detail)
    b = one(h, pydef.find("def", path, "fff"), "bound", detail)
    gone = [bool_of(h, f_and([defaults[i] is not None, f_str_eq(names[i], w) if what == "name" else types[i] == "int"])) for i in range(n)]
    keep = [i for i in range(n) if not gone[i]]
    got = [p[0] for p in it.params if p[0] != "self"]
    h.check(len(got) == len(keep) and all([got[j] == names[keep[j]] for j in range(len(got))]), "the other parameters stay", detail)
    if len(keep) < n:
        h.check(b.lambda_ is not None, "the binding supplies the removed parameters", detail)
        args = [names[i] if not gone[i] else defaults[i] for i in range(n)]
        target = {"free": "fff", "ns": "Nnn::fff", "struct": "self.fff", "inner": "self.fff"}[place]
        h.check(f_str_contains(tight(b.lambda_.body), target + "(" + ",".join(args) + ")"), "the function is called with the default values of the removed parameters", detail)


def api(h, nano, n, place, exclude):
    """functions without the API marker"""
    o = make_options(nano)
    m = h.ident("marker", n, prefix="M", alphabet="XYZ_")
    m2 = h.ident("marker2", n, prefix="M", alphabet="XYZ_")
    o.srcmlcpp_options.functions_api_prefixes = m
    o.fn_exclude_non_api = exclude
    text, path = PLACES[place]
    f1, f2 = low(h, "f1", 1), low(h, "f2", 1)
    h.distinct(f1, f2)
    code = text.replace("int keep", m + " int keep") % (m + " int " + f1 + "(int a);\nint " + f2 + "(" + h.choose("params", ["", "int b"]) + ");\n" + m2 + " int other();")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, m, r.stub_code, r.pydef_code)
    same = bool_of(h, f_str_eq(m, m2))
    stub, pydef = parsed(h, r, nano)
    published(h, stub, pydef, "def", path, f1, True, "a function with the marker", detail)
    published(h, stub, pydef, "def", path, f2, not exclude, "a function without the marker", detail)
    if same or not exclude:
        published(h, stub, pydef, "def", path, "other", True, "a function with the marker", detail)
    else:
        published(h, stub, pydef, "def", path, "other", False, "a function with another marker", detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)
    it = stub.find("def", path, f1)[0]
    h.check(it.ret == "int", "the marker is not a part of the return type", detail)


def types(h, nano, kind, n, how, place):
    """classes, enums and namespaces excluded by name"""
    o = make_options(nano)
    letters = "xyz" if kind == "namespace" else "xyzXYZ"  # (the Python name of a namespace splits its words)
    w = up(h, "word", n, alphabet=letters)
    a, b = up(h, "a", n, alphabet=letters), up(h, "b", n, alphabet=letters)
    h.distinct(a, b)
    how_matches(o, {"struct": "class_exclude_by_name__regex", "class": "class_exclude_by_name__regex", "enum": "enum_exclude_by_name__regex", "namespace": "namespace_exclude__regex"}[kind], how, w)
    d = {"struct": "struct %s { int x; };\n", "class": "class %s { public: int x(); };\n", "enum": "enum class %s { xx };\n", "namespace": "namespace %s { int x(); }\n"}[kind]
    code = (d % a) + (d % b)
    path = ()
    if place == "ns":
        code = "namespace Nnn {\n" + code + "int keep();\n}\n"
        path = ("nnn",)
    elif place == "struct":
        code = "struct Ccc {\n" + code + "int keep();\n};\n"
        path = ("Ccc",)
    else:
        code = code + "int keep();\n"
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, r.stub_code, r.pydef_code)
    for x in (a, b):
        py = x if kind != "namespace" else x.lower()
        k = {"struct": "class", "class": "class", "enum": "enum", "namespace": "module"}[kind]
        published(h, stub, pydef, k, path, py, f_not(f_selected(how, w, x)), kind, detail)
        inside = {"struct": ("attr", "x"), "class": ("def", "x"), "enum": ("attr", "xx"), "namespace": ("def", "x")}[kind]
        published(h, stub, pydef, inside[0], path + (py,), inside[1], f_not(f_selected(how, w, x)), "content of an excluded " + kind, detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


def hidden_ns(h, n):
    """namespaces which look internal are excluded by default"""
    o = make_options()
    a = h.ident("ns", n, prefix="", alphabet="dDei") + h.choose("tail", ["tail", "etail", "nternal", "ail"])
    h.assume(f_and([f_not(f_str_eq(a, k)) for k in ("int",)]))
    code = "namespace " + a + " { int inside(); }\nint keep();\n"
    r = gen(o, code)
    h.observe(r.stub_code)
    hidden = f_or([f_str_contains(a, x) for x in ("internal", "Internal", "detail", "Detail")])
    h.check(f_iff(f_str_contains(r.stub_code, "def inside("), f_not(hidden)), "internal namespaces are not in the stub, the other ones are", (code, r.stub_code))
    h.check(f_iff(f_str_contains(r.pydef_code, '"inside"'), f_not(hidden)), "internal namespaces are not bound, the other ones are", (code, r.pydef_code))
    h.contains(r.pydef_code, '"keep"', "the neighbours are bound")


MEMBER_TYPES = ["int", "std::string", "Foo", "double *", "const int"]


M_PLACES = [("", "", ()), ("namespace Nn {\n", "}\n", ("nn",)), ("struct Outer {\n", "};\n", ("Outer",))]


def members(h, nano, what, n, how):
    """members excluded by name, by type, by name and class; they do not appear in the constructor either"""
    o = make_options(nano)
    a, b, w = low(h, "a", n), low(h, "b", n), low(h, "word", n)
    h.distinct(a, b)
    camel = h.choose("camel", ["", "Val"])  # (the options select C++ names, not Python names)
    pa, a, w = a + low_(camel), a + camel, w + camel
    ta = h.choose("ta", MEMBER_TYPES)
    cls = up(h, "class", 1)
    pre, post, scope = h.choose("where", M_PLACES)
    rx = None
    if what == "name":
        how_matches(o, "member_exclude_by_name__regex", how, w)
    elif what == "class":
        cls2 = up(h, "class2", 1)
        o.member_exclude_by_name_and_class__regex = {cls2: ("^" + w + "$") if how == "regex" else (lambda s: s == w)}
    else:
        rx = h.choose("rx", ["^int$", "string", r"\*$", "^Foo$|^int$"])
        o.member_exclude_by_type__regex = rx
    init = {"int": "1", "const int": "1", "std::string": '""'}.get(ta, "")
    path = scope + (cls,)
    code = pre + "struct " + cls + " {\n" + ta + " " + a + (" = " + init if init != "" else "") + ";\nbool " + b + " = false;\nint keep();\n};\n" + post
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, rx, r.stub_code, r.pydef_code)
    for x, t, px in ((a, ta, pa), (b, "bool", b)):
        if what == "name":
            gone = f_selected(how, w, x)
        elif what == "class":
            gone = f_and([f_str_eq(cls, cls2), f_str_eq(x, w)])
        else:
            gone = re.search(rx, t) is not None
        gone = bool_of(h, gone)
        published(h, stub, pydef, "attr", path, px, not gone, "member", detail)
        its = stub.find("def", path, "__init__")
        h.check(len(its) == 1, "one constructor", detail)
        in_ctor = px in [p[0] for p in its[0].params]
        h.check(in_ctor == ((not gone) and t in ("int", "std::string", "Foo", "bool")), "an excluded member is not a parameter of the generated constructor", (x, detail))
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


def readonly(h, nano, what, n, how):
    """members that the options make read-only"""
    o = make_options(nano)
    a, b, w = low(h, "a", n), low(h, "b", n), low(h, "word", n)
    h.distinct(a, b)
    camel = h.choose("camel", ["", "Val"])  # (the options select C++ names, not Python names)
    pa, a, w = a + low_(camel), a + camel, w + camel
    ta = h.choose("ta", ["int", "Foo", "const int"])
    pre, post, scope = h.choose("where", M_PLACES)
    rx = None
    if what == "name":
        how_matches(o, "member_readonly_by_name__regex", how, w)
    else:
        rx = h.choose("rx", ["^int$", "^Foo$"])
        o.member_readonly_by_type__regex = rx
    code = pre + "struct Ccc {\n" + ta + " " + a + (" = 1" if ta != "Foo" else "") + ";\nbool " + b + ";\n};\n" + post
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, rx, r.stub_code, r.pydef_code)
    for x, t, px in ((a, ta, pa), (b, "bool", b)):
        ro = t.startswith("const ")
        if what == "name":
            ro = ro or bool_of(h, f_selected(how, w, x))
        else:
            ro = ro or re.search(rx, t) is not None
        m = one(h, pydef.find("member", scope + ("Ccc",), px), "the member is bound", detail)
        h.check(m.method == (("def_ro" if nano else "def_readonly") if ro else ("def_rw" if nano else "def_readwrite")), "a member is read-only if and only if it is const or selected by the options", (x, detail))
        h.eq(m.cpp, "&" + {"": "", "nn": "Nn::", "Outer": "Outer::"}["".join(scope)] + "Ccc::" + x, "the binding designates the member")


def included(h, nano, what, n, how):
    """macros and global variables are published if the options select them only"""
    o = make_options(nano)
    a, b, w = low(h, "a", n), low(h, "b", n), low(h, "word", n)
    h.distinct(a, b)
    attr = "macro_define_include_by_name__regex" if what == "macro" else "globals_vars_include_by_name__regex"
    set_it = h.bool("set")
    if set_it:
        how_matches(o, attr, how, w)
    d = "#define %s 12\n" if what == "macro" else "int %s = 12;\n"
    code = (d % a) + (d % b) + "int keep();\n"
    if h.bool("ns"):
        code = "namespace Nnn {\n" + code + "}\n"
        path = ("nnn",)
    else:
        path = ()
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, w, r.stub_code, r.pydef_code)
    for x in (a, b):
        published(h, stub, pydef, "attr", path, x, f_and([set_it, f_selected(how, w, x)]), what, detail)
    published(h, stub, pydef, "def", path, "keep", True, "neighbour", detail)


_P = list(PLACES)
_types = [dict(nano=i % 2 == 0, kind=k, n=1, how=how, place=pl) for i, (k, how, pl) in enumerate(
    [(k, how, pl) for k in ("struct", "class", "enum", "namespace") for how in HOWS for pl in ("", "ns", "struct") if not (k == "namespace" and pl == "struct")])]

CASES = [
    Case("fn_name", fn_name, [dict(how=how, n=1, place=_P[i], nano=i % 2 == 0) for i, how in enumerate(HOWS)] + [dict(how="regex", n=1, place=p, nano=True) for p in _P],
         [dict(how=how, n=2, place=p, nano=nano) for how in HOWS for p in _P for nano in (False, True)], bounds="2 functions and a pattern with unknown names of 2 or 3 characters, 4 kinds of patterns, 4 places"),
    Case("fn_type", fn_type, [dict(place=p, nano=i % 2 == 0, pos=pos) for i, (p, pos) in enumerate([("free", "first"), ("struct", "last"), ("ns", "ret"), ("inner", "ret")])],
         [dict(place=p, nano=nano, pos=pos) for p in _P for pos in ("first", "last", "ret") for nano in (False, True)], bounds="9 types, 9 patterns"),
    Case("fn_signature", fn_signature, [dict(place=p, nano=i % 2 == 0, n=1) for i, p in enumerate(("free", "struct"))], [dict(place=p, nano=nano, n=2) for p in _P for nano in (False, True)],
         bounds="2 functions, unknown names, 4 signatures each"),
    Case("fn_overload", fn_overload, [dict(place=p, nano=i % 2 == 0) for i, p in enumerate(_P)], [dict(place=p, nano=nano) for p in _P for nano in (False, True)], bounds="one of two overloads is excluded"),
    Case("fn_params", fn_params, [dict(nano=i % 2 == 0, n=2, place=p, what=w) for i, (p, w) in enumerate([(p, w) for p in _P for w in ("name", "type")])],
         [dict(nano=nano, n=3, place=p, what=w) for p in _P for w in ("name", "type") for nano in (False, True)], bounds="2 (thorough: 3) parameters with unknown names, with or without default values"),
    Case("api", api, [dict(nano=i % 2 == 0, n=1, place=p, exclude=e) for i, (p, e) in enumerate([(p, e) for p in _P for e in (True, False)])],
         [dict(nano=nano, n=2, place=p, exclude=e) for p in _P for e in (True, False) for nano in (False, True)], bounds="API markers with unknown names"),
    Case("types", types, _types[::3] + _types[1::5], _types + [dict(x, n=2) for x in _types], bounds="2 classes, enums or namespaces and a pattern with unknown names"),
    Case("hidden_ns", hidden_ns, [dict(n=n) for n in (1, 2, 3)], bounds="namespaces named with up to 3 unknown characters and a suffix"),
    Case("members", members, [dict(nano=i % 2 == 0, what=w, n=1, how=how) for i, (w, how) in enumerate([("name", "regex"), ("name", "callable"), ("name", "prefix"), ("class", "regex"), ("class", "callable"), ("type", "")])],
         [dict(nano=nano, what=w, n=2, how=how) for nano in (False, True) for w, how in [("name", "regex"), ("name", "callable"), ("name", "prefix"), ("class", "regex"), ("class", "callable"), ("type", "")]],
         bounds="2 members and a pattern with unknown names, 5 types"),
    Case("readonly", readonly, [dict(nano=i % 2 == 0, what=w, n=1, how=how) for i, (w, how) in enumerate([("name", "regex"), ("name", "callable"), ("type", "")])],
         [dict(nano=nano, what=w, n=2, how=how) for nano in (False, True) for w, how in [("name", "regex"), ("name", "callable"), ("type", "")]], bounds="2 members and a pattern with unknown names"),
    Case("included", included, [dict(nano=i % 2 == 0, what=w, n=1, how=how) for i, (w, how) in enumerate([(w, how) for w in ("macro", "global") for how in ("regex", "callable", "prefix")])],
         [dict(nano=nano, what=w, n=2, how=how) for nano in (False, True) for w in ("macro", "global") for how in HOWS], bounds="2 macros or variables and a pattern with unknown names"),
]
