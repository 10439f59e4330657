"""C14 classes: members, generated constructors, bases and class options"""
from .model import *

PLACES14 = {
    "root": ("%s", (), ""), "ns": ("namespace Na {\n%s}\n", ("na",), "Na::"), "inner": ("struct Outer {\n%s};\n", ("Outer",), "Outer::"),
    "nsinner": ("namespace Na {\nclass Outer {\npublic:\n%s};\n}\n", ("na", "Outer"), "Na::Outer::"), "nsns": ("namespace Na {\nnamespace Nb {\n%s}\n}\n", ("na", "nb"), "Na::Nb::"),
}

# kind: (declaration, published, mutable, static, annotation, value, parameter of the constructor (default in C++, in Python) or None)
MEMBERS = {
    "int": ("int @;", True, True, False, "int", None, ("int()", "int()")),
    "init": ("int @ = 5;", True, True, False, "int", "5", ("5", "5")),
    "float": ("float @ = 1.5f;", True, True, False, "float", "1.5", ("1.5f", "1.5")),
    "string": ('std::string @ = "a, b";', True, True, False, "str", '"a, b"', ('"a, b"', '"a, b"')),
    "vector": ("std::vector<int> @;", True, True, False, "List[int]", None, ("std::vector<int>()", "List[int]()")),
    "local": ("Loc @;", True, True, False, "LOC", None, ("SCOPE::Loc()", "LOC()")),
    "localvec": ("std::vector<Loc> @;", True, True, False, "List[LOC]", None, ("std::vector<SCOPE::Loc>()", "List[LOC]()")),
    "const": ("const int @ = 3;", True, False, False, "int", "3", None),
    "const local": ("const Loc @;", True, False, False, "LOC", None, None),
    "static": ("static int @;", True, True, True, "int", None, None),
    "static bool": ("static inline bool @ = true;", True, True, True, "bool", "True", None),
    "inline static": ("inline static int @ = 4;", True, True, True, "int", "4", None),
    "static const": ("static const int @ = 3;", True, False, True, "int", "3", None),
    "constexpr": ("static constexpr float @ = 1.f;", True, False, True, "float", "1.", None),
    "bitfield": ("int @ : 3;", False, None, None, None, None, None),
    "array2": ("int @[2][2];", False, None, None, None, None, None),
    "local array": ("Loc @[2];", False, None, None, None, None, None),
    "array": ("int @[3];", True, None, False, "np.ndarray", None, None),
    "ptr": ("int * @ = nullptr;", True, True, False, "Optional[int]", "None", None),
    "local ptr": ("Loc * @;", True, True, False, "LOC", None, None),
    "local ptr null": ("Loc * @ = NULL;", True, True, False, "Optional[LOC]", "None", None),
    "cstr": ('const char * @ = "x";', True, False, False, "str", '"x"', None),
    "unsigned": ("unsigned int @ = 3;", True, True, False, "int", "3", None),
    "ref": ("int & @;", False, None, None, None, None, None),
    "const int": ("const int @;", True, False, False, "int", None, None),
    "nodef": ("NoDef @;", True, True, False, "NODEF", None, None),
    "private": ("private:\nint @ = 1;\npublic:", False, None, None, None, None, None),
    "protected": ("protected:\nint @ = 1;\npublic:", False, None, None, None, None, None),
    "private ref": ("private:\nint & @;\npublic:", False, None, None, None, None, None),
    "method": ("int @(int a);", None, None, None, None, None, None),
}
UNDEFINED = ("ref", "const int", "nodef", "private ref")  # no default constructor is possible with these members
USUAL = ["int", "init", "string", "local", "const", "static", "inline static", "bitfield", "array", "ptr", "local ptr", "private", "protected"]
PRELUDE = "struct Loc { };\nstruct NoDef { NoDef(int zz); };\n"


def where(h, places):
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    pypath = ".".join(path)
    loc = {"root": "Loc", "ns": "na.Loc", "inner": "Outer.Loc", "nsinner": "na.Outer.Loc", "nsns": "na.nb.Loc"}[key]
    return text, path, scope, loc


def f_ann(got, want, loc):
    """the annotation is the expected one, whatever the valid qualification of the local type"""
    alts = [loc] + [loc[i + 1 :] for i in range(len(loc)) if loc[i] == "."]
    return f_or([f_eq(tight(got), tight(want.replace("NODEF", a.replace("Loc", "NoDef")).replace("LOC", a))) for a in alts])


def check_members(h, stub, pydef, nano, path, cpp_class, decls, loc, detail):
    members = [b for b in pydef.at(path) if b.kind in ("member", "prop", "def") and not b.name.startswith("__")]
    attrs = [x for x in stub.at(path) if x.kind in ("attr", "def") and not x.name.startswith("__")]
    want = [(k, n) for k, n in decls if k == "method" or MEMBERS[k][1]]
    h.check(len(members) == len(want) and len(attrs) == len(want), "the public members are published, and nothing else", detail)
    for i, (k, n) in enumerate(want):
        _d, _p, mutable, static, ann, value, _c = MEMBERS[k]
        h.eq(members[i].name, n, "the members are bound in order")
        h.eq(attrs[i].name, n, "the members are in the stub in order")
        if k == "method":
            h.check(members[i].kind == "def" and attrs[i].kind == "def", "methods", detail)
            continue
        h.check(f_ann(attrs[i].ann, ann, loc), "type of the attribute", (attrs[i].ann, ann, detail))
        h.check(attrs[i].value == value, "value of the attribute", (attrs[i].value, value, detail))
        if k == "array":
            h.check(members[i].kind == "prop", "arrays are bound as properties", detail)
            body = norm(members[i].extras[0].body) if members[i].extras else norm(members[i].target)
            h.check(f_str_contains(tight(body), "self." + n), "the property gives access to this array", (body, detail))
            continue
        h.check(members[i].kind == "member", "kind of binding", detail)
        method = ("def_rw" if mutable else "def_ro") if nano else ("def_readwrite" if mutable else "def_readonly")
        h.check(members[i].method == method + ("_static" if static else ""), "a member is writable unless it is const, and static if it is", (members[i].method, detail))
        h.eq(members[i].cpp, "&" + cpp_class + "::" + n, "the binding designates the member")


def check_named_ctor(h, stub, pydef, nano, path, scope, cpp_class, decls, loc, detail):
    """the constructor which sets all the members that can be set"""
    params = [(k, n) for k, n in decls if MEMBERS[k][6] is not None]
    b = one(h, pydef.find("init", path, "__init__"), "one constructor is bound", detail)
    it = one(h, stub.find("def", path, "__init__"), "one constructor is in the stub", detail)
    h.check([p[0] for p in b.params] == [n for _k, n in params], "it has the members that can be set as parameters", (b.params, detail))
    h.check([p[0] for p in it.params] == ["self"] + [n for _k, n in params], "it has the members that can be set as parameters in the stub", (it.params, detail))
    if not params:
        h.check(b.init_types == [], "default constructor", detail)
        return
    for i, (k, n) in enumerate(params):
        cpp, py = MEMBERS[k][6]
        cpp = cpp.replace("SCOPE::", scope)
        h.check(tight(b.params[i][1]) == tight(cpp), "default value of the parameter: the one of the member", (b.params[i], cpp, detail))
        h.check(f_ann(it.params[i + 1][1], MEMBERS[k][4], loc), "type of the parameter", (it.params, detail))
        h.check(f_ann(it.params[i + 1][2], py, loc), "default value of the parameter in the stub", (it.params, detail))
    lam = b.lambda_
    h.check(lam is not None, "it is bound with a lambda", detail)
    body = tight(lam.body)
    if nano:
        h.check(body.startswith("new(self)" + tight(cpp_class) + "();"), "it constructs the object in place", (body, detail))
    else:
        h.check(("make_unique<" + tight(cpp_class) + ">()" in body or "new" + tight(cpp_class) + "()" in body) and "return" in body, "it creates and returns the object", (body, detail))
    names = [n for _k, n in params]
    for n in names:
        h.check(f_str_contains(body, "->" + n + "=" + n + ";"), "it sets each member from its parameter", (body, detail))
    sets = [x for x in body.split(";") if "->" in x]
    h.check(len(sets) == len(names), "it sets nothing else", (body, detail))


def members(h, n, kinds, nano, classes, places, nchars):
    """the public members of a class: order, nature, type, value; and the constructor that sets them"""
    o = make_options(nano)
    text, path0, scope, loc = where(h, places)
    key = h.choose("key", classes)
    o.class_create_default_named_ctor__regex = r".*"
    ks = [h.choose("kind" + str(i), kinds) for i in range(n)]
    names = [low(h, "n" + str(i), nchars) for i in range(n)]
    if n > 1:
        h.distinct(*names)
    cls = up(h, "class", 1)
    decls = list(zip(ks, names))
    body = "\n".join([MEMBERS[k][0].replace("@", nm) for k, nm in decls])
    if ks[0] == "private" and key == "class":
        body = body.replace("private:\n", "", 1)  # the default access
    else:
        body = ("public:\n" if key == "class" else "") + body
    code = text % (PRELUDE + key + " " + cls + " {\n" + body + "\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    path = path0 + (cls,)
    one(h, pydef.find("class", path0, cls), "the class is bound", detail)
    check_members(h, stub, pydef, nano, path, scope + cls, decls, loc, detail)
    if any([k in UNDEFINED for k in ks]):
        h.check(pydef.find("init", path, "__init__") == [] and stub.find("def", path, "__init__") == [], "no constructor is invented for a class that C++ cannot construct by default", detail)
    else:
        check_named_ctor(h, stub, pydef, nano, path, scope, scope + cls, decls, loc, detail)


CTORS = {
    "none": ("", "auto", []), "zero": ("@();", "user", [[]]), "zero inline": ("@() {}", "user", [[]]), "default": ("@() = default;", "user", [[]]),
    "one": ("@(int aa);", "user", [["aa"]]), "two": ("@(); @(int aa);", "user", [[], ["aa"]]), "deleted": ("@() = delete;", "user", []), "deleted one": ("@() = delete; @(int aa);", "user", [["aa"]]),
    "copy deleted": ("@(const @ &) = delete;", "user", []), "private": ("private:\n@();\npublic:", "user", []), "protected one": ("protected:\n@(int aa);\npublic:", "user", []), "explicit": ("explicit @(int aa = 3);", "user", [["aa"]]),
}
DTORS = {"none": "", "public": "~@();", "virtual": "virtual ~@() = default;", "private": "private:\n~@();\npublic:", "protected": "protected:\n~@() {}\npublic:"}


def ctors(h, nano, forms, dtors, keys, places, n):
    """which constructors are published, given the ones of the class, its destructor and the options"""
    o = make_options(nano)
    text, path0, scope, loc = where(h, places)
    key = h.choose("key", keys)
    form = h.choose("ctor", forms)
    dtor = h.choose("dtor", dtors)
    cls, word = up(h, "class", n), up(h, "word", n)
    attr = h.choose("option", ["default", "struct", "class"])
    if attr == "struct":
        o.struct_create_default_named_ctor__regex = "^" + word + "$"
    elif attr == "class":
        o.class_create_default_named_ctor__regex = "^" + word + "$"
    name = low(h, "member", 1)
    decls = [("init", name)]
    public = "public:\n" if key == "class" else ""
    body = public + CTORS[form][0].replace("@", cls) + "\nint " + name + " = 5;\n" + DTORS[dtor].replace("@", cls) + "\n"
    code = text % (PRELUDE + key + " " + cls + " {\n" + body + "};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, attr, word, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    path = path0 + (cls,)
    c = one(h, pydef.find("class", path0, cls), "the class is bound", detail)
    check_members(h, stub, pydef, nano, path, scope + cls, decls, loc, detail)
    bound = [[p[0] for p in b.params] for b in pydef.find("init", path, "__init__")]
    announced = [[p[0] for p in it.params][1:] for it in stub.find("def", path, "__init__")]
    if CTORS[form][1] == "user":
        h.check(bound == CTORS[form][2] and announced == CTORS[form][2], "the public constructors of the class, and no other one", (bound, announced, detail))
    else:
        named = key == "struct"
        if attr == key:
            named = decide_(f_str_eq(cls, word))
        if named and dtor not in ("private", "protected"):
            check_named_ctor(h, stub, pydef, nano, path, scope, scope + cls, decls, loc, detail)
        else:
            h.check(bound == [[]] and announced == [[]], "the implicit default constructor", (bound, announced, detail))
    nodelete = [x for x in c.bases if "nodelete" in x]
    h.check(len(nodelete) == (1 if dtor in ("private", "protected") and not nano else 0), "Python does not delete the objects whose destructor is not accessible", (c.bases, detail))


def decide_(f):
    if f is True or f is False:
        return f
    from symx import core, ops

    return ops.decide(f) if core._ENGINE is not None else bool(f)


ACCESS = {"": True, "public ": True, "private ": False, "protected ": False, "virtual public ": True, "public virtual ": True}


def bases(h, nano, accesses, layouts, n):
    """the published bases of a class: those which are accessible, in order, in both outputs"""
    o = make_options(nano)
    layout = h.choose("layout", layouts)
    a1 = h.choose("access1", accesses)
    a2 = h.choose("access2", accesses + [None])
    b1, b2, cls = up(h, "b1", n), up(h, "b2", n, prefix="R"), up(h, "class", n, prefix="S")
    first = "struct " + b1 + " { int aa; };\n"
    second = "struct " + b2 + " { int bb; };\n"
    key = h.choose("key", ["struct ", "class "])
    if key == "class ":
        h.assume(a1 != "" and a2 != "")  # see the assumptions

    def derived(pre1, pre2):
        return key + cls + " : " + a1 + pre1 + b1 + ("" if a2 is None else ", " + a2 + pre2 + b2) + " {\npublic:\nint cc;\n};\n"

    if layout == "root":
        code, path, s1, s2, s = first + second + derived("", ""), (), "", "", ""
    elif layout == "ns":
        code, path, s1, s2, s = first + "namespace Na {\n" + second + derived("", "") + "}\n", ("na",), "", "Na::", "Na::"
    elif layout == "qualified":
        code, path, s1, s2, s = "namespace Nb {\n" + first + "}\nnamespace Na {\n" + second + derived("Nb::", "Na::") + "}\n", ("na",), "Nb::", "Na::", "Na::"
    else:
        code, path, s1, s2, s = "struct Outer {\n" + first + second + derived("Outer::", "") + "};\n", ("Outer",), "Outer::", "Outer::", "Outer::"
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    want = [(x, b) for x, b, a in ((s1, b1, a1), (s2, b2, a2)) if a is not None and ACCESS[a]]
    c = one(h, pydef.find("class", path, cls), "the class is bound", detail)
    it = one(h, stub.find("class", path, cls), "the class is in the stub", detail)
    h.check([tight(x) for x in c.bases] == [x + b for x, b in want], "the accessible bases are bound, in order", (c.bases, detail))
    pyscope = {"": "", "Na::": "na.", "Nb::": "nb.", "Outer::": "Outer."}
    h.check(len(it.bases) == len(want), "the accessible bases are in the stub", (it.bases, detail))
    for got, (x, b) in zip(it.bases, want):
        h.check(f_or([f_eq(got, pyscope[x] + b)] + ([f_eq(got, b)] if x == s and layout != "inner" and False else [])), "the bases are in the stub, in order, with their path", (got, detail))
    for nm, m, sc in ((b1, "aa", s1), (b2, "bb", s2)):
        one(h, [x for x in pydef.bindings if x.kind == "member" and x.name == m], "the members of a base are bound once, in the base", detail)


def options(h, nano, n, places, names):
    """class options: each one applies to the classes whose name matches, and to them only"""
    o = make_options(nano)
    text, path0, scope, loc = where(h, places)
    which = h.choose("option", names)
    c1, c2, word = up(h, "c1", n), up(h, "c2", n), up(h, "word", n)
    h.distinct(c1, c2)
    how = h.choose("how", ["regex", "callable"])
    rx = ("^" + word + "$") if how == "regex" else (lambda s: s == word)
    if which == "dynamic":
        o.class_dynamic_attributes__regex = rx
    elif which == "shared":
        o.class_held_as_shared__regex = rx
    elif which == "copy":
        o.class_copy__regex = rx
    elif which == "deepcopy":
        o.class_deep_copy__regex = rx
    elif which == "both":
        o.class_copy__regex = rx
        o.class_deep_copy__regex = rx
        o.class_copy_add_info_in_stub = True
    elif which == "iterable":
        o.class_iterables_infos.add_iterable_class(rx, "int")
    copyctor = h.choose("copy", ["", "@(const @ &);", "@(const @ &) = delete;", "private:\n@(const @ & oo);\npublic:", "@(@ && oo);"]) if which in ("copy", "deepcopy", "both") else ""
    final = h.choose("final", ["", " final"])
    code = text % ("struct " + c1 + final + " {\n" + copyctor.replace("@", c1) + "\nint aa;\n};\nstruct " + c2 + " { int bb; };\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, which, word, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano, ignore=("__copy__", "__deepcopy__"))
    colon = "nb::" if nano else "py::"
    for c, fin, cc in ((c1, final, copyctor), (c2, "", "")):
        path = path0 + (c,)
        b = one(h, pydef.find("class", path0, c), "the class is bound", detail)
        it = one(h, stub.find("class", path0, c), "the class is in the stub", detail)
        selected = decide_(f_str_eq(c, word))
        h.check((colon + "is_final()" in b.extras) == (fin != ""), "final classes", (b.extras, detail))
        h.check((colon + "dynamic_attr()" in b.extras) == (which == "dynamic" and selected), "dynamic attributes", (b.extras, detail))
        holders = [tight(x) for x in b.bases]
        h.check(holders == (["std::shared_ptr<" + scope + c + ">"] if which == "shared" and selected and not nano else []), "holder of the class", (holders, detail))
        copyable = selected and "delete" not in cc and "private" not in cc and "&&" not in cc
        for meth, whichs in (("__copy__", ("copy", "both")), ("__deepcopy__", ("deepcopy", "both"))):
            bs = pydef.find("def", path, meth)
            want = which in whichs and copyable
            h.check(len(bs) == (1 if want else 0), "copy methods are published for the selected classes that can be copied", (meth, detail))
            if want:
                lam = bs[0].lambda_
                h.check(lam is not None, "the copy is made by a lambda", detail)
                h.check(f_str_contains(tight(lam.body), "return " + scope + c + "(self)"), "the copy is made by the copy constructor of the class", (lam.body, detail))
                h.check(len(lam.params) == (1 if meth == "__copy__" else 2), "parameters of the copy method", detail)
        iterable = which == "iterable" and selected
        for meth in ("__iter__", "__len__"):
            h.check(len(pydef.find("def", path, meth)) == (1 if iterable else 0) and len(stub.find("def", path, meth)) == (1 if iterable else 0), "iteration methods", (meth, detail))
        if iterable:
            h.eq(stub.find("def", path, "__iter__")[0].ret, "Iterator[int]", "type of the iterator")


ARRAY_TYPES = ["int", "unsigned int", "float", "double", "uint8_t", "Loc", "std::string", "char", "bool"]


def arrays(h, nano, nd, types, places, sizes):
    """members that are C arrays: numeric ones are published as numpy arrays of the size that C++ gives them"""
    o = make_options(nano)
    text, path0, scope, loc = where(h, places)
    t = h.choose("type", types)
    how = h.choose("size", sizes)
    digits = h.str("digits", nd, "0123456789")
    h.assume(f_not(f_str_eq(digits[0], "0")))
    name, word = low(h, "name", 1), low(h, "word", 1)
    pre, size, known = "", digits, True
    if how == "macro":
        o.srcmlcpp_options.named_number_macros["COUNT_Q"] = 12
        size = "COUNT_Q"
        digits = "12"
    elif how == "define":
        pre = "#define COUNT_Q " + digits + "\n"
        size = "COUNT_Q"
    elif how == "unknown":
        size, known = "COUNT_Q", False
    elif how == "hex":
        h.assume(nd == 1)
        size = "0x" + digits
    selected = True
    if h.bool("regex"):
        o.member_numeric_c_array_replace__regex = "^" + word + "$"
        selected = decide_(f_str_eq(name, word))
    init = h.choose("init", ["", " = {}", " = {1}"])
    code = pre + text % (PRELUDE + "struct Cls {\nint before;\n" + t + " " + name + "[" + size + "]" + init + ";\nint after;\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, word, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    path = path0 + ("Cls",)
    numeric = t in ("int", "unsigned int", "float", "double", "uint8_t", "bool")
    want = known and numeric and selected
    bs = [b for b in pydef.at(path) if b.kind in ("member", "prop")]
    its = [x for x in stub.at(path) if x.kind == "attr"]
    h.check(len(bs) == (3 if want else 2) and len(its) == len(bs), "an array is published if and only if it is numeric, of a known size, and selected", detail)
    h.check(bs[0].name == "before" and bs[-1].name == "after" and its[0].name == "before" and its[-1].name == "after", "its neighbours are published", detail)
    it = one(h, stub.find("def", path, "__init__"), "one constructor", detail)
    h.check([p[0] for p in it.params] == ["self", "before", "after"], "an array is not a parameter of the constructor", detail)
    if want:
        h.eq(bs[1].name, name, "name of the property")
        h.eq(its[1].name, name, "name of the attribute")
        h.check(its[1].ann == "np.ndarray", "type of the attribute", detail)
        lam = bs[1].extras[0] if bs[1].extras else None
        h.check(lam is not None, "it is bound with a lambda", detail)
        whole = tight(r.pydef_code)
        if nano:
            h.check(f_str_contains(whole, "nb::ndarray<" + tight(t) + ",nb::numpy,nb::shape<" + digits + ">"), "type and size of the numpy array", detail)
        else:
            h.check(f_str_contains(whole, "format_descriptor<" + tight(t) + ">"), "type of the numpy array", detail)
            h.check(f_str_contains(whole, "{" + digits + "},{sizeof(" + tight(t) + ")},self." + name), "size and address of the numpy array", detail)
        c = its[1].comment or ""
        h.check(f_str_contains(tight(c), "type=" + tight(t) + ",size=" + digits + "]"), "the comment gives its type and size", (c, detail))


ASSUMPTIONS = [
    "a base of a `class` has an explicit access specifier: without one, the base is published as if it were public (this is what test_class_custom_inheritance__callback expects)",
    "members of anonymous unions and structs are not part of the domain (litgen announces that it ignores them)",
]
ALL = [k for k in MEMBERS if k != "method"]
CASES = [
    Case("members", members,
         [dict(n=1, kinds=list(MEMBERS), nano=False, classes=["struct", "class"], places=["root", "nsinner"], nchars=1), dict(n=2, kinds=["init", "local", "static const", "private", "bitfield", "ptr"], nano=True, classes=["struct"], places=["ns"], nchars=1),
          dict(n=1, kinds=list(MEMBERS), nano=True, classes=["struct"], places=["inner"], nchars=1), dict(n=3, kinds=["int", "protected", "method"], nano=False, classes=["class"], places=["nsns"], nchars=1)],
         [dict(n=2, kinds=list(MEMBERS), nano=nano, classes=["struct", "class"], places=[p], nchars=1) for nano in (False, True) for p in ("ns", "nsinner")] + [dict(n=3, kinds=["int", "local", "static", "private", "method"], nano=False, classes=["struct"], places=["ns"], nchars=1)],
         bounds="up to 3 members of 30 kinds with unknown names, 5 places"),
    Case("ctors", ctors,
         [dict(nano=False, forms=list(CTORS), dtors=["none"], keys=["struct", "class"], places=["root"], n=1), dict(nano=True, forms=["none", "zero", "one"], dtors=list(DTORS), keys=["struct", "class"], places=["ns"], n=1), dict(nano=False, forms=["none"], dtors=list(DTORS), keys=["struct"], places=["inner"], n=1)],
         [dict(nano=nano, forms=list(CTORS), dtors=list(DTORS), keys=["struct", "class"], places=[p], n=1) for nano in (False, True) for p in ("root", "nsinner")], bounds="12 forms of constructors, 5 destructors, unknown names"),
    Case("bases", bases,
         [dict(nano=False, accesses=list(ACCESS), layouts=["ns", "inner"], n=1), dict(nano=True, accesses=["", "public ", "private "], layouts=["root", "qualified"], n=1)],
         [dict(nano=nano, accesses=list(ACCESS), layouts=["root", "ns", "qualified", "inner"], n=2) for nano in (False, True)], bounds="up to 2 bases, 6 kinds of inheritance, 4 layouts, unknown names"),
    Case("options", options,
         [dict(nano=False, n=1, places=["root", "nsinner"], names=["dynamic", "shared", "copy", "deepcopy", "both", "iterable"]), dict(nano=True, n=1, places=["ns"], names=["dynamic", "shared", "both", "iterable"])],
         [dict(nano=nano, n=2, places=list(PLACES14), names=["dynamic", "shared", "copy", "deepcopy", "both", "iterable"]) for nano in (False, True)], bounds="2 classes and a pattern with unknown names, 6 options"),
    Case("arrays", arrays,
         [dict(nano=False, nd=2, types=["int", "unsigned int", "Loc", "uint8_t"], places=["ns"], sizes=["literal", "macro"]), dict(nano=True, nd=1, types=["double", "std::string"], places=["inner"], sizes=["literal", "define", "unknown", "hex"])],
         [dict(nano=nano, nd=nd, types=ARRAY_TYPES, places=["root", "nsinner"], sizes=["literal", "macro", "define", "unknown"]) for nano in (False, True) for nd in (1, 3)], bounds="sizes of up to 3 unknown digits, 9 types"),
]
