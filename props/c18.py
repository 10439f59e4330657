"""C18 template functions and classes are instantiated as requested"""
from .c14 import PLACES14, decide_, f_ann
from .model import *

# type of the specialization: (suffix, python type, value of T() in C++, in Python)
SPECS = {
    "int": ("int", "int", "int()", "int()"),
    "double": ("double", "float", "double()", "float()"),
    "std::string": ("string", "str", "std::string()", '""'),
    "bool": ("bool", "bool", "bool()", "bool()"),
    "std::vector<int>": ("vector_int", "List[int]", None, None),
    "int *": ("int_ptr", "int", None, None),
    "LOC": ("LOC", "LOC", "LOC()", "LOC()"),
}

# parameter: (C++ type, python type, default in C++, in Python); @ is the template parameter, # its translation
PARAMS = {
    "val": ("@", "#", None, None),
    "cref": ("const @ &", "#", None, None),
    "vec": ("const std::vector<@> &", "List[#]", None, None),
    "map": ("std::map<int, std::vector<@>>", "Dict[int, List[#]]", None, None),
    "null": ("const @ *", "Optional[#]", "nullptr", "None"),
    "default": ("@", "#", "@()", "#()"),
    "cref default": ("const @ &", "#", "@()", "#()"),
    "fn": ("std::function<@(int)>", "Callable[[int], #]", None, None),
    "other": ("OTHER", "OTHER", None, None),
    "int": ("int", "int", "3", "3"),
    "string": ("const std::string &", "str", '"@ of <@>"', '"@ of <@>"'),
}
RETURNS = {"val": ("@", "#"), "void": ("void", "None"), "cref": ("const @ &", "#"), "vec": ("std::vector<@>", "List[#]"), "int": ("int", "int"), "other": ("OTHER", "OTHER")}


def spec_of(key, scope):
    """(C++ type, suffix, python type, T() in C++, T() in Python)"""
    suffix, py, cpp0, py0 = SPECS[key]
    if key == "LOC":
        return scope + "Loc", (scope + "Loc").replace("::", "_"), "LOC", scope + "Loc()", "LOC()"
    return key, suffix, py, cpp0, py0


def f_py(got, want, path, other):
    """the annotation (or the value) is the expected one, whatever the valid qualification of the local types"""
    alts = []
    for i in range(len(path) + 1):
        q = "".join([p + "." for p in path[i:]])
        alts.append(want.replace("LOC", q + "Loc").replace("OTHER", q + other))
    return f_or([f_eq(tight(got), tight(a)) for a in alts])


def fill(text, tname, spec):
    cpp, suffix, py, cpp0, py0 = spec
    return text.replace("@()", cpp0 or "?").replace("#()", py0 or "?").replace("@", cpp).replace("#", py)


def check_params(h, got, kinds, names, spec, tname, path, other, label, detail):
    """the parameters in the stub"""
    h.check([p[0] for p in got] == names, label + "parameters", (got, detail))
    for p, k in zip(got, kinds):
        _cpp, py, _cd, pd = PARAMS[k]
        if k == "string":
            pd = pd.replace("@", tname)
        h.check(f_py(p[1], fill(py, tname, spec), path, other), label + "type of a parameter", (p, spec, detail))
        if pd is None:
            h.check(p[2] is None, label + "no default value", (p, detail))
        else:
            h.check(p[2] is not None and f_py(p[2], fill(pd, tname, spec), path, other), label + "default value in the stub", (p, spec, detail))


def check_cpp_defaults(h, got, kinds, names, spec, tname, scope, label, detail):
    h.check([p[0] for p in got] == names, label + "bound parameters", (got, detail))
    for p, k in zip(got, kinds):
        cd = PARAMS[k][2]
        if cd is None:
            h.check(p[1] is None, label + "no default value is bound", (p, detail))
        elif k == "null":
            h.check(p[1] in ("nullptr", "py::none()", "nb::none()"), label + "null is bound", (p, detail))
        else:
            want = cd.replace("@", tname) if k == "string" else fill(cd, tname, spec)
            h.check(f_eq(tight(p[1]), tight(want)), label + "default value that is bound", (p, want, detail))


def usable(kinds, keys):
    return not any("default" in k and SPECS[s][2] is None for k in kinds for s in keys)


def f_target(nano, got, address, types, const, other, scope):
    """the target of a binding is this address, with or without a cast that selects the overload"""
    cast = ("nb" if nano else "py") + "::overload_cast<"
    alts = [address]
    for a in types_alternatives(types, other, scope):
        alts.append(cast + ",".join(a) + ">(" + address + (", nb::const_)" if nano else ", py::const_)") if const else cast + ",".join(a) + ">(" + address + ")")
    return f_or([f_eq(tight(got), tight(a)) for a in alts])


def types_alternatives(types, other, scope):
    return [[t.replace("OTHER", q + other) for t in types] for q in ([scope, ""] if scope else [""])]


def place_of(h, places):
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    return key, text, tuple([p.capitalize() for p in path]), scope  # (the names are not converted to snake case)


def ordered(kinds):
    """no mandatory parameter after an optional one"""
    seen = False
    for k in kinds:
        if PARAMS[k][2] is None and seen:
            return False
        seen = seen or PARAMS[k][2] is not None
    return True


def functions(h, nspecs, nparams, specs, kinds, returns, suffix, forms, nano, places, names="id", split=False):
    """a template function is published once per requested type: name, target, types, and default values are those of this type"""
    o = make_options(nano)
    w, text, path, scope = place_of(h, places)
    form = h.choose("form", forms)
    keys = [h.choose("spec" + str(i), specs) for i in range(nspecs)]
    ks = [h.choose("kind" + str(i), kinds) for i in range(nparams)]
    ret = h.choose("return", returns)
    add_suffix = h.choose("suffix", suffix)
    if len(set(keys)) < len(keys) or not usable(ks, keys) or not ordered(ks):
        return
    if not add_suffix and nspecs > 1 and not [k for k in ks if "@" in PARAMS[k][0]]:
        return  # (in Python as in C++, they could not be called)
    tname = h.ident("T", 1, prefix="T", alphabet="xyz7_")
    other = h.ident("other", 1, prefix="T", alphabet="xyz7_")
    fn = low(h, "fn", 1) if names == "id" else h.ident("fn", 2, prefix="F", alphabet="oOT_")
    args = [h.ident("p" + str(i), 1, prefix="pT", alphabet="xyz7") for i in range(nparams)]
    h.distinct(tname, other)
    if nparams > 1:
        h.distinct(*args)
    o.python_convert_to_snake_case = False
    decl = "template<" + h.choose("key", ["typename", "class"]) + " " + tname + "> "
    params = []
    for k, a in zip(ks, args):
        cpp, _py, cd, _pd = PARAMS[k]
        params.append(cpp.replace("@", tname).replace("OTHER", other) + " " + a + ("" if cd is None else " = " + cd.replace("@", tname)))
    decl += ("static " if form == "static" else "") + RETURNS[ret][0].replace("@", tname).replace("OTHER", other) + " " + fn + "(" + ", ".join(params) + ")" + (" const" if form == "const" else "") + ";\n"
    local = "struct Loc { };\nstruct " + other + " { };\nint plain(" + other + " qq, " + "int " + "pT = 2);\n"
    if form == "fn" or "inner" in w:
        is_method = "inner" in w
        body, fpath, fscope = local + decl, path, scope
    else:
        is_method = True
        body, fpath, fscope = local + "struct Host {\n" + decl + "};\n", path + ("Host",), scope + "Host::"
    code = text % body
    if split:
        # another template is requested for other types, with the other kind of names, before or after
        first = h.choose("first", [True, False])
        for mine in ([False, True] if first else [True, False]):
            if mine:
                o.fn_template_options.add_specialization(lambda s: s == fn, [spec_of(k, scope)[0] for k in keys], add_suffix)
            else:
                o.fn_template_options.add_specialization(lambda s: s == "plain" or s == fn + "other", ["bool"] + [spec_of(k, scope)[0] for k in keys], not add_suffix)
    else:
        o.fn_template_options.add_specialization(lambda s: s == fn, [spec_of(k, scope)[0] for k in keys], add_suffix)
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano, ignore=("overload",))
    pname = fn if names == "id" else fn
    bound = [b for b in pydef.at(fpath) if b.kind == "def" and b.name != "plain"]
    told = [x for x in stub.at(fpath) if x.kind == "def" and x.name not in ("plain", "__init__")]
    h.check(len(bound) == nspecs and len(told) == nspecs, "one function for each type", detail)
    for i, k in enumerate(keys):
        spec = spec_of(k, scope)
        name = pname + ("_" + spec[1] if add_suffix else "")
        h.eq(bound[i].name, name, "name that is bound")
        h.eq(told[i].name, name, "name in the stub")
        address = ("&" if is_method else "") + fscope + fn + "<" + spec[0] + ">"
        h.check(f_target(nano, bound[i].target, address, [fill(PARAMS[k][0], tname, spec) for k in ks], form == "const", other, scope), "the instantiation of the template is bound", (bound[i].target, address, detail))
        h.check(("static" in bound[i].method) == (form == "static"), "static methods are bound as such", (bound[i].method, detail))
        skip = 1 if is_method and form != "static" else 0
        check_params(h, told[i].params[skip:], ks, args, spec, tname, path, other, "", detail)
        check_cpp_defaults(h, bound[i].params, ks, args, spec, tname, scope, "", detail)
        h.check(f_py(told[i].ret, fill(RETURNS[ret][1], tname, spec), path, other), "return type", (told[i].ret, detail))
    it = one(h, stub.find("def", path, "plain"), "the other functions are not modified", detail)
    h.check(f_py(it.params[-2][1], "OTHER", path, other), "types of the other functions", (it.params, detail))


# member of a template class: (declaration, kind, type in Python, value in Python, parameters); @ is the template parameter, $ the unknown name, CLS the class
# parameter: (name, type in the bindings, Python type, default in C++, default in Python)
ITEMS18 = {
    "data": ("@ $;", "member", "#", None, None),
    "data init": ("@ $ = @();", "member", "#", "#()", None),
    "vec": ("std::vector<@> $;", "member", "List[#]", None, None),
    "int": ("int $ = 3;", "member", "int", "3", None),
    "string": ('std::string $ = "@ <@>";', "member", "str", '"@ <@>"', None),
    "other": ("OTHER $;", "member", "OTHER", None, None),
    "static": ("static @ $;", "member", "#", None, None),
    "self ptr": ("CLS * $ = nullptr;", "member", "Optional[SELF]", "None", None),
    "method": ("@ $(const @ & aa, int bb = 2);", "def", "#", None, [("aa", "const @ &", "#", None, None), ("bb", "int", "int", "2", "2")]),
    "method const": ("void $(int aa) const;", "def", "None", None, [("aa", "int", "int", None, None)]),
    "method static": ("static CLS $(const CLS & aa);", "def", "SELF", None, [("aa", "const CLS &", "SELF", None, None)]),
    "method self": ("CLS<@> $(std::vector<CLS<@>> aa);", "def", "SELF", None, [("aa", "std::vector<CLS>", "List[SELF]", None, None)]),
    "method default": ("OTHER $(@ aa = @(), OTHER bb = OTHER());", "def", "OTHER", None, [("aa", "@", "#", "@()", "#()"), ("bb", "OTHER", "OTHER", "SCOPE::OTHER()", "OTHER()")]),
    "ctor": ("CLS(@ aa, int $ = 1);", "init", "None", None, [("aa", "@", "#", None, None), ("$", "int", "int", "1", "1")]),
    "ctor copy": ("CLS(const CLS & $);", "init", "None", None, [("$", "const CLS &", "SELF", None, None)]),
    "ctor vec": ("CLS(const std::vector<@> & $, OTHER bb);", "init", "None", None, [("$", "const std::vector<@> &", "List[#]", None, None), ("bb", "OTHER", "OTHER", None, None)]),
    "inner": ("struct $ { @ aa; int bb(CLS cc); };", "class", None, None, None),
    "enum": ("enum class $ { aa, bb };", "enum", None, None, None),
    "private": ("private:\n@ $;\npublic:", None, None, None, None),
}


def f_py18(got, want, path, other, cls, tname, spec):
    """the Python type (or value) is the expected one, whatever the valid qualification of the names"""
    want = want.replace("SELF", "CLS_" + spec[1])
    alts = []
    for i in range(len(path) + 1):
        q = "".join([p + "." for p in path[i:]])
        alts.append(fill(want, tname, spec).replace("CLS_", q + "CLS_").replace("LOC", q + "Loc").replace("OTHER", q + other).replace("CLS", cls).replace(cls + "_" + q + "Loc", cls + "_Loc"))
    return f_or([f_eq(tight(got), tight(a)) for a in alts])


def fill_cpp(text, tname, spec, cls, other, scope):
    """the C++ type in the bindings"""
    text = text.replace("CLS", "{CLS}").replace("SCOPE::", "").replace("OTHER", scope + other)
    return fill(text, tname, spec).replace("{CLS}", scope + cls + "<" + spec[0] + ">")


def classes(h, nspecs, nitems, specs, items, nano, places, users, synonyms=(False,)):
    """a template class is published once per requested type: its members are those of this type, and the other declarations refer to it"""
    o = make_options(nano, python_convert_to_snake_case=False)
    w, text, path, scope = place_of(h, places)
    keys = [h.choose("spec" + str(i), specs) for i in range(nspecs)]
    ks = [h.choose("item" + str(i), items) for i in range(nitems)]
    if len(set(keys)) < len(keys) or len([k for k in ks if k.startswith("ctor")]) > 1:
        return
    if ("data init" in ks or "method default" in ks) and [k for k in keys if SPECS[k][2] is None]:
        return
    tname = h.ident("T", 1, prefix="T", alphabet="xyz7_")
    other = h.ident("other", 1, prefix="T", alphabet="xyz7_")
    h.distinct(tname, other)
    cls = up(h, "class", 1)
    names = [h.ident("name" + str(i), 1, prefix="nT", alphabet="xyz7") for i in range(nitems)]
    if nitems > 1:
        h.distinct(*names)
    body = ""
    for k, n in zip(ks, names):
        body += ITEMS18[k][0].replace("CLS", "{CLS}").replace("OTHER", other).replace("@", tname).replace("$", n).replace("{CLS}", cls) + "\n"
    decl = "template<" + h.choose("key", ["class"] if nano else ["typename"]) + " " + tname + "> struct " + cls + " {\n" + body + "};\n"
    local = "struct Loc { };\nstruct " + other + " { };\n"
    # the users of the class
    user = h.choose("user", users)
    us = spec_of(h.choose("user type", keys + ["float"]) if user else keys[0], scope)
    return _classes2(h, o, nspecs, keys, ks, names, nano, path, scope, text, local, decl, user, us, tname, other, cls, synonyms)


SPECS["float"] = ("float", "float", "float()", "float()")
USERS18 = {
    # (declaration, kind, Python type, default in Python); CLS<@> is the type that is used
    "param": ("int use(CLS<@> aa);", "param", "SELF", None),
    "cref": ("int use(const CLS<@> & aa);", "param", "SELF", None),
    "default": ("int use(CLS<@> aa = CLS<@>());", "param", "SELF", "SELF()"),
    "null": ("int use(CLS<@> * aa = nullptr);", "param", "Optional[SELF]", "None"),
    "vector": ("int use(std::vector<CLS<@>> aa);", "param", "List[SELF]", None),
    "map": ("int use(const std::map<int, CLS<@>> & aa);", "param", "Dict[int, SELF]", None),
    "return": ("CLS<@> use(int aa);", "return", "SELF", None),
    "return vector": ("std::vector<CLS<@>> use(int aa);", "return", "List[SELF]", None),
    "member": ("struct Use { CLS<@> aa; };", "member", "SELF", None),
    "member init": ("struct Use { CLS<@> aa = CLS<@>(); };", "member", "SELF", "SELF()"),
    "member vector": ("struct Use { std::vector<CLS<@>> aa; };", "member", "List[SELF]", None),
    "method": ("struct Use { int use(CLS<@> aa); };", "method", "SELF", None),
}


def _classes2(h, o, nspecs, keys, ks, names, nano, path, scope, text, local, decl, user, us, tname, other, cls, synonyms):
    after = ""
    user_root = False
    if user:
        qualified = h.choose("qualified", [False, True]) if scope else False
        user_root = h.choose("user at root", [False, True]) if scope else False
        u = USERS18[user][0]
        t = us[0] if qualified or user_root else us[0].replace(scope + "Loc", "Loc")
        u = u.replace("CLS<@>", ("CLS<@>" if not (qualified or user_root) else scope + "CLS<@>")).replace("CLS", cls).replace("@", t) + "\n"
        after = u
    code = text % (local + decl + ("" if user_root else after)) + (after if user_root else "")
    syn = h.choose("synonym", synonyms)
    o.class_template_options.add_specialization(lambda s: s == cls, [spec_of(k, scope)[0] for k in keys], ["MyS=" + spec_of(keys[0], scope)[0]] if syn else None)
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    others = [b for b in pydef.at(path, "class")]
    h.check(len(others) == 2 + nspecs + (1 if user and "Use" in USERS18[user][0] and not user_root else 0), "one class for each type", detail)
    for k in keys:
        spec = spec_of(k, scope)
        name = cls + "_" + spec[1]
        bs = [b for b in others if decide_(f_eq(b.name, name))]
        its = [x for x in stub.at(path, "class") if decide_(f_eq(x.name, name))]
        b, it = one(h, bs, "the class of a type is bound once", detail), one(h, its, "the class of a type is announced once", detail)
        cpp = scope + cls + "<" + spec[0] + ">"
        h.check(f_eq(tight(b.cpp), tight(cpp)), "the instantiation of the template is bound", (b.cpp, detail))
        cpath = path + (name,)
        bound = [x for x in pydef.bindings if len(x.path) == len(cpath) and x.path[:-1] == path and decide_(f_eq(x.path[-1], name))]
        told = [x for x in stub.items if len(x.path) == len(cpath) and x.path[:-1] == path and decide_(f_eq(x.path[-1], name))]
        n_own = 0
        for item, n in zip(ks, names):
            _d, kind, py, value, params = ITEMS18[item]
            if kind is None:
                continue
            n_own += 1
            tkind = {"member": "attr", "enum": "class", "init": "def"}.get(kind, kind)
            bb = [x for x in bound if x.kind == kind and (kind == "init" and x.lambda_ is None or decide_(f_eq(x.name, n)))]
            tt = [x for x in told if x.kind == tkind and (decide_(f_eq(x.name, "__init__" if kind == "init" else n)))]
            x, y = one(h, bb, item + ": bound once", detail), one(h, tt, item + ": announced once", detail)
            if kind == "member":
                h.check(f_eq(tight(x.cpp), tight("&" + cpp + "::" + n)), "member that is bound", (x.cpp, detail))
                h.check(("static" in x.method) == (item == "static"), "static members", (x.method, detail))
                h.check(f_py18(y.ann, py, path, other, cls, tname, spec), "type of a member", (y, detail))
                if value is None:
                    h.check(y.value is None, "no value", (y, detail))
                elif item == "string":
                    h.check(y.value is not None and f_eq(tight(y.value), tight(value.replace("@", tname))), "value of a member", (y, detail))
                else:
                    h.check(y.value is not None and f_py18(y.value, value, path, other, cls, tname, spec), "value of a member", (y, detail))
            if kind in ("def", "init"):
                if kind == "def":
                    h.check(f_eq(tight(x.target), tight("&" + cpp + "::" + n)), "method that is bound", (x.target, detail))
                    h.check(("static" in x.method) == (item == "method static"), "static methods", (x.method, detail))
                    h.check(f_py18(y.ret, py, path, other, cls, tname, spec), "return type", (y, detail))
                else:
                    h.check(len(x.init_types) == len(params), "types of the constructor", (x, detail))
                    for t, p in zip(x.init_types, params):
                        h.check(f_eq(tight(t), tight(fill_cpp(p[1], tname, spec, cls, other, scope))), "type of a parameter of the constructor", (t, detail))
                own = y.params if item == "method static" else y.params[1:]
                h.check(len(own) == len(params) and len(x.params) == len(params), "parameters", detail)
                for got, bp, p in zip(own, x.params, params):
                    pn = n if p[0] == "$" else p[0]
                    h.check(f_and([f_eq(got[0], pn), f_eq(bp[0], pn)]), "names of the parameters", detail)
                    h.check(f_py18(got[1], p[2], path, other, cls, tname, spec), "type of a parameter", (got, detail))
                    h.check((got[2] is None) == (p[3] is None) and (bp[1] is None) == (p[3] is None), "default values", detail)
                    if p[3] is not None and got[2] is not None:
                        h.check(f_py18(got[2], p[4], path, other, cls, tname, spec), "default value in the stub", (got, detail))
                        h.check(f_eq(tight(bp[1]), tight(fill_cpp(p[3], tname, spec, cls, other, scope))), "default value that is bound", (bp, detail))
            if kind in ("class", "enum"):
                h.check(f_eq(tight(x.cpp), tight(cpp + "::" + n)), "inner type that is bound", (x.cpp, detail))
                inner = [z for z in pydef.bindings if len(z.path) == len(cpath) + 1 and z.path[: len(path)] == path and decide_(f_and([f_eq(z.path[-2], name), f_eq(z.path[-1], n)]))]
                tinner = [z for z in stub.items if len(z.path) == len(cpath) + 1 and z.path[: len(path)] == path and decide_(f_and([f_eq(z.path[-2], name), f_eq(z.path[-1], n)]))]
                if kind == "class":
                    m = one(h, [z for z in inner if z.kind == "member"], "member of the inner class", detail)
                    d = one(h, [z for z in inner if z.kind == "def"], "method of the inner class", detail)
                    h.check(f_and([f_eq(tight(m.cpp), tight("&" + cpp + "::" + n + "::aa")), f_eq(tight(d.target), tight("&" + cpp + "::" + n + "::bb"))]), "what is bound in the inner class", detail)
                    m = one(h, [z for z in tinner if z.kind == "attr"], "member of the inner class in the stub", detail)
                    h.check(f_py18(m.ann, "#", path, other, cls, tname, spec), "type of a member of the inner class", (m, detail))
                    d = one(h, [z for z in tinner if z.kind == "def" and z.name == "bb"], "method of the inner class in the stub", detail)
                    h.check(f_py18(d.params[1][1], "SELF", path, other, cls, tname, spec), "type of a parameter in the inner class", (d, detail))
                else:
                    h.check([z.name for z in inner if z.kind == "value"] == ["aa", "bb"], "values of the enum", detail)
                    for z in inner:
                        if z.kind == "value":
                            h.check(f_eq(tight(z.cpp), tight(cpp + "::" + n + "::" + z.name)), "values of the enum that are bound", (z.cpp, detail))
        left = [x for x in bound if x.kind not in ("init",)]
        h.check(len(left) == len([k2 for k2 in ks if ITEMS18[k2][1] not in (None, "init")]), "nothing else is bound in the class", detail)
    if syn:
        spec = spec_of(keys[0], scope)
        a = one(h, [x for x in stub.at(path, "attr")], "the synonym is announced", detail)
        h.check(f_and([f_eq(a.name, cls + "_MyS"), f_eq(a.value, cls + "_" + spec[1])]), "synonym in the stub", (a, detail))
        a = one(h, [x for x in pydef.at(path, "attr")], "the synonym is bound", detail)
        h.check(f_eq(a.name, cls + "_MyS"), "name of the synonym", (a, detail))
        h.contains(a.cpp, '"' + cls + "_" + spec[1] + '"', "class of the synonym")
    if user:
        _d, kind, py, default = USERS18[user]
        upath = () if user_root else path
        if us[0] == "float" and "float" not in keys:
            if "vector" in user or user == "map":
                return  # (the class of the elements is not known: nothing is said)
            got = [x for x in stub.items if x.kind == "def" and x.name == "use"] + [x for x in stub.items if x.kind == "attr" and x.path == upath + ("Use",)]
            h.check(got == [] and [x for x in pydef.bindings if x.name in ("use", "aa") and x.path in (upath, upath + ("Use",))] == [], "what uses another instantiation is not published", detail)
            return
        if kind in ("param", "return", "method"):
            it = one(h, stub.find("def", upath + (("Use",) if kind == "method" else ()), "use"), "the function that uses the class", detail)
            one(h, pydef.find("def", upath + (("Use",) if kind == "method" else ()), "use"), "the function that uses the class is bound", detail)
            ann = it.ret if kind == "return" else it.params[-1][1]
            value = None if kind == "return" else it.params[-1][2]
        else:
            it = one(h, stub.find("attr", upath + ("Use",), "aa"), "the member that uses the class", detail)
            one(h, pydef.find("member", upath + ("Use",), "aa"), "the member that uses the class is bound", detail)
            ann, value = it.ann, it.value
        h.check(f_py18(ann, py, path, other, cls, tname, us), "type that uses the class", (ann, detail))
        if default is not None:
            h.check(value is not None and f_py18(value, default, path, other, cls, tname, us), "value that uses the class", (value, detail))


HEADS18 = {
    "one": ("typename @", True), "value": ("int @", False), "pack": ("typename... @", False), "two": ("typename @, typename U", False), "two kinds": ("typename @, int U", False),
    "template": ("template<typename> class @", False), "default": ("typename @ = int", True),
}


def ignored(h, heads, things, nano, places, matches):
    """a template that is not requested (or that has not exactly one type parameter) is not published, and the other declarations still are"""
    o = make_options(nano, python_convert_to_snake_case=False)
    w, text, path, scope = place_of(h, places)
    head = h.choose("head", heads)
    thing = h.choose("thing", things)
    match = h.choose("match", matches)
    tname = h.ident("T", 1, prefix="T", alphabet="xyz7_")
    name = h.ident("name", 1, prefix="T", alphabet="xyz7_")
    before = low(h, "before", 1)
    after = low(h, "after", 1)
    h.distinct(before, after)
    h.distinct(tname, name)
    params, one_type = HEADS18[head]
    params = params.replace("@", tname)
    use = tname if "typename " in params and "..." not in params else "int"
    decl = {"function": "template<" + params + "> int " + name + "(int aa, " + use + " bb = " + use + "());\n",
        "void": "template<" + params + "> void " + name + "();\n",
        "body": "template<" + params + ">\n" + use + " " + name + "(" + use + " aa) { return aa; }\n",
        "class": "template<" + params + "> struct " + name + " {\n" + use + " aa; int bb(int cc);\nstruct Inner { int dd; };\n};\n",
        "empty class": "template<" + params + "> class " + name + " {\npublic:\n};\n",
        "method": "struct Host {\nint aa;\ntemplate<" + params + "> int " + name + "(" + use + " bb) const;\n};\n"}[thing]
    code = text % ("int " + before + "(int aa);\n" + decl + "int " + after + "(int aa);\n")
    if match == "all":
        o.fn_template_options.add_specialization(".*", ["int"], True)
        o.class_template_options.add_specialization(".*", ["int"])
    elif match == "other":
        o.fn_template_options.add_specialization("^Other$", ["int"], True)
        o.class_template_options.add_specialization("^Other$", ["int"])
    elif match == "ignore":
        o.fn_template_options.add_ignore(".*")
        o.class_template_options.add_ignore(".*")
    elif match == "default":
        pass
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    expected = match == "all" and one_type
    n = 0
    for x in pydef.bindings:
        if x.kind in ("class", "def") and decide_(f_or([f_eq(x.name, name), f_eq(x.name, name + "_int")])):
            n += 1
            h.check(decide_(f_eq(x.name, name + "_int")), "name of the specialization", (x.name, detail))
    h.check(n == (1 if expected else 0), "published only if it is requested", detail)
    m = len([x for x in stub.items if x.kind in ("class", "def") and decide_(f_or([f_eq(x.name, name), f_eq(x.name, name + "_int")]))])
    h.check(m == n, "announced only if it is requested", detail)
    for f in (before, after):
        b = one(h, [x for x in pydef.at(path, "def") if decide_(f_eq(x.name, f))], "the other functions are bound", detail)
        h.check([p[0] for p in b.params] == ["aa"], "parameters of the other functions", (b, detail))
        one(h, [x for x in stub.at(path, "def") if decide_(f_eq(x.name, f))], "the other functions are announced", detail)
    if thing == "method":
        one(h, pydef.find("member", path + ("Host",), "aa"), "the members of the class are bound", detail)


CASES = [
    Case("functions", functions,
        quick=[dict(nspecs=1, nparams=1, specs=["std::string", "LOC"], kinds=list(PARAMS), returns=["vec"], suffix=[True], forms=["fn"], nano=False, places=["root", "nsinner"]),
               dict(nspecs=2, nparams=1, specs=["int", "std::string"], kinds=["default", "string"], returns=["val", "other"], suffix=[True, False], forms=["method"], nano=True, places=["ns"]),
               dict(nspecs=2, nparams=1, specs=["int", "std::string", "LOC"], kinds=["default"], returns=["val"], suffix=[True, False], forms=["fn"], nano=False, places=["ns"], split=True),
               dict(nspecs=3, nparams=1, specs=["int", "float", "LOC"], kinds=["default"], returns=["val"], suffix=[True], forms=["static"], nano=True, places=["root"], split=True)],
        thorough=[dict(nspecs=2, nparams=2, specs=list(SPECS), kinds=list(PARAMS), returns=list(RETURNS), suffix=[True, False], forms=["fn", "method", "static", "const"], nano=n, places=list(PLACES14), split=s) for n in (False, True) for s in (False, True)]),
    Case("classes", classes,
        quick=[dict(nspecs=1, nitems=1, specs=["std::string", "LOC"], items=list(ITEMS18), nano=False, places=["nsinner"], users=[""]),
               dict(nspecs=1, nitems=1, specs=["LOC"], items=["data"], nano=True, places=["ns"], users=["param", "default", "vector", "return", "member init", "method"], synonyms=[True])],
        thorough=[dict(nspecs=2, nitems=2, specs=[k for k in SPECS if k != "float"], items=list(ITEMS18), nano=n, places=list(PLACES14), users=["", ""] + list(USERS18), synonyms=[False, True]) for n in (False, True)]),
    Case("ignored", ignored,
        quick=[dict(heads=list(HEADS18), things=["function", "class", "method"], nano=False, places=["root", "nsinner"], matches=["all", "other"])],
        thorough=[dict(heads=list(HEADS18), things=["function", "void", "body", "class", "empty class", "method"], nano=n, places=list(PLACES14), matches=["all", "other", "ignore", "default"]) for n in (False, True)]),
]
