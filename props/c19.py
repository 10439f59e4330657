"""C19 overloads: each overload is bound to its own C++ function, and the stub announces the overloads that Python can tell apart"""
from .model import *

ASSUMPTIONS = ["function_names_replacements and template functions are not part of these programs",
               "the overloads of a namespace that is opened several times may be announced in several places of the stub"]

# C++ type -> (type in overload_cast, Python type)
PARAM = {
    "int": ("int", "int"), "unsigned int": ("unsigned int", "int"), "double": ("double", "float"), "float": ("float", "float"),
    "const std::string &": ("const std::string &", "str"), "std::vector<int>": ("std::vector<int>", "List[int]"), "bool": ("bool", "bool"),
    "std::map<int, double>": ("std::map<int, double>", "Dict[int, float]"), "const char *": ("const char *", "str"), "LOCAL": ("LOCAL", "LOCAL"), "const LOCAL &": ("const LOCAL &", "LOCAL"),
    "LOCAL []": ("LOCAL *", "LOCAL"), "LOCAL [3]": ("LOCAL *", "LOCAL"), "const LOCAL [2]": ("const LOCAL *", "LOCAL"),
}
RET = {"void": "void", "int": "int", "const int &": "ref", "const std::string &": "ref", "std::vector<int> &": "ref", "": ""}


def sig(ps):
    return ", ".join([(t[: t.find("[")] + n + t[t.find("[") :] if "[" in t else t + " " + n) + (" = " + d if d else "") for t, n, d in ps])


def decayed(t):
    """the type of a parameter, as the function sees it"""
    return t[: t.find("[")] + "*" if "[" in t else t


def f_targets(h, b, nano, qual, fn, ps, ret, const, static, member, self_type, overloaded, forced, detail):
    """the target of a binding is the function qual+fn with these parameters"""
    py = "nb" if nano else "py"
    amp = "&" if member else ""
    types = ",".join([tight(t) for t, _n, _d in ps])
    address = amp + qual + fn
    got = tight(b.target)
    if b.lambda_ is not None:
        lam = b.lambda_
        params = [tight(p[0]) for p in lam.params]
        if member and not static:
            h.check(len(params) > 0 and params[0] in (tight(self_type + "&"), tight("const " + self_type + "&")), "the first parameter of the lambda is the object", detail)
            h.check(const or not params[0].startswith("const"), "the object is not const", detail)
            call = lam.params[0][1] + "." + fn + "(" if lam.params[0][1] != "" else "?"
            params = params[1:]
        else:
            call = qual + fn + "("
        h.check(params == [tight(t) for t, _n, _d in ps], "the parameters of the lambda", detail)
        names = [p[1] for p in lam.params][1 if member and not static else 0 :]
        body = tight(lam.body)
        want = call + ",".join(names) + ")"
        h.check(f_or([f_eq(body, tight("return " + want + ";")), f_eq(body, tight(want + ";"))]) if ret == "void" else f_eq(body, tight("return " + want + ";")), "the lambda calls the function", (body, want, detail))
        if RET[ret] == "ref":
            h.check(lam.ret is not None and lam.ret in (tight(ret), "decltype(auto)", "auto&", "auto&&", "constauto&"), "the lambda returns the reference that the function returns", detail)
        elif ret != "":
            h.check(lam.ret is None or lam.ret in (tight(ret), "auto", "decltype(auto)"), "the lambda returns what the function returns", detail)
        return
    plain = f_eq(got, tight(address))
    cast = py + "::overload_cast<" + types + ">(" + address
    resolved = f_eq(got, tight(cast + "," + py + "::const_)")) if const else f_or([f_eq(got, tight(cast + ")")), f_eq(got, tight(cast + "," + py + "::nonconst_)"))] if False else [f_eq(got, tight(cast + ")"))])
    if overloaded:
        h.check(resolved, "the binding designates this overload", (got, cast, detail))
    elif forced:
        h.check(resolved, "the binding designates this overload (fn_force_overload__regex)", (got, cast, detail))
    else:
        h.check(f_or([plain, resolved]), "the binding designates the function", (got, detail))


LAYOUTS = ["root", "ns", "reopened", "class", "nsclass", "inner"]


def overloads(h, n, nano, layouts, types, kinds, rets, nps, defaults=False):
    """n overloads with unknown names, among other functions"""
    o = make_options(nano, fn_force_overload__regex=h.choose("force", ["", "^q"]), fn_params_replace_c_array_const_by_std_array__regex="", fn_params_replace_c_array_modifiable_by_boxed__regex="")
    layout = h.choose("layout", layouts)
    fn = low(h, "function", 1)
    other = low(h, "other", 1)
    member = layout in ("class", "nsclass", "inner")
    local = {"root": "Loc", "ns": "Na::Loc", "reopened": "Na::Loc", "class": "Loc", "nsclass": "Na::Loc", "inner": "Cls::Loc"}[layout]
    local_py = {"root": "Loc", "ns": "Loc", "reopened": "Loc", "class": "Loc", "nsclass": "Loc", "inner": "Cls.Loc"}[layout]
    fns = []
    for i in range(n):
        kind = h.choose("kind" + str(i), kinds if member else ["plain"])
        k = h.choose("nparams" + str(i), nps)
        ps = []
        for j in range(k):
            t = h.choose("type" + str(i) + str(j), types)
            ps.append((t, "a" + str(i) + str(j), "5" if defaults and j == k - 1 and t in ("int", "double") and h.choose("default" + str(i), [False, True]) else None))
        fns.append((kind, ps, h.choose("ret" + str(i), rets)))
    # two C++ functions cannot be the same one
    for i in range(n):
        for j in range(i):
            same = [decayed(p[0]) for p in fns[i][1]] == [decayed(p[0]) for p in fns[j][1]]
            const = "const" in fns[i][0]
            if same and (const == ("const" in fns[j][0]) or "static" in fns[i][0] or "static" in fns[j][0]):
                h.assume(False)
    where_other = h.choose("other at", [None] + list(range(1, n + 1)))
    same_name = f_eq(fn, other)
    h.assume(f_not(same_name))

    def decl(i):
        kind, ps, ret = fns[i]
        s = sig(ps).replace("LOCAL", "Loc")
        return {"plain": "", "const": "", "static": "static ", "private": "private:\n", "virtual": "virtual ", "virtual const": "virtual "}[kind] + ret + " " + fn + "(" + s + ")" + (" const" if "const" in kind else "") + ";\n" + ("public:\n" if kind == "private" else "")

    lines = []
    for i in range(n):
        if where_other == i:
            lines.append("int " + other + "(int z);\n")
        lines.append(decl(i))
    if where_other == n:
        lines.append("int " + other + "(int z);\n")
    loc = "struct Loc { Loc(); };\n"
    body = "".join(lines)
    if layout == "root":
        code, path, qual = loc + body, (), ""
    elif layout == "ns":
        code, path, qual = "namespace Na {\n" + loc + body + "}\n", ("na",), "Na::"
    elif layout == "reopened":
        cut = h.choose("cut", list(range(1, len(lines) + 1)))
        code, path, qual = "namespace Na {\n" + loc + "".join(lines[:cut]) + "}\nint middle();\nnamespace Na {\n" + "".join(lines[cut:]) + "}\n", ("na",), "Na::"
    elif layout == "class":
        code, path, qual = loc + "class Cls {\npublic:\n" + body + "};\n", ("Cls",), "Cls::"
    elif layout == "nsclass":
        code, path, qual = "namespace Na {\n" + loc + "class Cls {\npublic:\n" + body + "};\n}\n", ("na", "Cls"), "Na::Cls::"
    else:
        code, path, qual = "struct Cls {\n" + loc + "class Inner {\npublic:\n" + body + "};\n};\n", ("Cls", "Inner"), "Cls::Inner::"
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    fns = [(kind, [(decayed(t).replace("LOCAL", local), nm, d) for t, nm, d in ps], ret) for kind, ps, ret in fns]
    published = [f for f in fns if f[0] != "private"]
    bs = pydef.find("def", path, fn)
    h.check(len(bs) == len(published), "each overload is bound once", detail)
    for b, (kind, ps, ret) in zip(bs, published):
        h.check((b.method == "def_static") == (kind == "static"), "an overload is static in the bindings if it is static in C++", detail)
        h.check([p[0] for p in b.params] == [p[1] for p in ps], "the overloads are bound in order with their parameters", (b.params, detail))
        f_targets(h, b, nano, qual, fn, ps, ret, "const" in kind, kind == "static", member, qual[:-2], n > 1, o.fn_force_overload__regex != "", detail)
    # the stub: the overloads that are different in Python, in order
    its = stub.find("def", path, fn)
    want = []
    for kind, ps, ret in published:
        s = [(nm, py_type(t, local, local_py), d) for t, nm, d in ps]
        key = [(nm, ty) for nm, ty, d in s]
        if [k for k, _s in want if k == key] == []:
            want.append((key, s))
    got = [[p for p in it.params if p[0] != "self"] for it in its]
    h.check(len(got) == len(want), "the overloads that Python can tell apart are announced once", (got, want, detail))
    for g, (_k, w) in zip(got, want):
        h.check([(p[0], p[1].split(".")[-1]) for p in g] == [(p[0], p[1].split(".")[-1]) for p in w], "the parameters of the overloads in the stub", (g, w, detail))
    if where_other is not None:
        one(h, pydef.find("def", path, other), "the other function is bound", detail)
        one(h, stub.find("def", path, other), "the other function is in the stub", detail)
    positions = [i for i, x in enumerate([x for x in stub.items if x.path == path and x.kind == "def"]) if x.name == fn]
    if layout != "reopened":
        h.check(positions == list(range(positions[0], positions[0] + len(positions))) if positions else True, "the overloads are adjacent in the stub", detail)


def py_type(t, local, local_py):
    if local in t:
        return local_py
    return PARAM[t][1]


def ctors(h, n, nano, layouts, types, nps, forms):
    """overloaded constructors"""
    o = make_options(nano)
    layout = h.choose("layout", layouts)
    cls = up(h, "class", 1)
    sigs = []
    for i in range(n):
        sigs.append((h.choose("form" + str(i), forms), [(h.choose("type" + str(i) + str(j), types), "a" + str(i) + str(j), None) for j in range(h.choose("nparams" + str(i), nps))]))
    for i in range(n):
        for j in range(i):
            if [p[0] for p in sigs[i][1]] == [p[0] for p in sigs[j][1]]:
                h.assume(False)
    body = ""
    for form, ps in sigs:
        s = cls + "(" + sig(ps) + ")"
        body += {"plain": s + ";\n", "explicit": "explicit " + s + ";\n", "deleted": s + " = delete;\n", "private": "private:\n" + s + ";\npublic:\n", "inline": s + " : z(0) {}\n"}[form]
    code = "class " + cls + " {\npublic:\n" + body + "int last();\n};\n"
    path = (cls,)
    if layout == "ns":
        code, path = "namespace Na {\n" + code + "}\n", ("na", cls)
    elif layout == "class":
        code, path = "struct Out {\n" + code + "};\n", ("Out", cls)
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    published = [ps for form, ps in sigs if form not in ("deleted", "private")]
    bs = pydef.find("init", path, "__init__")
    h.check([b.init_types for b in bs] == [[tight(t) for t, _n, _d in ps] for ps in published], "the constructors are bound in order, each one with its types", ([b.init_types for b in bs], detail))
    h.check([[p[0] for p in b.params] for b in bs] == [[p[1] for p in ps] for ps in published], "the constructors are bound with their parameters", detail)
    keys = []
    for ps in published:
        k = [(nm, PARAM[t][1]) for t, nm, _d in ps]
        if k not in keys:
            keys.append(k)
    got = [[(p[0], p[1]) for p in it.params if p[0] != "self"] for it in stub.find("def", path, "__init__")]
    h.check(got == keys, "the constructors that Python can tell apart are announced once", (got, keys, detail))


def collisions(h, n, nano, layouts, alphabet):
    """functions of different C++ names which have the same name in Python are announced as overloads, and each is bound to its own function"""
    o = make_options(nano)
    layout = h.choose("layout", layouts)
    a = "q" + h.str("name0", n, alphabet)
    b = "q" + h.str("name1", n + h.choose("more", [0, 1]), alphabet)
    h.distinct(a, b)
    body = "int first();\nint " + a + "(int a0);\nint middle();\nint " + b + "(double a1);\nint last();\n"
    code, path, qual = {
        "root": (body, (), ""), "ns": ("namespace Na {\n" + body + "}\n", ("na",), "Na::"),
        "reopened": (body, (), ""), "class": ("struct Cls {\n" + body + "};\n", ("Cls",), "&Cls::"),
    }[layout]
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano, overloads=False)
    bs = [x for x in pydef.at(path, "def") if x.name not in ("first", "middle", "last")]
    its = [x for x in stub.at(path, "def") if x.name not in ("first", "middle", "last", "__init__")]
    h.check(len(bs) == 2 and len(its) == 2, "both functions are published", detail)
    for cpp, param, ty in ((a, "a0", "int"), (b, "a1", "float")):
        x = one(h, [x for x in bs if x.params[0][0] == param], "the function is bound", detail)
        h.eq(x.cpp, qual + cpp, "it is bound to its own C++ function")
        y = one(h, [y for y in its if y.params[-1][0] == param], "the function is in the stub", detail)
        h.eq(x.name, y.name, "same name in the stub and in the bindings")
        h.check(y.params[-1][1] == ty, "its parameter", detail)
    same = f_eq(its[0].name, its[1].name)
    for y in its:
        h.check(f_eq("overload" in y.decorators, same) if isinstance(same, bool) else f_iff("overload" in y.decorators, same), "overloads in the stub if and only if the names are the same", detail)


def f_iff(b, f):
    return f if b else f_not(f)


def documented(h, nano, n, layouts):
    """the documentation of the overloads is kept, whatever it contains"""
    o = make_options(nano)
    layout = h.choose("layout", layouts)
    word = h.choose("word", ["overload", "@overload", "@staticmethod", "def other(self)"])
    doc = word + h.text("text", n, "xyz ")
    second = h.choose("second", ["unsigned int", "double", None])
    body = "// first line\n// " + doc + "\nint q(int a);\n" + ("// other\nint q(" + second + " a);\n" if second else "")
    code, path = {"root": (body, ()), "class": ("struct Cls {\n" + body + "};\n", ("Cls",)), "ns": ("namespace Na {\n" + body + "}\n", ("na",))}[layout]
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    lines = [x.strip() for x in r.stub_code.split("\n")]
    at = one(h, [i for i, x in enumerate(lines) if x.endswith("first line")], "the documentation is in the stub", detail)
    h.check(f_or([f_eq(lines[at + 1].rstrip('"').strip(), doc.strip())]), "each line of the documentation is in the stub", (lines[at + 1], doc, detail))
    head = [i for i, x in enumerate(lines) if x.startswith("def q(")]
    h.check(len(head) == (2 if second == "double" else 1), "the overloads that Python can tell apart", detail)
    for i in head:
        h.check(("@overload" in lines[max(0, i - 2) : i]) == (second == "double"), "overloads are decorated", detail)


T3 = ["int", "unsigned int", "const LOCAL &"]
TYPES_ALL = list(PARAM)
MK = ["plain", "const", "static", "private"]

CASES = [
    Case("free", overloads,
         [dict(n=2, nano=False, layouts=["root", "ns", "reopened"], types=["int", "double", "LOCAL"], kinds=[], rets=["int"], nps=[0, 1]), dict(n=3, nano=True, layouts=["reopened"], types=["int", "const LOCAL &"], kinds=[], rets=["void"], nps=[0, 1]), dict(n=2, nano=False, layouts=["ns"], types=["int", "LOCAL [3]", "const LOCAL [2]"], kinds=[], rets=["int"], nps=[1]),
          dict(n=1, nano=False, layouts=["root", "ns"], types=TYPES_ALL, kinds=[], rets=["int"], nps=[0, 1]), dict(n=2, nano=True, layouts=["root"], types=["int", "unsigned int"], kinds=[], rets=["int"], nps=[1, 2], defaults=True)],
         [dict(n=2, nano=nano, layouts=["root", "ns", "reopened"], types=TYPES_ALL, kinds=[], rets=["int"], nps=[0, 1], defaults=True) for nano in (False, True)]
         + [dict(n=3, nano=nano, layouts=["root", "reopened"], types=T3, kinds=[], rets=["void"], nps=[0, 1]) for nano in (False, True)]
         + [dict(n=2, nano=False, layouts=["reopened"], types=T3, kinds=[], rets=["const int &"], nps=[0, 1, 2])],
         bounds="up to 3 overloads of up to 2 parameters of 14 types, unknown names, in 3 layouts"),
    Case("methods", overloads,
         [dict(n=2, nano=False, layouts=["nsclass"], types=["int", "unsigned int"], kinds=MK, rets=["const int &"], nps=[0, 1]), dict(n=2, nano=True, layouts=["inner"], types=["const LOCAL &"], kinds=["plain", "const", "static"], rets=["std::vector<int> &"], nps=[0, 1]),
          dict(n=3, nano=False, layouts=["class"], types=["int"], kinds=["plain", "const"], rets=["void"], nps=[0, 1]), dict(n=1, nano=False, layouts=["class", "inner"], types=["int"], kinds=["plain", "const", "static", "virtual"], rets=["int", "const int &"], nps=[0, 1])],
         [dict(n=2, nano=nano, layouts=["class", "nsclass", "inner"], types=["int", "unsigned int", "const LOCAL &"], kinds=MK + ["virtual", "virtual const"], rets=["int", "const std::string &"], nps=[0, 1]) for nano in (False, True)]
         + [dict(n=3, nano=nano, layouts=["class"], types=["int", "double"], kinds=["plain", "const", "static"], rets=["void"], nps=[0, 1]) for nano in (False, True)],
         bounds="up to 3 overloads of 6 kinds, unknown names, in 3 layouts"),
    Case("ctors", ctors,
         [dict(n=2, nano=False, layouts=["", "ns", "class"], types=["int", "unsigned int", "const std::string &"], nps=[0, 1], forms=["plain", "deleted"]), dict(n=3, nano=True, layouts=[""], types=["int", "double"], nps=[0, 1], forms=["plain", "private"])],
         [dict(n=2, nano=nano, layouts=["", "ns", "class"], types=["int", "unsigned int", "double"], nps=[0, 1, 2], forms=["plain", "deleted", "explicit", "private"]) for nano in (False, True)] + [dict(n=3, nano=nano, layouts=["ns"], types=["int", "unsigned int"], nps=[0, 1, 2], forms=["plain", "inline", "deleted"]) for nano in (False, True)],
         bounds="up to 3 constructors of up to 2 parameters, 5 forms"),
    Case("collisions", collisions, [dict(n=2, nano=False, layouts=["root", "class"], alphabet="aB_"), dict(n=1, nano=True, layouts=["ns"], alphabet="aA_")], [dict(n=3, nano=nano, layouts=["root", "class", "ns"], alphabet="aAB_") for nano in (False, True)],
         bounds="names of 2 to 4 unknown chars"),
    Case("documented", documented, [dict(nano=False, n=1, layouts=["root", "class", "ns"])], [dict(nano=nano, n=n, layouts=["root", "class", "ns"]) for nano in (False, True) for n in (1, 3)], bounds="comments of 1 (thorough: 3) unknown chars after 4 words"),
]
