"""C26 overriding in Python: the trampolines override what C++ allows, the publicists publish what is protected"""
from symx.outparse import parse_glue

from .c14 import PLACES14, decide_
from .model import *

# parameters: (C++ parameters, types, names)
PARAMS = {
    "none": ("", [], []), "int": ("int @0", ["int"], ["@0"]), "two": ("const Arg & @0, int @1 = 2", ["const Arg &", "int"], ["@0", "@1"]), "vector": ("std::vector<Arg> @0", ["std::vector<Arg>"], ["@0"]),
    "map": ("std::map<int, bool> @0", ["std::map<int, bool>"], ["@0"]), "pointer": ("Arg * @0", ["Arg *"], ["@0"]),
}
RETS = {"int": "int", "void": "void", "map": "std::map<int, Arg>", "ref": "const Arg &", "arg": "Arg", "pair": "std::pair<bool, int>", "string": "std::string"}
# form: (specifiers before, specifiers after, virtual, pure, final, const, noexcept)
FORMS = {
    "virtual": ("virtual ", "", True, False, False, False, False), "pure": ("virtual ", " = 0", True, True, False, False, False), "plain": ("", "", False, False, False, False, False),
    "const": ("virtual ", " const", True, False, False, True, False), "pure const": ("virtual ", " const = 0", True, True, False, True, False), "noexcept": ("virtual ", " noexcept", True, False, False, False, True),
    "const noexcept": ("virtual ", " const noexcept", True, False, False, True, True), "override": ("", " override", None, False, False, False, False), "final": ("", " final", None, False, True, False, False),
    "virtual final": ("virtual ", " final", True, False, True, False, False), "override final": ("", " override final", None, False, True, False, False), "virtual override": ("virtual ", " override", None, False, False, False, False),
    "const override": ("", " const override", None, False, False, True, False), "plain const": ("", " const", False, False, False, True, False), "pure override": ("", " override = 0", None, True, False, False, False),
    "inline virtual": ("inline virtual ", "", True, False, False, False, False), "nodiscard": ("[[nodiscard]] virtual ", " const", True, False, False, True, False), "deleted dtor": ("", "", False, False, False, False, False),
}


class Meth:
    """a method: its name, what C++ says about it"""

    def __init__(self, cls, name, form, params, ret, access):
        self.cls, self.name, self.form, self.params, self.ret, self.access = cls, name, form, params, ret, access
        self.before, self.after, self.virtual, self.pure, self.final, self.const, self.noexcept = FORMS[form]

    def text(self, names):
        p = PARAMS[self.params][0].replace("@0", names[0]).replace("@1", names[1])
        return self.before + RETS[self.ret] + " " + self.name + "(" + p + ")" + self.after + ";\n"

    def key(self):
        return (self.name, self.params, self.const)


class Cls:
    def __init__(self, name, bases, methods):
        self.name, self.bases, self.methods = name, bases, methods  # bases: (access, Cls)

    def slots(self):
        """-> {key: final overrider} or None if the program is not valid C++"""
        out = {}
        for _a, b in self.bases:
            s = b.slots()
            if s is None:
                return None
            for k in s:
                if k not in out or any(out[k].cls is c for c in s[k].cls.ancestors()):
                    out[k] = s[k]
        for m in self.methods:
            k = m.key()
            if m.virtual is None and k not in out:
                return None  # (overrides nothing)
            if k in out and (out[k].final or (out[k].noexcept and not m.noexcept) or out[k].ret != m.ret):
                return None
            if k in out or m.virtual:
                out[k] = m
            elif m.final:
                return None
        return out

    def ancestors(self):
        r = []
        for _a, b in self.bases:
            r += [b] + b.ancestors()
        return r

    def reaches(self, cls):
        """can the members of this class that are not private be named from a class which derives from self?"""
        return cls is self or any(a != "private" and b.reaches(cls) for a, b in self.bases)

    def overridable(self):
        out = []
        for m in self.slots().values():
            if m.final:
                continue
            if m.pure or (m.access != "private" and self.reaches(m.cls)):
                out.append(m)
        return out

    def abstract(self):
        return any(m.pure for m in self.slots().values())


def names_of(scope, glue_scope, name):
    """the ways to name scope::name, which is a type, in the namespaces glue_scope"""
    parts = [p for p in scope.split("::") if p != ""] + [name]
    out = ["::".join(parts)]
    for i in range(1, len(glue_scope) + 1):
        if i < len(parts) and list(glue_scope[:i]) == parts[:i]:
            out.append("::".join(parts[i:]))
    return out


def f_cpp_type(got, want, scope, glue_scope):
    return f_or([f_eq(tight(got), tight(want.replace("Arg", a))) for a in names_of(scope, glue_scope, "Arg")])


def f_names(got, scope, glue_scope, name):
    return f_or([f_eq(got, tight(a)) for a in names_of(scope, glue_scope, name)])


def unmacro(s):
    for m in ("PYBIND11_TYPE(",):
        if s.startswith(m) and s.endswith(")"):
            return s[len(m) : -1]
    return s


def check_trampoline(h, nano, glue, binding, scope, cls_name, methods, detail, py_names=None, arg_names=("qa", "qb"), base=None):
    """the bindings of the class use a trampoline which overrides these methods, and no other"""
    base = base or cls_name
    mine = [c for c in glue if decide_(f_or([f_eq(x, c.qualified) for x in binding.bases]))]
    if not methods:
        h.check(mine == [], "no trampoline if nothing can be overridden", detail)
        h.check(not any(len(c.methods) > 0 and len(c.bases) == 1 and decide_(f_names(c.bases[0], scope, c.scope, base)) for c in glue), "no trampoline class", detail)
        return None
    h.check(len(mine) == 1, "the bindings know the trampoline", detail)
    t = mine[0]
    h.check(len(t.bases) == 1, "the trampoline derives from the class", detail)
    h.check(f_names(t.bases[0], scope, t.scope, base), "the trampoline derives from the class", detail)
    h.check(nano or f_or([f_names(u[: -len("::" + cls_name)], scope, t.scope, base) for u in t.usings if u.endswith("::" + cls_name)]), "the trampoline has the constructors of the class", detail)
    if nano:
        h.check(len(t.calls) == 1 and t.calls[0][0] == "NB_TRAMPOLINE" and int(t.calls[0][1][1]) >= len(methods), "NB_TRAMPOLINE", detail)
        h.check(f_names(t.calls[0][1][0], scope, t.scope, base), "NB_TRAMPOLINE names the class", detail)
    h.check(len(t.methods) == len(methods), "the trampoline overrides what C++ lets be overridden, and nothing else", detail)
    for m in methods:
        want_params = PARAMS[m.params][1]
        g = [x for x in t.methods if decide_(f_str_eq(x.name, m.name)) and ("const" in x.after.split(" ")) == m.const and len(x.params) == len(want_params) and all(decide_(f_cpp_type(x.params[i][0], want_params[i], scope, t.scope)) for i in range(len(want_params)))]
        g = one(h, g, "a virtual method is overridden with its signature", (m.name, detail))
        words = g.after.split(" ")
        h.check("override" in words or "final" in words, "it is marked as an override", detail)
        h.check(("noexcept" in words) == m.noexcept, "it is noexcept if the method is", detail)
        h.check(f_cpp_type(g.ret, RETS[m.ret] if m.ret in RETS else m.ret, scope, t.scope), "it has the type of the method", detail)
        h.check(g.macro in [("NB_" if nano else "PYBIND11_") + "OVERRIDE" + ("_PURE" if m.pure else "") + "_NAME"], "it calls the Python method; the C++ method is called only if it is not pure", (g.macro, detail))
        args = g.args
        if not nano:
            h.check(f_cpp_type(unmacro(args[0]), RETS[m.ret] if m.ret in RETS else m.ret, scope, t.scope), "the macro knows the type of the result", detail)
            h.check("," not in args[0].replace("PYBIND11_TYPE(" + unmacro(args[0]) + ")", ""), "a comma does not split the type", detail)
            h.check(f_names(unmacro(args[1]), scope, t.scope, base), "the macro knows the class", detail)
            args = args[2:]
        py = (py_names or {}).get(m.name, m.name)
        h.eq(args[0], '"' + py + '"', "the name of the method in Python")
        h.eq(args[1], tight(m.name), "the name of the method in C++")
        h.check(len(args) == 2 + len(want_params), "all the parameters are passed", detail)
        for i in range(len(want_params)):
            h.eq(g.params[i][1], arg_names[i], "the name of a parameter")
            h.eq(args[2 + i], arg_names[i], "a parameter is passed")
    return t


def sections(methods, names):
    s = ""
    for m in methods:
        s += m.access + ":\n" + m.text(names)
    return s


def check_stub(h, stub, at, cls, methods, active, params_published, detail):
    """the methods which can be overridden are announced"""
    for m in cls.methods:
        items = [x for x in stub.find("def", at, m.name)]
        if m.access != "public":
            continue
        h.check(len(items) >= 1, "a public method is in the stub", detail)
        if m.virtual is not False and len(items) == 1:
            h.check(("overridable" in items[0].comment) == (active and any(m is x for x in methods)), "what can be overridden is announced in the stub", (items[0].comment, detail))


def overrides(h, nano, places, base_forms, forms, inherits, params=("int",), rets=("int",), accesses=("public",), own_accesses=("public",), same=True):
    """a class and its base"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", list(places))]
    cname = up(h, "cls", 1)
    n1 = low(h, "name1", 1)
    n2 = n1 if same and h.choose("same", [True, False]) else low(h, "name2", 1)
    qa, qb = low(h, "pa", 1, prefix="pa"), low(h, "pb", 1, prefix="pb")
    active = h.choose("active", [True, False]) if len(base_forms) < 3 else True
    o.class_override_virtual_methods_in_python__regex = "^" + cname + "$" if active else "^Z" + cname
    bf, f = h.choose("base", list(base_forms)), h.choose("form", list(forms))
    inherit = h.choose("inherit", list(inherits))
    ps = [h.choose("params", list(params))]
    ps.append(ps[0] if len(params) == 1 else h.choose("params2", [ps[0], params[0] if params[0] != ps[0] else params[-1]]))
    ret = h.choose("ret", list(rets))
    base, loc = Cls("Bas", [], []), Cls(cname, [], [])
    if bf != "":
        base.methods.append(Meth(base, n1, bf, ps[0], ret, h.choose("access", list(accesses))))
    if f != "":
        loc.methods.append(Meth(loc, n2, f, ps[1], ret, h.choose("own access", list(own_accesses))))
    loc.bases = [(inherit, base)]
    if not decide_(f_str_eq(n1, n2)):
        pass
    else:
        n2 = n1
        for m in loc.methods:
            m.name = n1
    if base.slots() is None or loc.slots() is None:
        return
    code = text % ("struct Arg { int v; };\nclass Bas {\n" + sections(base.methods, (qa, qb)) + "};\nclass " + cname + " : " + inherit + " Bas {\n" + sections(loc.methods, (qa, qb)) + "public:\nint last();\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    b = one(h, pydef.find("class", path, cname), "the class is bound", detail)
    want = loc.overridable() if active else []
    check_trampoline(h, nano, glue, b, scope, cname, want, detail, arg_names=(qa, qb))
    check_stub(h, stub, path + (cname,), loc, want, active, True, detail)
    bb = one(h, pydef.find("class", path, "Bas"), "the base is bound", detail)
    check_trampoline(h, nano, glue, bb, scope, "Bas", [], detail)
    # what can be constructed
    for b_, c, n in ((b, loc, cname), (bb, base, "Bas")):
        can = not c.abstract() or (c is loc and len(want) > 0)
        inits, stub_inits = [x for x in pydef.at(path + (n,)) if x.kind == "init"], stub.find("def", path + (n,), "__init__")
        h.check((len(inits) > 0) == can and (len(stub_inits) > 0) == can, "an abstract class cannot be constructed, except by its trampoline", (n, detail))


def hierarchy(h, nano, places, forms, depth, diamond=False):
    """three classes: the innermost override counts; every class has its trampoline"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", list(places))]
    n1 = low(h, "name1", 1)
    o.class_override_virtual_methods_in_python__regex = "^Da|^Db|^Dc"
    qa, qb = "pa", "pb"
    names = ["Da", "Db", "Dc", "Dd"]
    classes = []
    body = ""
    for i in range(depth):
        c = Cls(names[i], [], [])
        if i > 0:
            # (virtual bases, for the diamond)
            c.bases = [("public", classes[0])] if diamond and i < 3 else [("public", classes[1]), ("public", classes[2])] if diamond else [("public", classes[i - 1])]
        for j, (nm, ps) in enumerate([(n1, "int"), ("zz", "none")]):
            f = h.choose("form%d%d" % (i, j), list(forms) if j == 0 else ["", "pure", "override"] if not diamond else [""])
            if f != "" and (i, j) != (3, 1):
                c.methods.append(Meth(c, nm, f, ps, "int", "public"))
        if c.slots() is None:
            return
        if diamond and i == 3:
            # (two final overriders are an error in C++)
            s1, s2 = classes[1].slots(), classes[2].slots()
            for k in s1:
                if k in s2 and s1[k] is not s2[k] and s1[k].cls is not classes[0] and s2[k].cls is not classes[0] and not any(m.key() == k for m in c.methods):
                    return
        classes.append(c)
        bs = ", ".join([("virtual public " if diamond and i < 3 else "public ") + b.name for a, b in c.bases])
        body += "class " + c.name + (" : " + bs if bs != "" else "") + " {\n" + sections(c.methods, (qa, qb)) + "};\n"
    code = text % ("struct Arg { int v; };\n" + body)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    for c in classes:
        b = one(h, pydef.find("class", path, c.name), "the class is bound", detail)
        want = c.overridable() if c.name != "Dd" else []
        check_trampoline(h, nano, glue, b, scope, c.name, want, detail, arg_names=(qa, qb))
        inits = [x for x in pydef.at(path + (c.name,)) if x.kind == "init"]
        h.check((len(inits) > 0) == (not c.abstract() or len(want) > 0), "an abstract class cannot be constructed, except by its trampoline", (c.name, detail))


OPS26 = {"operator<": ("bool", "const Arg & @0", "const", "__lt__", ["const Arg &"]), "operator+": ("Arg", "int @0", "const", "__add__", ["int"]), "operator-": ("Arg", "", "const", "__neg__", []), "operator bool": ("", "", "const", "__bool__", []),
         "operator()": ("int", "int @0", "", "__call__", ["int"]), "operator==": ("bool", "const Arg & @0", "const", "__eq__", ["const Arg &"]), "camelCase": ("int", "int @0", "", "camel_case", ["int"]), "lambda": ("int", "int @0", "", "lambda_", ["int"]),
         "operator++": ("Arg &", "", "", None, []), "operator=": ("Arg &", "const Arg & @0", "", None, ["const Arg &"])}


def special(h, nano, places, names, extra=("",), pure=(False,)):
    """the Python name of an overridden method is the one of the stub"""
    o = make_options(nano)
    o.class_override_virtual_methods_in_python__regex = ".*"
    text, path, scope = PLACES14[h.choose("where", list(places))]
    cname, qa = up(h, "cls", 1), low(h, "pa", 1, prefix="pa")
    name = h.choose("name", list(names))
    is_pure = h.choose("pure", list(pure))
    ret, ps, const, py, types = OPS26[name]
    sig = "virtual " + (ret + " " if ret != "" else "") + name + "(" + ps.replace("@0", qa) + ")" + (" const" if const else "") + (" = 0" if is_pure else "")
    other = h.choose("other", list(extra))
    derived = h.choose("derived", [True, False])
    c2 = "Der"
    code = text % ("struct Arg { int v; };\nstruct " + cname + " {\n" + sig + ";\n" + other + "\n};\n" + ("struct Der : public " + cname + " {\n};\n" if derived else ""))
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    for cn in [cname] + (["Der"] if derived else []):
        b = one(h, pydef.find("class", path, cn), "the class is bound", detail)
        m = Meth(None, name, "pure" if is_pure else "virtual", "int", "int", "public")
        m.const = const != ""
        m.ret = ret if ret != "" else "NONE"
        want = []
        if py is not None:
            want.append(m)
        if "other" in other:
            want.append(Meth(None, "other", "virtual", "none", "int", "public"))
        if is_pure and py is None:
            want = []
        mine = [c for c in glue if decide_(f_or([f_eq(x, c.qualified) for x in b.bases]))]
        h.check(len(mine) == (1 if want else 0), "the trampoline", detail)
        if not want:
            continue
        t = mine[0]
        h.check(len(t.methods) == len(want), "what has a Python name can be overridden", detail)
        if py is None:
            continue
        g = one(h, [x for x in t.methods if tight(x.name) == tight(name)], "it is overridden", detail)
        h.check(len(g.params) == len(types), "its parameters", detail)
        for i in range(len(types)):
            h.check(f_cpp_type(g.params[i][0], types[i], scope, t.scope), "the type of its parameter", detail)
        h.check(f_cpp_type(g.ret, ret, scope, t.scope), "its type", detail)
        args = g.args if nano else g.args[2:]
        if not nano:
            h.check(f_cpp_type(unmacro(g.args[0]), ret if ret != "" else "bool", scope, t.scope), "the type of the result", detail)
        h.eq(args[0], '"' + py + '"', "its name in Python")
        h.eq(args[1], tight(name), "its name in C++")
        if cn == cname:
            it = one(h, stub.find("def", path + (cname,), py), "it is in the stub with this name", detail)
            h.check("overridable" in it.comment, "it is announced as overridable", detail)


# (declaration in the class, kind)
CTORS = {
    "implicit": ("int @m = 1;\n", "named"), "none": ("", "init"), "user": ("@C(int @p);\n", "init"), "adapted": ("@C(const int @p[2]);\n", "lambda"), "default": ("@C();\n", "init"), "deleted": ("@C() = delete;\n@C(int @p);\n", "init"),
}


def constructors(h, nano, places, ctors, pures, actives=(True, False)):
    """the constructors of a class whose methods can be overridden create its trampoline; an abstract class that has none cannot be constructed nor copied"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", list(places))]
    cname, mem, par = up(h, "cls", 1), low(h, "member", 1, prefix="m"), low(h, "param", 1, prefix="pa")
    active, pure = h.choose("active", list(actives)), h.choose("pure", list(pures))
    o.class_override_virtual_methods_in_python__regex = ("^" + cname + "$") if active else ""
    o.class_deep_copy__regex = ".*"
    o.class_copy__regex = ".*"
    ctor = h.choose("ctor", list(ctors))
    decl, kind = CTORS[ctor]
    decl = decl.replace("@C", cname).replace("@m", mem).replace("@p", par)
    inherited = h.choose("inherited", [False, True])
    virt = {"virtual": "virtual int fn(int a);\n", "pure": "virtual int fn(int a) = 0;\n", "none": "int fn(int a);\n", "private pure": "private:\nvirtual int fn(int a) = 0;\npublic:\n", "implemented": "int fn(int a) override;\n"}[pure]
    base = "struct Bas {\nvirtual int fn(int a)" + (" = 0" if pure == "implemented" else "") + ";\n};\n"
    if inherited and pure != "implemented":
        base, virt = "struct Bas {\n" + virt + "};\n", ""
    has_base = inherited or pure == "implemented"
    code = text % ((base if has_base else "") + "struct " + cname + (" : public Bas" if has_base else "") + " {\n" + virt + decl + "int last();\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano, ignore=("__copy__", "__deepcopy__"))
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    b = one(h, pydef.find("class", path, cname), "the class is bound", detail)
    at = path + (cname,)
    abstract = pure in ("pure", "private pure")
    trampoline = active and pure != "none"
    mine = [c for c in glue if decide_(f_or([f_eq(x, c.qualified) for x in b.bases]))]
    h.check(len(mine) == (1 if trampoline else 0), "the trampoline", detail)
    inits, stub_inits = [x for x in pydef.at(at) if x.kind == "init"], stub.find("def", at, "__init__")
    copies = [x for x in pydef.at(at) if x.name in ("__copy__", "__deepcopy__")]
    h.check(len(copies) == (0 if abstract else 2), "an abstract class cannot be copied", detail)
    if abstract and not trampoline:
        h.check(inits == [] and stub_inits == [], "an abstract class cannot be constructed", detail)
        return
    h.check(len(inits) == 1 and len(stub_inits) == 1, "the class has its constructor", detail)
    l = inits[0].lambda_
    if l is None:
        h.check(inits[0].init_types is not None and (kind == "init" or (kind == "named" and False)), "an ordinary constructor", detail)
        return
    body = tight(l.body)
    created = mine[0].qualified if trampoline else scope + cname
    h.check(f_or([f_str_contains(body, x + tight(created) + y) for x, y in (("make_unique<", ">("), ("new(self)", "("), ("new", "("))]), "the constructor creates the trampoline (or the class if it has none)", (created, detail))
    if trampoline:
        own = tight(scope + cname)
        for x, y in (("make_unique<", ">("), ("new(self)", "("), ("make_shared<", ">(")):
            h.check(f_not(f_str_contains(body, x + own + y)), "the constructor does not create the class itself", detail)


# protected declarations: (text, published, static, const)
PROT = {
    "method": ("int @(int a);", True, False), "const": ("int @(int a) const;", True, False), "static": ("static int @(int a);", True, True), "void": ("void @();", True, False), "virtual": ("virtual int @(bool a, int b = 3);", True, False),
    "private": ("private: int @(int a); protected:", False, False), "member": ("int @;", False, False), "adapted": ("void @(const int a[2]) const;", True, False), "static adapted": ("static void @(const int a[2]);", True, True),
    "class": ("struct @ { int v; };", False, False),
}


def protected_(h, nano, places, kinds, n, others=("",)):
    """the protected methods of a class are published on request, through a class that has access to them"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", list(places))]
    cname = up(h, "cls", 1)
    active = h.choose("active", [True, False]) if n == 1 else True
    o.class_expose_protected_methods__regex = ("^" + cname + "$") if active else "^Z" + cname
    decls = []
    for i in range(n):
        decls.append((h.choose("kind%d" % i, list(kinds)), low(h, "name%d" % i, 1, prefix="q")))
    if n > 1:
        same = decide_(f_str_eq(decls[0][1], decls[1][1]))
        if same:
            # overloads: their parameters must differ
            sig = {"method": "int", "const": "int c", "void": "", "virtual": "bool,int"}
            k0, k1 = decls[0][0], decls[1][0]
            if k0 not in sig or k1 not in sig or sig[k0] == sig[k1] or (k0, k1) in (("method", "const"), ("const", "method")):
                return
            decls = [(k, decls[0][1]) for k, _n in decls]
    other = h.choose("other", list(others))
    body = "".join([PROT[k][0].replace("@", nm) + "\n" for k, nm in decls])
    final = " final" if other == "final" else ""
    extra = {"": "", "final": "", "dtor": "~@();\n", "ctor": "@(int a);\n", "operator": "bool operator<(const @ & o) const;\n@ & operator++();\n"}[other].replace("@", cname)
    code = text % ("class " + cname + final + " {\npublic:\nint first(int a);\nprotected:\n" + body + extra + "public:\nint last();\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    at = path + (cname,)
    b = one(h, pydef.find("class", path, cname), "the class is bound", detail)
    active = active and other not in ("final", "dtor")
    want = [(k, nm) for k, nm in decls if PROT[k][1]] if active else []
    names = [x for x in pydef.at(at) if x.kind == "def" and x.name not in ("first", "last")]
    snames = [x for x in stub.at(at, "def") if x.name not in ("first", "last", "__init__")]
    ops = 1 if other == "operator" and active else 0
    h.check(len(names) == len(want) + ops and len(snames) == len(want) + ops, "the protected methods are published on request, and nothing else", detail)
    pubs = [c for c in glue if len(c.bases) == 1 and decide_(f_names(c.bases[0], scope, c.scope, cname))]
    h.check(len(pubs) == (1 if len(want) + ops > 0 else 0), "the class that has access to them", detail)
    if ops:
        x = one(h, pydef.find("def", at, "__lt__"), "the protected operator", detail)
        h.check(f_str_contains(x.cpp, tight("&" + pubs[0].qualified + "::operator<")), "through the class that has access to it", detail)
    if pubs:
        us = pubs[0].usings
        for i, (k, nm) in enumerate(want):
            h.check(sum([1 for u in us if decide_(f_or([f_eq(u, x + "::" + nm) for x in names_of(scope, pubs[0].scope, cname)]))]) == 1, "it has access to the method, declared once", detail)
        h.check(len(us) <= len(want) + ops, "it gives access to nothing else", detail)
    pub = pubs[0].qualified if pubs else ""
    for i, (k, nm) in enumerate(want):
        static = PROT[k][2]
        x, it = [y for y in names if y.name != "__lt__"][i], [y for y in snames if y.name != "__lt__"][i]
        h.eq(x.name, nm, "the name of the method")
        h.eq(it.name, nm, "the name of the method in the stub")
        h.check((x.method == "def_static") == static and ("staticmethod" in it.decorators) == static, "static or not", detail)
        h.check(len(x.params) == len(it.params) - (0 if static else 1), "the parameters", detail)
        l = x.lambda_
        if l is None:
            h.check(f_str_contains(x.cpp, tight("&" + pub + "::" + nm)), "it is called through the class that has access to it", detail)
        else:
            t = tight(l.body)
            h.check(f_str_contains(t, nm + "("), "it is called", detail)
            h.check(f_str_contains(t, tight(pub)), "it is called through the class that has access to it", detail)
            if not static:
                h.check(f_or([f_eq(l.params[0][0], tight(c + scope + cname + " &")) for c in ("", "const ")]), "it is a method of the bound class", detail)
    h.check(len(pydef.find("def", at, "first")) == 1 and len(pydef.find("def", at, "last")) == 1, "the public methods are bound", detail)
    for n_ in ("first", "last"):
        h.check(f_not(f_str_contains(pydef.find("def", at, n_)[0].cpp, "_publicist")), "the public methods are bound directly", detail)


def instances(h, nano, places, bodies):
    """the instantiations of a template have their own trampoline"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", list(places))]
    cname, nm, qa = up(h, "cls", 1), low(h, "name", 1), low(h, "pa", 1, prefix="pa")
    o.class_override_virtual_methods_in_python__regex = "^" + cname + "$"
    o.class_template_options.add_specialization("^" + cname + "$", ["int", "double"], [])
    form, pure, const = h.choose("form", list(bodies)), False, ""
    pure = h.choose("pure", [True, False])
    code = text % ("template<typename T> class " + cname + " {\npublic:\n" + form.replace("@", nm).replace("#", qa) + (" = 0" if pure else "") + ";\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    glue = parse_glue(r.glue_code)
    names = []
    for t in ("int", "double"):
        b = one(h, pydef.find("class", path, cname + "_" + t), "the instantiation is bound", detail)
        spec = cname + "<" + t + ">"
        mine = [c for c in glue if decide_(f_or([f_eq(x, c.qualified) for x in b.bases]))]
        c = one(h, mine, "it has its trampoline", detail)
        names.append(c.qualified)
        h.check(f_names(c.bases[0], scope, c.scope, spec), "which derives from it", detail)
        g = one(h, c.methods, "which overrides its method", detail)
        h.eq(g.name, nm, "with its name")
        h.check(g.params[0][0] == tight(form[form.index("(") + 1 : form.index(" #")].replace("T", t)), "and its types", detail)
        h.check(g.ret == tight(form[len("virtual ") : form.index(" @")].replace("T", t)), "and its type", detail)
        h.check(g.macro == ("NB_" if nano else "PYBIND11_") + "OVERRIDE" + ("_PURE" if pure else "") + "_NAME", "pure or not", detail)
    h.distinct(*names)


_P = list(PLACES14)
_BF = ["", "virtual", "pure", "plain", "const", "noexcept", "pure const"]
_F = ["", "plain", "virtual", "override", "final", "override final", "const override", "const", "virtual final", "pure", "plain const", "noexcept"]

CASES = [
    Case("overrides", overrides,
         [dict(nano=False, places=["ns"], base_forms=_BF, forms=["", "plain", "override", "final", "const"], inherits=["public"]),
          dict(nano=True, places=["nsinner"], base_forms=["virtual", "pure"], forms=["", "plain"], inherits=["public", "private"], accesses=["public", "protected", "private"], own_accesses=["public", "private"], same=False),
          dict(nano=False, places=["inner"], base_forms=["virtual", "pure"], forms=["", "override"], inherits=["protected"], params=list(PARAMS), rets=["int", "map"]),
          dict(nano=True, places=["root"], base_forms=["", "const noexcept"], forms=["nodiscard"], inherits=["public"], rets=list(RETS))],
         [dict(nano=nano, places=[p], base_forms=_BF, forms=_F, inherits=["public", "private"], accesses=["public", "protected", "private"], own_accesses=["public", "protected", "private"]) for nano in (False, True) for p in ("ns", "nsinner")]
         + [dict(nano=nano, places=[p], base_forms=["virtual", "pure const"], forms=["", "override", "const override"], inherits=["public"], params=list(PARAMS), rets=list(RETS)) for nano in (False, True) for p in _P],
         bounds="a class and its base, 16 forms of methods, unknown names (that may be the same), 3 accesses, 3 kinds of inheritance, 6 lists of parameters, 7 return types, 5 places"),
    Case("hierarchy", hierarchy,
         [dict(nano=False, places=["ns"], forms=["", "virtual", "override final"], depth=3), dict(nano=True, places=["root"], forms=["", "virtual"], depth=4, diamond=True)],
         [dict(nano=nano, places=[p], forms=["", "virtual", "pure", "plain", "override final"], depth=3) for nano in (False, True) for p in ("ns", "inner")] + [dict(nano=False, places=["nsns"], forms=["", "virtual", "pure", "plain"], depth=4, diamond=True)],
         bounds="3 classes that derive from each other, or 4 in a diamond, 2 methods"),
    Case("special", special, [dict(nano=False, places=["ns"], names=list(OPS26)), dict(nano=True, places=["inner"], names=list(OPS26), pure=[True]), dict(nano=False, places=["root"], names=["operator++", "operator<"], extra=["virtual int other();"], pure=[False, True])],
         [dict(nano=nano, places=[p], names=list(OPS26), extra=["", "virtual int other();"], pure=[False, True]) for nano in (False, True) for p in _P], bounds="8 operators, names that Python changes"),
    Case("constructors", constructors,
         [dict(nano=False, places=["nsinner"], ctors=["implicit", "adapted"], pures=["virtual", "pure", "none"]), dict(nano=True, places=["ns"], ctors=["implicit", "adapted"], pures=["virtual", "private pure", "implemented"]),
          dict(nano=False, places=["root"], ctors=["none", "user", "default", "deleted"], pures=["pure", "implemented"])],
         [dict(nano=nano, places=[p], ctors=list(CTORS), pures=["virtual", "pure", "none", "private pure", "implemented"]) for nano in (False, True) for p in _P], bounds="6 kinds of constructors, methods that are virtual, pure, implemented or inherited, 5 places"),
    Case("protected", protected_,
         [dict(nano=False, places=["ns", "nsinner"], kinds=list(PROT), n=1), dict(nano=True, places=["inner"], kinds=list(PROT), n=1), dict(nano=True, places=["ns"], kinds=["method", "void", "virtual"], n=2), dict(nano=False, places=["root"], kinds=["method"], n=1, others=["final", "dtor", "ctor", "operator"])],
         [dict(nano=nano, places=[p], kinds=list(PROT), n=2, others=["", "ctor", "final", "operator"]) for nano in (False, True) for p in ("root", "nsinner")], bounds="one or two declarations of 10 kinds, overloaded or not, with constructors, destructors and operators that are protected"),
    Case("instances", instances, [dict(nano=False, places=["ns", "nsinner"], bodies=["virtual T @(T #)", "virtual std::vector<T> @(const std::vector<T> & #)"]), dict(nano=True, places=["root"], bodies=["virtual T @(T #)"])],
         [dict(nano=nano, places=[p], bodies=["virtual T @(T #)", "virtual std::vector<T> @(const std::vector<T> & #)", "virtual int @(const T & #)"]) for nano in (False, True) for p in _P], bounds="two instantiations of a template with one method"),
]

ASSUMPTIONS = [
    "the bases of the classes are declared in the same header, before them, and are no template instantiations",
    "the parameters of the overridden methods are passed to Python as they are in C++: the adaptations of parameters (boxed types, buffers) do not apply to them",
]
