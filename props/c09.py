"""C09 scopes: a name used inside a scope designates, in the bindings and in the stub, the declaration that C++ finds"""
from .model import *


def bool_of(f):
    if f is True or f is False:
        return f
    from symx import core, ops

    return ops.decide(f) if core._ENGINE is not None else bool(f)


def same(a, b):
    return len(a) == len(b) and bool_of(f_str_eq(a, b))


class Scopes:
    """the declarations of a program, and the C++ and Python lookups"""

    def __init__(self):
        self.decls = []  # (path, name, kind)

    def add(self, path, name, kind):
        self.decls.append((list(path), name, kind))

    def children(self, path, name):
        for p, n, k in self.decls:
            if len(p) == len(path) and all([same(p[i], path[i]) for i in range(len(p))]) and same(n, name):
                return k
        return None

    def lookup(self, scope, parts):
        """C++ lookup of A::B::C from a scope: full path of the declaration, or None"""
        for n in range(len(scope), -1, -1):
            base = scope[:n]
            if self.children(base, parts[0]) is not None:
                for i in range(len(parts)):
                    if self.children(base + parts[:i], parts[i]) is None:
                        return None
                return base + parts
        return None


def py_name(name, kind):
    return name.lower() if kind == "namespace" else name


def py_path(sc, path):
    return [py_name(path[i], sc.children(path[:i], path[i])) for i in range(len(path))]


def py_resolve(stub, at, dotted):
    """the class that a dotted name designates, from the body of a class of the stub (None: undefined name)"""
    parts = dotted.split(".")

    def declared(path, name):
        for x in stub.items:
            if x.kind == "class" and len(x.path) == len(path) and all([same(x.path[i], path[i]) for i in range(len(path))]) and same(x.name, name):
                return True
        return False

    for base in (list(at), []):
        if declared(base, parts[0]):
            for i in range(len(parts)):
                if not declared(base + parts[:i], parts[i]):
                    return None
            return base + parts
    return None


def unwrap(t, w):
    """the part of the text t which stands for %s in w"""
    a, b = w.split("%s")
    if not t.startswith(a) or not t.endswith(b) or len(t) < len(a) + len(b):
        return None
    return t[len(a) : len(t) - len(b)]


WRAPS = [("%s", "%s"), ("const %s &", "%s"), ("std::vector<%s>", "List[%s]"), ("%s *", "%s")]


def paths_eq(a, b):
    return a is not None and b is not None and len(a) == len(b) and all([same(a[i], b[i]) for i in range(len(a))])


def check_type(h, sc, stub, at, ann, wrap, want, label, detail):
    t = unwrap(ann, wrap[1])
    h.check(t is not None, label + ": shape of the type", (ann, detail))
    got = py_resolve(stub, at, t)
    h.check(paths_eq(got, py_path(sc, want)), label + ": designates the class that C++ finds", (ann, got, want, detail))


def types(h, nano, n, uses, names, wraps, roots=False):
    """a type used in a method, an attribute and a default value, declared in one of the enclosing scopes"""
    o = make_options(nano)
    sc = Scopes()
    na, nb, c = "Na", "Nb", "Cls"
    if roots:
        o.namespaces_root = ["Na"]
    t = [h.ident("t" + str(i), n, prefix="Q", alphabet=names) for i in range(4)]
    u = h.ident("used", n, prefix="Q", alphabet=names)
    if roots:
        h.distinct(t[0], t[1])  # both are published at the top level
    use = h.choose("use", uses)
    wrap = h.choose("wrap", [WRAPS[i] for i in wraps])
    for path, name, kind in [([], na, "namespace"), ([na], nb, "namespace"), ([na, nb], c, "class"), ([], t[0], "class"), ([na], t[1], "class"), ([na, nb], t[2], "class"), ([na, nb, c], t[3], "class")]:
        sc.add(path, name, kind)
    parts = use.split("::")[:-1] + [u]
    want = sc.lookup([na, nb, c], parts)
    if want is None or sc.children(want[:-1], want[-1]) != "class":
        h.assume(False)
    spelled = use + u
    ty = wrap[0].replace("%s", spelled)
    default = " = " + spelled + "()" if wrap[0] in ("%s", "const %s &") else ""
    code = ("struct " + t[0] + " {};\nnamespace Na {\n struct " + t[1] + " {};\n namespace Nb {\n  struct " + t[2] + " {};\n  struct Cls {\n   struct " + t[3] + " {};\n   "
            + ty + " meth(" + ty + " param" + default + ");\n   " + (ty if "&" not in ty else spelled) + " attrib;\n  };\n }\n}\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    if roots:
        # the names of the root namespace are published at the top level
        at = ("nb", "Cls")
        want_py = [x for i, x in enumerate(py_path(sc, want)) if i > 0 or x != "na"]
        if len(want_py) == 1:
            h.distinct(t[3], want_py[0])  # otherwise, no name can designate it in the stub
            h.distinct(t[2], want_py[0])  # (see root_homonym)
    else:
        at = ("na", "nb", "Cls")
        want_py = py_path(sc, want)

    def ok(ann, label):
        tt = unwrap(ann, wrap[1])
        h.check(tt is not None, label + ": shape of the type", (ann, detail))
        got = py_resolve(stub, at, tt)
        h.check(paths_eq(got, want_py), label + ": designates the class that C++ finds", (ann, got, want, detail))

    m = one(h, stub.find("def", at, "meth"), "the method is in the stub", detail)
    ok(m.params[1][1], "parameter")
    ok(m.ret, "return type")
    a = one(h, stub.find("attr", at, "attrib"), "the attribute is in the stub", detail)
    if wrap[0] != "const %s &":
        ok(a.ann, "attribute")
    full = "::".join(want)
    b = one(h, pydef.find("def", at, "meth"), "the method is bound", detail)
    h.eq(b.cpp, "&Na::Nb::Cls::meth", "the method is bound")
    if default:
        h.eq(b.params[0][1], full + "()", "the default value designates the class that C++ finds")
        d = m.params[1][2]
        h.check(d.endswith("()"), "default value in the stub", detail)
        ok(wrap[1].replace("%s", d[:-2]), "default value")
    its = stub.find("def", at, "__init__")
    inits = pydef.find("init", at, "__init__")
    if wrap[0] in ("%s", "const %s &"):
        p = [x for x in its[0].params if x[0] == "attrib"]
        h.check(len(p) == 1, "the attribute is a parameter of the generated constructor", detail)
        ok(p[0][1], "parameter of the constructor")
        h.eq(inits[0].params[0][1], full + "()", "the default value of the constructor designates the class that C++ finds")


def values(h, nano, n, uses, names, kinds, wheres):
    """a default value (enumerator or constant) which is spelled with or without its scopes"""
    o = make_options(nano)
    sc = Scopes()
    e0 = h.ident("enum0", n, prefix="Q", alphabet=names)
    e1 = h.ident("enum1", n, prefix="Q", alphabet=names)
    e2 = h.ident("enum2", n, prefix="Q", alphabet=names)
    u = h.ident("used", n, prefix="Q", alphabet=names)
    use = h.choose("use", uses)
    kind = h.choose("kind", kinds)
    where = h.choose("where", wheres)
    for path, name, k in [([], "Na", "namespace"), (["Na"], "Cls", "class"), ([], e0, "enum"), (["Na"], e1, "enum"), (["Na", "Cls"], e2, "enum")]:
        sc.add(path, name, k)
    scope = {"method": ["Na", "Cls"], "function": [], "sibling": ["Na"]}[where]
    want = sc.lookup(scope, use.split("::")[:-1] + [u])
    if want is None or sc.children(want[:-1], want[-1]) != "enum":
        h.assume(False)
    if where == "sibling" and len(want) == 1:
        h.assume(False)  # (see the assumptions)
    spelled = use + u
    decl = "(" + spelled + " param = " + spelled + "::va)"
    en = lambda name: "enum class " + name + " { va = 1 };\n"
    code = (en(e0) + "namespace Na {\n " + en(e1) + " struct Cls {\n  " + en(e2) + ("  void func" + decl + ";\n" if where == "method" else "")
            + " };\n" + (" void func" + decl + ";\n" if where == "sibling" else "") + "}\n" + ("void func" + decl + ";\n" if where == "function" else ""))
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    at = tuple(py_path(sc, scope))
    m = one(h, stub.find("def", at, "func"), "the function is in the stub", detail)
    p = [x for x in m.params if x[0] == "param"][0]
    want_py = py_path(sc, want)
    got = py_resolve(stub, at, p[1])
    h.check(paths_eq(got, want_py), "the type of the parameter designates the enum that C++ finds", (p, got, want, detail))
    d = p[2]
    h.check(d.endswith(".va"), "default value in the stub", detail)
    d = d[:-3]
    got = py_resolve(stub, at, d)
    h.check(paths_eq(got, want_py), "the default value designates the enum that C++ finds", (p, got, want, detail))
    b = one(h, pydef.find("def", at, "func"), "the function is bound", detail)
    x = [q for q in b.params if q[0] == "param"][0]
    h.eq(x[1], "::".join(want) + "::va", "the default value of the binding designates the enum that C++ finds")


def bases(h, nano, n, uses, names):
    """base classes spelled with or without their scopes"""
    o = make_options(nano)
    sc = Scopes()
    b0 = h.ident("base0", n, prefix="Q", alphabet=names)
    b1 = h.ident("base1", n, prefix="Q", alphabet=names)
    b2 = h.ident("base2", n, prefix="Q", alphabet=names)
    u = h.ident("used", n, prefix="Q", alphabet=names)
    use = h.choose("use", uses)
    for path, name, k in [([], "Na", "namespace"), (["Na"], "Nb", "namespace"), (["Na", "Nb"], "Derived", "class"), ([], b0, "class"), (["Na"], b1, "class"), (["Na", "Nb"], b2, "class")]:
        sc.add(path, name, k)
    want = sc.lookup(["Na", "Nb"], use.split("::")[:-1] + [u])
    if want is None or sc.children(want[:-1], want[-1]) != "class":
        h.assume(False)
    code = "struct " + b0 + " {};\nnamespace Na {\n struct " + b1 + " {};\n namespace Nb {\n  struct " + b2 + " {};\n  struct Derived: public " + use + u + " { int attrib; };\n }\n}\n"
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    c = one(h, stub.find("class", ("na", "nb"), "Derived"), "the class is in the stub", detail)
    h.check(len(c.bases) == 1, "the base is in the stub", detail)
    # the bases are evaluated in the body of the enclosing class, at its creation
    got = py_resolve(stub, ("na", "nb"), c.bases[0])
    h.check(paths_eq(got, py_path(sc, want)), "the base in the stub is the class that C++ finds", (got, want, detail))
    p = one(h, pydef.find("class", ("na", "nb"), "Derived"), "the class is bound", detail)
    h.eq(p.cpp, "Na::Nb::Derived", "the class is bound")
    h.check(len(p.bases) >= 1, "the base is bound", (p.bases, detail))
    h.eq(p.bases[0], "::".join(want), "the base of the bindings is the class that C++ finds")


U4 = ["", "Nb::", "Na::Nb::", "Na::"]
def root_homonym(h):
    """a type of a root namespace which has a homonym in an inner namespace"""
    o = make_options()
    o.namespaces_root = ["Na"]
    n = h.ident("name", 1, prefix="Q", alphabet="xyz")
    code = "namespace Na {\n struct " + n + " {};\n namespace Nb {\n  struct " + n + " {};\n  struct Cls { void meth(Na::" + n + " param); };\n }\n}\n"
    r = gen(o, code)
    m = one(h, parse_stub(r.stub_code).find("def", ("nb", "Cls"), "meth"), "the method is in the stub", r.stub_code)
    h.eq(m.params[1][1], n, "the type of the parameter designates the class of the root namespace")


ASSUMPTIONS = [
    "a free function of a nested namespace that refers to a name of an enclosing namespace keeps the spelling of the C++ code in the stub: only methods, attributes, constructors, bases, and functions which use names of the root or of their own namespace are judged",
    "using declarations, using directives and argument dependent lookup are outside the domain",
]

CASES = [
    Case("types", types, [dict(nano=False, n=1, uses=U4, names="xy", wraps=[0, 1, 2])], thorough=[dict(nano=nano, n=2, uses=U4, names="xyz", wraps=[0, 1, 2, 3]) for nano in (False, True)], bounds="one class in each of 4 nested scopes (names unknown, homonyms included), used by any (partially) qualified spelling in a method, an attribute and default values"),
    Case("roots", types, [dict(nano=True, n=1, uses=U4, names="xy", wraps=[0], roots=True)], thorough=[dict(nano=nano, n=2, uses=U4, names="xyz", wraps=[0, 1, 2], roots=True) for nano in (False, True)], bounds="same programs, where the outer namespace is published at the root"),
    Case("values", values, [dict(nano=False, n=1, uses=["", "Na::", "Na::Cls::", "Cls::"], names="xy", kinds=["e"], wheres=["method", "function", "sibling"])], thorough=[dict(nano=nano, n=2, uses=["", "Na::", "Na::Cls::", "Cls::"], names="xyz", kinds=["e"], wheres=["method", "function", "sibling"]) for nano in (False, True)], bounds="one enum in each of 3 nested scopes (names unknown, homonyms included), used with 4 spellings as the type and default value of a function in 3 places"),
    Case("bases", bases, [dict(nano=False, n=1, uses=["", "Nb::", "Na::Nb::", "Na::"], names="xy")], thorough=[dict(nano=nano, n=2, uses=U4, names="xyz") for nano in (False, True)], bounds="one class in each of 3 nested scopes (names unknown, homonyms included), used with 4 spellings as a base class"),
    Case("root_homonym", root_homonym, [dict()], bounds="known finding: see known_findings.json"),
]
