"""C15 namespaces become submodules"""
from .model import *
from .c09 import same
from .c14 import decide_


def yes(f):
    return decide_(f)


# kind of declaration: (C++ code, [(kind in the stub, kind in the bindings, name, C++ entity)])
DECLS = {
    "fn": ("int fn@(int aa);\n", "def", "def", "fn@"),
    "struct": ("struct St@ { int aa; };\n", "class", "class", "St@"),
    "enum": ("enum class En@ { vv };\n", "class", "enum", "En@"),
}


def open_ns(path, style, body):
    """the declaration `body` inside the namespace `path`"""
    if not path:
        return body
    if style == "c++17":
        return "namespace " + "::".join(path) + " {\n" + body + "}\n"
    if style == "half" and len(path) > 2:
        return "namespace " + path[0] + " {\nnamespace " + "::".join(path[1:]) + " {\n" + body + "}\n}\n"
    text = body
    for n in reversed(path):
        text = "namespace " + n + " {\n" + text + "}\n"
    return text


def first_index(paths, p):
    for i in range(len(paths)):
        if paths_same(paths[i], p):
            return i
    return -1


def paths_same(a, b):
    return len(a) == len(b) and all([same(a[i], b[i]) for i in range(len(a))])


def canon(known, n):
    """the same text for the names that are equal"""
    for k in known:
        if same(k, n):
            return k
    known.append(n)
    return n


def layout(h, nano, depths, styles, kinds, alphabet, mode):
    """a sequence of declarations, each in a namespace path of unknown names (the same namespaces may be opened again)"""
    o = make_options(nano)
    word = h.ident("word", 1, prefix="N", alphabet=alphabet)
    if mode == "root":
        o.namespaces_root = [word]
    elif mode == "tworoots":
        o.namespaces_root = [word, "Nroot"]
    elif mode == "exclude":
        o.namespace_exclude__regex = "^" + word + "$"
    elif mode == "excludecallable":
        o.namespace_exclude__regex = lambda s: s == word
    code = ""
    items = []
    known = [word]
    for i in range(len(depths)):
        path = [canon(known, h.ident("n" + str(i) + str(j), 1, prefix="N", alphabet=alphabet)) for j in range(depths[i])]
        style = h.choose("style" + str(i), styles) if depths[i] > 1 else "braces"
        k = h.choose("kind" + str(i), kinds)
        if mode == "anonymous" and i == 1:
            path = path[:-1] + [""]
            style = "braces"
        if mode == "tworoots" and i == 0:
            path = ["Nroot"] + path
        code += open_ns(path, style, DECLS[k][0].replace("@", str(i)))
        items.append((path, k, i))
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, word, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    hidden = mode in ("exclude", "excludecallable")
    groups = []  # [python path], in the order of the first opening
    contents = []
    for path, k, i in items:
        py = []
        published = True
        for n in path:
            if n == "":
                published = False
            elif mode in ("root", "tworoots") and (n == "Nroot" or yes(f_str_eq(n, word))):
                continue
            elif hidden and yes(f_str_eq(n, word)):
                published = False
            else:
                py.append(n.lower())
        if not published:
            for kind in ("def", "class", "enum"):
                h.check([b for b in pydef.bindings if b.kind == kind and b.name == DECLS[k][3].replace("@", str(i))] == [], "nothing is published from an excluded or anonymous namespace", detail)
            h.check([x for x in stub.items if x.name == DECLS[k][3].replace("@", str(i))] == [], "nothing is in the stub from an excluded or anonymous namespace", detail)
            continue
        for d in range(1, len(py) + 1):
            if first_index(groups, py[:d]) < 0:
                groups.append(py[:d])
                contents.append([])
        if first_index(groups, py) < 0:
            groups.append(py)
            contents.append([])
        contents[first_index(groups, py)].append((path, k, i))
    if first_index(groups, []) < 0:
        groups.append([])
        contents.append([])
    for py, content in zip(groups, contents):
        if py:
            mods = [b for b in pydef.bindings if b.kind == "module" and paths_same(list(b.path) + [b.name], py)]
            h.check(len(mods) == 1, "a namespace is one submodule, in the submodule of its parent, however many times it is opened", (py, detail))
            proxies = [x for x in stub.items if x.kind == "class" and paths_same(list(x.path) + [x.name], py)]
            h.check(len(proxies) == 1, "a namespace is announced once in the stub, inside its parent", (py, detail))
        here = [b for b in pydef.bindings if b.kind in ("def", "class", "enum") and paths_same(list(b.path), py)]
        there = [x for x in stub.items if x.kind in ("def", "class") and paths_same(list(x.path), py) and not is_proxy(pydef, x)]
        names = [DECLS[k][3].replace("@", str(i)) for _p, k, i in content]
        h.check([b.name for b in here] == names, "the declarations of all the openings are bound once, in order, in the submodule", (py, names, detail))
        h.check([x.name for x in there] == names, "the declarations of all the openings are in the stub once, in order", (py, names, detail))
        for b, x, (path, k, i) in zip(here, there, content):
            h.check(b.kind == DECLS[k][2] and x.kind == DECLS[k][1], "kind", detail)
            target = "".join([n + "::" for n in path]) + DECLS[k][3].replace("@", str(i))
            if k == "fn":
                h.check(f_or([f_eq(tight(b.target), target), f_eq(tight(b.target), "&" + target)]), "the binding designates the function of this namespace", (b.target, target, detail))
                h.check(("staticmethod" in x.decorators) == (len(py) > 0), "functions of a submodule are static methods of its proxy class", detail)
            else:
                h.eq(tight(b.cpp), target, "the binding designates the type of this namespace")


def is_proxy(pydef, x):
    """is this class of the stub a submodule?"""
    if x.kind != "class":
        return False
    for b in pydef.bindings:
        if b.kind == "module" and same(b.name, x.name) and paths_same(list(b.path), list(x.path)):
            return True
    return False


def names(h, nano, n, words, snake, kinds):
    """the Python name of a submodule, and of everything that is declared inside or refers to it"""
    o = make_options(nano)
    o.python_convert_to_snake_case = snake
    w1 = h.ident("first", n, prefix="N", alphabet=words)
    w2 = h.ident("second", n, prefix="M", alphabet=words)
    k = h.choose("kind", kinds)
    style = h.choose("style", ["braces", "c++17"])
    decl = DECLS[k][0].replace("@", "x")
    code = open_ns([w1, w2], style, decl + "struct Use { int bb; };\n") + "int useit(" + w1 + "::" + w2 + "::Use uu);\n"
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    mods = [b for b in pydef.bindings if b.kind == "module"]
    h.check(len(mods) == 2, "one submodule for each namespace", detail)
    top = [m for m in mods if m.path == ()]
    sub = [m for m in mods if m.path != ()]
    h.check(len(top) == 1 and len(sub) == 1, "the inner namespace is a submodule of the outer one", detail)
    for m, w in ((top[0], w1), (sub[0], w2)):
        if snake:
            h.check(f_str_eq(m.name.replace("_", ""), w.lower().replace("_", "")), "the name of the submodule is the snake case name", (m.name, w, detail))
            h.check(m.name == m.name.lower(), "lower case name", (m.name, detail))
        else:
            h.eq(m.name, w, "the name of the submodule is the one of the namespace")
    path = (top[0].name, sub[0].name)
    b = one(h, [b for b in pydef.at(path) if b.name == DECLS[k][3].replace("@", "x")], "the declaration is in the inner submodule", detail)
    one(h, [x for x in stub.at(path) if x.name == DECLS[k][3].replace("@", "x")], "the declaration is in the inner proxy class", detail)
    use = one(h, stub.find("def", (), "useit"), "the function that refers to it", detail)
    h.eq(use.params[0][1], path[0] + "." + path[1] + ".Use", "a reference to a class of a namespace is written with the path of its submodule")


ASSUMPTIONS = [
    "inline namespaces (litgen warns that it ignores them), namespace aliases and using directives are outside the domain",
    "the names of two different namespaces differ in Python too; several headers processed by one generator are the subject of C21",
]
CASES = [
    Case("layout", layout,
         [dict(nano=False, depths=(2, 1, 2), styles=["braces", "c++17"], kinds=["fn"], alphabet="ab", mode="plain"), dict(nano=True, depths=(2, 2), styles=["braces"], kinds=["fn", "struct"], alphabet="ab", mode="root"),
          dict(nano=False, depths=(1, 2), styles=["c++17"], kinds=["enum", "struct"], alphabet="ab", mode="tworoots"), dict(nano=False, depths=(2, 1), styles=["braces", "c++17"], kinds=["fn"], alphabet="ab", mode="exclude"),
          dict(nano=True, depths=(1, 2), styles=["braces"], kinds=["fn", "enum"], alphabet="ab", mode="anonymous"), dict(nano=False, depths=(3, 0, 1), styles=["c++17", "half"], kinds=["fn"], alphabet="a", mode="plain")],
         [dict(nano=nano, depths=d, styles=["braces", "c++17", "half"], kinds=["fn", "struct", "enum"], alphabet="ab", mode=m) for nano in (False, True) for m in ("plain", "root", "tworoots", "exclude", "excludecallable", "anonymous") for d in ((1, 2), (2, 2))]
         + [dict(nano=False, depths=(2, 1, 2), styles=["braces", "c++17"], kinds=["fn"], alphabet="ab", mode=m) for m in ("root", "exclude")] + [dict(nano=True, depths=(1, 1, 1, 1), styles=["braces"], kinds=["fn"], alphabet="abc", mode="root")],
         bounds="up to 4 declarations in namespace paths of depth up to 3, whose names are unknown (equal or not), 3 syntaxes"),
    Case("names", names,
         [dict(nano=False, n=2, words="aB", snake=True, kinds=["fn"]), dict(nano=True, n=1, words="abAB", snake=False, kinds=["struct", "fn"])],
         [dict(nano=nano, n=3, words="aB", snake=s, kinds=["fn", "struct", "enum"]) for nano in (False, True) for s in (False, True)],
         bounds="names of up to 4 characters, nested, both syntaxes"),
]
