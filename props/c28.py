"""C28 types: every C++ type that a declaration mentions is announced as the Python type it converts to"""
from .c14 import PLACES14
from .model import *

FUNDAMENTAL = {
    "int": "int", "unsigned": "int", "signed": "int", "short": "int", "long": "int", "unsigned int": "int", "signed int": "int", "int unsigned": "int", "short int": "int", "unsigned short": "int", "unsigned short int": "int",
    "long int": "int", "unsigned long": "int", "long unsigned int": "int", "long long": "int", "long long int": "int", "unsigned long long": "int", "unsigned long long int": "int", "signed long long": "int",
    "int8_t": "int", "uint8_t": "int", "int16_t": "int", "uint16_t": "int", "int32_t": "int", "uint32_t": "int", "int64_t": "int", "uint64_t": "int", "size_t": "int", "ptrdiff_t": "int", "intptr_t": "int", "uintptr_t": "int",
    "std::int8_t": "int", "std::uint8_t": "int", "std::int16_t": "int", "std::uint32_t": "int", "std::uint64_t": "int", "std::size_t": "int", "std::ptrdiff_t": "int",
    "bool": "bool", "float": "float", "double": "float", "long double": "float",
    "std::string": "str", "std::wstring": "str", "std::u16string": "str", "std::string_view": "str", "const char *": "str", "char const *": "str", "void *": "Any", "const void *": "Any",
    "void*": "Any", "const void*": "Any", "void const*": "Any", "const char*": "str", "char const*": "str",
}
# A, B: the types of the elements
OUTER = {
    "std::vector<A>": "List[A]", "std::list<A>": "List[A]", "std::deque<A>": "List[A]", "std::array<A, 3>": "List[A]", "std::set<A>": "Set[A]", "std::unordered_set<A>": "Set[A]",
    "std::map<A, B>": "Dict[A,B]", "std::unordered_map<A, B>": "Dict[A,B]", "std::pair<A, B>": "Tuple[A,B]", "std::tuple<A, B>": "Tuple[A,B]", "std::tuple<A>": "Tuple[A]", "std::tuple<B, A, B>": "Tuple[B,A,B]",
    "std::optional<A>": "Optional[A]", "std::variant<A, B>": "Union[A,B]", "std::shared_ptr<A>": "A", "std::unique_ptr<A>": "A",
    "std::function<A(B)>": "Callable[[B],A]", "std::function<void(A, B)>": "Callable[[A,B],None]", "std::function<A()>": "Callable[[],A]", "std::function<B(A)>": "Callable[[A],B]",
    "std::function<void(A _1, B _2)>": "Callable[[A,B],None]", "std::function<A(const B & _1)>": "Callable[[B],A]", "std::function<void(A, const B &)>": "Callable[[A,B],None]",
}
CV = ["@", "const @", "@ const", "@ &", "const @ &", "@ const &", "@ *", "const @ *", "const @ * const", "@ * const"]
SITES28 = ["param", "return", "method", "method return", "static", "attribute", "ctor", "second", "virtual", "pointer return"]


def substitute(text, table):
    """replaces the letters A, B and the names _1, _2"""
    out = ""
    i = 0
    while i < len(text):
        two = text[i : i + 2]
        if two in table:
            out = out + table[two]
            i += 2
        elif text[i] in table:
            out = out + table[text[i]]
            i += 1
        else:
            out = out + text[i]
            i += 1
    return out


def compose(h, label, depth, outers, leaves, names):
    """a type of the given depth: (C++, Python)"""
    if depth == 0:
        k = h.choose(label, list(leaves))
        return leaves[k]
    k = h.choose(label, outers)
    # (one letter stands for the deeper type)
    a = compose(h, label + "a", depth - 1, outers, leaves, names)
    b = compose(h, label + "b", 0, outers, leaves, names) if "B" in k else ("", "")
    return substitute(k, {"A": a[0], "B": b[0], "_1": names[0], "_2": names[1]}), substitute(OUTER[k], {"A": a[1], "B": b[1]})


def declare(site, t, fname, pname, other):
    """-> (declaration inside a scope, is it a member)"""
    p = "(" + t + " " + pname + ");\n"
    return {
        "param": "void " + fname + p, "second": "void " + fname + "(int " + other + ", " + t + " " + pname + ");\n", "return": t + " " + fname + "();\n", "pointer return": t + " " + fname + "(int " + other + ", bool " + pname + ");\n",
        "method": "void " + fname + "(" + t + " " + pname + ") const;\n", "method return": t + " " + fname + "() const;\n", "static": "static " + t + " " + fname + "(" + t + " " + pname + ");\n",
        "attribute": t + " " + fname + ";\n", "ctor": "explicit Cls" + p, "virtual": "virtual " + t + " " + fname + "(" + t + " " + pname + ") = 0;\n",
    }[site]


FREE = ("param", "return", "second", "pointer return")


def annotations(h, stub, path, site, fname, pname, detail):
    """the annotations of the type in the stub"""
    at = path + (() if site in FREE else ("Cls",))
    if site == "attribute":
        a = one(h, stub.find("attr", at, fname), "the member is in the stub", detail)
        return [a.ann]
    d = one(h, stub.find("def", at, "__init__" if site == "ctor" else fname), "the function is in the stub", detail)
    ps = d.params if site in FREE or site == "static" else d.params[1:]
    n = {"return": 0, "method return": 0, "second": 2, "pointer return": 2}.get(site, 1)
    h.check(len(ps) == n, "the parameters of the function", detail)
    if n > 0:
        h.eq(ps[n - 1][0], pname, "the name of the parameter")
    if site in ("return", "method return", "pointer return"):
        return [d.ret]
    if site in ("static", "virtual"):
        return [ps[0][1], d.ret]
    return [ps[n - 1][1]]


def place(text, site, decl, classes):
    body = decl if site in FREE else "struct Cls {\nint before();\n" + decl + "int after();\n};\n"
    return text % (classes + body)


def check_types(h, nano, key, site, cpp, py, pyalts, classes, callable_name=""):
    o = make_options(nano)
    text, path, scope = PLACES14[key]
    fname = low(h, "function", 1)
    pname = low(h, "param", 1, prefix="w")
    other = low(h, "other", 1, prefix="v")
    code = place(text, site, declare(site, cpp, fname, pname, other), classes)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code)
    for a in annotations(h, stub, path, site, fname, pname, detail):
        want = [tight(py.replace("LOC", x)) for x in pyalts]
        h.check(f_or([f_eq(tight(a), w) for w in want]), "the type in the stub", (a, want, code))


def valid(site, key, cv):
    if site in FREE and key in ("inner", "nsinner"):
        return False
    if site == "attribute" and ("&" in cv or cv.startswith("const @") and "*" not in cv or cv in ("@ const", "@ * const", "const @ * const")):
        return False
    return True


def fundamental(h, nano, types, sites, cvs, places):
    """a fundamental type, a string or a pointer to void, decorated with const, references and pointers"""
    t = h.choose("type", types)
    site = h.choose("site", sites)
    key = h.choose("where", places)
    cv = h.choose("cv", cvs)
    if not valid(site, key, cv) or "*" in t and ("*" in cv or "&" in cv or cv == "const @"):
        return
    check_types(h, nano, key, site, cv.replace("@", t), FUNDAMENTAL[t], [""], "")


def leaves_(h, cname, key, simple):
    r = {x: (x, FUNDAMENTAL[x]) for x in simple}
    r["class"] = (cname, "LOC")
    return r


def class_name(h, prefixes, n):
    """the name of a class, which may contain the name of a type"""
    prefix = h.choose("prefix", prefixes)
    name = h.ident("class", n, prefix=prefix)
    for w in ["int", "long", "bool", "char", "void", "auto", "float", "short", "double", "unsigned", "signed", "int8_t", "int16_t", "size_t", "and", "for", "new", "try", "not", "xor", "asm", "del", "def", "Cls", "or", "if", "do", "as", "in", "is",
              "std", "union", "List", "None", "Any", "Outer", "Set", "Dict", "Tuple", "Union", "this", "class", "enum", "true", "void", "else", "case", "goto"]:
        if len(w) == len(name):
            h.assume(f_not(f_str_eq(name, w)))
    return name


def nested(h, nano, outers, simple, depth, sites, cvs, places, prefixes, n, elaborated=("",), spacings=("",)):
    """containers, smart pointers, callables... of simple types and of a class of the program"""
    site = h.choose("site", sites)
    key = h.choose("where", places)
    cv = h.choose("cv", cvs)
    if not valid(site, key, cv):
        return
    cname = class_name(h, prefixes, n)
    names = (h.ident("callback_a", 1, prefix="g"), h.ident("callback_b", 1, prefix="k"))
    text, path, scope = PLACES14[key]
    how = h.choose("spelling", list(elaborated))
    spelled = (scope if how == "scope" else "") + cname
    leaves = leaves_(h, spelled, key, simple)
    cpp, py = compose(h, "t", depth, outers, leaves, names)
    spacing = h.choose("spacing", list(spacings))
    if spacing == "tight":
        cpp = cpp.replace(", ", ",").replace(" *", "*").replace(" &", "&")
    elif spacing == "wide":
        cpp = cpp.replace("<", " < ").replace(">", " >").replace(",", " ,")
    elif spacing == "lines":
        cpp = cpp.replace("<", "<\n    ").replace(", ", ",\n    ")
    if "std::unique_ptr" in cpp and ("*" in cv or site == "virtual" and "&" not in cv):
        return
    alts = [".".join(path[i:] + (cname,)) for i in range(len(path) + 1)]
    check_types(h, nano, key, site, cv.replace("@", cpp), py, alts, "struct " + cname + " { int k; };\n")


WORDS = ["long", "double", "float", "unsigned", "signed", "short", "int", "char", "void", "const", "mutable", "int8_t", "uint64_t", "size_t", "ptrdiff_t", "static", "constexpr", "inline", "string", "string_view", "wstring",
         "unique_ptr", "shared_ptr", "vector", "list", "set", "array", "tuple", "pair", "variant", "optional", "map", "function", "py", "nb", "std", "unordered_map", "volatile", "struct", "long_double", "bool", "auto"]


def named(h, nano, words, sides, n, shapes, sites, places):
    """the name of a class may contain, at its start, its end or its middle, a word which is a type or a keyword"""
    site = h.choose("site", sites)
    key = h.choose("where", places)
    word = h.choose("word", words)
    side = h.choose("side", sides)
    x = h.ident("rest", n, prefix="Q" if side != "before" else "", alphabet="qZ_9")
    cname = {"after": x + word, "before": word + x, "middle": x + word + "Q"}[side]
    text, path, scope = PLACES14[key]
    cpp = h.choose("shape", shapes)
    alts = [".".join(path[i:] + (cname,)) for i in range(len(path) + 1)]
    py = "LOC" if "<" not in cpp else "List[LOC]"
    if not valid(site, key, cpp if "<" not in cpp else "@"):
        return
    check_types(h, nano, key, site, cpp.replace("@", cname), py, alts, "struct " + cname + " { int k; };\n")


ASSUMPTIONS = [
    "the options type_replacements have their default value",
    "char, signed char and unsigned char keep their C++ name in the stub (a test of the repository requires it), and are outside the domain",
    "a class named as a type of the module typing (List, Set...) is outside the domain: such a name would be ambiguous in the stub",
    "templates of the user are the subject of C18; function pointers and pointers to members are outside the domain",
    "std::shared_ptr and std::unique_ptr are announced as the type they point to",
]
_O = list(OUTER)
_S = ["param", "method return", "attribute"]
CASES = [
    Case("fundamental", fundamental,
         [dict(nano=False, types=list(FUNDAMENTAL), sites=["static"], cvs=["@"], places=["ns"]), dict(nano=True, types=["unsigned short int", "std::string"], sites=["param", "method return"], cvs=CV, places=["root"])],
         [dict(nano=nano, types=list(FUNDAMENTAL), sites=[s], cvs=CV, places=["nsns", "inner"]) for nano in (False, True) for s in SITES28], bounds="51 types, 10 decorations, 10 sites, 5 places"),
    Case("named", named,
         [dict(nano=False, words=WORDS, sides=["after"], n=1, shapes=["const @ &"], sites=["param"], places=["root"]), dict(nano=True, words=WORDS, sides=["before"], n=1, shapes=["std::vector<@>"], sites=["method return"], places=["inner"]),
          dict(nano=False, words=WORDS, sides=["middle"], n=1, shapes=["@"], sites=["return"], places=["ns"])],
         [dict(nano=nano, words=WORDS, sides=["after", "before", "middle"], n=2, shapes=["@", "const @ &", "@ *", "std::vector<@>"], sites=[s], places=[p]) for nano, p in ((False, "nsns"), (True, "inner")) for s in ("param", "method return", "attribute")],
         bounds="42 words, at the start, at the end or in the middle of the name"),
    Case("nested", nested,
         [dict(nano=False, outers=_O, simple=["unsigned int"], depth=1, sites=["param"], cvs=["const @ &"], places=["ns"], prefixes=["Q"], n=1),
          dict(nano=False, outers=["std::function<A(const B & _1)>", "std::array<A, 3>"], simple=[], depth=1, sites=["param"], cvs=["const @ &"], places=["ns"], prefixes=[""], n=3),
          dict(nano=True, outers=["std::array<A, 3>", "std::map<A, B>", "std::function<void(A _1, B _2)>", "std::shared_ptr<A>", "std::variant<A, B>"], simple=[], depth=2, sites=["param"], cvs=["@"], places=["root"], prefixes=["Q"], n=1),
          dict(nano=True, outers=["std::vector<A>", "std::function<A(B)>", "std::optional<A>"], simple=["void*", "const void *", "void const*", "const char*"], depth=1, sites=["method"], cvs=["@"], places=["root"], prefixes=["Q"], n=1),
          dict(nano=True, outers=_O, simple=[], depth=1, sites=["return"], cvs=["@"], places=["ns"], prefixes=["Q"], n=1, spacings=["tight", "wide", "lines"]),
          dict(nano=False, outers=["std::pair<A, B>", "std::optional<A>", "std::vector<A>"], simple=[], depth=2, sites=["method return"], cvs=["@"], places=["root"], prefixes=["Q"], n=1),
          dict(nano=True, outers=["std::pair<A, B>", "std::function<B(A)>"], simple=["std::string"], depth=1, sites=["param"], cvs=["@"], places=["root"], prefixes=["Q"], n=1),
          dict(nano=False, outers=["std::function<A(const B & _1)>"], simple=[], depth=1, sites=SITES28, cvs=["@"], places=["nsinner"], prefixes=["Q"], n=1, elaborated=["scope"]),
          dict(nano=True, outers=["std::pair<A, B>"], simple=[], depth=1, sites=["method"], cvs=["@"], places=["inner"], prefixes=["unsigned", "long_", "std", "int", "size_t", "string", "void", "List", "vector", "optional_", "function"], n=2)],
         [dict(nano=nano, outers=_O, simple=["unsigned int", "std::string"], depth=1, sites=SITES28, cvs=["@", "const @ &", "@ *"], places=[p], prefixes=[""], n=3, elaborated=["scope"]) for nano, p in ((False, "ns"), (True, "inner"))]
         + [dict(nano=nano, outers=_O, simple=["void*", "const char*"], depth=1, sites=SITES28, cvs=["@"], places=["nsinner"], prefixes=["Q"], n=1, spacings=["", "tight", "wide", "lines"]) for nano in (False, True)]
         + [dict(nano=nano, outers=_O, simple=["bool"], depth=2, sites=["method"], cvs=["@"], places=["nsinner"], prefixes=["Q"], n=1) for nano in (False, True)]
         + [dict(nano=False, outers=["std::vector<A>", "std::map<A, B>", "std::function<void(A, const B &)>", "std::pair<A, B>"], simple=["int"], depth=3, sites=["param"], cvs=["@"], places=["ns"], prefixes=["Q"], n=1)],
         bounds="21 templates nested up to 2 times (thorough: 3), with simple types and a class whose name has 3 unknown characters or contains the name of a type; unknown names of the parameters of callables; 4 ways of placing the blanks"),
]
