"""C11 default values: the stub announces, in Python, the value that the bindings pass (the C++ expression itself)"""
from .model import *
from .lib import read_cpp_literal, read_py_literal
from .c09 import Scopes, same, paths_eq

SITES = ["function", "nsfunction", "method", "static", "ctor", "attribute", "inner"]


def program(site, decl):
    if site == "function":
        return "void func(int first, " + decl + ");\n"
    if site == "nsfunction":
        return "namespace Na {\nvoid func(" + decl + ");\n}\n"
    cls = "struct Cls {\n" + {"method": "void func(" + decl + ");", "static": "static void func(" + decl + ");", "ctor": "Cls(" + decl + ");", "attribute": decl + ";", "inner": "struct Inner {\nvoid func(" + decl + ", int last = 0);\n};"}[site] + "\n};\n"
    return cls if site in ("method", "ctor") else "namespace Na {\n" + cls + "}\n"


def site_path(site):
    return {"function": (), "nsfunction": ("na",), "method": ("Cls",), "static": ("na", "Cls"), "ctor": ("Cls",), "attribute": ("na", "Cls"), "inner": ("na", "Cls", "Inner")}[site]


def defaults(h, o, nano, site, ctype, value, prelude=""):
    """-> [(text of a Python default, text of the C++ default)] for the parameter or the attribute `param`"""
    code = prelude + program(site, ctype + " param = " + value)
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    at = site_path(site)
    res = []
    name = "func"
    if site == "attribute":
        a = one(h, stub.find("attr", at, "param"), "the attribute is in the stub", detail)
        h.check(a.value is not None, "the value of the attribute is in the stub", detail)
        res.append((a.value, None))
        name = "__init__"
    elif site == "ctor":
        name = "__init__"
    d = one(h, stub.find("def", at, name), "the function is in the stub", detail)
    b = one(h, pydef.find("init" if name == "__init__" else "def", at, name), "the function is bound", detail)
    p = one(h, [x for x in d.params if x[0] == "param"], "the parameter is in the stub", detail)
    q = one(h, [x for x in b.params if x[0] == "param"], "the parameter is bound", detail)
    h.check(p[2] is not None, "the default value is in the stub", detail)
    h.check(q[1] is not None, "the default value is bound", detail)
    res.append((p[2], q[1]))
    return res, detail


def judge(h, res, want_py, want_cpp, detail):
    for py, cpp in res:
        h.check(f_eq(tight(py), tight(want_py)), "the stub announces the same value", (py, want_py, detail))
        if cpp is not None:
            h.check(f_eq(tight(cpp), tight(want_cpp)), "the bindings pass the C++ value", (cpp, want_cpp, detail))


def literals(h, text, marker, read, stops):
    """the literals that follow each occurrence of marker"""
    found = []
    i = text.find(marker)
    while i >= 0:
        i += len(marker)
        end = i
        while text[end] not in "\"'":
            end += 1  # prefix such as str(
        v = read(text, end)
        h.check(v is not None, "there is a literal", (text[i:], text))
        found.append((text[i:end], v[0], text[v[1] : v[1] + stops]))
        i = text.find(marker, v[1])
    return found


def literal_values(h, o, nano, site, ctype, cpp, prelude):
    """-> [(text before, value, next chars)] in the stub, and in the bindings (the texts are unknown: they are read as text)"""
    code = prelude + program(site, ctype + " param = " + cpp)
    r = gen(o, code)
    h.observe(r.stub_code)
    ty = "char" if ctype == "char" else "str"
    py = literals(h, r.stub_code, "param: " + ty + " = ", read_py_literal, 5)
    b = literals(h, r.pydef_code, ("nb" if nano else "py") + '::arg("param") = ', read_cpp_literal if ctype != "char" else read_char, 16)
    detail = (code, r.stub_code, r.pydef_code)
    h.check(len(py) == (2 if site == "attribute" else 1), "the values are in the stub", detail)
    h.check(len(b) == 1, "the value is bound", detail)
    return py, b, detail


def read_char(s, i):
    """a character literal of C++"""
    if s[i] != "'":
        return None
    if s[i + 1] == "\\":
        return {"'": "'", "\\": "\\", "n": "\n", "t": "\t"}[s[i + 2]], i + 4 if s[i + 3] == "'" else None
    return (s[i + 1], i + 3) if s[i + 2] == "'" else None


def integers(h, nano, nd, sites, signs, suffixes=("", "u", "UL", "ll", "uLL", "L", "z")):
    """integer literals: any base, digits, separators and suffixes"""
    o = make_options(nano)
    site = h.choose("site", sites)
    base = h.choose("base", ["", "0", "0x", "0b", "0X"])
    suffix = h.choose("suffix", list(suffixes))
    digits = h.str("digits", nd, {"": "0123456789", "0": "01234567", "0x": "0123456789abcdefABCDEF", "0X": "09afAF", "0b": "01"}[base])
    if base == "":
        h.assume(f_not(f_str_eq(digits[0], "0")))
    sep = h.choose("sep", [0, 1] if nd == 3 else [0])
    cpp = base + ("'".join(digits) if sep else digits) + suffix
    sign = h.choose("sign", signs)
    # (the generated constructors have no parameter for the types of several words)
    ctype = "int" if site == "attribute" else h.choose("type", ["int", "unsigned long long"])
    res, detail = defaults(h, o, nano, site, ctype, sign + cpp)
    want = sign + ("0o" if base == "0" else base) + digits
    for py, b in res:
        # the digits separators of Python are accepted
        h.check(f_eq("".join([c for c in py if c != "_"]), want), "the stub announces the same integer", (py, want, detail))
        h.check("__" not in py and not py.endswith("_"), "the separators are well placed", (py, detail))
        if b is not None:
            h.eq(tight(b), sign + cpp, "the bindings pass the C++ value")


def floats(h, nano, sites, forms, suffixes):
    """floating point literals, with any digits, exponent and suffix"""
    o = make_options(nano)
    site = h.choose("site", sites)
    form = h.choose("form", forms)
    suffix = h.choose("suffix", suffixes)
    if form in ("d", "dsd") and suffix != "":
        h.assume(False)
    d = h.str("digits", 3, "0123456789")
    body = {"d.d": d[0] + "." + d[1:], "d.": d + ".", ".d": "." + d, "ded": d[0] + "e" + d[1:], "d.de-d": d[0] + "." + d[1] + "e-" + d[2], "d.E+d": d[:2] + ".E+" + d[2], "d'd'd.": d[:1] + "'" + d[1] + "'" + d[2] + "."}[form]
    ctype = h.choose("type", ["double", "float"])
    sign = h.choose("sign", ["", "-"])
    res, detail = defaults(h, o, nano, site, ctype, sign + body + suffix)
    for py, b in res:
        want = sign + "".join([c for c in body if c != "'"])
        h.check(f_eq("".join([c for c in py if c != "_"]), want), "the stub announces the same number", (py, want, detail))
        h.check("__" not in py and not py.endswith("_"), "the separators are well placed", (py, detail))
        if b is not None:
            h.eq(tight(b), sign + body + suffix, "the bindings pass the C++ value")


TEXT = "a1 :&*'.,(){}<>=/+-_#fK\u00e9"


def strings(h, nano, n, sites, forms):
    """string literals: their text is never modified (whatever it looks like)"""
    o = make_options(nano)
    o.srcmlcpp_options.named_number_macros = {"K": 7}
    site = h.choose("site", sites)
    form = h.choose("form", forms)
    t = h.text("text", n, TEXT)
    extra = h.choose("extra", ["", "Cls::va", "true NULL 1.5f 0x1u K", "\\\"x\\\" \\\\", "\\n\\t", "E::va std::string() 1'000"])
    lit = '"' + (t + extra if form != "reverse" else extra + t) + '"'
    ctype = "const char *" if form == "char*" else "std::string"
    if form == "char*" and site == "attribute":
        h.assume(False)  # (no parameter in the constructor for the const members)
    cpp = {"ctor": "std::string(" + lit + ")", "concat": lit + " + std::string()"}.get(form, lit)
    py, b, detail = literal_values(h, o, nano, site, ctype, cpp, "enum class E { va, Vb };\n")
    want = read_cpp_literal(lit, 0)[0]
    for before, value, after in py:
        h.eq(before, "str(" if form == "ctor" else "", "nothing before the string")
        h.check(f_eq(value, want), "the stub announces the same string", (value, want, detail))
        after = after[1:] if form == "ctor" else after
        if form == "concat":
            h.check(after.startswith(' + ""'), "concatenation", (after, detail))
        else:
            h.check(after[0] in "\n,)" or after.startswith(" #"), "nothing after the string", (after, detail))
    for before, value, after in b:
        h.eq(before, "std::string(" if form == "ctor" else "", "nothing before the string")
        h.check(f_eq(value, want), "the bindings pass the same string", (value, want, detail))
        h.check(after.startswith(" + std::string()") if form == "concat" else after[0] in ")," or after[0] == "\n", "nothing after the string", (after, detail))


def chars(h, nano, sites):
    """character literals"""
    o = make_options(nano)
    o.srcmlcpp_options.named_number_macros = {"K": 7}
    site = h.choose("site", sites)
    esc = h.choose("escape", [None, "\\'", "\\\\", "\\n", '"', "\\t"])
    if esc is None:
        c = h.text("char", 1, "a1 :&*.,(){}<>=/+-_#fK")
    else:
        c = esc
    py, b, detail = literal_values(h, o, nano, site, "char", "'" + c + "'", "")
    want = {"\\'": "'", "\\\\": "\\", "\\n": "\n", '"': '"', "\\t": "\t"}[esc] if esc is not None else c
    for before, value, after in py:
        h.eq(before, "", "nothing before the character")
        h.check(f_eq(value, want), "the stub announces the same character", (value, want, detail))
        h.check(after[0] in "\n,)", "nothing after the character", (after, detail))
    for before, value, after in b:
        h.eq(before, "", "nothing before the character")
        h.check(f_eq(value, want), "the bindings pass the same character", (value, want, detail))
        h.check(after[0] in "),\n", "nothing after the character", (after, detail))


CONSTANTS = [
    ("bool", "true", "True", None), ("bool", "false", "False", None),
    ("int *", "nullptr", "None", "NONE"), ("int *", "NULL", "None", "NONE"), ("std::optional<int>", "std::nullopt", "None", "NONE"),
    ("std::string", "std::string()", '""', None),
    ("double", "DBL_MAX", "sys.float_info.max", None), ("float", "-FLT_MAX", "-sys.float_info.max", None),
    ("double", "LDBL_MAX", "sys.float_info.max", None), ("double", "DBL_MIN", "sys.float_info.min", None), ("float", "FLT_MIN", "sys.float_info.min", None), ("double", "-LDBL_MIN", "-sys.float_info.min", None),
]


def constants(h, nano, n, sites):
    """the constants of the language, and the names of numbers given in the options"""
    o = make_options(nano)
    a = h.ident("macro0", n, prefix="K", alphabet="KAZ_9")
    b = h.ident("macro1", n + 1, prefix="K", alphabet="KAZ_9")
    o.srcmlcpp_options.named_number_macros = {a: 17, b: 256}
    site = h.choose("site", sites)
    kind = h.choose("kind", ["constant", "macro0", "macro1", "near", "nearly", "expr"])
    if kind == "constant":
        ctype, cpp, py, _ = h.choose("constant", CONSTANTS)
        bound = cpp
        if py == "None":
            bound = ("nb" if nano else "py") + "::none()"
        if site == "attribute" and py == "None":
            h.assume(False)
    elif kind == "nearly":
        # nor a name which only contains the name of a constant
        word = h.choose("constant", ["LDBL_MAX", "DBL_MIN", "FLT_MAX", "LDBL_MIN", "FLT_MIN", "DBL_MAX", "NULL", "nullptr", "true", "false", "nullopt", "void"])
        x = h.ident("other", n, prefix="q", alphabet="qZ_9")
        ctype, cpp = "double", x + word if h.choose("side", ["after", "before"]) == "after" else word + x
        py = bound = cpp
    elif kind == "near":
        # a name which only contains the name of a macro is not replaced
        ctype, cpp = "int", "near_" + a + "x"
        py = bound = cpp
    else:
        ctype = "int"
        cpp, py = {"macro0": (a, "17"), "macro1": (b, "256"), "expr": (b + " + 2 * (" + a + " - 1)", "256 + 2 * (17 - 1)")}[kind]
        bound = cpp
    res, detail = defaults(h, o, nano, site, ctype, cpp)
    judge(h, res, py, bound, detail)


BIN = ["+", "-", "*", "&", "|", "^", "<<", "%", "/"]


def operators(h, nano, sites, bins, operands):
    """expressions: operators, parentheses and operands are kept"""
    o = make_options(nano)
    site = h.choose("site", sites)
    op1 = h.choose("op1", bins)
    op2 = h.choose("op2", bins)
    gap = h.choose("gap", [" ", ""])
    un = h.choose("unary", ["", "-", "~"])
    shape = h.choose("shape", ["flat", "left", "right", "all"])
    d = h.str("digits", 2, "123456789")
    pairs = {"num": (d[0] + "u", d[0]), "name": ("near" + d[0], "near" + d[0]), "hex": ("0x" + d[0] + "F", "0x" + d[0] + "F")}
    x = pairs[h.choose("operand", operands)]
    y = (d[1], d[1])

    def build(k):
        a, b, c = un + x[k], y[k], x[k]
        if shape == "flat":
            return a + gap + op1 + gap + b + gap + op2 + gap + c
        if shape == "left":
            return "(" + a + gap + op1 + gap + b + ")" + gap + op2 + gap + c
        if shape == "right":
            return a + gap + op1 + gap + "(" + b + gap + op2 + gap + c + ")"
        return "(" + a + ")" + gap + op1 + gap + "(" + b + ")" + gap + op2 + gap + "(" + c + ")"

    res, detail = defaults(h, o, nano, site, "int", build(0))
    judge(h, res, build(1), build(0), detail)


def py_member(kind, member):
    return member.lower()


def members(h, nano, n, names, kinds, uses, wheres):
    """a value (enumerator, static member) declared in any scope, spelled with or without its scopes"""
    o = make_options(nano)
    sc = Scopes()
    kind = h.choose("kind", kinds)
    e0 = h.ident("scope0", n, prefix="Q", alphabet=names)
    e1 = h.ident("scope1", n, prefix="Q", alphabet=names)
    e2 = h.ident("scope2", n, prefix="Q", alphabet=names)
    u = h.ident("used", n, prefix="Q", alphabet=names)
    v = "V" + h.str("value", 1, "abA") + "x"  # may be converted to snake case
    use = h.choose("use", uses)
    where = h.choose("where", wheres)
    mixed = kind == "enum"

    def decl(name, tag):
        if kind == "static":
            return "struct " + name + " { static const int " + v + " = 1; };\n"
        if kind == "enum":
            return "enum " + name + " { " + name + "_" + v + " = 1, " + name + "_o = 2 };\n"
        if kind == "plain enum":
            return "enum " + name + " { " + v + tag + " = 1, O" + tag + " };\n"
        return "enum class " + name + " { " + v + " = 1, o };\n"

    for path, name, k in [([], "Na", "namespace"), (["Na"], "Cls", "class"), ([], e0, "enum"), (["Na"], e1, "enum"), (["Na", "Cls"], e2, "enum")]:
        sc.add(path, name, k)
    scope = {"method": ["Na", "Cls"], "attribute": ["Na", "Cls"], "function": [], "sibling": ["Na"]}[where]
    want = sc.lookup(scope, use.split("::")[:-1] + [u])
    if want is None or sc.children(want[:-1], want[-1]) != "enum":
        h.assume(False)
    if where == "sibling" and len(want) == 1:
        h.assume(False)  # (see the assumptions of C09)
    tag = ["", "r", "n", "c"][len(want)]
    qual = h.choose("qualified", [False, True]) if kind in ("enum", "plain enum") else True
    if kind == "static" or kind == "enum class":
        tail, py_tail = u + "::" + v, v
        full = "::".join(want) + "::" + v
    elif kind == "enum":
        tail = (u + "::" if qual else "") + u + "_" + v
        py_tail = v
        full = "::".join(want[: None if qual else -1] + [want[-1] + "_" + v])
    else:
        tail = (u + "::" if qual else "") + v + tag
        py_tail = v + tag
        full = "::".join(want[: None if qual else -1] + [v + tag])
    shape = h.choose("shape", ["%s", "%s + 1"])
    ctype = "int"
    d = ctype + " param = " + shape.replace("%s", use + tail)
    fn = "void func(" + d + ");\n"
    code = (decl(e0, "r") + "namespace Na {\n" + decl(e1, "n") + "struct Cls {\n" + decl(e2, "c") + (fn if where == "method" else d + ";\n" if where == "attribute" else "") + "};\n"
            + (fn if where == "sibling" else "") + "}\n" + (fn if where == "function" else ""))
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    at = {"method": ("na", "Cls"), "attribute": ("na", "Cls"), "function": (), "sibling": ("na",)}[where]
    found = []
    if where == "attribute":
        a = one(h, stub.find("attr", at, "param"), "the attribute is in the stub", detail)
        found.append(a.value)
        fname = "__init__"
    else:
        fname = "func"
    m = one(h, stub.find("def", at, fname), "the function is in the stub", detail)
    found.append(one(h, [x for x in m.params if x[0] == "param"], "the parameter is in the stub", detail)[2])
    want_py = snake(py_tail)
    import re

    for text in found:
        h.check(text is not None, "there is a value in the stub", detail)
        if shape != "%s":
            h.check(text.endswith(" + 1"), "the expression is kept", (text, detail))
            text = text[:-4]
        parts = text.split(".")
        py_want_path = [x.lower() if i == 0 and x == "Na" else x for i, x in enumerate(want)] + [want_py]
        got = resolve(stub, list(at), parts)
        h.check(paths_eq(got, py_want_path), "the value of the stub designates the member that C++ finds", (text, got, py_want_path, detail))
    if where != "attribute":
        b = one(h, pydef.find("def", at, fname), "the function is bound", detail)
        x = [q for q in b.params if q[0] == "param"][0]
        h.eq(tight(x[1]), tight(shape.replace("%s", full)), "the bindings pass the qualified C++ value")
    else:
        b = one(h, pydef.find("init", at, fname), "the constructor is bound", detail)
        x = [q for q in b.params if q[0] == "param"][0]
        h.eq(tight(x[1]), tight(shape.replace("%s", full)), "the bindings pass the qualified C++ value")


def snake(v):
    """the python names of the members: V?x"""
    r = v[0].lower()
    for i in range(1, len(v)):
        r += ("_" + v[i].lower()) if v[i].isupper() and v[i - 1].islower() or (i > 0 and v[i].isupper() and i + 1 < len(v) and v[i + 1].islower()) else v[i].lower()
    return r


def resolve(stub, at, parts):
    """the attribute that a dotted name of the stub designates, from the body of a class"""

    def declared(path, name):
        for x in stub.items:
            if x.kind in ("class", "attr") and len(x.path) == len(path) and all([same(x.path[i], path[i]) for i in range(len(path))]) and same(x.name, name):
                return True
        return False

    for base in (list(at), []):
        if declared(base, parts[0]):
            for i in range(len(parts)):
                if not declared(base + parts[:i], parts[i]):
                    return None
            return base + parts
    return None


ASSUMPTIONS = [
    "C style casts, the ternary and boolean operators, sizeof, lambdas, user defined literals, raw and prefixed strings are outside the domain",
    "calls of functions that belong to another scope keep their C++ name in the stub (a test of the repository requires it)",
    "the expressions which srcML does not parse as a default value are outside the domain (`>>`, an odd number of digit separators, nested calls before the last parameter)",
    "the options type_replacements and value_replacements have their default values",
]

CASES = [
    Case("integers", integers, [dict(nano=False, nd=3, sites=["function", "attribute"], signs=["", "-"], suffixes=("", "u", "UL", "ll"))], thorough=[dict(nano=nano, nd=n, sites=SITES, signs=["", "-", "~"]) for nano in (False, True) for n in (1, 3)], bounds="literals of at most 3 unknown digits in bases 2, 8, 10, 16, one digit separator, 7 suffixes, at 7 places"),
    Case("floats", floats, [dict(nano=True, sites=["method", "attribute"], forms=["d.d", "d.", ".d", "ded", "d.de-d", "d.E+d", "d'd'd."], suffixes=["", "f", "F", "L", "l"])], thorough=[dict(nano=nano, sites=SITES, forms=["d.d", "d.", ".d", "ded", "d.de-d", "d.E+d", "d'd'd."], suffixes=["", "f", "F", "L", "l"]) for nano in (False, True)], bounds="literals of 3 unknown digits, with and without exponent, separator and suffix"),
    Case("strings", strings, [dict(nano=False, n=2, sites=["static", "attribute"], forms=["plain", "reverse", "char*", "ctor", "concat"])], thorough=[dict(nano=nano, n=3, sites=SITES, forms=["plain", "reverse", "char*", "ctor", "concat"]) for nano in (False, True)], bounds="literals of at most 3 unknown characters before or after a text which looks like code"),
    Case("chars", chars, [dict(nano=True, sites=["inner", "attribute"])], thorough=[dict(nano=nano, sites=SITES) for nano in (False, True)], bounds="any character, escaped or not"),
    Case("constants", constants, [dict(nano=False, n=1, sites=["ctor", "attribute"])], thorough=[dict(nano=nano, n=2, sites=SITES) for nano in (False, True)], bounds="8 constants of the language; two named numbers of at most 4 unknown characters (which may contain each other)"),
    Case("operators", operators, [dict(nano=True, sites=["nsfunction"], bins=["*", "&", "+", "<<"], operands=["num", "name"])], thorough=[dict(nano=nano, sites=[s], bins=BIN, operands=["num", "name", "hex"]) for nano, s in ((False, "method"), (True, "attribute"))], bounds="two binary operators out of 9, one unary operator, three operands, 4 ways to parenthesize"),
    Case("members", members, [dict(nano=False, n=1, names="xy", kinds=["static", "enum", "plain enum", "enum class"], uses=["", "Na::", "Na::Cls::"], wheres=["method", "function", "attribute"])], thorough=[dict(nano=nano, n=1, names="xyz", kinds=[k], uses=["", "Na::", "Na::Cls::", "Cls::"], wheres=["method", "function", "attribute", "sibling"]) for nano, k in ((False, "static"), (True, "enum"), (False, "plain enum"), (True, "enum class"))], bounds="one enum (or class with a static member) in each of 3 nested scopes (names unknown, homonyms included), used with 4 spellings at 4 places"),
]
