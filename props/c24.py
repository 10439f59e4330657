"""C24 operators: the operators of the classes are published as the Python special methods which mean the same"""
from .c14 import PLACES14, decide_
from .model import *

BINARY = {
    "+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "%": "__mod__", "[]": "__getitem__", "<": "__lt__", "<=": "__le__", "==": "__eq__", "!=": "__ne__",
    ">": "__gt__", ">=": "__ge__", "+=": "__iadd__", "-=": "__isub__", "*=": "__imul__", "/=": "__itruediv__", "%=": "__imod__",
}
UNARY = {"-": "__neg__", "+": "__pos__", " bool": "__bool__"}
COMPARISONS = ["<", "<=", "==", ">=", ">"]
# declarations that have no Python equivalent: they publish nothing
NO_EQUIVALENT = ["Loc & operator++();", "Loc operator--(int);", "Loc & operator=(const Loc & o);", "Loc * operator->();", "int & operator*();", "bool operator!() const;", "Loc operator|(const Loc & o) const;",
                 "bool operator&&(bool b) const;", "operator int() const;", "Loc & operator<<(int o);", "void * operator new(size_t n);", "Loc operator~() const;", "Loc & operator,(int o);"]
# (C++ type, what the stub says)
OPERANDS = {"same": ("const Loc &", "LOC"), "value": ("Loc", "LOC"), "int": ("int", "int"), "float": ("float", "float"), "string": ("const std::string &", "str"), "other": ("const Oth &", "OTH")}


def place(h, places):
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    return text, path, scope


def f_type(got, want, path):
    """the annotation is the expected one, whatever the valid qualification of the classes of the program"""
    alts = [".".join(path[i:] + ("",)) for i in range(len(path) + 1)]
    return f_or([f_eq(tight(got), tight(want.replace("LOC", a + "Loc").replace("OTH", a + "Oth"))) for a in alts])


def f_cpp_target(nano, got, scope, op, types, const):
    """the target is this operator, with or without a cast that selects the overload"""
    address = "&" + scope + "Loc::operator" + op
    cast = ("nb" if nano else "py") + "::overload_cast<"
    alts = [address]
    for q in (scope, ""):
        ts = ",".join([t.replace("Loc", q + "Loc").replace("Oth", q + "Oth") for t in types])
        alts.append(cast + ts + ">(" + address + ((", nb::const_" if nano else ", py::const_") if const else "") + ")")
    return f_or([f_eq(tight(got), tight(a)) for a in alts])


def program(text, body, outside=""):
    return text % ("struct Oth { Oth(int); };\nstruct Loc {\nLoc(int);\nint first();\n" + body + "int last();\n};\n" + outside)


def check_operator(h, stub_item, binding, nano, path, scope, op, operands, const, ret, static, detail, overloaded=False):
    h.eq(stub_item.name, binding.name, "the same operator in the bindings")
    sp = stub_item.params if static else stub_item.params[1:]
    h.check(len(sp) == len(operands) and len(binding.params) == len(operands), "the operator has as many operands as in C++", detail)
    for i, (kind, name) in enumerate(operands):
        h.eq(sp[i][0], name, "name of the operand in the stub")
        h.eq(binding.params[i][0], name, "name of the operand in the bindings")
        want = OPERANDS[kind][1]
        if op in ("==", "!="):
            want = "object"
        h.check(f_type(sp[i][1], want, path), "type of the operand in the stub", detail)
    h.check(f_type(stub_item.ret, ret, path), "type of the result in the stub", detail)
    l = binding.lambda_
    if l is None:
        h.check(f_cpp_target(nano, binding.cpp, scope, op, [OPERANDS[k][0] for k, n in operands], const), "the bindings call the operator", (binding.cpp, detail))
    else:
        h.check(f_str_contains(tight(l.body), "self.operator" + tight(op) + "(" + ",".join([n for k, n in operands]) + ")"), "the bindings call the operator", detail)
    h.check(("overload" in stub_item.decorators) == overloaded, "decorated as an overload if there are several", detail)


def neighbours(h, stub, pydef, at, detail):
    for n in ("first", "last"):
        one(h, stub.find("def", at, n), "its neighbours are in the stub", detail)
        one(h, pydef.find("def", at, n), "its neighbours are bound", detail)


def single(h, nano, ops, operands, places, forms=5, rets=3):
    """one operator, unary, binary or a call"""
    o = make_options(nano)
    text, path, scope = place(h, places)
    op, arity = h.choose("op", ops)
    names = [low(h, "operand" + str(i), 1) for i in range(arity)]
    if arity > 1:
        h.distinct(*names)
    kinds = [h.choose("type" + str(i), operands) for i in range(arity)]
    const = h.choose("const", [True, False])
    ret, pyret = h.choose("ret", [("Loc", "LOC"), ("bool", "bool"), ("const Loc &", "LOC")][:rets]) if op != " bool" else ("", "bool")
    form = h.choose("form", [" @;", "explicit @;"] if op == " bool" else ["@;", "inline @ { return {}; }", "virtual @;", "[[nodiscard]] @;", "constexpr @ noexcept;"][:forms])
    ps = [OPERANDS[k][0] + " " + n for k, n in zip(kinds, names)]
    sig = (ret + " " if ret != "" else "") + "operator" + op + "(" + ", ".join(ps) + ")" + (" const" if const else "")
    code = program(text, form.replace("@", sig) + "\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    at = path + ("Loc",)
    name = "__call__" if op == "()" else UNARY[op] if arity == 0 else BINARY[op]
    it = one(h, stub.find("def", at, name), "the operator is in the stub", detail)
    b = one(h, pydef.find("def", at, name), "the operator is bound", detail)
    check_operator(h, it, b, nano, path, scope, op, list(zip(kinds, names)), const, pyret, False, detail)
    h.check(len(stub.at(at, "def")) == 4 and len(pydef.at(at, "def")) == 3, "nothing else is published", detail)
    neighbours(h, stub, pydef, at, detail)


def overloads(h, nano, ops, operands, places, n, between=2):
    """several operators: each is published under its own Python name, overloads of the same name together"""
    o = make_options(nano)
    text, path, scope = place(h, places)
    decls = []
    for i in range(n):
        op, arity = h.choose("op" + str(i), ops)
        kinds = [h.choose("type" + str(i), operands)] * arity
        const = h.choose("const" + str(i), [True, False]) if i == 0 else i % 2 == 0
        decls.append((op, kinds, const, low(h, "operand" + str(i), 1)))
    if len(set([(d[0], tuple(d[1])) for d in decls])) < n:
        return  # (the same operator twice)
    if [d for d in decls if d[0] in ("==", "!=") and len([e for e in decls if e[0] == d[0]]) > 1]:
        return  # (all their operands are `object` in the stub)
    body = ""
    for op, kinds, const, name in decls:
        body += "int operator" + op + "(" + ", ".join([OPERANDS[k][0] + " " + name for k in kinds]) + ")" + (" const;\n" if const else ";\n") + h.choose("between", ["", "int mid_" + str(len(body)) + "();\n"][:between])
    code = program(text, body)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    at = path + ("Loc",)
    groups = {}
    for d in decls:
        groups.setdefault(UNARY[d[0]] if len(d[1]) == 0 else BINARY[d[0]], []).append(d)
    for name, ds in groups.items():
        its, bs = stub.find("def", at, name), pydef.find("def", at, name)
        h.check(len(its) == len(ds) and len(bs) == len(ds), "every operator is published once", (name, detail))
        for i, (op, kinds, const, operand) in enumerate(ds):
            check_operator(h, its[i], bs[i], nano, path, scope, op, [(k, operand) for k in kinds], const, "int", False, detail, len(ds) > 1)
        pos = [i for i, x in enumerate(stub.at(at, "def")) if x.name == name]
        h.check(pos == list(range(pos[0], pos[0] + len(pos))), "the overloads of a name are adjacent in the stub", detail)
    neighbours(h, stub, pydef, at, detail)


def spaceship(h, nano, places, operands, explicit, rets):
    """<=> provides the five comparisons, except those that the class declares"""
    o = make_options(nano)
    text, path, scope = place(h, places)
    kinds = [h.choose("type0", operands)]
    second = h.choose("type1", [None] + operands)
    if second == kinds[0]:
        return
    kinds += [second] if second is not None else []
    names = [low(h, "operand" + str(i), 1) for i in range(len(kinds))]
    ret = h.choose("ret", rets)
    declared = h.choose("declared", explicit)
    access = h.choose("access", ["public", "private", "deleted"]) if declared != "" else "public"
    first = h.choose("order", [True, False]) if declared != "" else True
    const = h.choose("const", [" const", ""])
    body = ""
    for k, n in zip(kinds, names):
        body += ret + " operator<=>(" + OPERANDS[k][0] + " " + n + ")" + const + h.choose("default", [";\n", " = default;\n"]) if k == "same" else ret + " operator<=>(" + OPERANDS[k][0] + " " + n + ")" + const + ";\n"
    after = ""
    if declared != "":
        d = "bool operator" + declared + "(" + OPERANDS[kinds[0]][0] + " rhs) const" + (" = delete;\n" if access == "deleted" else ";\n")
        if access == "private":
            after = "private:\n" + d
        else:
            body = body + d if first else d + body
    code = text % ("struct Oth { Oth(int); };\nstruct Loc {\nLoc(int);\nint first();\n" + body + "int last();\n" + after + "};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano, ignore=("__eq__",))
    detail = (code, r.stub_code, r.pydef_code)
    at = path + ("Loc",)
    for op in COMPARISONS:
        name = BINARY[op]
        want = [(k, n, True) for k, n in zip(kinds, names)]
        if op == declared:
            want = want[1:]
            if access == "public":
                want = want + [(kinds[0], "rhs", False)] if first else [(kinds[0], "rhs", False)] + want
        bs, its = pydef.find("def", at, name), stub.find("def", at, name)
        h.check(len(bs) == len(want), "a comparison is bound once per type which it compares", (name, detail))
        # (all the operands of == are `object` in the stub)
        h.check(len(its) == (len(want) if op != "==" else min(len(want), 1)) or len(its) == len(want), "a comparison is in the stub once per type which it compares", (name, detail))
        for i, (k, n, from_spaceship) in enumerate(want):
            # their order is not specified
            b = one(h, [x for x in bs if len(x.params) == 1 and decide_(f_eq(x.params[0][0], n)) and (x.lambda_ is not None) == from_spaceship and (x.lambda_ is None or f_param(x.lambda_, scope, k))], "the comparison with this type is bound", (name, k, detail))
            if not from_spaceship:
                h.check(f_cpp_target(nano, b.cpp, scope, op, [OPERANDS[k][0]], True), "the bindings call the comparison which the class declares", detail)
                continue
            t = tight(b.lambda_.body)
            h.check(f_str_contains(t, tight("self.operator<=>(other) " + op + " 0")) or f_str_contains(t, tight("self.operator<=>(" + n + ") " + op + " 0")), "the comparison is the one of the spaceship operator", detail)
            h.check(f_type(one(h, [x for x in its if op == "==" or (decide_(f_eq(x.params[1][0], n)) and decide_(f_type(x.params[1][1], OPERANDS[k][1], path)))][:1], "the comparison is in the stub", detail).ret, "bool", path), "a comparison is a bool", detail)
    h.check(len(pydef.find("def", at, "__ne__")) == 0, "nothing else is published", detail)
    h.not_contains(r.stub_code, "<=>", "no operator without a Python name is published")
    neighbours(h, stub, pydef, at, detail)


def f_param(l, scope, kind):
    """the last parameter of a lambda has this type"""
    t = tight(l.params[-1][0])
    want = OPERANDS[kind][0]
    return t in [tight(want.replace("Loc", q + "Loc").replace("Oth", q + "Oth")) for q in (scope, "")]


def ordinary(h, nano, n, places, kinds):
    """a function whose name begins with `operator` is an ordinary function"""
    o = make_options(nano)
    text, path, scope = place(h, places)
    name = "operator" + h.str("rest", 1, "_sx7") + h.str("more", n, "_xyz7")
    kind = h.choose("kind", kinds)
    h.assume(f_not(f_str_eq(name[-1:], "_")))
    h.assume(f_not(f_str_contains(name, "__")))
    if kind == "free":
        code, at, target = text % ("int first();\nint " + name + "(int a, int b = 2);\nint last();\n"), path, scope + name
        if scope.endswith("Outer::"):
            code = code.replace("int " + name, "static int " + name)
    else:
        code, at, target = program(text, {"method": "int ", "static": "static int ", "const": "virtual int "}[kind] + name + "(int a, int b = 2)" + (" const;\n" if kind == "const" else ";\n")), path + ("Loc",), scope + "Loc::" + name
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    it = one(h, stub.find("def", at, name), "the function is in the stub", detail)
    b = one(h, pydef.find("def", at, name), "the function is bound", detail)
    h.check(f_or([f_eq(tight(b.cpp), tight(target)), f_eq(tight(b.cpp), "&" + tight(target))]), "the bindings call the function", detail)
    h.check(len(b.params) == 2 and b.params[0][0] == "a" and it.params[-1][0] == "b" and it.params[-1][2] == "2", "parameters", detail)
    neighbours(h, stub, pydef, at, detail)


def nothing(h, nano, places, decls):
    """an operator that has no equivalent in Python, or that is not a member, publishes nothing and disturbs nothing"""
    o = make_options(nano)
    text, path, scope = place(h, places)
    d = h.choose("decl", decls)
    pos = h.choose("pos", ["member", "free", "private"])
    if pos == "free":
        if scope.endswith("Outer::"):
            return
        d = h.choose("op", ["Loc operator+(const Loc & a, const Loc & b);", "inline Loc operator*(float f, const Loc & a) { return a; }", "bool operator==(const Loc & a, const Loc & b);",
                            "std::ostream & operator<<(std::ostream & os, const Loc & a);", "Loc operator-(const Loc & a);"])
        code = program(text, "", d + "\nint after(int " + low(h, "param", 1) + ");\n")
    elif pos == "private":
        code = program(text, "Loc operator-() const;\nprivate:\nLoc operator+(const Loc & o) const;\nprotected:\nbool operator<(const Loc & o);\npublic:\n")
    else:
        code = program(text, d + "\nLoc operator-() const;\n" if h.choose("order", [True, False]) else "Loc operator-() const;\n" + d + "\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    at = path + ("Loc",)
    want = ["__init__", "first", "last"] + (["__neg__"] if pos != "free" else [])
    h.check(sorted([x.name for x in stub.at(at, "def")]) == sorted(want), "no operator without equivalent in the stub", detail)
    h.check(sorted([x.name for x in pydef.at(at, "def")]) == sorted(want[1:]), "no operator without equivalent is bound", detail)
    if pos == "free":
        one(h, stub.find("def", path, "after"), "the following declarations are published", detail)
        h.check([x.name for x in stub.at(path, "def")] == ["after"], "no operator which is not a member is published", detail)
    neighbours(h, stub, pydef, at, detail)


_B = [(op, 1) for op in BINARY]
_U = [(op, 0) for op in UNARY]
_C = [("()", n) for n in (0, 1, 2)]
_P = list(PLACES14)
_K = list(OPERANDS)
_MIX = [("-", 0), ("-", 1), ("+", 1), ("[]", 1), ("<", 1), ("*=", 1)]

CASES = [
    Case("single", single,
         [dict(nano=False, ops=_B, operands=["same"], places=["nsinner"], forms=2, rets=2), dict(nano=True, ops=_U + _C, operands=["int", "other"], places=["ns"], forms=2), dict(nano=True, ops=[("+", 1), ("==", 1)], operands=_K, places=["root", "inner"], forms=1),
          dict(nano=False, ops=[("-", 1), ("-", 0)], operands=["same"], places=["ns"])],
         [dict(nano=nano, ops=_B + _U + _C[:2], operands=["same", "int", "other"], places=[p]) for nano, p in ((False, "nsinner"), (True, "inner"))] + [dict(nano=nano, ops=[("+", 1), ("==", 1), ("[]", 1)], operands=_K, places=_P, forms=2) for nano in (False, True)] + [dict(nano=nano, ops=_C[2:], operands=["same", "int"], places=[p]) for nano, p in ((False, "root"), (True, "nsinner"))],
         bounds="each of the 21 published operators, 6 types of operands with unknown names, 5 forms of declarations, 5 places"),
    Case("overloads", overloads,
         [dict(nano=False, ops=_MIX[:3], operands=["same", "int"], places=["nsinner"], n=2), dict(nano=True, ops=[("-", 0), ("-", 1), ("+", 0)], operands=["other", "float"], places=["inner"], n=3, between=1)],
         [dict(nano=nano, ops=_MIX, operands=["same", "int", "string"], places=[p], n=2) for nano, p in ((False, "inner"), (True, "ns"))] + [dict(nano=nano, ops=_MIX[:3], operands=["same", "int", "float"], places=["ns"], n=3) for nano in (False, True)],
         bounds="2 and 3 operators, with the same symbol or not, unary and binary, const or not, with other methods in between"),
    Case("spaceship", spaceship,
         [dict(nano=False, places=["nsinner"], operands=["same", "int"], explicit=["==", "<"], rets=["auto"]), dict(nano=True, places=["root"], operands=["same", "other"], explicit=[""], rets=["int", "std::strong_ordering"])],
         [dict(nano=nano, places=[p], operands=["same", "int", "other"], explicit=["", x], rets=["auto", "std::partial_ordering"]) for nano, p in ((False, "nsinner"), (True, "inner")) for x in ("==", "<", ">=")],
         bounds="one or two <=> with 3 types, together with a comparison which the class declares (public, private or deleted) before or after"),
    Case("ordinary", ordinary, [dict(nano=False, n=1, places=["nsinner"], kinds=["free", "method", "static"]), dict(nano=True, n=1, places=["root", "ns"], kinds=["free", "const"])],
         [dict(nano=nano, n=3, places=[p], kinds=["free", "method", "static", "const"]) for nano in (False, True) for p in _P], bounds="functions named `operator` followed by 2 (thorough: 4) unknown characters"),
    Case("nothing", nothing, [dict(nano=False, places=["ns"], decls=NO_EQUIVALENT), dict(nano=True, places=["inner"], decls=NO_EQUIVALENT)],
         [dict(nano=nano, places=[p], decls=NO_EQUIVALENT) for nano in (False, True) for p in _P], bounds="13 operators without equivalent, 5 operators which are not members, operators which are not public"),
]

ASSUMPTIONS = [
    "conversion operators other than `operator bool`, and templates of operators are outside the domain of `single`",
    "the operands of == and != are announced as `object`, so that their overloads are one function in the stub",
]
