"""C12 enums: each public enum and each of its values, once, in both outputs, with its name, its C++ value and the number that C++ gives to it"""
from .model import *

ASSUMPTIONS = ["two values of an enum have different Python names (litgen does not rename them)", "srcML does not see the names of the typedef enums: they are outside of the domain"]
PLACES = ["root", "ns", "nested", "rootns", "class", "inner", "nsclass"]


def place(where, enum):
    """-> (code, Python path, C++ scope)"""
    return {
        "root": lambda: (enum, (), ""),
        "ns": lambda: ("namespace na {\n" + enum + "}\n", ("na",), "na::"),
        "nested": lambda: ("namespace na { namespace nb {\n" + enum + "} }\n", ("na", "nb"), "na::nb::"),
        "rootns": lambda: ("namespace Rn {\n" + enum + "}\n", (), "Rn::"),
        "class": lambda: ("struct Cls {\n" + enum + "int last;\n};\n", ("Cls",), "Cls::"),
        "inner": lambda: ("struct Cls {\nstruct Inner {\n" + enum + "};\n};\n", ("Cls", "Inner"), "Cls::Inner::"),
        "nsclass": lambda: ("namespace na {\nstruct Cls {\nint first;\n" + enum + "};\n}\n", ("na", "Cls"), "na::Cls::"),
    }[where]()


def options(nano, **kw):
    o = make_options(nano, **kw)
    o.namespaces_root = ["Rn"]
    return o


def published(h, o, nano, code, path, name, detail_more=None):
    """-> (item and values of the stub, bindings of the enum and of its values)"""
    r = gen(o, code)
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    it = one(h, stub.find("class", path, name), "the enum is in the stub once", detail)
    b = one(h, pydef.find("enum", path, name), "the enum is bound once", detail)
    values = stub.at(path + (name,), "attr")
    bound = pydef.at(path + (name,), "value")
    return it, b, values, bound, detail


def shown(h, item, detail):
    """the number or the expression that the stub shows for a value"""
    h.check(item.value == "enum.auto()", "an enumerator of the stub is an enum.auto()", detail)
    c = item.comment
    h.check(c.strip().startswith("(= ") and ")" in c, "the value is shown", (c, detail))
    c = c.strip()
    depth = 0
    for i in range(len(c)):
        if c[i] == "(":
            depth += 1
        elif c[i] == ")":
            depth -= 1
            if depth == 0:
                return c[3:i]
    h.check(False, "the value is shown", (c, detail))


def body(names, values, seps=None):
    return "{\n" + "".join(["    " + n + (" = " + v if v is not None else "") + (seps[i] if seps else ",\n") for i, (n, v) in enumerate(zip(names, values))]) + "}"


def structure(h, n, nano, wheres, kinds, annots, seps=True):
    """all of the values of an enum are published in order, each with its own C++ value, in its scope; options give the kind of enum"""
    export = h.choose("export", [False, True])
    annot = h.choose("annotations", annots)
    o = options(nano, enum_export_values=export)
    name = up(h, "enum", 1, prefix="E")
    names = [up(h, "value" + str(i), 1, prefix="v") for i in range(n)]
    o.python_convert_to_snake_case = h.choose("snake", [False])
    h.distinct(*names)
    arith, flag = annot
    o.enum_make_arithmetic__regex = ".*" if arith == "all" else name + "$" if arith == "name" else "" if arith == "no" else "^Other$"
    o.enum_make_flag__regex = ".*" if flag == "all" else name + "$" if flag == "name" else ""
    kind = h.choose("kind", kinds)
    where = h.choose("where", wheres)
    sep = [h.choose("sep" + str(i), [",\n", ", // comment\n", ",\n\n"] if seps else [",\n"]) for i in range(n)]
    if h.choose("trailing comma", [True, False]):
        sep[-1] = "\n"
    explicit = h.choose("explicit", list(range(-1, n)))
    vals = ["7" if i == explicit else None for i in range(n)]
    code, path, scope = place(where, {"class": "enum class ", "struct": "enum class ", "unscoped": "enum "}[kind.split()[0]] + name + (" : uint8_t" if "typed" in kind else "") + " " + body(names, vals, sep) + ";\n")
    it, b, values, bound, detail = published(h, o, nano, "int before();\n" + code + "int after();\n", path, name)
    h.eq(tight(b.cpp), scope + name, "the C++ type of the enum")
    py = "nb" if nano else "py"
    is_arith, is_flag = arith in ("all", "name"), flag in ("all", "name")
    h.check(it.bases == [{(True, True): "enum.IntFlag", (True, False): "enum.IntEnum", (False, True): "enum.Flag", (False, False): "enum.Enum"}[(is_arith, is_flag)]], "the base of the enum is given by the options", detail)
    want = (["py::arithmetic()"] if is_arith else []) if not nano else (["nb::is_arithmetic()"] if is_arith else []) + (["nb::is_flag()"] if is_flag else [])
    h.check(b.extras == want, "the annotations of the enum are given by the options", (b.extras, detail))
    h.check(("export_values" in b_exports(detail[2])) == export, "the values are exported if and only if the options say so", detail)
    h.check(len(values) == n and len(bound) == n, "every value is published once", detail)
    number = 0
    for i in range(n):
        number = 7 if i == explicit else 0 if i == 0 else number + 1
        h.eq(values[i].name, names[i], "the values are in order in the stub")
        h.eq(bound[i].name, names[i], "the values are bound in order")
        h.eq(tight(bound[i].cpp), scope + (name + "::" if kind.startswith("class") else "") + names[i], "each name is bound to its own C++ value")
        h.eq(shown(h, values[i], detail), str(number), "the number of the value")


def b_exports(pydef_code):
    return [x for x in ["export_values"] if ".export_values()" in pydef_code]


def numbers(h, nano, nd, bases, signs, kinds):
    """the numbers of the values which follow a literal of any base"""
    o = options(nano)
    base = h.choose("base", bases)
    sign = h.choose("sign", signs)
    suffix = h.choose("suffix", ["", "u", "UL"])
    digits = h.str("digits", nd, {"": "0123456789", "0": "01234567", "0x": "0123456789abcdefABCDEF", "0b": "01"}[base])
    radix = {"": 10, "0": 8, "0x": 16, "0b": 2}[base]
    if base == "":
        h.assume(f_not(f_str_eq(digits[0], "0")))
    sep = nd == 3 and h.choose("separator", [False, True])  # (srcML does not support an odd number of separators)
    kind = h.choose("kind", kinds)
    lit = sign + base + ("'".join(digits) if sep else digits) + suffix
    code, path, scope = place(h.choose("where", ["root", "nsclass"]), kind + "Eee " + body(["q1", "q2", "q3", "q4", "q5"], [None, lit, None, None, "100"]) + ";\n")
    it, b, values, bound, detail = published(h, o, nano, code, path, "Eee")
    h.check([v.name for v in values] == ["q1", "q2", "q3", "q4", "q5"], "the values are in order in the stub", detail)
    v = 0
    for d in digits:
        v = v * radix + digit(d)
    if sign == "-":
        v = -v
    texts = [shown(h, x, detail) for x in values]
    h.eq(texts[0], "0", "the first value is 0")
    h.eq(texts[4], "100", "the value is given by the code")
    first = "".join([c for c in texts[1] if c != "_"])
    h.eq(first, sign + ("0o" if base == "0" else base) + digits, "the value is given by the code")
    for k in (2, 3):
        t = texts[k]
        h.check(f_eq(int(t), v + k - 1), "the value follows the previous one", (t, detail))


def digit(c):
    return int(c, 16)


REFS = ["prev", "qualified", "or", "shift", "paren", "other", "fullother", "macro", "char", "text"]


def references(h, nano, kinds, wheres, refs):
    """values given by expressions: the values of this enum and of the other enums are written with their Python names"""
    o = options(nano)
    o.srcmlcpp_options.named_number_macros = {"KMAX": 64}
    kind = h.choose("kind", kinds)
    other_kind = h.choose("other kind", kinds)
    v = up(h, "value", 1, prefix="v")
    w = up(h, "other value", 1, prefix="w")
    o.python_convert_to_snake_case = h.choose("snake", [False, True])
    where = h.choose("where", wheres)
    ref = h.choose("ref", refs)
    in_ = "Eee::" if kind == "enum class " else ""
    oin = "Oth::" if other_kind == "enum class " else ""
    _c, path, scope = place(where, "")
    py = ".".join(path + ("Eee", var(o, v)))
    own = {"enum class ": v, "enum ": py}[kind]  # (in an enum class, the names without qualification are kept as in C++)
    opy = ".".join(path + ("Oth", var(o, w)))
    cpp, want = {
        "prev": (v, [own]),
        "qualified": ("Eee::" + v, [py]),
        "or": (in_ + v + " | Eee::" + v, [py, "|", py]),
        "shift": ("1 << " + in_ + v, ["1", "<<", py]),
        "paren": ("(Eee::" + v + " + 3) * 2", ["(", py, "+", "3", ")", "*", "2"]),
        "other": (oin + w, [opy]),
        "fullother": (scope + "Oth::" + w + " + 1", [opy, "+", "1"]),
        "macro": ("KMAX", ["64"]),
        "char": ("'v'", ["'v'"]),
        "text": ("KMAX + 1", ["64", "+", "1"]),
    }[ref]
    code, path, scope = place(where, other_kind + "Oth {\n    " + w + " = 1\n};\n" + kind + "Eee " + body([v, "q2", "q3"], [None, cpp, None]) + ";\n")
    it, b, values, bound, detail = published(h, o, nano, code, path, "Eee")
    h.check(len(values) == 3, "the values are published", detail)
    text = shown(h, values[1], detail)
    h.check(same_expr(text, want, path), "the expression is written with the names of Python", (text, want, detail))
    last = shown(h, values[2], detail)
    h.check(last == ("65" if ref == "macro" else ""), "no number is invented for the value that follows", (last, detail))


def var(o, name):
    import litgen.internal.cpp_to_python  # noqa

    return name.lower() if o.python_convert_to_snake_case and False else snake(name) if o.python_convert_to_snake_case else name


def snake(name):
    """the convention for v + one char"""
    if not (name[1] >= "A" and name[1] <= "Z"):
        return name
    return name[0] + "_" + name[1].lower()


def same_expr(text, want, path):
    """the text is made of these tokens; a path may omit its first parts (relative to the enum's own scope)"""
    alternatives = []
    for k in range(len(path) + 1):
        alternatives.append("".join([".".join(t.split(".")[k:]) if t.count(".") == len(path) + 1 and t[0] != "'" else t for t in want]))
    return f_or([f_eq(tight(text), tight(a)) for a in alternatives])


PREFIXED = ["N_x", "N_X", "Nx", "n_x", "nx", "x", "N_", "N", "N_1", "N1", "x_N", "N__x"]


def prefix(h, n, nano, forms, kinds, names=("Q", "Qz_")):
    """the names of the values without the name of the enum (if the options say so), valid in Python"""
    remove = h.choose("remove", [True, False])
    private = h.choose("private", [False, True])
    o = options(nano, enum_flag_remove_values_prefix=remove, enum_flag_skip_count=False, enum_flag_remove_values_prefix_group_private=private, python_convert_to_snake_case=False)
    base = h.choose("base", list(names)) + h.str("name", n, "yzYZ")
    suffix = h.choose("suffix", ["", "_", "Private", "Private_"])
    name = base + suffix
    form = h.choose("form", forms)
    pre = base if suffix.startswith("Private") and h.choose("with", ["base", "name"]) == "base" else name
    rest = h.str("rest", 2, "asinx")
    value = {
        "N_x": pre + "_" + rest, "N_X": pre + "_" + rest.upper(), "Nx": pre + rest, "n_x": pre.lower() + "_" + rest, "nx": pre.lower() + rest, "x": rest + "c",
        "N_": pre + "_", "N": pre, "N_1": pre + "_1" + rest, "N1": pre + "2" + rest, "x_N": "c" + rest + pre, "N__x": pre + "__" + rest,
    }[form]
    kind = h.choose("kind", kinds)
    if kind == "enum class " and form == "N":
        h.assume(False)
    code, path, scope = place(h.choose("where", ["root", "class"]), kind + name + " {\n" + value + "\n};\n")
    it, b, values, bound, detail = published(h, o, nano, code, path, name)
    h.check(len(values) == 1 and len(bound) == 1, "the value is published", detail)
    h.eq(bound[0].cpp, scope + (name + "::" if kind == "enum class " else "") + value, "the name is bound to the value")
    want = value
    if remove and kind == "enum ":
        want = without(want, name)
        if private and suffix.startswith("Private"):
            want = without(want, base)
        if want == "":
            want = value
    if want[0] in "0123456789":
        want = "_" + want
    if want in ("as", "in", "is"):
        want += "_"
    h.eq(values[0].name, want, "the Python name of the value")
    h.eq(bound[0].name, want, "the Python name of the value in the bindings")


def without(value, name):
    if value.upper()[: len(name) + 1] == name.upper() + "_":
        return value[len(name) + 1 :]
    if value.upper()[: len(name)] == name.upper():
        return value[len(name) :]
    return value


COUNTS = ["count", "size", "nb", "n", "total", "COUNT"]


def count(h, n, nano, kinds, words):
    """the values that only count the others are not published, if the options say so; the other ones are"""
    skip = h.choose("skip", [True, False])
    o = options(nano, enum_flag_skip_count=skip)
    kind = h.choose("kind", kinds)
    word = h.choose("word", words)
    t = h.str("text", n, "xyz")
    form = h.choose("form", ["word", "E_word", "E_word_x", "E_xword", "xword", "E_x_word", "Eword"])
    value = {"word": word, "E_word": "Eee_" + word, "E_word_x": "Eee_" + word + t, "E_xword": "Eee_" + t + word, "xword": t + word, "E_x_word": "Eee_" + t + "_" + word, "Eword": "Eee" + word}[form]
    scoped = kind == "enum class "
    is_size = form in ("E_word", "E_x_word") or (form == "word" and scoped)
    code, path, scope = place(h.choose("where", ["root", "nsclass"]), kind + "Eee " + body(["q1", value, "q3"], [None, None, None]) + ";\n")
    it, b, values, bound, detail = published(h, o, nano, code, path, "Eee")
    removed = skip and is_size
    h.check(len(values) == (2 if removed else 3) and len(bound) == (2 if removed else 3), "a value is omitted if and only if it only counts the other ones", detail)
    h.check(values[-1].name == "q3" and shown(h, values[-1], detail) == "2", "the next value", detail)
    h.check(values[0].name == "q1", "the previous value", detail)
    h.eq(bound[-1].cpp, scope + ("Eee::" if scoped else "") + "q3", "the next value is bound")
    if not removed:
        h.eq(bound[1].cpp, scope + ("Eee::" if scoped else "") + value, "the value is bound")


def hidden(h, nano, wheres, forms):
    """what has no name, is not defined or is not accessible is not published, and nothing else is lost"""
    o = options(nano)
    v = low(h, "value", 1, prefix="v")
    form = h.choose("form", forms)
    where = h.choose("where", wheres)
    text = {
        "anonymous": "enum { " + v + ", q2 };\n",
        "anonymous typed": "enum : int { " + v + " = 3 };\n",
        "forward": "enum class Eee;\n",
        "forward typed": "enum Eee : int;\n",
        "private": "private:\nenum Eee { " + v + " };\npublic:\n",
        "protected": "protected:\nenum class Eee { " + v + " };\npublic:\n",
        "empty": "enum class Eee : int {};\n",
    }[form]
    if form in ("private", "protected") and where not in ("class", "inner", "nsclass"):
        h.assume(False)
    text += "enum Last { q7 };\n"
    if where == "class":
        code, path, scope = "class Cls {\npublic:\n" + text + "int last;\n};\n", ("Cls",), "Cls::"
    else:
        code, path, scope = place(where, text)
    r = gen(o, "int before();\n" + code + "int after();\n")
    h.observe(r.stub_code)
    detail = (code, r.stub_code, r.pydef_code)
    stub, pydef = parsed(h, r, nano)
    enums = pydef.at(path, "enum")
    want = ["Last"] if form != "empty" else ["Eee", "Last"]
    h.check([e.name for e in enums] == want and [x.name for x in stub.items if x.kind == "class" and x.path == path] == want, "the enums that are published", detail)
    one(h, pydef.find("value", path + ("Last",), "q7"), "the next enum is complete", detail)
    one(h, pydef.find("def", (), "before"), "its neighbours are bound", detail)
    one(h, pydef.find("def", (), "after"), "its neighbours are bound", detail)
    if where in ("class", "inner", "nsclass"):
        one(h, pydef.find("class", path[:-1], path[-1]), "its class is bound", detail)


ANNOTS = [("all", ""), ("all", "all"), ("no", "all"), ("no", ""), ("name", "name"), ("other", "")]
KINDS = ["class", "unscoped", "class typed", "unscoped typed"]
EK = ["enum class ", "enum "]

CASES = [
    Case("structure", structure,
         [dict(n=2, nano=False, wheres=PLACES, kinds=["class", "unscoped"], annots=[("all", "")], seps=False), dict(n=2, nano=True, wheres=["root", "nsclass"], kinds=KINDS, annots=ANNOTS, seps=False),
          dict(n=3, nano=False, wheres=["class"], kinds=["unscoped"], annots=[("name", "name")], seps=True)],
         [dict(n=2, nano=nano, wheres=PLACES, kinds=KINDS, annots=ANNOTS, seps=False) for nano in (False, True)] + [dict(n=3, nano=nano, wheres=["ns", "inner"], kinds=["class", "unscoped"], annots=ANNOTS[:2], seps=True) for nano in (False, True)],
         bounds="up to 3 values with unknown names, 4 kinds of enums, 7 places, 6 settings of the annotations"),
    Case("numbers", numbers,
         [dict(nano=False, nd=2, bases=["", "0", "0x", "0b"], signs=[""], kinds=["enum "]), dict(nano=True, nd=1, bases=["", "0", "0x"], signs=["", "-"], kinds=EK)],
         [dict(nano=nano, nd=nd, bases=["", "0", "0x", "0b"], signs=["", "-"], kinds=EK) for nano in (False, True) for nd in (1, 2)] + [dict(nano=False, nd=3, bases=["", "0"], signs=[""], kinds=["enum "])],
         bounds="literals of up to 2 (thorough: 3) unknown digits in 4 bases, with sign, separator and suffix"),
    Case("references", references,
         [dict(nano=False, kinds=EK, wheres=["root", "nsclass"], refs=REFS), dict(nano=True, kinds=["enum "], wheres=PLACES, refs=["or", "fullother", "prev"])],
         [dict(nano=nano, kinds=EK, wheres=PLACES, refs=REFS) for nano in (False, True)], bounds="10 forms of expressions, unknown names, 7 places"),
    Case("prefix", prefix,
         [dict(n=1, nano=False, forms=PREFIXED, kinds=["enum "], names=["Q"]), dict(n=0, nano=True, forms=PREFIXED[:6], kinds=EK, names=["Qz_"])],
         [dict(n=n, nano=nano, forms=PREFIXED, kinds=EK) for nano in (False, True) for n in (1, 2)], bounds="12 forms of names with unknown chars"),
    Case("count", count,
         [dict(n=1, nano=False, kinds=EK, words=COUNTS)], [dict(n=n, nano=nano, kinds=EK, words=COUNTS) for nano in (False, True) for n in (1, 2)], bounds="7 forms of names with 1 (thorough: 2) unknown chars and 6 words"),
    Case("hidden", hidden,
         [dict(nano=False, wheres=["root", "ns", "class", "nsclass"], forms=["anonymous", "anonymous typed", "forward", "forward typed", "private", "protected", "empty"])],
         [dict(nano=nano, wheres=PLACES, forms=["anonymous", "anonymous typed", "forward", "forward typed", "private", "protected", "empty"]) for nano in (False, True)], bounds="7 forms, 7 places"),
]
