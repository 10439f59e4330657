"""C30 return value policies, keep alive, call guards (in comments or options) and vectorized functions"""
from .c13 import bool_of, f_selected, how_matches
from .model import *

POLICIES = ["automatic", "automatic_reference", "take_ownership", "copy", "move", "reference", "reference_internal"]
# text -> [(kind, argument in the vocabulary of the library (@))]
PIECES = {
    "rvp": ("return_value_policy::POL", [("policy", "POL")]),
    "py rvp": ("py::return_value_policy::POL", [("policy", "POL")]),
    "rv": ("rv_policy::POL", [("policy", "POL")]),
    "nb rv": ("nb::rv_policy::POL", [("policy", "POL")]),
    "rvp dot": ("(see return_value_policy::POL).", [("policy", "POL")]),
    "rvp comma": ("py::return_value_policy::POL, always", [("policy", "POL")]),
    "keep": ("py::keep_alive<1, 2>()", [("keep", "1,2")]),
    "keep nb": ("nb::keep_alive<0, 1>()", [("keep", "0,1")]),
    "keep twice": ("py::keep_alive<1, 2>(), py::keep_alive<0, 1>()", [("keep", "1,2"), ("keep", "0,1")]),
    "guard": ("py::call_guard<Gua>()", [("guard", "Gua")]),
    "guard gil": ("nb::call_guard<nb::gil_scoped_release>()", [("guard", "@::gil_scoped_release")]),
    "guard scope": ("py::call_guard<numpy::Gua, Nn::Gua>()", [("guard", "numpy::Gua"), ("guard", "Nn::Gua")]),
    "guard twice": ("py::call_guard<Gua>() and py::call_guard<Gub<int>>()", [("guard", "Gua"), ("guard", "Gub<int>")]),
    "all": ("return_value_policy::POL py::keep_alive<1, 2>() py::call_guard<Gua>()", [("policy", "POL"), ("keep", "1,2"), ("guard", "Gua")]),
    "other order": ("py::call_guard<Gua>(), py::keep_alive<1, 2>(), py::rv_policy::POL", [("policy", "POL"), ("keep", "1,2"), ("guard", "Gua")]),
    "prose": ("keep_alive and call_guard() are not used, see reference() or py::keep_alive, foo()", []),
    "none": ("no policy", []),
}
# how the commented function is declared: F its name
FORMS30 = {
    "pointer": ("Foo* F(Foo* a);", "free method static"), "reference": ("Foo& F(Foo& a, int b = 3);", "free method static"), "const": ("const Foo* F(Foo* a) const;", "method"), "value": ("int F(Foo& a, int b);", "free method static"),
    "body": ("Foo* F(Foo* a) { return a; }", "free method static"), "void": ("void F(Foo* a, int b);", "free method static"), "ctor": ("Cls(Foo* F);", "ctor"), "ctor explicit": ("explicit Cls(Foo* F, int b = 1) : b(b) { F = b; }", "ctor"),
    "overload": ("Foo* F(Foo* a);\n\nFoo* F(double b);", "free method static"), "lambda": ("Foo* F(int& a, int b);", "free method static"), "ctor lambda": ("Cls(Foo* F, double& b);", "ctor"), "template": ("template<typename T> T* F(T* a, Foo* b);", "free method"),
    "virtual": ("virtual Foo* F(Foo* a);", "method"), "operator": ("Foo& operator[](int F);", "method"), "braces": ("Foo* F(Foo* a, Foo b = {});", "free method static"), "ctor braces": ("Cls(Foo* F, Foo b = {}, Foo c = {});", "ctor"),
}


# a comment which is just above several declarations of the same kind on consecutive lines is about this group: it belongs to none of them


def place30(where):
    """-> (text, kind of function)"""
    return {
        "free": "struct Foo { int z; };\nint before();%\n\nint after();\n",
        "ns": "struct Foo { int z; };\nnamespace Ns\n{\nint before();%\n\nint after();\n}\n",
        "method": "struct Foo { int z; };\nclass Cls\n{\npublic:\nint before();%\n\nint after();\nint b;\n};\n",
        "ctor": "struct Foo { int z; };\nclass Cls\n{\npublic:\nint before();%\n\nint after();\nint b;\n};\n",
        "static": "struct Foo { int z; };\nclass Cls\n{\npublic:\nint before();%\n\nint after();\nint b;\n};\n",
    }[where]


def with_comment(position, code, text):
    if position == "previous":
        return "\n// " + text + "\n" + code
    if position == "lines":
        return "\n// some text\n// " + text + "\n// more text\n" + code
    if position == "block":
        return "\n/* " + text + " */\n" + code
    if position == "eol":
        first = code.split("\n")
        return "\n" + first[0] + " // " + text + ("\n" + "\n".join(first[1:]) if len(first) > 1 else "")
    assert position == "brace"
    return "\n" + code.replace(" {", " // " + text + "\n{", 1)


def wanted(nano, pieces, policy, gil):
    py = "nb" if nano else "py"
    rv = "nb::rv_policy::" if nano else "py::return_value_policy::"
    out = [rv + policy for k, a in pieces if k == "policy"]
    out += [py + "::keep_alive<" + a + ">()" for k, a in pieces if k == "keep"]
    guards = [a.replace("@", py) for k, a in pieces if k == "guard"] + ([py + "::gil_scoped_release"] if gil else [])
    if guards:
        out.append(py + "::call_guard<" + ",".join(guards) + ">()")
    return out


def f_extras(got, want):
    return len(got) == len(want) and f_and([f_eq(tight(g), tight(w)) for g, w in zip(got, want)])


def set_common(o):
    o.fn_template_options.add_specialization("^q", ["int"], False)
    o.fn_params_output_modifiable_immutable_to_return__regex = ".*"


def comments(h, nano, where, forms, n, positions, policies, both):
    """what is written in the comment of a function applies to it, completely, and to nothing else"""
    o = make_options(nano)
    set_common(o)
    form = h.choose("form", [f for f in forms if where.replace("ns", "free") in FORMS30[f][1].split()])
    code = FORMS30[form][0]
    f = low(h, "f", n)
    piece = h.choose("piece", list(PIECES))
    text, pieces = PIECES[piece]
    policy = h.choose("policy", policies) if "POL" in text else ""
    text = text.replace("POL", policy)
    position = h.choose("position", [p for p in positions if p != "brace" or form == "body"])
    word = h.ident("word", n, alphabet="abq", prefix="w")
    surrounded = h.choose("surrounded", [False, True])
    if surrounded:
        text = "The " + word + " of " + text + " " + word
    gil = h.bool("gil") if both else not surrounded
    if gil:
        o.fn_add_gil_scoped_release_guard__regex = "^q|^Cls$" if "operator" not in form else "operator"
    body = with_comment(position, ("static " if where == "static" else "") + code.replace("\n\n", "\n\nstatic " if where == "static" else "\n\n").replace("F", "\0").replace("\0oo", "Foo").replace("\0", f), text)
    program = place30(where).replace("%", body)
    r = gen(o, program)
    p = parse_pydef(r.pydef_code, nano)
    h.observe(r.pydef_code)
    detail = (program, r.pydef_code)
    want = wanted(nano, pieces, policy, gil)
    none = wanted(nano, [], "", gil)
    own = []
    for b in p.bindings:
        if b.kind not in ("def", "init"):
            h.check(not any("policy" in str(e) or "keep_alive" in str(e) or "call_guard" in str(e) for e in b.extras), "nothing else has these policies", (b, b.extras, detail))
            continue
        if len(b.params) == 0 or (len(b.path) == 1 and bool_of(h, f_eq(b.path[0], "Foo"))):
            if b.lambda_ is None or b.name in ("before", "after"):
                h.check(len(b.extras) == 0, "the neighbours have no policy", (b, b.extras, detail))
            continue
        own.append(b)
    count = 2 if form == "overload" else 1
    h.check(len(own) == count, "the function is published", (own, detail))
    got = own[0].extras
    if where == "ctor":  # (a constructor returns nothing)
        got = [e for e in got if "policy::" not in e]
        want = [e for e in want if "policy::" not in e]
    h.check(f_extras(got, want), "the function has all the policies that were requested, and no other", (own[0].extras, want, detail))
    if count == 2:
        h.check(f_extras(own[1].extras, none), "the other overload has its own policies", (own[1].extras, none, detail))


RETURNS = {
    "pointer": ("Foo*", True, False), "const pointer": ("const Foo*", True, False), "reference": ("Foo&", False, True), "const reference": ("const Foo&", False, True), "value": ("Foo", False, False), "const value": ("const Foo", False, False),
    "void": ("void", False, False), "vector": ("std::vector<Foo*>", False, False), "void pointer": ("void*", True, False), "shared": ("std::shared_ptr<Foo>", False, False), "int reference": ("int&", False, True), "template pointer": ("std::vector<int>*", True, False), "static reference": ("static const std::string&", False, True),
}


def regexes(h, nano, how, where, n, comment):
    """the options select the functions by their C++ name and by what they return"""
    o = make_options(nano)
    kind = h.choose("returns", list(RETURNS))
    code, pointer, reference = RETURNS[kind]
    f, g = low(h, "f", n), low(h, "g", n)
    h.distinct(f, g)
    # (one unknown word; each option selects it, or nothing)
    w = low(h, "word", n)
    active = h.choose("active", [("pointers", "references"), ("pointers", "gil"), ("references", "callback"), ("callback", "pointers"), ("gil", "references")])
    camel = "Val" if active[0] in ("gil", "pointers") else ""
    for k, attr in (("pointers", "fn_return_force_policy_reference_for_pointers__regex"), ("references", "fn_return_force_policy_reference_for_references__regex"), ("gil", "fn_add_gil_scoped_release_guard__regex")):
        if k in active:
            how_matches(o, attr, how, w + camel)
    if "callback" in active:

        def callback(fn):
            if fn.cpp_element().function_name == w + camel:
                fn.return_value_policy = "move"

        o.fn_return_force_policy_reference__callback = callback
    st = "static " if where == "static" else ""
    c = {"": "", "eol": " // return_value_policy::copy"}[comment]
    program = place30(where).replace("%", "\n" + (st + code if not code.startswith("static") else code) + " " + f + camel + "(int a);" + c + "\n" + st + "Foo " + g + camel + "(int a);")
    r = gen(o, program)
    p = parse_pydef(r.pydef_code, nano)
    h.observe(r.pydef_code)
    detail = (program, r.pydef_code)
    rv = "nb::rv_policy::" if nano else "py::return_value_policy::"
    py = "nb" if nano else "py"
    own = [b for b in p.bindings if b.kind == "def" and len(b.params) == 1]
    h.check(len(own) == 2, "the functions are published", detail)
    for b, name, ptr, ref, commented in ((own[0], f, pointer, reference, comment != ""), (own[1], g, False, False, False)):
        name = name + camel
        sel = lambda k: k in active and bool_of(h, f_selected(how if k != "callback" else "regex", w + camel, name))
        policy = "copy" if commented else ""
        if (ptr and sel("pointers")) or (ref and sel("references")):
            policy = "reference"
        if sel("callback"):
            policy = "move"
        want = ([rv + policy] if policy else []) + ([py + "::call_guard<" + py + "::gil_scoped_release>()"] if sel("gil") else [])
        h.check(f_extras(b.extras, want), "the policies selected by the options, and no other", (b, b.extras, want, detail))
    for b in p.bindings:
        if b.name in ("before", "after"):
            h.check(len(b.extras) == 0, "the neighbours have no policy", (b, detail))


FNS30 = {
    "plain": ("double F(double a);", "F", 1, True), "default": ("double F(double a, int b = 2);", "F", 2, True), "body": ("inline double F(double a) { return a; }", "F", 1, True),
    "adapted": ("double F(double a, int& b);", "F", 2, False), "overload": ("double F(double a);\ndouble F(double a, int b);", "F", 1, True),
}


def vectorize(h, nano, how, where, n, forms):
    """the selected functions of the selected namespaces are also published as vectorized functions"""
    o = make_options(nano)
    o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
    form = h.choose("form", forms)
    code, _, nb, can = FNS30[form]
    f, g = low(h, "f", n), low(h, "g", n)
    h.distinct(f, g)
    w = low(h, "word", n)
    a, b = up(h, "nsa", n), up(h, "nsb", n)
    wn = up(h, "nsword", n)
    how_matches(o, "fn_vectorize__regex", how, w)
    scope = {"root": "", "ns": a, "nsns": a + "::" + b, "class": "Cls", "static": "Cls"}[where]
    nested = h.choose("nested word", [False, True]) if where == "nsns" else False
    ns_word = {"class": "Cls", "static": "Cls", "root": "Nothing"}.get(where, (wn + "::" + b) if nested else wn)
    how_matches(o, "fn_namespace_vectorize__regex", how, ns_word)
    prefix, suffix = h.choose("names", [("", ""), ("v_", ""), ("", "_v"), ("v_", "_w")][: 4 if form in ("plain", "overload") else 1])
    o.fn_vectorize_prefix, o.fn_vectorize_suffix = prefix, suffix
    s = "static " if where == "static" else ""
    body = (s + code.replace("\n", "\n" + s)).replace("F", f) + "\n" + s + "int " + g + "(int a);\n"
    program = {"root": "%", "ns": "namespace " + a + "\n{\n%}\n", "nsns": "namespace " + a + "\n{\nnamespace " + b + "\n{\n%}\n}\n", "class": "struct Cls\n{\n%};\n", "static": "struct Cls\n{\n%};\n"}[where].replace("%", body)
    r = gen(o, program)
    p, st = parse_pydef(r.pydef_code, nano), parse_stub(r.stub_code)
    h.observe(r.pydef_code)
    detail = (program, r.pydef_code, r.stub_code)
    plain = make_options(nano)
    plain.fn_params_output_modifiable_immutable_to_return__regex = ".*"
    q = gen(plain, program)
    x, y = [v for v in p.bindings if v.kind == "def"], [v for v in parse_pydef(q.pydef_code, nano).bindings if v.kind == "def"]
    in_ns = not nano and bool_of(h, f_selected(how, ns_word, scope)) if where != "root" else False
    i = 0
    vectorized = []
    for v in y:
        name = bool_of(h, f_eq(v.name, f))
        selected = in_ns and bool_of(h, f_selected(how, w, f if name else g)) and (can or not name)
        h.check(i < len(x) and f_and([f_eq(x[i].name, v.name), f_eq(x[i].cpp, v.cpp), len(x[i].params) == len(v.params), x[i].method == v.method]), "the function is published as without vectorization", (v, detail))
        i += 1
        if not selected:
            continue
        h.check(i < len(x) and f_and([f_eq(x[i].name, prefix + v.name + suffix), x[i].method == v.method, f_eq(x[i].cpp, tight("py::vectorize(" + v.target + ")")), len(x[i].params) == len(v.params)]), "the selected function is published as a vectorized function", (v, detail))
        for k, l in zip(x[i].params, v.params):
            h.check(f_and([f_eq(k[0], l[0]), (k[1] is None) == (l[1] is None), k[1] is None or f_eq(k[1], l[1])]), "with the same parameters", (k, l, detail))
        vectorized.append(prefix + v.name + suffix)
        i += 1
    h.check(i == len(x), "nothing else is published", detail)
    arrays = [d for d in st.items if d.kind == "def" and "np.ndarray" in str(d.ret)]
    h.check(len(arrays) == len(vectorized), "each vectorized function is announced", (vectorized, detail))
    for d, name in zip(arrays, vectorized):
        h.check(f_eq(d.name, name), "under its name", (d, name, detail))
    names = [(d.path, d.name, len(d.decorators)) for d in st.items if d.kind == "def"]
    h.check(len(names) == len(x) + (1 if where in ("class", "static") else 0) or where in ("class", "static"), "the stub has as many functions", (names, detail))


_F = list(FORMS30)
_P = ["previous", "lines", "block", "eol", "brace"]
CASES = [
    Case("comments", comments, [dict(nano=i % 2 == 0, where=w, forms=f.split(","), n=1, positions=[p, "brace"], policies=POLICIES[6 - i : 7 - i], both=False) for i, (w, p, f) in enumerate(
        (("free", "eol", "reference,overload,body,braces"), ("ns", "previous", "lambda,value"), ("method", "lines", "const,virtual,braces"), ("ctor", "block", "ctor,ctor lambda,ctor braces"), ("ctor", "eol", "ctor explicit,ctor braces"), ("static", "previous", "pointer,overload"), ("method", "block", "operator,template,body")))],
         [dict(nano=nano, where=w, forms=_F, n=2, positions=[p], policies=POLICIES[i::3], both=True) for nano in (False, True) for w in ("free", "ns", "method", "ctor", "static") for p in _P[:4] for i in range(3)] + [dict(nano=nano, where=w, forms=["body"], n=2, positions=["brace"], policies=POLICIES, both=True) for nano in (False, True) for w in ("free", "method", "static")],
         bounds="17 kinds of comments at 5 positions, 7 policies, 16 forms of functions, 5 places, unknown names"),
    Case("regexes", regexes, [dict(nano=i % 2 == 0, how=hw, where=w, n=1, comment=c) for i, (hw, w, c) in enumerate((("regex", "free", ""), ("callable", "ns", "eol"), ("prefix", "method", ""), ("alternatives", "static", "eol")))],
         [dict(nano=nano, how=hw, where=w, n=n, comment=c) for nano in (False, True) for hw in ("regex", "callable", "prefix", "alternatives") for w in ("free", "ns", "method", "static") for c in ("", "eol") for n in (1, 2)],
         bounds="13 return types, all patterns and names of the bounded length, 4 ways of selecting, 4 places"),
    Case("vectorize", vectorize, [dict(nano=False, how=hw, where=w, n=1, forms=f.split(",")) for hw, w, f in (("regex", "ns", "plain,adapted"), ("prefix", "nsns", "body"), ("callable", "class", "overload,adapted"), ("regex", "static", "default"), ("alternatives", "root", "plain"), ("regex", "ns", "overload"))] + [dict(nano=True, how="regex", where="ns", n=1, forms=["plain"])],
         [dict(nano=nano, how=hw, where=w, n=n, forms=list(FNS30)) for nano in (False, True) for hw in ("regex", "prefix", "callable", "alternatives") for w in ("ns", "nsns", "class", "static", "root") for n in (1, 2)],
         bounds="5 forms of functions, 5 places, unknown names of functions and namespaces, all patterns of the bounded length, 4 pairs of prefix and suffix"),
]
