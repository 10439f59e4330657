"""C21 what is generated for a header depends on this header and on the options, and on nothing else"""
import dataclasses

import litgen

from .model import *


def opts(nano, inverted=False):
    """options under which each kind of header is adapted (inverted: other ones, as different as possible)"""
    o = make_options(nano != inverted)
    if inverted:
        o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
        o.python_convert_to_snake_case = False
        o.fn_template_options.add_specialization("^q", ["float"], True)
        o.class_template_options.add_specialization("^Q", ["float"])
        o.fn_return_force_policy_reference_for_references__regex = ".*"
        o.python_reproduce_cpp_layout = False
        o.var_names_replacements.add_last_replacement("qe", "other")
        return o
    o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
    o.class_override_virtual_methods_in_python__regex = ".*"
    o.class_expose_protected_methods__regex = ".*"
    o.fn_template_options.add_specialization("^q", ["int", "double"], False)
    o.class_template_options.add_specialization("^Q", ["int", "double"])
    o.macro_define_include_by_name__regex = "^Q"
    o.globals_vars_include_by_name__regex = "^q"
    return o


KINDS21 = {
    "functions": ("int F(int a, bool b = true);\ndouble F(double E);\nint E(int F);\n", "FE"),
    "class": ("struct C\n{\n    C(int E = 3);\n    int F(int a = 1) const;\n    int E = 2;\n    std::vector<int> v = {};\n};\n", "C"),
    "enum": ("enum class C\n{\n    E,\n    Other = 4,\n};\nint F(C x = C::E);\n", "CF"),
    "old enum": ("enum C\n{\n    C_E,\n    C_Other = C_E,\n    C_COUNT,\n};\nint F(C x = C_E);\n", "CF"),
    "namespace": ("namespace N\n{\n    struct C { int F(); static int E(); };\n    int E(const C & x = C());\n    int F(int a = C::E());\n}\n", "N"),
    "namespace enum": ("namespace N\n{\n    enum C\n    {\n        C_E,\n        C_F,\n    };\n    int F(C x = C_E, int a = 1);\n}\n", "N"),
    "boxed int": ("int F(int & a);\n", "F"),
    "boxed double": ("void F(double & a, int E = 1);\n", "F"),
    "boxed array": ("void F(int a[2], double & E);\n", "F"),
    "virtual": ("struct C\n{\n    virtual int F(int E);\n    virtual ~C();\n};\n", "C"),
    "protected": ("class C\n{\npublic:\n    int E();\nprotected:\n    int F(int E);\n};\n", "C"),
    "template class": ("template<typename T>\nstruct C\n{\n    T F(T E);\n};\n", "C"),
    "template function": ("template<typename T>\nT F(T E);\n", "F"),
    "define": ("#define QDEF 3\nint F(const int E[QDEF]);\n", "F"),
    "define 4": ("#define QDEF 4\nint F(const int E[QDEF]);\n", "F"),
    "global": ("const int F = 3;\nint E(int a = F);\n", "FE"),
    "nested": ("struct C\n{\n    struct In { int E = 1; };\n    enum class En { E, F };\n    In F(In x = In(), En y = En::E);\n};\n", "C"),
    "derived": ("struct C\n{\n    virtual int F();\n};\nstruct CD : public C\n{\n    int E();\n};\n", "C"),
    "operators": ("struct C\n{\n    C operator+(const C & o) const;\n    int operator()(int E) const;\n    bool operator==(const C & o) const;\n};\n", "C"),
    "comments": ("// F does E\nint F(); // and also C\n\n//\n// a title: F, E\n//\n\n// E\nint E();\n", "FE"),
    "empty": ("", ""),
}


def header(h, kind, i, n):
    """-> (code, names that it adds to the root scope)"""
    code, own = KINDS21[kind]
    names = {"F": low(h, "f" + str(i), n, alphabet="exy"), "E": low(h, "e" + str(i), n, alphabet="exy"), "C": up(h, "c" + str(i), n), "N": up(h, "n" + str(i), n, prefix="N")}
    h.assume(f_not(f_str_eq(names["F"], names["E"])))
    out = ""
    word = ""
    for c in code + "\n":
        if c.isalnum() or c == "_":
            word += c
            continue
        if word == "CD":
            out += names["C"] + "D"
        else:
            for j, w in enumerate(word.split("_")):
                out += ("_" if j > 0 else "") + (names[w] if w in names else w)
        word = ""
        out += c
    return out[: len(out) - 1], [names[x] for x in own] + ([names["C"] + "D"] if kind == "derived" else [])


def apart(h, names1, names2):
    """the two headers declare different things"""
    for a in names1:
        for b in names2:
            if len(a) == len(b):
                h.assume(f_not(f_str_eq(a, b)))


def sections(text, mark, names):
    """-> {"h0.h": what was generated for it}, None if the text is anything else than such sections"""
    r = {}
    lines = text.split("\n")
    current = None
    for line in lines:
        s = line.strip()
        if s.startswith(mark * 20):
            s = s.strip(mark).strip()
            if current is None:
                if not s.startswith("<generated_from:") or s[16:-1] in r:
                    return None
                current = s[16:-1]
                r[current] = ""
            else:
                if s != "</generated_from:" + current + ">":
                    return None
                current = None
        elif current is not None:
            r[current] += line + "\n"
        elif s != "":
            return None
    if current is not None:
        return None
    return r


def structs(glue):
    """-> names of the C++ classes that the glue code declares, in order"""
    r = []
    for line in glue.split("\n"):
        if line.lstrip().startswith("struct ") or line.lstrip().startswith("class "):
            r.append(line.strip().split(" ")[1])
    return r


def run(o, codes, omit=False):
    g = litgen.LitgenGenerator(o, omit)
    for name, code in codes:
        g.process_cpp_code(code, name)
    return g


def snap(x, seen):
    """the content of an option, whatever its type"""
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [snap(y, seen) for y in x]
    if isinstance(x, dict):
        return [[snap(k, seen), snap(v, seen)] for k, v in x.items()]
    if isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
        return id(x)
    if hasattr(x, "pattern") and hasattr(x, "groupindex"):  # a compiled regular expression
        return ["regex", snap(x.pattern, seen), int(x.flags)]
    if id(x) in seen:
        return "seen"
    seen = seen + [id(x)]
    if hasattr(x, "__dict__"):
        # (an attribute of the class is the default value of the one of the instance)
        names = sorted([k for k in dir(x) if not k.startswith("__")])
        return [type(x).__name__] + [[k, snap(getattr(x, k), seen)] for k in names if k in vars(x) or not callable(getattr(x, k))]
    return repr(x) if " object at " not in repr(x) else type(x).__name__


def changed(a, b):
    """-> the parts of two snapshots that differ"""
    if a == b:
        return []
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [c for x, y in zip(a, b) for c in changed(x, y)]
    return [(str(a)[:200], str(b)[:200])]


def together(h, nano, n, firsts, seconds, omit=False):
    """two headers given to one generator, in any order: each gets what it gets alone; the boxed types are their union, once"""
    k1, k2 = h.choose("first", firsts), h.choose("second", seconds)
    c1, own1 = header(h, k1, 1, n)
    c2, own2 = header(h, k2, 2, n)
    apart(h, own1, own2)
    alone = []
    for name, code in (("h1.h", c1), ("h2.h", c2)):
        alone.append(run(opts(nano), [(name, code)], omit))
    both = run(opts(nano), [("h1.h", c1), ("h2.h", c2)], omit)
    swapped = run(opts(nano), [("h2.h", c2), ("h1.h", c1)], omit)
    h.observe(both.stub_code())
    detail = (c1, c2, both.stub_code(), both.pydef_code(), both.glue_code())
    for what, mark in (("stub_code", "#"), ("pydef_code", "/")):
        texts = [getattr(g, what)() for g in (both, swapped, alone[0], alone[1])]
        parts = [sections(t, mark, None) for t in texts]
        h.check(all([p is not None for p in parts]), what + ": it is made of one section per header", texts)
        for i in (0, 1):
            name = "h" + str(i + 1) + ".h"
            for p in parts[:2]:
                h.check(name in p, what + ": each header has its section", texts)
                h.check(f_eq(p[name], parts[2 + i][name]), what + ": a header gives the same result alone, and before or after another one", detail)
        boxes = [p["BoxedTypes"] if "BoxedTypes" in p else "" for p in parts]
        h.check(f_eq(boxes[0], boxes[1]), what + ": the bindings of the boxed types do not depend on the order of the headers", detail)
        for box in ("BoxedInt", "BoxedDouble"):
            word = ("class " + box + ":") if what == "stub_code" else "<" + box + ">"
            needed = any([word in b for b in boxes[2:]])
            h.check(boxes[0].count(word) == (1 if needed else 0), what + ": a boxed type is published once if a header needs it, and only then", detail)
        order = [k for k in parts[0]]
        h.check(order == (["BoxedTypes"] if "BoxedTypes" in parts[0] else []) + ["h1.h", "h2.h"], what + ": the boxed types come first, the headers in the order in which they were processed", texts)
    glues = [structs(g.glue_code()) for g in (both, swapped, alone[0], alone[1])]
    want = sorted([x for x in glues[2]] + [x for x in glues[3] if x not in glues[2] or not x.startswith("Boxed")])
    h.check(sorted(glues[0]) == want and sorted(glues[1]) == want, "the glue code has the classes of both headers, the boxed types once", (glues, detail))
    h.check(both.has_boxed_types() == (alone[0].has_boxed_types() or alone[1].has_boxed_types()), "the boxed types are known", detail)
    h.check(both.has_glue_code() == (both.glue_code() != ""), "has_glue_code is right", detail)


def history(h, nano, n, firsts, seconds, api):
    """what was generated before (other headers, other options, in other generators) changes nothing, the options are not modified"""
    k1, k2 = h.choose("first", firsts), h.choose("second", seconds)
    c1, own1 = header(h, k1, 1, n)
    c2, own2 = header(h, k2, 2, n)
    o = opts(nano)
    before = snap(o, [])

    def once(o2, c):
        if api == "code":
            r = litgen.generate_code(o2, c)
            return [r.stub_code, r.pydef_code, r.glue_code]
        g = run(o2, [("h.h", c)])
        return [g.stub_code(), g.pydef_code(), g.glue_code()]

    r1 = once(o, c2)
    h.observe(r1[0])
    between = h.choose("between", ["same options", "other options", "unfinished"])
    if between == "same options":
        once(o, c1)
    elif between == "other options":
        once(opts(nano, True), c1)
        once(opts(nano, True), c2)
    else:
        g = run(o, [("h.h", c1)])
        h.check(g.options() is o, "the generator uses the options that it was given", ())
    for turn, o2 in (("the same options", o), ("equal options", opts(nano))):
        r2 = once(o2, c2)
        for i, what in enumerate(("stub", "bindings", "glue code")):
            h.check(f_eq(r2[i], r1[i]), what + ": a header gives the same result again with " + turn, (c1, c2, r1, r2))
    after = snap(o, [])
    h.check(after == before, "the options are not modified by a generation", (c1, c2, changed(before, after)))


def getters(h, nano, n, kinds, length):
    """asking for the results does not change them: in any order, any number of times"""
    k = h.choose("kind", kinds)
    c, _ = header(h, k, 1, n)
    g = run(opts(nano), [("h.h", c)])
    ref = run(opts(nano), [("h.h", c)])
    want = {"stub": ref.stub_code(), "pydef": ref.pydef_code(), "glue": ref.glue_code()}
    h.observe(want["stub"])
    asked = [h.choose("asked" + str(i), ["stub", "pydef", "glue", "has"]) for i in range(length)]
    for x in asked + ["glue", "pydef", "stub"]:
        if x == "has":
            h.check(g.has_glue_code() == (want["glue"] != ""), "has_glue_code is right", (c, asked))
        else:
            got = g.stub_code() if x == "stub" else g.pydef_code() if x == "pydef" else g.glue_code()
            h.check(f_eq(got, want[x]), x + ": the result does not depend on what was asked before", (c, asked))


def reopened_namespace(h, nano, n):
    """two headers that declare different things in the same namespace: Python finds all of them in one submodule"""
    ns = up(h, "n", n, prefix="N")
    f1, f2 = low(h, "f1", n), low(h, "f2", n, prefix="x")
    g = run(opts(nano), [("h1.h", "namespace " + ns + "\n{\n    int " + f1 + "();\n}\n"), ("h2.h", "namespace " + ns + "\n{\n    int " + f2 + "(int a = 1);\n}\n")])
    stub, pydef = parse_stub(g.stub_code()), parse_pydef(g.pydef_code(), nano)
    detail = (g.stub_code(), g.pydef_code())
    for f in (f1, f2):
        h.check(len(pydef.find("def", (ns.lower(),), f)) == 1, "each function is published once in the submodule", detail)
        h.check(len(stub.find("def", (ns.lower(),), f)) == 1, "each function is announced once in the submodule", detail)
    h.check(g.stub_code().count("class " + ns.lower()) == 1, "the stub declares the submodule once", detail)


PYDEF_FILE = "#include <a>\n// <litgen_glue_code>\n// </litgen_glue_code>\nvoid py_init()\n{\n    // <litgen_pydef>\n    // </litgen_pydef>\n}\n"
STUB_FILE = "from typing import List\n# <litgen_stub>\n# </litgen_stub>\n# the end\n"


def files(h, nano, n, firsts, seconds):
    """the files that are written: a pure function of the headers and of the options, whatever they contained and however often they are written"""
    k1, k2 = h.choose("first", firsts), h.choose("second", seconds)
    c1, own1 = header(h, k1, 1, n)
    c2, own2 = header(h, k2, 2, n)
    apart(h, own1, own2)
    p1, p2 = h.write_file("h1.h", c1), h.write_file("h2.h", c2)
    cpp, pyi = h.write_file("m.cpp", PYDEF_FILE), h.write_file("m.pyi", STUB_FILE)
    first = h.choose("written before", ["nothing", "the first header", "the second header", "both, the other way round"])
    if first == "the first header":
        litgen.write_generated_code_for_file(opts(nano), p1, cpp, pyi)
    elif first == "the second header":
        litgen.write_generated_code_for_files(opts(nano), [p2], cpp, pyi)
    elif first == "both, the other way round":
        litgen.write_generated_code_for_files(opts(nano), [p2, p1], cpp, pyi)
    litgen.write_generated_code_for_files(opts(nano), [p1, p2], cpp, pyi)
    got = [h.read_file(cpp), h.read_file(pyi)]
    h.observe(got[1])
    litgen.write_generated_code_for_files(opts(nano), [p1, p2], cpp, pyi)
    h.check(f_eq(h.read_file(cpp), got[0]), "writing the bindings again changes nothing", (c1, c2))
    h.check(f_eq(h.read_file(pyi), got[1]), "writing the stub again changes nothing", (c1, c2))
    g = run(opts(nano), [])
    g.process_cpp_file(p1)
    g.process_cpp_file(p2)
    for text, mark, want in ((got[0], "litgen_pydef", g.pydef_code()), (got[0], "litgen_glue_code", g.glue_code()), (got[1], "litgen_stub", g.stub_code())):
        i, j = text.find("<" + mark + ">"), text.find("</" + mark + ">")
        inside = [x.strip() for x in text[text.find("\n", i) + 1 : text.rfind("\n", 0, j) + 1].split("\n") if x.strip() != ""]
        h.check(f_eq(inside, [x.strip() for x in want.split("\n") if x.strip() != ""]), mark + ": the files contain what the generator gives for the headers", (c1, c2, text))
    for text, lines in ((got[0], PYDEF_FILE.split("\n")), (got[1], STUB_FILE.split("\n"))):
        own = text.split("\n")
        h.check(all([l in own for l in lines]), "the rest of the files is kept", text)


ALL21 = sorted(KINDS21)
ASSUMPTIONS = [
    "each header is self-contained: a type of another header is outside the claim (it is announced as it is written, cf DESIGN.md), and two headers do not declare the same name in the same scope",
    "the options and the headers are all that a generation reads (the version of srcML and the files are fixed)",
]
CASES = [
    Case("together", together,
         [dict(nano=False, n=1, firsts=["enum", "class", "boxed int", "define", "old enum"], seconds=["namespace", "namespace enum", "functions", "boxed array", "define 4", "nested"]), dict(nano=True, n=1, firsts=["virtual", "template class", "boxed double"], seconds=["protected", "boxed int", "derived"])],
         [dict(nano=nano, n=1, firsts=[k], seconds=ALL21, omit=omit) for k in ALL21 for nano, omit in ((False, False), (True, False))] + [dict(nano=False, n=1, firsts=["boxed int", "virtual"], seconds=["boxed int", "boxed array", "protected"], omit=True)],
         bounds="two self-contained headers of 20 kinds with unknown names that may coincide, in both orders"),
    Case("history", history,
         [dict(nano=False, n=1, firsts=["enum", "boxed int", "functions"], seconds=["namespace", "nested"], api="code"), dict(nano=True, n=1, firsts=["template class", "define"], seconds=["class", "define 4", "boxed array"], api="generator")],
         [dict(nano=nano, n=1, firsts=[k], seconds=ALL21, api=api) for k in ALL21 for nano, api in ((False, "code"), (True, "generator"))],
         bounds="one header of 20 kinds, generated before and after another one (20 kinds), with the same or other options, possibly without asking for the result; unknown names that may coincide"),
    Case("getters", getters,
         [dict(nano=False, n=1, kinds=["namespace", "boxed array"], length=1), dict(nano=True, n=1, kinds=["derived"], length=2)],
         [dict(nano=nano, n=1, kinds=[k], length=3) for k in ALL21 for nano in (False, True)], bounds="each sequence of 3 questions (quick: 2), for 20 kinds of header with unknown names"),
    Case("reopened_namespace", reopened_namespace, [dict(nano=False, n=1)], [dict(nano=nano, n=n) for nano in (False, True) for n in (1, 2)], bounds="two functions of unknown names in a namespace of unknown name"),
    Case("files", files,
         [dict(nano=False, n=1, firsts=["boxed int", "enum"], seconds=["boxed double", "virtual"])],
         [dict(nano=nano, n=1, firsts=[k], seconds=["boxed double", "virtual", "namespace", "empty", "comments"]) for nano in (False, True) for k in ("boxed int", "enum", "class", "template class", "empty", "comments")],
         bounds="two headers, output files that are new or already written for these headers"),
]
