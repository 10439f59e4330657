"""C32 options which select declarations by their name: what they do is done exactly for what they select"""
from .model import *

# option: (declaration, what is needed besides); E is the name that the option looks at
_F = "namespace Ns {\nstruct Loc { int k; };\n%s\n}\n"
_C = "struct Loc { int k; };\nnamespace Ns {\n%s\n}\n"
SELECT = {
    "fn_exclude_by_name__regex": ("int E(int a);", {}),
    "fn_force_overload__regex": ("int E(int a);", {}),
    "fn_force_lambda__regex": ("int E(int a);", {}),
    "fn_add_gil_scoped_release_guard__regex": ("int E(int a);", {}),
    "fn_vectorize__regex": ("double E(double a, double b);", {"fn_namespace_vectorize__regex": "^Ns$", "fn_vectorize_prefix": "v"}),
    "fn_return_force_policy_reference_for_pointers__regex": ("Loc * E(int a);", {}),
    "fn_return_force_policy_reference_for_references__regex": ("Loc & E(int a);", {}),
    "fn_params_replace_buffer_by_array__regex": ("void E(const float * buf, int count);", {}),
    "fn_params_buffer_size_names__regex": ("void fa(const float * buf, int E);", {"fn_params_replace_buffer_by_array__regex": ".*"}),
    "fn_params_replace_c_array_const_by_std_array__regex": ("void E(const int v[2]);", {}),
    "fn_params_replace_c_array_modifiable_by_boxed__regex": ("void E(int v[2]);", {}),
    "fn_params_replace_c_string_list__regex": ("void E(const char * const items[], int count);", {}),
    "fn_params_replace_modifiable_immutable_by_boxed__regex": ("void E(int & v);", {}),
    "fn_params_output_modifiable_immutable_to_return__regex": ("void E(int & v);", {"fn_params_replace_modifiable_immutable_by_boxed__regex": ""}),
    "fn_params_adapt_mutable_param_with_default_value__regex": ("void E(const Loc & v = Loc());", {}),
    "fn_params_exclude_names__regex": ("void fa(int a, int E = 1);", {}),
    "fn_params_exclude_types__regex": ("struct E { };\nvoid fa(int a, E b = E());", {}),
    "fn_exclude_by_param_type__regex": ("struct E { };\nvoid fa(int a, E b);", {}),
    "class_exclude_by_name__regex": ("struct E { int k; };", {}),
    "struct_create_default_named_ctor__regex": ("struct E { int k; };", {}),
    "class_create_default_named_ctor__regex": ("class E {\npublic:\nint k;\n};", {}),
    "class_expose_protected_methods__regex": ("class E {\npublic:\nint m();\nprotected:\nint p(int a);\n};", {}),
    "class_override_virtual_methods_in_python__regex": ("class E {\npublic:\nvirtual int m(int a);\nvirtual ~E();\n};", {}),
    "class_dynamic_attributes__regex": ("struct E { int k; };", {}),
    "class_deep_copy__regex": ("struct E { int k; };", {"class_copy__regex": ""}),
    "class_copy__regex": ("struct E { int k; };", {"class_deep_copy__regex": ""}),
    "class_held_as_shared__regex": ("struct E { int k; };", {}),
    "member_exclude_by_name__regex": ("struct A { int k; int E; };", {}),
    "member_readonly_by_name__regex": ("struct A { int k; int E; };", {}),
    "member_exclude_by_type__regex": ("struct E { };\nstruct A { int k; E m; };", {}),
    "member_readonly_by_type__regex": ("struct E { };\nstruct A { int k; E m; };", {}),
    "enum_exclude_by_name__regex": ("enum class E { x, y };", {}),
    "enum_make_arithmetic__regex": ("enum class E { x, y };", {}),
    "enum_make_flag__regex": ("enum class E { x = 1, y = 2 };", {}),
    "namespace_exclude__regex": ("namespace E { int fa(); }", {}),
    "fn_namespace_vectorize__regex": ("namespace E { double fa(double a, double b); }", {"fn_vectorize__regex": ".*", "fn_vectorize_prefix": "v"}),
    "macro_define_include_by_name__regex": ("#define E 3", {}),
    "globals_vars_include_by_name__regex": ("int E = 3;", {}),
}
OTHERS = "int other(int a);\nstruct Other { int k; };\nenum class Others { a, b };\n"


def selects(pattern, name):
    """does this pattern select this name?"""
    if pattern == "Q":
        return f_str_contains(name, "Q")
    if pattern == "^aQ":
        return f_str_eq(name[:2], "aQ")
    if pattern == "z$":
        return f_str_eq(name[-1:], "z")
    if pattern == "^azz$|^a.Q$":
        return f_or([f_str_eq(name, "azz"), f_and([len(name) == 3, f_str_eq(name[-1:], "Q")])])
    return f_str_eq(name[1:2], "z")


def call(name):
    return name[1:2] == "z"


def selection(h, nano, options, patterns, wheres, n, snakes):
    """what is generated for a declaration is what is generated when everything is selected if the option selects it, when nothing is selected otherwise"""
    key = h.choose("option", options)
    pattern = h.choose("pattern", patterns)
    snake = h.choose("snake", snakes)
    name = h.ident("name", n, prefix="a", alphabet="Qzk2")
    code, besides = SELECT[key]
    where = h.choose("where", wheres) if "namespace" not in key and "vectorize" not in key and "#" not in code else "ns"
    if "vectorize" in key and nano:
        return  # (with pybind11 only)
    if "enum_make" in key or "type" in key or key == "fn_namespace_vectorize__regex":
        where = "root"  # (in a namespace or in a class, these options look at the qualified name)
    code = " ".join(code.split(" "))
    body = substitute_name(code, name)
    if where == "inner" and (key.startswith("globals") or key.startswith("macro") or key.startswith("namespace")):
        where = "root"
    if nano and key == "class_held_as_shared__regex":
        return  # (with pybind11 only)
    if where == "inner":
        body = "struct Outer {\nint k;\n" + body + "\n};\n"
    text = ("namespace Ns {\nstruct Loc { int k; };\n%s\n%s}\n" if where == "ns" else "struct Loc { int k; };\n%s\n%s") % (body, OTHERS)

    def run(value):
        o = make_options(nano)
        o.python_convert_to_snake_case = snake
        for k in besides:
            setattr(o, k, besides[k])
        setattr(o, key, value)
        return gen(o, text)

    none, every = run(""), run(lambda s: name in s)
    r = run(call if pattern == "call" else pattern)
    h.observe(r.stub_code)
    detail = (key, text, r.stub_code, r.pydef_code)
    h.check(f_or([f_not(f_eq(none.stub_code, every.stub_code)), f_not(f_eq(none.pydef_code, every.pydef_code))]), "the option has an effect", detail)
    chosen = selects(pattern, name)
    for wanted, cond in ((every, chosen), (none, f_not(chosen))):
        for what in ("stub_code", "pydef_code", "glue_code"):
            x, y = getattr(r, what) or "", getattr(wanted, what) or ""
            h.check(f_or([f_not(cond), f_eq(x, y)]), "the declarations that the option selects, and only them, are processed: " + what, (x, y, detail))


def substitute_name(text, name):
    out = ""
    for i, c in enumerate(text):
        word = c == "E" and not (i > 0 and (text[i - 1].isalnum() or text[i - 1] == "_")) and not text[i + 1 : i + 2].isalnum()
        out = out + (name if word else c)
    return out


PATTERNS = ["Q", "^aQ", "z$", "^azz$|^a.Q$", "call"]
_K = list(SELECT)
CASES = [
    Case("selection", selection, [dict(nano=i % 2 == 1, options=_K[i::4], patterns=[PATTERNS[i], "call"] if i != 0 else ["Q"], wheres=["ns", "inner", "root", "inner"][i : i + 1], n=2, snakes=[True]) for i in range(4)],
         [dict(nano=False, options=_K[i::4], patterns=PATTERNS, wheres=["ns", "inner"], n=2, snakes=[True]) for i in range(4)]
         + [dict(nano=True, options=_K[i::4], patterns=PATTERNS[2:4], wheres=["root"], n=2, snakes=[False]) for i in range(4)]
         + [dict(nano=False, options=_K[i::4], patterns=PATTERNS[0:1], wheres=["ns"], n=3, snakes=[True]) for i in range(4)],
         bounds="%d options, 5 ways of selecting (4 regular expressions, a function), names with 2 unknown characters (thorough: 3)" % len(SELECT)),
]
ASSUMPTIONS = ["the regular expressions are searched in the name given in C++; for types, for the arithmetic enums and the flags, and for the namespaces of vectorized functions, in the qualified name: these options are explored at the root"]
