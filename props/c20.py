"""C20 the two binding libraries: the same API, only written for pybind11 or for nanobind"""
from . import c21
from .c21 import KINDS21
from .model import *

KINDS20 = {
    "buffers": ("int F(const double* values, int count);\nvoid E(uint8_t* b, size_t n, bool other = true);\n", "FE"),
    "buffer template": ("template<typename T> int F(T* E, size_t nb);\n", "F"),
    "array members": ("struct C\n{\n    int E[3] = {1, 2, 3};\n    double F[2];\n    bool other = false;\n};\n", "C"),
    "array params": ("void F(int E[2], const double v[3]);\nint E(const int (&v)[2]);\n", "FE"),
    "strings list": ("void F(const char* const items[], int items_count, int E = 0);\n", "F"),
    "format": ("void F(const char* fmt, ...);\n", "F"),
    "optional": ("int F(std::optional<int> E = std::nullopt, std::shared_ptr<int> p = nullptr, std::vector<int> v = {});\n", "F"),
    "outputs": ("bool F(int* E, float& y);\nint E(int& F, int a = 1);\n", "FE"),
    "factories": ("struct C\n{\n    C() = delete;\n    explicit C(int E);\n    static C F();\n    const C& E() const;\n    C* ptr();\n};\n", "C"),
    "copies": ("struct C\n{\n    C(const C& E);\n    int F;\n};\nstruct CD : public C\n{\n    CD(int E, int F = 2);\n};\n", "C"),
    "iterable": ("struct C\n{\n    std::vector<int>::iterator begin();\n    std::vector<int>::iterator end();\n    size_t size();\n    int F(int E);\n};\n", "C"),
    "shared": ("struct C : public std::enable_shared_from_this<C>\n{\n    int F = 1;\n};\nstd::shared_ptr<C> F(int E);\n", "CF"),
    "statics": ("struct C\n{\n    static int F;\n    static const int E = 3;\n    const int other = 3;\n};\n", "C"),
    "more operators": ("struct C\n{\n    bool operator<(const C& F) const;\n    C& operator+=(int E);\n    int operator[](size_t i) const;\n    auto operator<=>(const C&) const = default;\n    C operator-() const;\n    explicit operator bool() const;\n};\n", "C"),
    "callbacks": ("void F(std::function<void(int)> E = nullptr, void* p = NULL);\n", "F"),
    "no destructor": ("class C\n{\npublic:\n    static C* F();\n    int E() noexcept;\nprivate:\n    ~C();\n};\n", "C"),
    "methods": ("struct C\n{\n    int F(int& E, const std::string& s = \"a\") const;\n    int F(double E) const;\n    static int E(bool F);\n    template<typename T> T F(T E, int a);\n};\n", "C"),
    "pure virtual": ("struct C\n{\n    virtual ~C() = default;\n    virtual std::string F(int E, const C* other) const = 0;\n    virtual void E() noexcept {}\nprotected:\n    virtual bool other(double F) { return true; }\n};\n", "C"),
    "dynamic": ("struct C final\n{\n    // a doc with \"quotes\"\n    int F; // eol \\\n    void E(); // doc of E\n};\n", "C"),
}
ALL20 = {**{k: v for k, v in KINDS21.items() if k != "empty"}, **KINDS20}


def opts(nano, kind, variant):
    o = make_options(nano)
    o.fn_template_options.add_specialization("^q", ["int", "double"], False)
    o.class_template_options.add_specialization("^Q", ["int", "double"])
    o.macro_define_include_by_name__regex = "^Q"
    o.globals_vars_include_by_name__regex = "^q"
    o.class_override_virtual_methods_in_python__regex = ".*"
    o.class_expose_protected_methods__regex = ".*"
    if variant == "all":
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
        o.fn_params_replace_c_array_const_by_std_array__regex = ".*"
        o.fn_params_replace_buffer_by_array__regex = ".*"
        o.fn_params_replace_c_string_list__regex = ".*"
        o.fn_params_replace_c_array_modifiable_by_boxed__regex = ".*"
        o.fn_params_adapt_mutable_param_with_default_value__regex = ".*"
        o.class_deep_copy__regex = ".*"
        o.class_copy__regex = ".*"
        o.class_dynamic_attributes__regex = ".*"
        o.class_held_as_shared__regex = ".*"
        o.fn_return_force_policy_reference_for_references__regex = ".*"
        o.fn_return_force_policy_reference_for_pointers__regex = ".*"
    elif variant == "returned":
        o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
        o.python_reproduce_cpp_layout = False
        o.python_convert_to_snake_case = False
        o.comments_exclude = True
        o.class_create_default_named_ctor__regex = "^$"
        o.fn_params_type_replacements.add_last_replacement("int", "SupportsInt")
    if kind == "iterable":
        o.class_iterables_infos.add_iterable_class("^Q", "int")
    return o


def canon(text):
    """the text of the bindings, the words of the library replaced"""
    for a, b in (("nb::", "py::"), ("py::is_arithmetic", "py::arithmetic"), (").none()", ")"), ("pybind11::", "py::")):
        text = text.replace(a, b)
    return tight(text)


METHODS = {"def_rw": "def_readwrite", "def_ro": "def_readonly", "def_rw_static": "def_readwrite_static", "def_ro_static": "def_readonly_static", "def_prop_ro": "def_property", "def_prop_rw": "def_property", "def_prop_ro_static": "def_property_static"}


def libraries(h, kinds, n, variants):
    """the stub is the same, and the bindings publish the same things in the same order, with the same arguments and the same documentation"""
    kind = h.choose("kind", kinds)
    variant = h.choose("variant", variants)
    KINDS21_ = c21.KINDS21
    c21.KINDS21 = ALL20
    code, _names = c21.header(h, kind, 1, n)
    c21.KINDS21 = KINDS21_
    r = [gen(opts(nano, kind, variant), code) for nano in (False, True)]
    h.observe(r[0].stub_code)
    detail = (code, variant, r[0].stub_code, r[1].stub_code, r[0].pydef_code, r[1].pydef_code)
    h.eq(r[0].stub_code, r[1].stub_code, "the stub does not depend on the binding library")
    a, b = parse_pydef(r[0].pydef_code, False), parse_pydef(r[1].pydef_code, True)
    h.check(len(a.bindings) == len(b.bindings), "as many things are published", detail)
    for x, y in zip(a.bindings, b.bindings):
        h.check(x.kind == y.kind and f_and([f_eq(u, v) for u, v in zip(x.path + (x.name,), y.path + (y.name,))]) and len(x.path) == len(y.path), "the same things are published, in the same order", (x, y, detail))
        h.eq(METHODS.get(x.method, x.method), METHODS.get(y.method, y.method), "published in the same way")
        h.eq(x.doc, y.doc, "the documentation is the same")
        h.check([canon(z) for z in x.bases] == [canon(z) for z in y.bases] or kind in ("shared", "no destructor") or variant == "all", "the bases are the same", (x.bases, y.bases, detail))
        h.check(len(x.params) == len(y.params), "the arguments are the same", (x, y, detail))
        for p, q in zip(x.params, y.params):
            h.eq(p[0], q[0], "the names of the arguments are the same")
            h.check((p[1] is None) == (q[1] is None), "the same arguments are optional", (x, y, detail))
            if p[1] is not None:
                h.check(f_eq(canon(p[1]), canon(q[1])), "the default values are the same", (p, q, detail))
        if x.lambda_ is None and y.lambda_ is None and x.kind in ("def", "member", "value", "class", "enum", "attr", "init"):
            h.check(f_eq(canon(x.cpp), canon(y.cpp)), "the C++ targets are the same", (x.cpp, y.cpp, detail))
    ga, gb = (r[0].glue_code or ""), (r[1].glue_code or "")
    h.eq(ga.count("struct "), gb.count("struct "), "as many classes in the glue code")


_K = list(ALL20)
CASES = [
    Case("libraries", libraries, [dict(kinds=[k for k in _K[i::8]], n=1, variants=["none", "all", "returned"]) for i in range(8)],
         [dict(kinds=[k for k in _K[i::8]], n=n, variants=["none", "all", "returned"]) for i in range(8) for n in (1, 2, 3)], bounds="%d kinds of headers, unknown names of 2 (thorough: 4) characters, 3 sets of options" % len(_K)),
]
