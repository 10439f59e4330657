"""C22 what cannot be bound is left out alone: the rest is bound as if it was not in the header"""
from .model import *

# U: an unknown name (lower case), V: another one (upper case), Cls: the class around (or before)
BOTH = {
    "using type": "using V = int;", "typedef": "typedef int V;", "typedef function": "typedef void (*V)(int U);", "typedef struct": "using V = std::vector<Cls>;", "static_assert": 'static_assert(sizeof(int) == 4, "U(int a);");',
    "anonymous enum": "enum { U, V = 3 };", "anonymous union": "union { int U; float V; };", "union": "union V { int U; float b; };", "forward struct": "struct V;", "forward class": "class V;", "forward enum": "enum class V;", "forward enum int": "enum V : int;",
    "deleted function": "int U(char a, int b) = delete;", "template function": "template<typename T> T U(T a, int b = 3);", "template function 2": "template<typename T, int N> void U(T (&a)[N]);", "template class": "template<typename T> struct V { T U; int a(); };",
    "template class 2": "template<typename T, class W = int> class V { public: T U(W w); };", "template alias": "template<typename T> using V = std::vector<T>;", "include": '#include "U.h"', "pragma": "#pragma pack(1)", "semicolon": ";", "requires": "template<typename T> requires std::integral<T> int U(T a, int b);",
    "variadic template": "template<typename... Args> void U(int n, Args... args);", "macro": "#define U 12", "macro call": "V(U, 3);", "explicit instantiation": "template class V<int>;", "function body": "template<typename T> inline int U(T a, int b) { if (a) { return b; } return 3; }",
}
IN_CLASS = {
    "friend class": "friend class V;", "friend function": "friend int U(int a);", "friend operator": "friend bool operator<(const Cls& a, const Cls& b) { return true; }", "using base": "using Base::U;", "bit field": "unsigned int U : 3;", "function member": "void (*U)(int);",
    "new": "void* operator new(size_t s);", "delete": "void operator delete(void* p);", "conversion": "operator int() const;", "destructor": "~Cls();", "assignment": "Cls& operator=(const Cls& o);", "move assignment": "Cls& operator=(Cls&& o) = delete;", "anonymous struct": "struct { int U; } V;",
    "matrix member": "int U[2][3];", "pointer to array": "int (*U)[3];", "increment": "Cls& operator++();", "arrow": "Cls* operator->();", "comma": "int operator,(int U);", "and": "bool operator&&(bool U);", "private": "private:\nint U();\nint a;\nstruct V { int x; };\npublic:", "protected": "protected:\nint U(int a);\nenum class V { a };\npublic:",
    "deleted assignment": "template<typename T> Cls& operator=(const T& U) = delete;", "template method in class": "template<class T> auto U(T a, T b) -> decltype(a + b);", "static template": "template<typename T> static T U(int a, int b, int c);", "define in class": "#define V(x) x",
}
IN_NAMESPACE = {
    "using namespace": "using namespace V;", "using": "using std::vector;", "alias": "namespace V = std;", "anonymous namespace": "namespace { int hidden(); }", "detail": "namespace U_detail { int hidden(); struct V { int a; }; }", "variable": "int U = 3;", "extern": "extern int U;", "constexpr": "constexpr int U = 3;",
    "method body": "inline int Cls::U() { return 3; }", "constructor body": "Cls::Cls() : a(3) { U(); }", "extern template": "extern template class V<int>;", "specialization": "template<> struct V<int> { int U; };", "partial specialization": "template<typename T> struct V<T*> { int U; };",
    "function specialization": "template<> int U<int>(int a, int b, int c);", "function specialization 2": "template<> int U(int a, int b, int c) { return 3; }", "stream": "std::ostream& operator<<(std::ostream& o, const Cls& f);", "literal": 'int operator"" _U(unsigned long long a);', "function variable": "void (*U)(int) = nullptr;",
    "array": "int U[3];", "method template body": "template<typename T> int V<T>::U() { return 3; }", "static member": "int Cls::U = 3;", "guide": "V(int) -> V<int>;", "concept": "template<typename T> concept V = true;",
}


def pieces(where, n_members):
    """-> (before, between, after): the code around the construct"""
    if where == "class":
        return "struct Cls\n{\n    int A(int a = 1);\n", "\n    bool B(int b) const;\n    int last = 3;\n};\nint keep(const Cls & c);\n"
    if where == "inner":
        return "namespace Nn\n{\nstruct Out\n{\n    struct Cls\n    {\n        int A(int a = 1);\n", "\n        bool B(int b) const;\n    };\n    int x = 2;\n};\nint keep();\n}\n"
    if where == "ns":
        return "struct Cls { int z; };\nnamespace Nn\n{\n    int A(int a = 1);\n", "\n    bool B(int b);\n    enum class En { u, v };\n}\nint keep();\n"
    return "struct Cls { int z; };\nint A(int a = 1);\n", "\nbool B(int b);\nstruct Last { Cls c; int y = 1; };\nint keep();\n"


def subst(code, names):
    out, word = "", ""
    for c in code + "\n":
        if c.isalnum():
            word += c
            continue
        out += (names[word] if word in names else word) + c
        word = ""
    return out[: len(out) - 1]


def text_of(s):
    """the lines that are not blank"""
    return "\n".join([x for x in s.split("\n") if x.strip() != ""])


def uncast(cpp):
    """the function that is designated: &Cls::f for overload_cast<int>(&Cls::f, const_) (in C++, what is left out may be an overload)"""
    if "overload_cast<" not in cpp:
        return cpp
    return cpp[cpp.rfind("(") + 1 :].split(",")[0].split(")")[0]


def left_out(h, nano, where, kinds, n, layout):
    """with the construct, or without it: the stub is the same, and the bindings publish the same things in the same way"""
    kind = h.choose("kind", kinds)
    construct = {**BOTH, **IN_CLASS, **IN_NAMESPACE}[kind]
    a, b, u, v = low(h, "a", n), low(h, "b", n), low(h, "u", n), up(h, "v", n)
    if not (kind.startswith(("template function", "deleted", "function spec", "requires", "variadic", "function body", "static template", "template method"))):
        # (in C++, only functions may have the same name)
        h.distinct(a, u)
        h.distinct(b, u)
    before, after = pieces(where, 2)
    names = {"A": a, "B": b, "U": u, "V": v}
    o = make_options(nano)
    o.python_reproduce_cpp_layout = layout
    position = h.choose("position", ["middle", "twice"] if kind in ("semicolon", "pragma", "static_assert", "include", "forward struct", "forward class") else ["middle"])
    text = construct if position == "middle" else construct + "\n" + construct
    with_ = subst(before + text + after, names)
    without = subst(before + after, names)
    r = gen(o, with_)
    w = gen(o, without)
    h.observe(r.stub_code)
    detail = (with_, r.stub_code, w.stub_code, r.pydef_code, w.pydef_code)
    h.check(f_eq(text_of(r.stub_code), text_of(w.stub_code)), "the stub is the same", detail)
    x, y = parse_pydef(r.pydef_code, nano), parse_pydef(w.pydef_code, nano)
    h.check(len(x.bindings) == len(y.bindings), "as many things are published", detail)
    for p, q in zip(x.bindings, y.bindings):
        h.check(p.kind == q.kind and p.method == q.method and len(p.path) == len(q.path) and f_and([f_eq(s, t) for s, t in zip(p.path + (p.name,), q.path + (q.name,))]), "the same things are published", (p, q, detail))
        h.check(f_eq(p.cpp, q.cpp) if "overload_cast" in q.cpp else f_eq(uncast(p.cpp), q.cpp), "the bindings designate the same C++ things", (p.cpp, q.cpp, detail))
        h.check(len(p.params) == len(q.params), "with the same arguments", (p, q, detail))
        for s, t in zip(p.params, q.params):
            h.check(f_and([f_eq(s[0], t[0]), (s[1] is None) == (t[1] is None), s[1] is None or f_eq(s[1], t[1])]), "with the same arguments", (s, t, detail))
        h.check(f_eq(p.doc, q.doc), "with the same documentation", (p, q, detail))
    h.check((r.glue_code or "").strip() == (w.glue_code or "").strip(), "the glue code is the same", detail)


_C, _N = list(BOTH) + list(IN_CLASS), list(BOTH) + list(IN_NAMESPACE)
CASES = [
    Case("left_out", left_out,
         [dict(nano=i % 2 == 0, where="class", kinds=_C[i::4], n=1, layout=i < 2) for i in range(4)] + [dict(nano=i % 2 == 1, where="root" if i % 2 else "ns", kinds=_N[i::4], n=1, layout=i < 2) for i in range(4)],
         [dict(nano=nano, where=wh, kinds=_C[i::4], n=2, layout=i < 2) for nano in (False, True) for wh in ("class", "inner") for i in range(4)] + [dict(nano=nano, where=wh, kinds=_N[i::4], n=2, layout=i < 2) for nano in (False, True) for wh in ("root", "ns") for i in range(4)],
         bounds="%d kinds of constructs, at %d places, with unknown names" % (len(set(_C + _N)), 4)),
]
