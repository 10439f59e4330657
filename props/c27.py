"""C27 pimpl_my_class: the published class declares and forwards each public method of the implementation, and nothing else"""
from .model import *

SUFFIXES = ["_pimpl", "_impl", "pimpl", "impl", "_PImpl", "_Impl", "PImpl", "Impl", "_Pimpl", "Pimpl"]

# M: name of the method, A, B: names of parameters, I: implementation class
# -> (code in the implementation, return type, parameters, parameters of the definition, arguments, const, static)
METHODS27 = {
    "void": ("void M(int A) { x(); }", "void", "int A", "int A", "A", False, False),
    "returns": ("bool M(int A, const std::string& B) { return true; }", "bool", "int A, const std::string & B", "int A, const std::string & B", "A, B", False, False),
    "const": ("std::map<std::string, int> M(double A) const;", "std::map<std::string, int>", "double A", "double A", "A", True, False),
    "default": ('int M(int A = 3, const char* B = "a, b)") { return A; }', "int", 'int A = 3, const char * B = "a, b)"', "int A, const char * B", "A, B", False, False),
    "static": ("static bool M(int A, bool B = true) { return B; }", "bool", "int A, bool B = true", "int A, bool B", "A, B", False, True),
    "static void": ("static void M() {}", "void", "", "", "", False, True),
    "inline": ("inline int M(std::vector<int> A) const { return 1; }", "int", "std::vector<int> A", "std::vector<int> A", "A", True, False),
    "constexpr": ("constexpr static int M(unsigned int A) { return 1; }", "int", "unsigned int A", "unsigned int A", "A", False, True),
    "reference": ("const std::string& M(int A[2], float* B) const { return s; }", "const std::string &", "int A[2], float * B", "int A[2], float * B", "A, B", True, False),
    "function": ("std::shared_ptr<int> M(std::function<void(int, bool)> A = nullptr) {}", "std::shared_ptr<int>", "std::function<void(int, bool)> A = nullptr", "std::function<void(int, bool)> A", "A", False, False),
    "operator": ("int operator()(int A) const { return A; }", "int", "int A", "int A", "A", True, False),
    "pointer": ("void* M() { return nullptr; }", "void *", "", "", "", False, False),
    "const pointer": ("const void* M(void* A) { return A; }", "const void *", "void * A", "void * A", "A", False, False),
}
CTORS27 = {
    "ctor": ("I(int A) : x(A) {}", "int A", "int A", "A"),
    "ctor default": ("I(const std::string& A = \"a\", int B = 2) { y(); }", 'const std::string & A = "a", int B = 2', "const std::string & A, int B", "A, B"),
    "ctor zero": ("I() {}", "", "", ""),
}
HIDDEN27 = {"member": "int M = 3;", "dtor": "~I() { x(); }", "enum": "enum class Qe { M, b };", "using": "using M = int;", "inner": "struct Qs { int M(); };", "friend": "friend class M;"}


def subst(code, names):
    out, word = "", ""
    for c in code + "\n":
        if c.isalnum() or c == "_":
            word += c
            continue
        out += (names[word] if word in names else word) + c
        word = ""
    return out[: len(out) - 1]


def uncommented(text):
    return "\n".join([x for x in text.split("\n") if not x.strip().startswith("//")])


def pimpl(code, suffixes=None):
    import srcmlcpp_tools.pimpl_my_class as tool

    o = tool.PimplOptions()
    if suffixes is not None:
        o.pimpl_suffixes = suffixes
    return tool.pimpl_my_code(code, o)


class Program:
    """an implementation class, and what should be published"""

    def __init__(self, h, n, kinds, first, comments):
        self.h, self.n = h, n
        self.pub = h.ident("class", n, prefix="Q", alphabet="xyZ")
        self.suffix = h.choose("suffix", SUFFIXES if first == "suffix" else ["PImpl", "_impl"])
        self.impl = self.pub + self.suffix
        self.struct = h.bool("struct")
        self.body, self.header, self.glue, self.comments = "", "", "", []
        self.access = None
        self.methods = []
        for i, kind in enumerate(kinds):
            self.add(i, kind, comments and i == 0)

    def add(self, i, kind, comment):
        h = self.h
        default = "public" if self.struct else "private"
        access = h.choose("access%d" % i, ["public", "private", "protected"])
        if access != (self.access or default):
            self.body += access + ":\n"
            self.access = access
        a, b = low(h, "a%d" % i, self.n), low(h, "b%d" % i, self.n)
        h.distinct(a, b)
        m = low(h, "m%d" % i, self.n)
        names = {"M": m, "A": a, "B": b, "I": self.impl, "P": self.pub}
        if comment and kind not in HIDDEN27:  # (the documentation of other public things may be published, or not)
            self.body += "// about " + m + "\n"
            if access == "public":
                self.comments.append(m)
        if kind in HIDDEN27:
            self.body += subst(HIDDEN27[kind], names) + "\n"
            return
        if kind in CTORS27:
            code, params, plain, args = CTORS27[kind]
            self.body += subst(code, names) + "\n"
            if access == "public":
                self.header += subst("P(" + params + ");\n", names)
                self.glue += subst("P::P(" + plain + ") : mPImpl(std::make_unique<I>(" + args + ")) { }\n", names)
            return
        code, ret, params, plain, args, const, static = METHODS27[kind]
        self.body += subst(code, names) + "\n"
        name = "operator()" if kind == "operator" else "M"
        if access == "public":
            c = " const" if const else ""
            self.header += subst(("static " if static else "") + ret + " " + name + "(" + params + ")" + c + ";\n", names)
            call = ("I::" if static else "mPImpl->") + name + "(" + args + ");"
            self.glue += subst(ret + " P::" + name + "(" + plain + ")" + c + " {" + ("" if ret == "void" else "return ") + call + "}\n", names)

    def code(self):
        return ("struct " if self.struct else "class ") + self.impl + "\n{\n" + self.body + "};\n"

    def wanted(self):
        kw = "struct" if self.struct else "class"
        p = self.pub
        header = kw + " " + self.impl + ";\n" + kw + " " + p + "\n{\n" + ("" if self.struct else "public:\n") + self.header + "~" + p + "();\nprivate:\nstd::unique_ptr<" + self.impl + "> mPImpl;\n};\n"
        return header, self.glue + p + "::~" + p + "() = default;\n"


def check_result(h, p, r, code):
    header, glue = p.wanted()
    h.check(r is not None, "the class is published", code)
    detail = (code, r.header_code, r.glue_code)
    h.observe(r.header_code)
    h.check(f_eq(tight(uncommented(r.header_code)), tight(header)), "the header declares the public API of the class, and nothing else", (header, detail))
    h.check(f_eq(tight(uncommented(r.glue_code)), tight(glue)), "each public method is defined once, and calls the implementation", (glue, detail))
    found = [x.strip() for x in r.header_code.split("\n") if x.strip().startswith("//")]
    h.check(len(found) == len(p.comments), "the public documentation is in the header, the private one is not", detail)
    for x, m in zip(found, p.comments):
        h.check(f_eq(" ".join(x[2:].split()), "about " + m), "the documentation of the methods is unchanged", (x, detail))


def methods(h, n, firsts, seconds):
    """two members of any kind, each in any part of the class"""
    first = h.choose("first", firsts)
    second = h.choose("second", seconds)
    p = Program(h, n, [first, second], first, True)
    code = p.code()
    check_result(h, p, pimpl(code), code)


def naming(h, n, where):
    """the name of the published class is that of the implementation without its suffix (the longest one); other classes are left alone"""
    p = Program(h, n, ["void"], "suffix", False)
    own = h.bool("own suffixes")
    code = p.code()
    other = h.ident("other", n, prefix="R", alphabet="xyZ")
    code = {"alone": "%", "after": "struct " + other + " { int a(); };\n%", "before": "%\nstruct " + other + " { int a(); };\n", "ns": "namespace Nn {\n%}\n", "function": "int " + other + "();\n#include <a.h>\n%"}[where].replace("%", code)
    r = pimpl(code, [p.suffix] if own else None)
    check_result(h, p, r, code)


def nothing(h, n):
    """no implementation class: no result"""
    a = h.ident("a", n, prefix="Q", alphabet="xyZ")
    code = h.choose("code", ["struct % { int a(); };\n", "int %();\n", "", "class %;\n", "enum class % { a };\n", "namespace % { struct B { }; }\n"]).replace("%", a)
    h.check(pimpl(code) is None, "nothing is published", code)


def files(h, n, ext):
    """the generated code goes between the markers of the two files, and nothing else changes; it is stable"""
    import srcmlcpp_tools.pimpl_my_class as tool

    p = Program(h, n, ["default"], "", False)
    old = h.text("old", n, "ab ;\n")
    mark = lambda name, text: "// <" + name + ">\n" + text + "// </" + name + ">\n"
    cpp_before, cpp_after = '#include "a.h"\n\n' + p.code(), "\nint last = 1;"
    h_before, h_after = "#pragma once\nint first;\n", "// end\n"
    cpp = h.write_file("a" + ext, cpp_before + mark("pimpl_glue_code", old + "\n") + cpp_after)
    hdr = h.write_file("a.h", h_before + mark("pimpl_header_code", "") + h_after)
    tool.pimpl_my_file(cpp, hdr if h.bool("explicit") else None)
    one_ = (h.read_file(cpp), h.read_file(hdr))
    header, glue = p.wanted()
    for text, before, after, name, want in ((one_[0], cpp_before, cpp_after, "pimpl_glue_code", glue), (one_[1], h_before, h_after, "pimpl_header_code", header)):
        h.check(f_and([f_eq(text[: len(before)], before), f_eq(text[len(text) - len(after):], after)]), "what is outside the markers is unchanged", (text, before, after))
        inside = text[len(before): len(text) - len(after)].strip().split("\n")
        h.check(inside[0].startswith("// <" + name + ">") and inside[-1].startswith("// </" + name + ">"), "the markers are kept", text)
        h.check(f_eq(tight(uncommented("\n".join(inside[1:-1]))), tight(want)), "the generated code is between the markers", (text, want))
    tool.pimpl_my_file(cpp, hdr)
    h.eq(h.read_file(cpp), one_[0], "stable")
    h.eq(h.read_file(hdr), one_[1], "stable")


_M, _C, _H = list(METHODS27), list(CTORS27), list(HIDDEN27)
_A = _M + _C + _H
ASSUMPTIONS = [
    "the parameters are named and can be copied; virtual methods (a test of the repository wants `virtual` in their definition), templates, conversion operators, trailing return types and explicitly deleted members are outside the domain",
    "srcML does not understand a function which has both a body and a parameter whose default value is `= {}`",
]

CASES = [
    Case("methods", methods, [dict(n=1, firsts=[k], seconds=["const", "member"]) for k in _A], [dict(n=n, firsts=[k], seconds=_A[i::3]) for k in _A for i in range(3) for n in (1, 2)],
         bounds="two members of %d kinds, unknown names of 2 or 3 characters, struct or class, each member public, protected or private" % len(_A)),
    Case("naming", naming, [dict(n=1, where=w) for w in ("alone", "after", "before", "ns", "function")], [dict(n=n, where=w) for w in ("alone", "after", "before", "ns", "function") for n in (2, 3)], bounds="10 suffixes, unknown names, 5 places"),
    Case("nothing", nothing, [dict(n=1)], [dict(n=2)], bounds="6 kinds of code"),
    Case("files", files, [dict(n=2, ext=".cpp")], [dict(n=n, ext=e) for e in (".cpp", ".cc", ".cxx", ".c") for n in (1, 3)], bounds="4 extensions, unknown previous content"),
]
