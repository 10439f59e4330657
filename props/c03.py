"""C03 comments in the stub: the stub stays valid Python, the declarations do not depend on the comments, the text is preserved"""
from .lib import *
from .c02 import KINDS, source

from codemanip import code_utils
from codemanip.code_replacements import RegexReplacementList

ASSUMPTIONS = ["e2e cases: the comment replacements of the options are empty; the comment does not end with a backslash (a C++ line continuation)"]


def py_scan(code):
    """-> (code without comments and docstrings, list of the comments and docstrings), None if a literal is malformed"""
    out = ""
    texts = []
    i = 0
    n = len(code)
    while i < n:
        c = code[i]
        if c == "#":
            j = code.find("\n", i)
            if j < 0:
                j = n
            texts.append(code[i + 1 : j])
            i = j
        elif c == '"' or c == "'":
            d = read_py_literal(code, i)
            if d is None:
                return None
            texts.append(d[0])
            i = d[1]
        else:
            out += c
            i += 1
    lines = [l.rstrip() for l in out.split("\n")]
    return [l for l in lines if l != ""], texts


def has_text(l, e):
    """l is e, possibly between comments of the generator: `# (= 1)  #e  # (const)`"""
    n = len(e)
    r = []
    for k in range(len(l) - n + 1):
        before = l[:k].rstrip()
        after = l[k + n :].lstrip()
        ok = f_str_eq(l[k : k + n], e)
        if before != "":
            ok = f_and([ok, f_str_eq(before[-1:], "#")])
        if after != "":
            ok = f_and([ok, f_str_eq(after[:1], "#")])
        r.append(ok)
    return f_or(r)


def check_stub(h, kind, stub, stub_ref, expected):
    r = py_scan(stub)
    h.check(r is not None, kind + ": the literals of the stub are well formed", stub)
    ref = py_scan(stub_ref)
    h.eq(r[0], ref[0], kind + ": the declarations of the stub do not depend on the comments")
    lines = []
    for t in r[1]:
        for l in t.split("\n"):
            lines.append(l.strip())
    for e in expected.split("\n"):
        h.check(f_or([has_text(l, e.strip()) for l in lines]), kind + ": the text of the comment is in the stub, unchanged", (e, stub))


def e2e(h, n, kind, layout, alphabet, pre="a", post="b"):
    o = make_options(False)
    o.comments_replacements = RegexReplacementList()
    o.python_reproduce_cpp_layout = layout
    mid = h.text("comment", n, alphabet)
    c = pre + mid + post
    if kind == "block":
        h.assume(f_not(f_str_contains(c, "*/")))
    if c != "":
        h.assume(f_not(f_str_eq(c[-1:], "\\")))  # (the following line would be a part of the comment)
    code, expected = source(kind, c)
    r = gen(o, code)
    h.observe(r.stub_code)
    ref = gen(o, source(kind, "axb")[0])
    check_stub(h, kind, r.stub_code, ref.stub_code, expected)


# several commented elements: comments are aligned and grouped
BODIES = [
    ("members", "struct Ccc {\n  int aa = 1; //%1\n  int bbbbbb = 22; //%2\n  // %3\n  int cc;\n};\n"),
    ("methods", "struct Ccc {\n  // %1\n  void fff(int a1);\n\n  //%2\n  // second\n  void ggg(int b1, int c1 = 3); // %3\n};\n"),
    ("enum", "enum class Eee {\n  aa, //%1\n  bbbbbb = 3, // %2\n  // %3\n  cc\n};\n"),
    ("default", "struct Ccc {\n  const char* aa = \"%S\"; // %1\n  int bbbbbb = 22; //%2\n // %3\n};\n"),
    ("nested", "struct Ccc {\n  //%1\n  struct Ddd {\n    //%2\n    // other\n    int aa(); //%3\n    };\n int bb; // x\n};\n"),
    ("namespace", "//%1\nnamespace Nnn {\n  //%2\n  int fff();\n  //%3\n  struct Sss { int aa; };\n}\n"),
]


def bodies(h, n, which, layout, nano, alphabet, pos):
    o = make_options(nano)
    o.comments_replacements = RegexReplacementList()
    o.python_reproduce_cpp_layout = layout
    mid = h.text("comment", n, alphabet)
    c = "a" + mid + "b"
    tmpl = dict(BODIES)[which]
    if pos == 0:
        # unknown text in a string literal
        h.assume(f_and([f_not(f_str_contains(mid, '"')), f_not(f_str_contains(mid, "\\"))]))
    texts = ["u1", "u2 v", "u3"]
    code = tmpl.replace("%S", c if pos == 0 else "s")
    ref = tmpl.replace("%S", "s")
    for i in (1, 2, 3):
        code = code.replace("%" + str(i), c if pos == i else texts[i - 1])
        ref = ref.replace("%" + str(i), texts[i - 1])
    r = gen(o, code)
    h.observe(r.stub_code)
    stub_ref = gen(o, ref).stub_code
    if pos:
        check_stub(h, which, r.stub_code, stub_ref, c)
    else:
        s = py_scan(r.stub_code)
        h.check(s is not None, which + ": the literals of the stub are well formed", r.stub_code)
        h.check(f_or([f_str_eq(x, c) for x in s[1]]), which + ": a string value is unchanged in the stub", (c, r.stub_code))
        for t in texts:
            h.check(f_or([has_text(x.strip(), t) for x in s[1]]), which + ": the comments are unchanged in the stub", (t, r.stub_code))


def align(h, n, alphabet, prefix):
    """aligning the comments only adds spaces before a comment"""
    f = h.need(code_utils, "align_python_comments_in_block_lines")
    a = prefix + h.str("line", n, alphabet)
    lines = [a, "    bbb: int   # comment"]
    r = f(list(lines))
    h.observe(r)
    h.eq(len(r), 2, "as many lines")
    x = py_scan(a)
    if x is None:
        return  # the given line is not a well formed line
    y = py_scan(r[0])
    h.check(y is not None, "still a well formed line", (a, r))
    h.eq(x[1], y[1], "strings and comments are unchanged")
    h.eq([l.rstrip() for l in x[0]], [l.rstrip() for l in y[0]], "the code is unchanged")


def align_doc(h, n, alphabet):
    """a docstring on several lines is not changed"""
    f = h.need(code_utils, "align_python_comments_in_block_lines")
    t = h.str("text", n, alphabet)
    h.assume(f_not(f_str_contains(t, '"')))
    h.assume(f_not(f_str_contains(t, "\\")))
    lines = ["def fff():", '    """first', "    a" + t, "    last", '    """', "    bbb: int   # comment", "    cccccccccc: int # other"]
    r = f(list(lines))
    h.observe(r)
    h.eq(r[:5], lines[:5], "the docstring is unchanged")
    h.eq(r[5].find("#"), r[6].find("#"), "the comments are aligned")


def _e2e(n, more):
    r = []
    for k in KINDS:
        for layout in (True, False):
            r.append(dict(n=n, kind=k, layout=layout, alphabet="\\\"n# /"))
            r.append(dict(n=n - 1, kind=k, layout=layout, alphabet="\\\"'a", pre="", post=""))
            r.append(dict(n=1 if not more else 2, kind=k, layout=layout, alphabet=PRINTABLE))
    return r


def _bodies(n):
    r = []
    for w, t in BODIES:
        for pos in (1, 2, 3):
            r.append(dict(n=n, which=w, layout=True, nano=False, alphabet="#'\"\\ ", pos=pos))
        r.append(dict(n=n, which=w, layout=False, nano=True, alphabet="#'\"\\ ", pos=2))
    r.append(dict(n=n, which="default", layout=True, nano=False, alphabet="#' ", pos=0))
    return r


CASES = [
    Case("e2e", e2e, _e2e(3, False), _e2e(4, True),
         bounds="comment with 1 printable / 3 nasty unknown characters on every kind of C++ element, through the whole generator"),
    Case("bodies", bodies, _bodies(2), _bodies(3), bounds="bodies with several comments, one of them has 2 (thorough: 3) unknown nasty characters"),
    Case("align", align,
         [dict(n=n, alphabet="#'\" a\\", prefix="") for n in (2, 3, 4, 5)] + [dict(n=3, alphabet="#'\" a\\", prefix="aa: str = ")],
         [dict(n=n, alphabet="#'\" a\\", prefix="") for n in (2, 3, 4, 5, 6, 7)] + [dict(n=5, alphabet="#'\" a\\", prefix="aa: str = ")],
         bounds="lines of up to 5 (thorough: 7) characters among # ' \" \\ space a"),
    Case("align_doc", align_doc, [dict(n=n, alphabet=PRINTABLE) for n in (1, 2, 3, 4)], [dict(n=n, alphabet=PRINTABLE) for n in (1, 2, 3, 4, 5, 6, 7)],
         bounds="a line of a docstring with up to 4 (thorough: 7) unknown characters"),
]
