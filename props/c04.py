"""C04 generated files: only the text between the markers changes, regeneration is idempotent, errors leave the file as it was"""
from .lib import *

from codemanip import code_utils
import litgen

ASSUMPTIONS = ["no line contains both the opening and the closing marker; the inserted code does not contain a marker"]


def parse(content, m_in, m_out):
    """-> list of ("line", text) and ("region", indent) or None if the markers are not balanced; + number of regions"""
    r = []
    inside = False
    n = 0
    for line in content.split("\n"):
        if m_in in line:
            if inside:
                return None, n
            inside = True
            n += 1
            r.append(("line", line))
            k = 0
            while k < len(line) and (line[k] == " " or line[k] == "\t"):
                k += 1
            r.append(("region", line[:k]))
        elif inside:
            if m_out in line:
                inside = False
                r.append(("line", line))
        else:
            r.append(("line", line))
    if inside:
        return None, n
    return r, n


def judge(h, write, name, content, m, code):
    """runs the function on a file, and judges what happened"""
    m_in, m_out = "<" + m + ">", "</" + m + ">"
    for l in content.split("\n"):
        h.assume(f_not(f_and([f_str_contains(l, m_in), f_str_contains(l, m_out)])))
    path = h.write_file(name, content)
    err = None
    try:
        write(path)
    except RuntimeError as e:
        err = e
    new = h.read_file(path)
    spec, n = parse(content, m_in, m_out)
    if spec is None or n == 0:
        h.check(err is not None, "a file with missing or unbalanced markers is an error", (content, new))
        h.eq(new, content, "a file in error is left as it was")
        return
    h.check(err is None, "a file with balanced markers is not an error", (content, str(err)))
    lines = new.split("\n")
    code_lines = code.split("\n")
    k = 0
    for kind, text in spec:
        if kind == "line":
            h.check(k < len(lines), "no line is lost", (content, new))
            h.eq(lines[k], text, "the lines outside of the markers are unchanged")
            k += 1
        else:
            h.check(k + len(code_lines) <= len(lines), "the code is inserted entirely", (content, new))
            for c in code_lines:
                if c.strip() == "":
                    h.eq(lines[k].strip(), "", "empty lines of the code stay empty")
                else:
                    h.eq(lines[k], text + c, "the code is inserted with the indentation of the marker")
                k += 1
    h.eq(k, len(lines), "no line is added")
    write(path)
    h.eq(h.read_file(path), new, "writing again changes nothing")


KINDS = ["in", "in_indent", "out", "text", "empty", "almost"]


def lines(h, n, code, ext):
    m = "mk"
    content = []
    for i in range(n):
        k = h.choose("kind" + str(i), KINDS)
        if k == "in":
            content.append("// <mk> text " + str(i))
        elif k == "in_indent":
            content.append("\t   # <mk>")
        elif k == "out":
            content.append("  // </mk> " + str(i))
        elif k == "text":
            content.append("user " + str(i) + " < mk>")
        elif k == "empty":
            content.append("")
        else:
            content.append("  </mk <mkx>")
    content = "\n".join(content)
    judge(h, lambda p: code_utils.write_generated_code_between_markers(p, m, code), "f" + ext, content, m, code)


def chars(h, n, before, after, code_n):
    """unknown characters around and between the markers"""
    a = h.str("a", n, "</m> \nx")
    content = before + a + after
    code = h.str("code", code_n, "a \n") + "z"
    judge(h, lambda p: code_utils.write_generated_code_between_markers(p, "m", code), "f.cpp", content, "m", code)


def no_indent(h, n):
    a = h.str("a", n, " \t#")
    code = "  aa\n\nb"
    content = a + "<m>\nold\n</m>\nend"
    path = h.write_file("f.py", content)
    code_utils.write_generated_code_between_markers(path, "m", code, flag_preserve_indentation=False)
    h.eq(h.read_file(path), a + "<m>\n" + code + "\n</m>\nend", "without indentation, the code is inserted as is")


def user_text(h, n, alphabet):
    """unknown user text (any character) around the markers"""
    a, b, c = h.text("a", n, alphabet), h.text("b", n, alphabet), h.text("c", n, alphabet)
    content = a + "\n  <mk>" + b + "\nold\n</mk>" + c
    for x in (a, b, c):
        h.assume(f_not(f_str_contains(x, "<")))
    judge(h, lambda p: code_utils.write_generated_code_between_markers(p, "mk", "aa\n b\n"), "f.cpp", content, "mk", "aa\n b\n")


def e2e(h, n_headers, nano, glue, n, boxed):
    o = make_options(nano)
    if boxed:
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = r".*"
    headers = []
    codes = []
    for i in range(n_headers):
        name = h.ident("f" + str(i), n, prefix="ff" + str(i))
        p = " int & v" if boxed else "int v"
        code = h.choose("header" + str(i), ["int %s(" + p + ");\n", "namespace NN { struct SS { int %s(" + p + "); }; }\n", "// empty\n"]).replace("%s", name)
        codes.append(code)
        headers.append(h.write_file("h" + str(i) + ".h", code))
    u = h.str("user", 1, "a <#/\n")
    pre = "line 1\n" + u
    indent = h.choose("indent", ["", "    "])
    glue_part = "// <litgen_glue_code>\n// </litgen_glue_code>\n"
    pydef = pre + "\n" + ("" if glue else glue_part) + indent + "// <litgen_pydef>\nold\n" + indent + "// </litgen_pydef>\nlast"
    stub = pre + "\n# <litgen_stub>\nold\n# </litgen_stub>\nlast\n"
    p_pydef = h.write_file("out.cpp", pydef)
    p_stub = h.write_file("out.pyi", stub)
    p_glue = h.write_file("glue.cpp", glue_part) if glue else ""
    litgen.write_generated_code_for_files(o, headers, p_pydef, p_stub, p_glue)
    n_pydef, n_stub = h.read_file(p_pydef), h.read_file(p_stub)
    n_glue = h.read_file(p_glue) if glue else n_pydef
    h.observe([n_pydef, n_stub])
    g = litgen.LitgenGenerator(make_options(nano) if not boxed else o)
    for p in headers:
        g.process_cpp_file(p)

    def expected(content, m, code):
        r = []
        for kind, t in parse(content, "<" + m + ">", "</" + m + ">")[0]:
            if kind == "line":
                r.append(t)
            else:
                r.extend((t + l).rstrip() for l in code.split("\n"))
        return "\n".join(r)

    def rstrips(s):
        return "\n".join(l.rstrip() for l in s.split("\n"))

    want = expected(pydef, "litgen_pydef", g.pydef_code())
    if not glue:
        want = expected(want, "litgen_glue_code", g.glue_code())
    h.eq(rstrips(n_pydef), rstrips(want), "the bindings of all the headers are between the markers")
    h.eq(rstrips(n_stub), rstrips(expected(stub, "litgen_stub", g.stub_code())), "the stubs of all the headers are between the markers")
    if glue:
        h.eq(rstrips(n_glue), rstrips(expected(glue_part, "litgen_glue_code", g.glue_code())), "the glue code is between the markers")
    for i in range(n_headers):
        if "ff" in codes[i]:
            name = between(codes[i], "int ", "(")
            name = name[name.rfind(" ") + 1 :]
            h.contains(n_pydef, name, "every header is in the bindings")
    litgen.write_generated_code_for_files(o, headers, p_pydef, p_stub, p_glue)
    h.eq(h.read_file(p_pydef), n_pydef, "regeneration changes nothing (bindings)")
    h.eq(h.read_file(p_stub), n_stub, "regeneration changes nothing (stub)")
    h.eq([h.read_file(p) for p in headers], codes, "the headers are not modified")


def e2e_missing(h, which):
    """a missing marker or file is an error, and that file is left as it was"""
    o = make_options()
    hd = h.write_file("h.h", "int " + h.ident("f", 1, prefix="ff") + "();\n")
    good = {"p": "// <litgen_glue_code>\n// </litgen_glue_code>\n// <litgen_pydef>\n// </litgen_pydef>\n", "s": "# <litgen_stub>\n# </litgen_stub>"}
    u = h.str("user", 2, "a<\n")
    bad = dict(good)
    bad[which] = {"p": u + "<litgen_pydefx>\n</litgen_pydef>", "s": u + "<litgen_stub>\n" + u}[which]
    p = h.write_file("o.cpp", bad["p"])
    s = h.write_file("o.pyi", bad["s"])
    raised = False
    try:
        litgen.write_generated_code_for_files(o, [hd], p, s)
    except RuntimeError:
        raised = True
    h.check(raised, "a missing marker is an error", bad)
    h.eq(h.read_file(p if which == "p" else s), bad[which], "the file without marker is left as it was")
    raised = False
    try:
        litgen.write_generated_code_for_files(o, [hd], p + "x", s + "y")
    except FileNotFoundError:
        raised = True
    h.check(raised, "a missing file is an error")
    h.check(h.read_file(p + "x") is None, "a missing file is not created")


_e = [dict(n_headers=1, nano=False, glue=False, n=1, boxed=False), dict(n_headers=2, nano=False, glue=True, n=1, boxed=True),
      dict(n_headers=1, nano=True, glue=False, n=1, boxed=True), dict(n_headers=1, nano=False, glue=False, n=1, boxed=True)]

CASES = [
    Case("lines", lines,
         [dict(n=n, code=c, ext=".cpp") for n in (1, 2, 3, 4) for c in ("aa\n  bb\n\ncc", "")] + [dict(n=4, code="x\n", ext=".py")],
         [dict(n=n, code=c, ext=".cpp") for n in (1, 2, 3, 4, 5) for c in ("aa\n  bb\n\ncc", "")] + [dict(n=5, code="x\n", ext=".py")],
         bounds="files of up to 4 (thorough: 5) lines, each one a marker (indented or not), a text, a blank or a look-alike"),
    Case("chars", chars,
         [dict(n=n, before="", after="", code_n=1) for n in (1, 2, 3)] + [dict(n=2, before="x\n<m>\n", after="\n</m>\ny", code_n=1), dict(n=3, before="  <m>\n", after="/m>\ny\n", code_n=0),
          dict(n=2, before="", after="m>\n x \n</m>\n<m>\n</m>", code_n=2)],
         [dict(n=n, before="", after="", code_n=1) for n in (1, 2, 3, 4, 5)] + [dict(n=4, before="x\n<m>\n", after="\n</m>\ny", code_n=1), dict(n=4, before="  <m>\n", after="/m>\ny\n", code_n=1),
          dict(n=4, before="", after="m>\n x \n</m>\n<m>\n</m>", code_n=2)],
         bounds="files with up to 3 (thorough: 5) unknown characters among < / m > space newline x"),
    Case("no_indent", no_indent, [dict(n=n) for n in (0, 1, 2, 3)], bounds="marker lines with up to 3 unknown blanks"),
    Case("user_text", user_text, [dict(n=n, alphabet=TEXT + "\u00e9") for n in (0, 1, 2)], [dict(n=n, alphabet=TEXT + "\u00e9") for n in (0, 1, 2, 3)],
         bounds="unknown user text around the markers"),
    Case("e2e", e2e, _e, _e + [dict(n_headers=3, nano=nano, glue=g, n=2, boxed=b) for nano in (False, True) for g in (False, True) for b in (False, True)],
         bounds="1 to 2 (thorough: 3) headers chosen among 3 shapes with unknown names, unknown user text"),
    Case("e2e_missing", e2e_missing, [dict(which="p"), dict(which="s")], bounds="missing markers or files, unknown user text"),
]
