"""C05 amalgamation: the amalgamated header is what the preprocessor would see (each local header once, in order)"""
from .lib import *

from codemanip import amalgamated_header
from codemanip.amalgamated_header import AmalgamationOptions

ASSUMPTIONS = ["includes are written `#include \"...\"` or `#include <...>` (one space), at most one external include is conditional per name",
               "the headers have #pragma once semantics"]

FILES = ["main.h", "a.h", "b.h", "sub/c.h"]


def make(h, prefix, quoted_only, subdirs):
    o = AmalgamationOptions()
    o.base_dir = h.dir()
    o.local_includes_startwith = prefix
    o.only_quoted_includes_are_local = quoted_only
    o.include_subdirs = subdirs
    o.main_header_file = prefix + "main.h"
    o.dst_amalgamated_header_file = h.dir() + "/out.h"
    return o


def local_name(prefix, quoted_only, line):
    """name of the local file included by a line, or None"""
    l = line.strip()
    if l.startswith('#include "' + prefix):
        return l[10 : l.index('"', 10)]
    if not quoted_only and l.startswith("#include <" + prefix):
        return l[10 : l.index(">", 10)]
    return None


def expand(contents, name, prefix, quoted_only, seen, ext):
    """the lines seen by a preprocessor that reads each file once"""
    if name in seen:
        return []
    seen.append(name)
    r = []
    for line in contents[name].split("\n"):
        loc = local_name(prefix, quoted_only, line)
        if loc is not None:
            r += expand(contents, loc, prefix, quoted_only, seen, ext)
        elif line.strip().startswith("#include "):
            x = line.strip()
            if x not in ext:
                ext.append(x)
                r.append(line.rstrip())
        elif "#pragma once" in line or line.strip() == "":
            pass
        else:
            r.append(line.rstrip())
    return r


def code_lines(text):
    return [l for l in text.split("\n") if l.strip() != "" and not l.startswith("//")]


def judge(h, o, contents, prefix, quoted_only):
    out = amalgamated_header.amalgamation_content(o)
    h.observe(out.replace(h.dir(), "") if not h.sym else out.replace(h.dir(), ""))
    want = expand(contents, prefix + "main.h", prefix, quoted_only, [], [])
    got = code_lines(out)
    h.eq(len(got), len(want), "as many lines as the preprocessor sees")
    h.eq(got, want, "the lines that the preprocessor sees, in the same order")
    for l in got:
        h.check(local_name(prefix, quoted_only, l) is None, "no local include is left", out)
    for l in out.split("\n"):
        h.eq(l, l.rstrip(), "no trailing spaces")
    return out


def graph(h, n_files, prefix, quoted_only, slots, subdirs, rich=True):
    o = make(h, prefix, quoted_only, subdirs)
    names = FILES[:n_files]
    contents = {}
    for f in names:
        key = prefix + f
        lines = ["#pragma once"]
        for s in range(slots):
            inc = h.choose(f + str(s), ([None] + names + ["<vector>", "<map>", "a.h again"]) if rich else [None] + names)
            if inc is None:
                continue
            if inc.startswith("<"):
                lines.append("#include " + inc)
            elif inc == "a.h again":
                if quoted_only:
                    lines.append('  #include "' + prefix + 'a.h"   // with a comment')
                else:
                    lines.append("#include <" + prefix + "a.h>  // with a comment")
            else:
                lines.append('#include "' + prefix + inc + '"')
            lines.append("int " + f[0] + str(s) + ";")
        lines.append("struct " + f[0] + " {};")
        contents[key] = "\n".join(lines) + ("\n" if f != "a.h" else "")
        h.write_file(key, contents[key])
    judge(h, o, contents, prefix, quoted_only)


def text(h, n, alphabet, quoted_only):
    """unknown text around an include"""
    o = make(h, "lib/", quoted_only, [])
    a = h.str("a", n, alphabet)
    b = h.str("b", n, alphabet)
    for x in (a, b):
        h.assume(f_not(f_str_contains(x, "//")))
    main = "#pragma once\nint m1;" + a + '\n#include "lib/a.h"\n' + b + "\nint m2;" + "\n"
    contents = {"lib/main.h": main, "lib/a.h": "int a1;\n" + b + "\n#include <vector>" + "\nint a2;"}
    for k in contents:
        h.write_file(k, contents[k])
    judge(h, o, contents, "lib/", quoted_only)


LINES = ["#pragma %s", "#define %s include", "#if%s defined(A)", "  #pragma pack(%s)", "#error %s", "int %s; #include", "#warning #include \"%s\"", 'const char* s = "#include %s";', "/* %s */ #define A", "#%s", " %s", ]


def lines(h, n, prefix, quoted_only):
    """lines of many kinds: all of them are kept, as they are"""
    o = make(h, prefix, quoted_only, [])
    l1 = h.choose("line1", LINES).replace("%s", h.str("a", n, "aonce_<"))
    l2 = h.choose("line2", LINES[:6]).replace("%s", h.str("b", n, "aonce_<"))
    for l in (l1, l2):
        h.assume(f_not(f_str_contains(l, "#pragma once")))
        h.assume(f_not(f_str_contains(l, '#include "' + prefix)))
    key = prefix + "main.h"
    contents = {key: "#pragma once\n" + l1 + "\n#include \"" + prefix + "a.h\"\n" + l2 + "\n", prefix + "a.h": "#pragma once\n" + l2 + "\nint a;\n" + l1}
    for k in contents:
        h.write_file(k, contents[k])
    judge(h, o, contents, prefix, quoted_only)


def name(h, n, sub):
    """unknown file names"""
    o = make(h, "lib/", True, ["lib/inner"] if sub else [])
    nm = h.str("name", n, "ab._")
    h.assume(f_not(f_str_eq(nm, "." * n)))
    nm = h.choose("pick", ["ab", "a.b", "_"]) + ("x" if n == 0 else "")
    inc = "lib/" + nm + ".h"
    contents = {"lib/main.h": 'int m1;\n#include "' + inc + '" // ' + h.str("c", n, "ab \"<>") + "\nint m2;\n#include <" + inc + ">\n", inc: "int n1;\n"}
    for k in contents:
        h.write_file(("lib/inner/" if sub and k == inc else "") + k, contents[k])
    judge(h, o, contents, "lib/", True)


def search(h, in_base, in_s1, in_s2):
    """the base folder is searched first, then the sub folders in order"""
    o = make(h, "", True, ["s1", "s2"])
    u = h.str("u", 1, LOWER)
    h.write_file("main.h", '#include "x.h"\nint m' + u + ";\n")
    want = None
    for there, p, c in ((in_base, "x.h", "int base;"), (in_s1, "s1/x.h", "int s1;"), (in_s2, "s2/x.h", "int s2;")):
        if there:
            h.write_file(p, c + "\n")
            want = want or c
    try:
        out = amalgamated_header.amalgamation_content(o)
    except FileNotFoundError:
        h.check(want is None, "a file which is not found is an error, a file which is there is found", want)
        h.check(h.read_file(o.dst_amalgamated_header_file) is None, "nothing is written")
        return
    h.check(want is not None, "a missing local include is an error", out)
    h.eq(code_lines(out), [want, "int m" + u + ";"], "the first matching folder wins")


def write(h, n):
    """write_amalgamate_header_file writes the same thing twice"""
    o = make(h, "", True, [])
    a = h.str("a", n, "a \n;")
    h.write_file("main.h", "int m;" + a + "\n")
    amalgamated_header.write_amalgamate_header_file(o)
    r = h.read_file(o.dst_amalgamated_header_file)
    h.eq(r, amalgamated_header.amalgamation_content(o), "the file has the content")
    amalgamated_header.write_amalgamate_header_file(o)
    h.eq(h.read_file(o.dst_amalgamated_header_file), r, "writing again changes nothing")
    h.eq(h.read_file(h.dir() + "/main.h"), "int m;" + a + "\n", "the header is not modified")


def empty_prefix(h):
    """an empty prefix with angle brackets would inline the system headers: refused"""
    b = h.bool("quoted")
    o = make(h, "", b, [])
    h.write_file("main.h", "#include <vector>\nint m;\n")
    raised = False
    try:
        amalgamated_header.amalgamation_content(o)
    except ValueError:
        raised = True
    h.eq(raised, not b, "an empty prefix is refused when the angle brackets are local")


CASES = [
    Case("graph", graph,
         [dict(n_files=2, prefix="", quoted_only=True, slots=2, subdirs=[]), dict(n_files=3, prefix="lib/", quoted_only=True, slots=1, subdirs=[]),
          dict(n_files=4, prefix="lib/", quoted_only=False, slots=1, subdirs=["other"]), dict(n_files=2, prefix="l", quoted_only=False, slots=2, subdirs=[]),
          dict(n_files=3, prefix="lib/", quoted_only=True, slots=2, subdirs=[], rich=False)],
         [dict(n_files=2, prefix="", quoted_only=True, slots=3, subdirs=[]), dict(n_files=3, prefix="lib/", quoted_only=True, slots=2, subdirs=[]),
          dict(n_files=4, prefix="lib/", quoted_only=False, slots=1, subdirs=["other"]), dict(n_files=3, prefix="l", quoted_only=False, slots=2, subdirs=[])],
         bounds="every include graph of 2 to 4 headers with 1 or 2 (thorough: 3) include slots each, cycles included"),
    Case("text", text, [dict(n=n, alphabet="a# <\"/", quoted_only=q) for n in (1, 2) for q in (True, False)], [dict(n=n, alphabet="a# <\"/", quoted_only=q) for n in (1, 2, 3) for q in (True, False)],
         bounds="unknown text around the includes"),
    Case("lines", lines, [dict(n=n, prefix="lib/", quoted_only=q) for n, q in ((1, True), (2, False))], [dict(n=n, prefix="lib/", quoted_only=q) for n in (1, 2, 3, 4) for q in (True, False)],
         bounds="11 kinds of lines (other pragmas, defines, code that looks like an include...) with up to 2 (thorough: 4) unknown characters"),
    Case("name", name, [dict(n=n, sub=s) for n in (1, 2) for s in (False, True)], bounds="includes with comments, in base or sub folder"),
    Case("search", search, [dict(in_base=a, in_s1=b, in_s2=c) for a in (False, True) for b in (False, True) for c in (False, True)], bounds="all presence patterns in 3 search folders"),
    Case("write", write, [dict(n=n) for n in (1, 2, 3)], bounds="up to 3 unknown characters"),
    Case("empty_prefix", empty_prefix, [dict()], bounds="both settings"),
]
