"""C07 text tools: indentation, blank lines, comments and templates never lose or alter code"""
from .lib import *

from codemanip import code_utils

ASSUMPTIONS = ["line separators are \\n; code is indented with spaces"]


def no_trailing(s):
    return "\n".join(l.rstrip(" ") for l in s.split("\n"))


def indent(h, n, alphabet, size, skip):
    s = h.str("code", n, alphabet)
    r = code_utils.indent_code(s, indent_size=size, skip_first_line=skip)
    h.observe(r)
    a, b = s.split("\n"), r.split("\n")
    h.eq(len(a), len(b), "indent: as many lines")
    for i in range(len(a)):
        if len(a[i].strip()) == 0:
            h.eq(b[i].strip(), "", "indent: blank lines stay blank")
        elif i == 0 and skip:
            h.eq(b[i].rstrip(), a[i].rstrip(), "indent: the first line is skipped")
        else:
            h.eq(b[i].rstrip(), " " * size + a[i].rstrip(), "indent: each line is shifted")
    h.eq(code_utils.indent_code_lines(a, size, skip), b, "indent: same for a list of lines")
    t = code_utils.indent_code(s, indent_str="\t", skip_first_line=skip)
    for i, l in enumerate(t.split("\n")):
        if len(a[i].strip()) and not (i == 0 and skip):
            h.eq(l.rstrip(), "\t" + a[i].rstrip(), "indent: with a given string")
    k = code_utils.indent_code(s, indent_size=size, rstrip=False)
    h.eq([l[size:] if len(l) else l for l in k.split("\n")], a, "indent: without rstrip, the lines are kept as is")


def unindent(h, n, alphabet, size):
    s = h.str("code", n, alphabet)
    # the first line with code is the leftmost
    lines = s.split("\n")
    first = None
    for l in lines:
        if l.strip(" ") != "":
            k = len(l) - len(l.lstrip(" "))
            if first is None:
                first = k
            h.assume(k >= first)
    u = code_utils.unindent_code(s)
    h.observe(u)
    got = u.split("\n")
    h.eq(len(got), len(lines), "unindent: as many lines")
    for i in range(len(lines)):
        if lines[i].strip(" ") != "":
            h.eq(got[i], lines[i][first:].rstrip(" "), "unindent: each line is shifted by the indentation of the first one")
        else:
            h.eq(got[i].strip(" "), "", "unindent: blank lines stay blank")
    h.eq(no_trailing(code_utils.unindent_code(code_utils.indent_code(u, indent_size=size))), no_trailing(u), "unindent(indent(x)) is x")
    r = code_utils.reindent_code(s, indent_size=size)
    h.eq(no_trailing(r), no_trailing(code_utils.indent_code(u, indent_size=size)), "reindent is unindent then indent")


def empty_lines(h, n, alphabet, nb):
    s = h.str("code", n, alphabet) + h.choose("end", ["z", "z\n", "z\n\n"])
    lines = s.split("\n")
    r = code_utils.code_set_max_consecutive_empty_lines(s, nb).split("\n")
    h.observe(r)
    h.eq([l for l in r if l.strip() != ""], [l for l in lines if l.strip() != ""], "max empty lines: the other lines are unchanged")
    run = 0
    want = []
    for l in lines:
        run = run + 1 if l.strip() == "" else 0
        want.append(run)
    got = 0
    for l in r:
        got = got + 1 if l.strip() == "" else 0
        h.check(got <= nb, "max empty lines: no longer run is left", (s, r))
    h.eq(len(r), len([k for k in want if k <= nb]), "max empty lines: the shorter runs are kept")
    x = code_utils.strip_empty_lines(s).split("\n")
    i, j = 0, len(lines)
    while i < j and lines[i].strip() == "":
        i += 1
    while j > i and lines[j - 1].strip() == "":
        j -= 1
    h.eq(x, lines[i:j] if i < j else [""], "strip empty lines: at both ends only")
    h.eq(code_utils.strip_empty_lines_in_list(list(lines)), lines[i:j], "strip empty lines: list")
    y = code_utils.shorten_lines_containing_only_spaces(s).split("\n")
    h.eq(y, [l if l.strip() != "" else "" for l in lines], "blank lines are emptied, the others unchanged")


def scan(line):
    """position of the // comment of a C++ line: independent scanner (strings, chars), None if unterminated literal"""
    i = 0
    n = len(line)
    while i < n:
        c = line[i]
        if c == '"' or c == "'":
            j = i + 1
            while j < n and line[j] != c:
                j += 2 if line[j] == "\\" else 1
            if j >= n or (c == "'" and j > i + 2 and line[i + 1] != "\\") or (c == "'" and j > i + 3):
                return "bad"
            i = j + 1
        elif c == "/" and line[i : i + 2] == "//":
            return i
        else:
            i += 1
    return None


def comment_pos(h, n, alphabet):
    s = h.str("line", n, alphabet)
    want = scan(s)
    if want == "bad":
        return
    h.reach("well formed line")
    got = code_utils.line_cpp_comment_position(s)
    h.check(got == want, "position of the comment", (s, got, want))
    code_end = len(s.rstrip()) if want is None else len(s[:want].rstrip())
    h.eq(code_utils.last_code_position_before_cpp_comment(s), code_end, "end of the code before the comment")
    r = code_utils.add_item_before_cpp_comment("x\n" + s, "@")
    h.eq(r, "x\n" + s[:code_end] + "@" + s[code_end:], "the item is added before the comment")
    r = code_utils.join_lines_with_token_before_cpp_comment([s, "b // c", "d"], ",")
    h.eq(r, s[:code_end] + "," + s[code_end:] + "\nb, // c\nd", "the separator is added before the comments")


def template(h, n, val_n):
    """tokens are replaced once, lines of missing tokens disappear"""
    v = h.str("value", val_n, "{}ab,")
    w = h.str("other", n, "ab{}x")
    t = "head {a}\n  {b} tail\n{c}{maybe_comma}\n" + "end{unknown}"
    r = code_utils.process_code_template(t, {"a": v}, {"b": None, "c": w})
    h.observe(r)
    h.eq(r, "head " + v + "\n" + w + ", \nend{unknown}", "tokens are replaced once, missing lines are removed")
    r = code_utils.process_code_template(t, {"a": v}, {"b": w, "c": None})
    h.eq(r, "head " + v + "\n  " + w + " tail\nend{unknown}", "tokens are replaced once, missing lines are removed")
    h.eq(code_utils.replace_in_string("<{a}{b}{a}{z}>", {"a": v, "b": w}), "<" + v + w + v + "{z}>", "all the occurrences are replaced")
    h.eq(code_utils.replace_maybe_comma("{maybe_comma}" + w + "\n{maybe_comma}" + v), "," + w + "\n" + v, "the last line has no comma")


def last_comma(h, n):
    """the comma that follows the last item is removed, whatever is missing"""
    items = {}
    want = []
    t = []
    for i in range(n):
        here = h.bool("present" + str(i))
        v = h.str("v" + str(i), 1, "ab\"(") + "z"
        items["k" + str(i)] = v if here else None
        t.append("{k" + str(i) + "}{maybe_comma}")
        if here:
            want.append(v)
    tmpl = "f(\n" + "\n".join(t) + ");"
    r = code_utils.process_code_template("\n".join(t), {}, dict(items))
    h.observe(r)
    h.eq(r, ", \n".join(want), "items are separated by commas")


def spaces(h, n, alphabet):
    s = h.str("s", n, alphabet)
    r = code_utils.force_one_space(s)
    h.eq(r, " ".join([w for w in s.replace("\n", " ").replace("\t", " ").split(" ") if w != ""]), "one space between the words")
    q = code_utils.remove_redundant_spaces(s)
    h.observe(q)
    h.eq(q.replace(" ", ""), s.replace(" ", "").replace("\n", "").replace("\t", ""), "only spaces are removed")
    h.eq(code_utils.remove_redundant_spaces(q), q, "removing spaces twice changes nothing")


def markers(h, n, alphabet):
    s = h.str("s", n, alphabet)
    a = code_utils.cpp_comment_remove_comment_markers("//" + s)
    h.eq(a, s.strip(), "// is removed, the text is kept")
    h.assume(f_not(f_str_contains(s, "*/")))
    h.assume(f_not(f_str_eq(s[:1], "/")))
    if n:
        h.assume(f_not(f_char_in(s[-1], mask_of("*"))))
    b = code_utils.cpp_comment_remove_comment_markers("/*" + s + "*/")
    h.eq(b.strip(), s.strip(), "/* */ is removed, the text is kept")


def lists(h, n):
    """run_length_encode and overlapping_pairs"""
    s = h.str("s", n, "abc")
    l = list(s)
    r = code_utils.run_length_encode(l)
    out = []
    for v, k in r:
        h.check(k > 0, "runs are not empty", r)
        out += [v] * k
    h.eq(out, l, "run length encoding is reversible")
    for i in range(1, len(r)):
        h.check(f_not(f_str_eq(r[i][0], r[i - 1][0])), "runs are maximal", r)
    h.eq(list(code_utils.overlapping_pairs(l)), [(l[i], l[i + 1]) for i in range(n - 1)], "overlapping pairs")
    h.eq(code_utils.join_remove_empty(", ", ["", s, "", "q"]), s + ", q" if n else "q", "join without the empty strings")
    p = code_utils.split_string_by_pipe_char(s.replace("c", "|"))
    h.eq(p, [x for x in s.split("c") if x != ""], "split by |")


def names(h, n):
    s = h.str("s", n, "abZ_1")
    c = code_utils.to_camel_case(s)
    h.observe(c)
    h.not_contains(c, "_", "camel case has no underscore")
    h.eq(c.lower(), s.replace("_", "").lower(), "camel case keeps the letters")
    w = h.str("w", n, "ab \n")
    f = code_utils.find_word_after_token("xx " + w, "xx ")
    k = 0
    while k < n and w[k] not in " \n":
        k += 1
    h.eq(f, w[:k], "word after a token")


def _l(lo, hi, **kw):
    return [dict(n=n, **kw) for n in range(lo, hi + 1)]


C = "a \n"
CASES = [
    Case("indent", indent, _l(0, 5, alphabet=C, size=4, skip=False) + _l(0, 5, alphabet=C, size=2, skip=True), _l(0, 7, alphabet=C, size=4, skip=False) + _l(0, 7, alphabet=C, size=2, skip=True),
         bounds="every code of up to 5 (thorough: 7) characters among a, space, newline"),
    Case("unindent", unindent, _l(0, 6, alphabet=C, size=2), _l(0, 8, alphabet=C, size=2), bounds="every code of up to 6 (thorough: 8) characters among a, space, newline"),
    Case("empty_lines", empty_lines, _l(1, 6, alphabet=C, nb=1) + _l(4, 5, alphabet=C, nb=2) + _l(4, 4, alphabet=C, nb=0), _l(1, 8, alphabet=C, nb=1) + _l(4, 7, alphabet=C, nb=2) + _l(2, 6, alphabet=C, nb=0),
         bounds="every code of up to 6 (thorough: 8) characters among a, space, newline"),
    Case("comment_pos", comment_pos, _l(0, 6, alphabet="/\"\\a' "), _l(0, 8, alphabet="/\"\\a' "), bounds="every line of up to 6 (thorough: 8) characters among / \" \\ a ' space"),
    Case("template", template, [dict(n=n, val_n=v) for n in (1, 2) for v in (1, 2)] + [dict(n=1, val_n=3)], [dict(n=n, val_n=v) for n in (1, 2, 3) for v in (1, 2, 3)], bounds="values of up to 3 characters among { } a b ,"),
    Case("last_comma", last_comma, [dict(n=n) for n in (1, 2, 3, 4)], bounds="up to 4 optional items"),
    Case("spaces", spaces, _l(0, 5, alphabet="a ,(\n\t"), _l(0, 6, alphabet="a ,(\n\t"), bounds="texts of up to 5 (thorough: 6) characters"),
    Case("markers", markers, _l(0, 4, alphabet="a /*\n"), _l(0, 6, alphabet="a /*\n"), bounds="comments of up to 4 (thorough: 6) characters"),
    Case("lists", lists, _l(0, 5), _l(0, 7), bounds="lists of up to 5 (thorough: 7) items"),
    Case("names", names, _l(0, 4), _l(0, 6), bounds="names of up to 4 (thorough: 6) characters"),
]
