"""C06 the patterns and replacements of the options mean what they say, whatever the names"""
from .lib import *

from codemanip import code_utils
from codemanip.code_replacements import RegexReplacement, RegexReplacementList

ASSUMPTIONS = ["words are identifiers (no regex metacharacters), unless stated otherwise"]
WORDC = mask_of(IDENT)


def f_word_at(s, w, k):
    """w occurs in s at k, between word boundaries"""
    n = len(w)
    c = [f_str_eq(s[k : k + n], w)]
    if k > 0:
        c.append(f_not(f_char_in(s[k - 1], WORDC)))
    if k + n < len(s):
        c.append(f_not(f_char_in(s[k + n], WORDC)))
    return f_and(c)


def words(h, ns, nw, alphabet):
    s = h.str("s", ns, alphabet)
    w = h.str("w", nw, "abA_")
    spec = f_or([f_word_at(s, w, k) for k in range(ns - nw + 1)])
    h.check(f_iff(code_utils.contains_word(s, w), spec), "contains_word: a whole word", (s, w))
    h.check(f_iff(code_utils.contains_identifier(s, w), spec), "contains_identifier: a whole word", (s, w))
    h.check(f_iff(code_utils.does_match_regex(r"\b" + w + r"\b", s), spec), "does_match_regex: searches anywhere", (s, w))
    r = code_utils.replace_identifier(s, w, "Z9")
    out = ""
    k = 0
    while k < ns:
        if k + nw <= ns and f_word_at(s, w, k):
            out += "Z9"
            k += nw
        else:
            out += s[k]
            k += 1
    h.eq(r, out, "replace_identifier: replaces the whole words and nothing else")


def exact(h, ns, nw):
    s = h.str("s", ns, IDENT)
    w = h.str("w", nw, IDENT)
    m = code_utils.does_match_regex
    h.check(f_iff(m(code_utils.make_regex_exact_word(w), s), f_str_eq(s, w)), "exact word", (s, w))
    h.check(f_iff(m(code_utils.make_regex_exclude_word(w), s), f_not(f_str_contains(s, w))), "exclude word", (s, w))
    h.check(f_iff(m("|" + code_utils.make_regex_exact_word(w), s), f_str_eq(s, w)), "a leading | is ignored", (s, w))
    h.check(m(".*", s), "a pattern which matches everything", s)
    h.check(m("^" + s + "$", s), "the exact text", s)
    h.check(f_not(m("", s)), "the empty pattern matches nothing", s)
    both = code_utils.join_string_by_pipe_char([code_utils.make_regex_exact_word(w), code_utils.make_regex_exact_word("qq")])
    h.check(f_iff(m(both, s), f_or([f_str_eq(s, w), f_str_eq(s, "qq")])), "patterns joined with |", (s, w))
    h.check(f_iff(code_utils.does_match_regex_or_matcher(both, s), f_or([f_str_eq(s, w), f_str_eq(s, "qq")])), "pattern or matcher: pattern", (s, w))
    h.check(f_iff(code_utils.does_match_regex_or_matcher(lambda x: x == w, s), f_str_eq(s, w)), "pattern or matcher: matcher", (s, w))


def starting(h, ns, word):
    s = h.str("s", ns, IDENT)
    m = code_utils.does_match_regex
    lo, up = word[0].lower() + word[1:], word[0].upper() + word[1:]
    n = len(word)
    ends = f_or([f_str_eq(s[ns - n :], lo), f_str_eq(s[ns - n :], up)]) if ns >= n else False
    starts = f_or([f_str_eq(s[:n], lo), f_str_eq(s[:n], up)]) if ns >= n else False
    h.check(f_iff(m(code_utils.make_regex_any_variable_ending_with(word), s), ends), "variable ending with", (s, word))
    h.check(f_iff(m(code_utils.make_regex_any_variable_starting_with(word), s), starts), "variable starting with", (s, word))


def contains(h, ns, word):
    """a variable name contains a word: one of its parts, once in snake case"""
    s = h.str("s", ns, LOWER[:4] + "A1_")
    sn = code_utils.to_snake_case(s)
    spec = f_or([f_str_eq(p, word) for p in sn.split("_")])
    h.check(f_iff(code_utils.var_name_contains_word(s, word), spec), "name contains word", (s, word))
    # the equivalent pattern
    n = len(word)
    m = code_utils.does_match_regex(code_utils.make_regex_var_name_contains_word(word), s)
    c = [f_str_eq(s, word)]
    if ns > n:
        c.append(f_str_eq(s[: n + 1], word + "_"))
        c.append(f_str_eq(s[ns - n - 1 :], "_" + word))
        c.append(f_and([f_str_eq(s[ns - n - 1 : ns - 1], word), f_char_in(s[ns - 1], mask_of(DIGITS))]))
    if ns > n + 1:
        c.append(f_and([f_str_eq(s[:n], word), f_char_in(s[n], mask_of(UPPER)), f_char_in(s[n + 1], mask_of(LOWER + "_"))]))
    h.check(f_iff(m, f_or(c)), "pattern: name contains word", (s, word))


def pointer(h, ns, nw):
    s = h.str("s", ns, "ab *&")
    w = h.str("w", nw, "ab")
    spec = []
    for k in range(ns):
        left = f_not(f_char_in(s[k - 1], WORDC)) if k > 0 else True
        for suffix in ("*", " *"):
            t = w + suffix
            if k + len(t) <= ns:
                spec.append(f_and([left, f_str_eq(s[k : k + len(t)], t)]))
    h.check(f_iff(code_utils.contains_pointer_type(s, w), f_or(spec)), "contains_pointer_type", (s, w))
    h.check(f_iff(code_utils.contains_pointer_type(s, w + "*"), f_or(spec)), "contains_pointer_type with *", (s, w))


def subst(s, what, by):
    """replaces each occurrence of a plain text, from left to right"""
    out = ""
    k = 0
    n = len(what)
    while k < len(s):
        if k + n <= len(s) and f_str_eq(s[k : k + n], what):
            out += by
            k += n
        else:
            out += s[k]
            k += 1
    return out


def replacements(h, ns, na, how):
    """a list of replacements: in order, until nothing changes (3 times at most)"""
    s = h.str("s", ns, "abc")
    a, b = h.str("a", na, "ab"), h.str("b", 1, "abc")
    x, y = h.str("x", 1, "abcX"), h.choose("y", ["", "c", "YY"])
    rules = [(a, x), (b, y)]
    if how == "string":
        r = RegexReplacementList.from_string("\n  " + a + " -> " + x + "\n\n " + b + " ->  " + (y if y else "REMOVE") + "  \n")
    elif how == "last":
        r = RegexReplacementList()
        r.add_last_replacement(a, x)
        r.add_last_replacement(b, y)
    elif how == "first":
        r = RegexReplacementList()
        r.add_first_replacement(b, y)
        r.add_first_replacement(a, x)
    elif how == "merge":
        r = RegexReplacementList()
        r.add_replacement(a, x)
        r2 = RegexReplacementList()
        r2.add_replacements([(b, y)])
        r.merge_replacements(r2)
    else:
        r = RegexReplacementList()
        r.add_replacements([(a, x), RegexReplacement(b, y)])
    got = r.apply(s)
    h.observe(got)
    want = s
    for i in range(3):
        prev = want
        for p, q in rules:
            want = subst(want, p, q)
        if len(prev) == len(want) and f_str_eq(prev, want):
            break
    h.eq(got, want, "the replacements are applied in order until nothing changes")


def groups(h, n):
    """a pattern with a group"""
    s = h.str("s", n, "a<>b,")
    r = RegexReplacementList.from_string(r"a<(.*?)> -> L[\1]")
    t = "a<" + s + ">"
    got = r.apply(t)
    h.observe(got)
    h.check(f_not(f_str_contains(got, "a<" + s + ">")), "the pattern is replaced", got)
    if not f_str_contains(s, ">") and not f_str_contains(s, "a<"):
        h.eq(got, "L[" + s + "]", "the group is kept")


def defaults(h, n, which):
    """an identifier is never changed in part by the default replacements"""
    import litgen

    o = make_options()
    s = h.str("s", n, LETTERS + "_")
    repl = {"type": o.type_replacements, "value": o.value_replacements, "comment": o.comments_replacements}[which]
    got = repl.apply(s)
    h.observe(got)
    known = ["true", "false", "void", "NULL", "nullptr", "const", "mutable", "int", "long", "short", "double", "float", "size_t", "ssize_t", "ptrdiff_t", "intptr_t", "intmax_t", "uintptr_t", "uintmax_t",
             "unsigned", "signed", "FLT_MIN", "FLT_MAX", "DBL_MIN", "DBL_MAX", "LDBL_MIN", "LDBL_MAX"]
    h.check(f_or([f_str_eq(got, s)] + [f_str_eq(s, k) for k in known if len(k) == n]), "an unknown identifier is not changed", (s, got))


CASES = [
    Case("words", words, [dict(ns=ns, nw=nw, alphabet="abA_ .") for ns in (1, 2, 3, 4) for nw in (1, 2) if nw <= ns],
         [dict(ns=ns, nw=nw, alphabet="abA_ .") for ns in (1, 2, 3, 4, 5) for nw in (1, 2, 3) if nw <= ns],
         bounds="texts of up to 4 (thorough: 5) characters, words of 1 or 2 (thorough: 3) characters, all unknown"),
    Case("exact", exact, [dict(ns=ns, nw=nw) for ns in (0, 1, 2, 3) for nw in (1, 2, 3)], [dict(ns=ns, nw=nw) for ns in (0, 1, 2, 3, 4, 5) for nw in (1, 2, 3, 4)],
         bounds="names and words of up to 3 (thorough: 5) identifier characters"),
    Case("starting", starting, [dict(ns=ns, word=w) for ns in (1, 2, 3, 4, 5, 6) for w in ("nb", "size", "c")], [dict(ns=ns, word=w) for ns in range(1, 9) for w in ("nb", "size", "count", "c")],
         bounds="identifiers of up to 6 (thorough: 8) characters"),
    Case("contains", contains, [dict(ns=ns, word=w) for ns in (1, 2, 3, 4, 5) for w in ("b", "ab")], [dict(ns=ns, word=w) for ns in (1, 2, 3, 4, 5, 6) for w in ("b", "ab", "abc")],
         bounds="names of up to 5 (thorough: 6) characters among a b c d A 1 _"),
    Case("pointer", pointer, [dict(ns=ns, nw=nw) for ns in (2, 3, 4, 5) for nw in (1, 2)], [dict(ns=ns, nw=nw) for ns in (2, 3, 4, 5, 6) for nw in (1, 2)],
         bounds="types of up to 5 (thorough: 6) characters"),
    Case("replacements", replacements, [dict(ns=ns, na=1, how=how) for how in ("string", "last", "first", "merge", "mixed") for ns in (1, 2)] + [dict(ns=3, na=2, how="string")],
         [dict(ns=ns, na=na, how=how) for how in ("string", "last", "first", "merge", "mixed") for ns in (1, 2, 3) for na in (1, 2)],
         bounds="two replacements with unknown patterns and unknown results on a text of up to 3 characters"),
    Case("groups", groups, [dict(n=n) for n in (1, 2, 3)], [dict(n=n) for n in (1, 2, 3, 4)], bounds="template arguments of up to 3 (thorough: 4) characters"),
    Case("defaults", defaults, [dict(n=n, which=w) for n in (1, 2, 3, 4, 5, 6, 7) for w in ("type", "value", "comment")],
         [dict(n=n, which=w) for n in range(1, 11) for w in ("type", "value", "comment")],
         bounds="identifiers of up to 7 (thorough: 10) characters with the default replacements"),
]
