"""Model of the `re` module for symbolic strings: a backtracking matcher over the parse tree of the *stdlib* parser.

Falls through to the real `re` when neither the pattern nor the subject contain symbolic characters.
"""
from __future__ import annotations

import re as _re
from re import _constants as C  # type: ignore
from re import _parser as _p  # type: ignore
from typing import Any, Callable, Optional

from .core import PUA_BASE, Unsupported, engine, f_and, f_in, f_not, f_or, has_sym, is_sym_char, mask_of, pred_mask
from .ops import _concretize_specials, decide, f_char_eq, f_char_pred

RegexFlag = _re.RegexFlag
A = ASCII = _re.ASCII
I = IGNORECASE = _re.IGNORECASE
M = MULTILINE = _re.MULTILINE
S = DOTALL = _re.DOTALL
X = VERBOSE = _re.VERBOSE
U = UNICODE = _re.UNICODE
NOFLAG = 0
error = _re.error
Match = _re.Match

_SPECIALS = "".join(chr(c) for c in range(128) if _re.escape(chr(c)) != chr(c))


def _category(cat, ch: str) -> bool:
    n = str(cat)
    neg = "NOT_" in n
    if n.endswith("DIGIT"):
        r = ch.isdecimal()
    elif n.endswith("SPACE"):
        r = ch.isspace()
    elif n.endswith("WORD"):
        r = ch.isalnum() or ch == "_"
    else:
        raise Unsupported(n)
    return r != neg


def is_word(ch: str) -> bool:
    return ch.isalnum() or ch == "_"


def f_word(c: str):
    return f_char_pred(c, "word", is_word)


class _Node:
    pass


def _ci(a: str, b: str) -> bool:
    return a == b or a.lower() == b.lower() or a.upper() == b.upper()


class _Matcher:
    """One matching attempt of a tree on a subject."""

    def __init__(self, pat: "SymPattern", s: str, endpos: int) -> None:
        self.p = pat
        self.s = s
        self.end = endpos

    # each match function calls k(pos, groups) on success and returns its result (None = failure)
    def seq(self, nodes: list, i: int, pos: int, g: tuple, fl: int, k: Callable) -> Any:
        s = self.s
        n = len(nodes)
        # literal runs are decided as one conjunction
        j = i
        while j < n and nodes[j][0] is C.LITERAL and not fl & I:
            j += 1
        if j > i:
            if pos + (j - i) > self.end:
                return None
            f = f_and([f_char_eq(s[pos + x - i], chr(nodes[x][1])) for x in range(i, j)])
            if not decide(f):
                return None
            pos += j - i
            i = j
        if i == n:
            return k(pos, g)
        op, av = nodes[i]
        nxt = lambda p, gg: self.seq(nodes, i + 1, p, gg, fl, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos >= self.end:
                return None
            if not decide(self.char(op, av, s[pos], fl)):
                return None
            return self.seq(nodes, i + 1, pos + 1, g, fl, k)
        if op is C.AT:
            return nxt(pos, g) if decide(self.at(av, pos, fl)) else None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            fl2 = (fl | add) & ~rem
            start = pos

            def after(p, gg):
                if gid is not None:
                    gg = gg[: gid] + ((start, p),) + gg[gid + 1 :]
                return nxt(p, gg)

            return self.seq(list(sub), 0, pos, g, fl2, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, fl, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = len(s) + 1 + lo if hi is C.MAXREPEAT else hi
            if op is C.POSSESSIVE_REPEAT:
                return self._possessive(sub, lo, hi, pos, g, fl, nxt)
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                return self._rep_char(sub[0], lo, hi, pos, g, fl, nxt, op is C.MAX_REPEAT)
            return self._rep(sub, lo, hi, 0, pos, -1, g, fl, nxt, op is C.MAX_REPEAT)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if direction > 0:
                r = self.seq(sub, 0, pos, g, fl, lambda p, gg: (p, gg))
            else:
                lo, hi = _p.SubPattern.getwidth(av[1])
                r = None
                if pos - lo >= 0:
                    r = self.seq(sub, 0, pos - lo, g, fl, lambda p, gg: (p, gg) if p == pos else None)
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            span = g[av]
            if span is None:
                return None
            t = s[span[0] : span[1]]
            if pos + len(t) > self.end:
                return None
            if fl & I:
                raise Unsupported("backreference with IGNORECASE")
            if not decide(f_and([f_char_eq(x, y) for x, y in zip(t, s[pos : pos + len(t)])])):
                return None
            return nxt(pos + len(t), g)
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            br = yes if g[gid] is not None else no
            return self.seq(list(br or []), 0, pos, g, fl, nxt)
        if op is C.ATOMIC_GROUP:
            r = self.seq(list(av), 0, pos, g, fl, lambda p, gg: (p, gg))
            return nxt(*r) if r is not None else None
        raise Unsupported(f"regex op {op}")

    def _possessive(self, sub, lo, hi, pos, g, fl, nxt):
        n = 0
        while n < hi:
            r = self.seq(sub, 0, pos, g, fl, lambda p, gg: (p, gg))
            if r is None or r[0] == pos:
                break
            pos, g = r
            n += 1
        return nxt(pos, g) if n >= lo else None

    def _rep_char(self, node, lo, hi, pos, g, fl, nxt, greedy):
        s = self.s
        op, av = node
        n = 0
        if greedy:
            while n < hi and pos + n < self.end and decide(self.char(op, av, s[pos + n], fl)):
                n += 1
            while n >= lo:
                r = nxt(pos + n, g)
                if r is not None:
                    return r
                n -= 1
            return None
        while True:
            if n >= lo:
                r = nxt(pos + n, g)
                if r is not None:
                    return r
            if n < hi and pos + n < self.end and decide(self.char(op, av, s[pos + n], fl)):
                n += 1
            else:
                return None

    def _rep(self, sub, lo, hi, n, pos, last, g, fl, nxt, greedy):
        def more():
            if n >= hi or (n >= lo and pos == last):
                return None
            return self.seq(sub, 0, pos, g, fl, lambda p, gg: self._rep(sub, lo, hi, n + 1, p, pos, gg, fl, nxt, greedy))

        if greedy:
            r = more()
            if r is not None:
                return r
            return nxt(pos, g) if n >= lo else None
        if n >= lo:
            r = nxt(pos, g)
            if r is not None:
                return r
        return more()

    # -- one char
    def char(self, op, av, c: str, fl: int):
        if op is C.LITERAL or op is C.NOT_LITERAL:
            lit = chr(av)
            if fl & I:
                if is_sym_char(lit):
                    raise Unsupported("symbolic pattern with IGNORECASE")
                f = f_char_pred(c, f"ci{av}", lambda ch: _ci(ch, lit))
            else:
                f = f_char_eq(c, lit)
            return f if op is C.LITERAL else f_not(f)
        if op is C.ANY:
            return True if fl & S else f_not(f_char_eq(c, "\n"))
        # IN
        items = list(av)
        neg = items[0][0] is C.NEGATE
        if neg:
            items = items[1:]
        parts = []
        concrete = []
        for it in items:
            if it[0] is C.LITERAL and it[1] >= PUA_BASE:
                parts.append(f_char_eq(c, chr(it[1])))
            elif it[0] is C.RANGE and it[1][1] >= PUA_BASE:
                raise Unsupported("symbolic range")
            else:
                concrete.append(it)
        if concrete:

            def pred(ch):
                for o, v in concrete:
                    if o is C.LITERAL:
                        if ord(ch) == v or (fl & I and _ci(ch, chr(v))):
                            return True
                    elif o is C.RANGE:
                        if v[0] <= ord(ch) <= v[1]:
                            return True
                        if fl & I and any(len(x) == 1 and v[0] <= ord(x) <= v[1] for x in (ch.lower(), ch.upper())):
                            return True
                    elif o is C.CATEGORY:
                        if _category(v, ch):
                            return True
                    else:
                        raise Unsupported(str(o))
                return False

            parts.append(f_char_pred(c, f"in{fl & I}{concrete!r}", pred))
        f = f_or(parts)
        return f_not(f) if neg else f

    def at(self, av, pos: int, fl: int):
        s, end = self.s, self.end
        if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not fl & M):
            return pos == 0
        if av is C.AT_BEGINNING:
            return True if pos == 0 else f_char_eq(s[pos - 1], "\n")
        if av is C.AT_END_STRING:
            return pos == end
        if av is C.AT_END:
            if pos == end:
                return True
            if fl & M or pos == end - 1:
                return f_char_eq(s[pos], "\n")
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            before = f_word(s[pos - 1]) if pos > 0 else False
            after = f_word(s[pos]) if pos < end else False
            diff = f_or([f_and([before, f_not(after)]), f_and([f_not(before), after])])
            if len(s) == 0:
                return False
            return diff if av is C.AT_BOUNDARY else f_not(diff)
        raise Unsupported(str(av))


class SymMatch:
    def __init__(self, pat: "SymPattern", s: str, start: int, end: int, groups: tuple, pos: int, endpos: int) -> None:
        self.re = pat
        self.string = s
        self.regs = ((start, end),) + groups[1:]
        self.pos = pos
        self.endpos = endpos

    def _gid(self, g) -> int:
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g < len(self.regs):
            raise IndexError("no such group")
        return g

    def _g(self, g, default=None):
        span = self.regs[self._gid(g)]
        return default if span is None else self.string[span[0] : span[1]]

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, len(self.regs)))

    def groupdict(self, default=None):
        return {k: self._g(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        return self.regs[self._gid(g)] or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        best = None
        for i in range(1, len(self.regs)):
            if self.regs[i] is not None and (best is None or self.regs[i][1] > self.regs[best][1]):
                best = i
        return best

    def expand(self, template):
        return _expand(template, self)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self


def _expand(template: str, m) -> str:
    if has_sym(template):
        template = _concretize_specials(template, "\\")
    if "\\" not in template:
        return template
    # the stdlib parser of templates: (literals & group numbers)
    pat = m.re
    t = _p.parse_template(template, pat.real_shape())
    out = []
    # python 3.12: list of alternating literal / group index
    for x in t:
        if isinstance(x, int):
            out.append(m._g(x, "") if isinstance(m, SymMatch) else (m.group(x) or ""))
        else:
            out.append(x)
    return "".join(out)


class SymPattern:
    def __init__(self, pattern: str, flags: int = 0) -> None:
        self.pattern = pattern
        self.sym = has_sym(pattern)
        self.real: Optional[_re.Pattern] = None
        fl = int(flags)
        if not self.sym:
            self.real = _re.compile(pattern, flags)
            self.flags = self.real.flags
            self.groups = self.real.groups
            self.groupindex = dict(self.real.groupindex)
            self._tree = None
            return
        p = ""
        i = 0
        m = mask_of(_SPECIALS)
        prev_bs = False
        for c in pattern:
            if is_sym_char(c) and not prev_bs and decide(_f_in(c, m)):
                c = engine().concretize_char(c)
            elif is_sym_char(c) and prev_bs:
                # an escaped unknown char: literal only if it is not an ascii letter or digit
                if decide(f_char_pred(c, "ascii_alnum", lambda ch: ch.isascii() and ch.isalnum())):
                    c = engine().concretize_char(c)
            prev_bs = (c == "\\") and not prev_bs
            p += c
        self.eff = p
        tree = _p.parse(p, fl)
        self._tree = list(tree)
        self._fl = tree.state.flags
        self.flags = tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)

    def real_shape(self):
        if self.real is not None:
            return self.real
        return _re.compile(self.eff, self.flags)

    def tree(self):
        if self._tree is None:
            t = _p.parse(self.pattern, self.flags & ~U)
            self._tree = list(t)
            self._fl = t.state.flags | self.flags
        return self._tree

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, SymPattern) and o.pattern == self.pattern and o.flags == self.flags

    def __hash__(self):
        return hash(self.pattern)

    # -- core
    def _native(self, s) -> bool:
        return self.real is not None and not has_sym(s)

    def _try(self, s, pos, endpos, full, must_advance=False):
        mt = _Matcher(self, s, endpos)
        g0 = (None,) * (self.groups + 1)

        def k(p, g):
            if full and p != endpos:
                return None
            if must_advance and p == pos:
                return None
            return (p, g)

        return mt.seq(self.tree(), 0, pos, g0, self._fl, k)

    def _search(self, s, pos, endpos, must_advance=False):
        for b in range(pos, endpos + 1):
            r = self._try(s, b, endpos, False, must_advance and b == pos)
            if r is not None:
                return SymMatch(self, s, b, r[0], r[1], pos, endpos)
        return None

    def _range(self, s, pos, endpos):
        n = len(s)
        pos = max(0, min(int(pos), n))
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        return pos, endpos

    # -- API
    def match(self, string, pos=0, endpos=None):
        if self._native(string):
            return self.real.match(string, pos, len(string) if endpos is None else endpos)
        self.tree()
        pos, endpos = self._range(string, pos, endpos)
        r = self._try(string, pos, endpos, False)
        return None if r is None else SymMatch(self, string, pos, r[0], r[1], pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        if self._native(string):
            return self.real.fullmatch(string, pos, len(string) if endpos is None else endpos)
        self.tree()
        pos, endpos = self._range(string, pos, endpos)
        r = self._try(string, pos, endpos, True)
        return None if r is None else SymMatch(self, string, pos, r[0], r[1], pos, endpos)

    def search(self, string, pos=0, endpos=None):
        if self._native(string):
            return self.real.search(string, pos, len(string) if endpos is None else endpos)
        self.tree()
        pos, endpos = self._range(string, pos, endpos)
        return self._search(string, pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        if self._native(string):
            yield from self.real.finditer(string, pos, len(string) if endpos is None else endpos)
            return
        self.tree()
        pos, endpos = self._range(string, pos, endpos)
        must = False
        while pos <= endpos:
            m = self._search(string, pos, endpos, must)
            if m is None:
                return
            yield m
            b, e = m.span()
            must = b == e
            pos = e

    def findall(self, string, pos=0, endpos=None):
        r = []
        for m in self.finditer(string, pos, endpos):
            gs = m.groups("")
            r.append(m.group(0) if len(gs) == 0 else gs[0] if len(gs) == 1 else gs)
        return r

    def subn(self, repl, string, count=0):
        if self._native(string) and not callable(repl) and not has_sym(repl):
            return self.real.subn(repl, string, count)
        if self._native(string) and not has_sym(repl) and not callable(repl):
            return self.real.subn(repl, string, count)
        out, last, n = [], 0, 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            b, e = m.span()
            out.append(string[last:b])
            if callable(repl):
                out.append(repl(m))
            elif isinstance(m, SymMatch):
                out.append(_expand(repl, m))
            else:
                out.append(_expand_real(repl, m, self))
            last = e
            n += 1
        out.append(string[last:])
        return "".join(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if self._native(string):
            return self.real.split(string, maxsplit)
        out, last, n = [], 0, 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            b, e = m.span()
            out.append(string[last:b])
            out.extend(m.groups())
            last = e
            n += 1
        out.append(string[last:])
        return out


def _expand_real(repl: str, m, pat):
    class W:
        re = pat

        @staticmethod
        def group(i):
            return m.group(i)

    return _expand(repl, W)


def _f_in(c, m):
    from .ops import f_char_in
    return f_char_in(c, m)


_CACHE: dict = {}


def compile(pattern, flags=0):  # noqa
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    if has_sym(pattern):
        return SymPattern(pattern, flags)
    k = (pattern, int(flags))
    r = _CACHE.get(k)
    if r is None:
        r = _CACHE[k] = SymPattern(pattern, flags)
    return r


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def escape(pattern):
    if not has_sym(pattern):
        return _re.escape(pattern)
    out = []
    m = mask_of(_SPECIALS)
    for c in pattern:
        if is_sym_char(c):
            out.append(("\\" + c) if decide(_f_in(c, m)) else c)
        else:
            out.append(_re.escape(c))
    return "".join(out)


def purge():
    _re.purge()


Pattern = SymPattern
