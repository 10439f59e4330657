"""Boundary with the native srcML parser.  srcML runs for real on code in which unknown identifier characters are
private-use code points: it treats them as letters of a name.  That is faithful only if
  - every unknown char is an identifier character, or lies inside a comment / literal (declared with h.text),
  - a token with unknown chars cannot be a keyword, and it does not start with a digit unless it is all digits
    (a token that starts with a digit is handed over as a numeric literal).
These conditions are checked here, under the current path condition.
"""
from __future__ import annotations

import re

from .core import Unsupported, engine, f_not, f_or, has_sym, is_sym_char, mask_of
from .harness import CPP_KEYWORDS, DIGITS, IDENT
from .ops import f_char_in, f_str_eq

_CACHE: dict = {}
_IDENT_MASK = mask_of(IDENT)
_DIGIT_MASK = mask_of(DIGITS)
_TOKEN = re.compile("[A-Za-z0-9_\U000F0000-\U0010FFFD]+")


def guarded(real):
    def to_srcml(**kw):
        code = kw["code"]
        e = engine() if has_sym(code) else None
        subst: dict = {}
        if e is not None:
            out = []
            pos = 0
            for m in _TOKEN.finditer(code):
                tok = m.group(0)
                if not has_sym(tok):
                    continue
                syms = [c for c in tok if is_sym_char(c)]
                if all(e.atom_of(c).var in e.text_vars for c in syms):
                    continue
                for c in syms:
                    if e.atom_of(c).image_mask() & ~_IDENT_MASK:
                        raise Unsupported(f"srcML: unknown char that may not be an identifier character in {tok!r}")
                first = tok[0]
                separator = m.start() > 1 and code[m.start() - 1] == "'" and (code[m.start() - 2].isalnum() or is_sym_char(code[m.start() - 2]))
                digit = first in DIGITS if not is_sym_char(first) else not (e.atom_of(first).image_mask() & ~_DIGIT_MASK)
                if separator or digit:
                    # a number (or its integer part, fractional part...): give srcML a number
                    ph = f"7000{len(subst):04d}7"
                    subst[ph] = tok
                    out.append(code[pos : m.start()] + ph)
                    pos = m.end()
                    continue
                if is_sym_char(first) and e.atom_of(first).image_mask() & _DIGIT_MASK:
                    if m.start() == 0 or code[m.start() - 1] not in ".":
                        raise Unsupported(f"srcML: token may start with a digit: {tok!r} in {code!r}")
                for k in CPP_KEYWORDS:
                    if len(k) == len(tok):
                        f = f_str_eq(tok, k)
                        if f is not False and e.feasible(f):
                            raise Unsupported(f"srcML: token may be the keyword {k}")
            out.append(code[pos:])
            if subst:
                code = "".join(out)
        key = (code, kw.get("include_positions"), str(kw.get("language")))
        r = _CACHE.get(key)
        if r is None:
            kw["code"] = code
            r = real(**kw)
            if len(_CACHE) > 4000:
                _CACHE.clear()
            _CACHE[key] = r
        for ph, tok in subst.items():
            r = r.replace(ph, tok)
        return r

    return to_srcml


def install():
    try:
        import srcml_caller
    except ImportError:
        return
    from . import rt

    rt.BUILTINS[srcml_caller.to_srcml] = guarded(srcml_caller.to_srcml)
    real_to_code = srcml_caller.to_code
    cache: dict = {}

    def to_code(**kw):
        """the inverse direction only removes the XML tags: unknown characters pass through unchanged"""
        key = (kw["xml_str"], kw.get("encoding_xml"), kw.get("encoding_src"))
        r = cache.get(key)
        if r is None:
            r = real_to_code(**kw)
            if len(cache) > 4000:
                cache.clear()
            cache[key] = r
        return r

    rt.BUILTINS[real_to_code] = to_code
