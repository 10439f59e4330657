"""What a harness sees: symbolic inputs and assertions.  The same harness runs in two modes:
 - SymH: symbolic execution of the instrumented code,
 - ReplayH: concrete values (a model found by the solver), on the uninstrumented code of the repository.
"""
from __future__ import annotations

import os
import string
from typing import Any, Callable, Optional

from . import core
from .core import PathInfeasible, SymBool, SymInt, engine, f_and, f_iff, f_implies, f_in, f_not, f_or, has_sym, mask_of
from .ops import deep_sym, f_char_eq, f_char_in, f_eq, f_str_contains, f_str_eq

IDENT = string.ascii_letters + string.digits + "_"
LETTERS = string.ascii_letters
LOWER = string.ascii_lowercase
UPPER = string.ascii_uppercase
DIGITS = string.digits
PRINTABLE = "".join(chr(c) for c in range(32, 127))
TEXT = PRINTABLE + "\n\t"
TEXT_X = TEXT + "\r\u00e9\u00df\u2028"

CPP_KEYWORDS = set(
    """alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl
concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do
double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace
new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return
short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef
typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq
final override signals slots emit foreach forever NULL import module asm __asm__ get set
restrict _Bool""".split()
)


class Skip(Exception):
    """replay only: the inputs do not satisfy an assumption of the harness"""


class SkipConfig(Exception):
    """an internal function that the harness looks at does not exist any more (the end-to-end cases remain)"""


class Case:
    def __init__(self, name: str, fn: Callable, quick: list, thorough: Optional[list] = None, bounds: str = "") -> None:
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds


def _mask(alphabet) -> int:
    return alphabet if isinstance(alphabet, int) else mask_of(alphabet)


class BaseH:
    sym = False

    # ---- conveniences shared by both modes, built upon: str, choose, int, assume, prove
    def ident(self, name: str, n: int, prefix: str = "", suffix: str = "", alphabet=IDENT, keyword_ok: bool = False) -> str:
        """prefix + n unknown identifier chars + suffix, never a C++ keyword; the first char is not a digit"""
        s = self.str(name, n, alphabet)
        if not prefix and n > 0:
            self.assume(f_not(f_char_in(s[0], mask_of(DIGITS))))
        r = prefix + s + suffix
        if not keyword_ok:
            for k in sorted(CPP_KEYWORDS):
                if len(k) == len(r):
                    self.assume(f_not(f_str_eq(r, k)))
        return r

    def distinct(self, *names: str) -> None:
        for i in range(len(names)):
            for j in range(i):
                self.assume(f_not(f_str_eq(names[i], names[j])))

    def need(self, module: Any, name: str) -> Any:
        """an internal function of the code under test, if it (still) exists"""
        f = getattr(module, name, None)
        if f is None:
            raise SkipConfig(name)
        return f

    def strn(self, name: str, lens: list, alphabet) -> str:
        """a string whose length is one of lens"""
        n = self.choose(name + ".len", list(lens))
        return self.str(name, n, alphabet)

    def eq(self, a: Any, b: Any, label: str) -> None:
        self.prove(f_eq(a, b), label, (a, b))

    def check(self, cond: Any, label: str, detail: Any = None) -> None:
        self.prove(cond, label, detail)

    def contains(self, s: str, sub: str, label: str) -> None:
        self.prove(f_str_contains(s, sub), label, (s, sub))

    def not_contains(self, s: str, sub: str, label: str) -> None:
        self.prove(f_not(f_str_contains(s, sub)), label, (s, sub))


class SymH(BaseH):
    sym = True

    def __init__(self) -> None:
        self.observations: list = []

    def str(self, name: str, n: int, alphabet) -> str:
        e = engine()
        m = _mask(alphabet)
        if name in e.inputs:
            raise AssertionError("duplicate input " + name)
        s = e.sym_str(name, n, [m] * n)
        e.inputs[name] = ("str", [e.atom_of(c) for c in s])
        return s

    def text(self, name: str, n: int, alphabet) -> str:
        """unknown chars that end up inside comments or literals (not subject to the identifier guard of srcML)"""
        s = self.str(name, n, alphabet)
        for c in s:
            engine().text_vars.add(engine().atom_of(c).var)
        return s

    def choose(self, name: str, options: list) -> Any:
        e = engine()
        if len(options) == 1:
            e.inputs[name] = ("const", 0)
            return options[0]
        v = e.new_var(name, (1 << len(options)) - 1)
        e.inputs[name] = ("int", v, 0)
        i = e.fork([f_in(v, 1 << k) for k in range(len(options))])
        return options[i]

    def bool(self, name: str) -> bool:
        return self.choose(name, [False, True])

    def lazybool(self, name: str) -> Any:
        """a boolean that is forked on only when it is inspected"""
        e = engine()
        v = e.new_var(name, 3)
        e.inputs[name] = ("bool", v)
        return SymBool(f_in(v, 2))

    def int(self, name: str, lo: int, hi: int) -> Any:
        import z3

        e = engine()
        v = e.new_var(name, (1 << (hi - lo + 1)) - 1)
        e.inputs[name] = ("int", v, lo)
        return SymInt(z3.ZeroExt(core.W - 21, v.z) + lo, frozenset([v]), lo, hi)

    def assume(self, f: Any) -> None:
        engine().assume(f)

    def prove(self, f: Any, label: str, detail: Any = None) -> None:
        engine().prove(f, label, detail)

    def reach(self, label: str) -> None:
        engine().reached.add(label)

    # ---- files
    def dir(self) -> str:
        from . import vfs

        return vfs.ROOT

    def write_file(self, name: str, content: str) -> str:
        from . import vfs

        path = os.path.join(vfs.ROOT, name)
        engine().vfs[os.path.normpath(path)] = content
        return path

    def read_file(self, path: str) -> Any:
        return engine().vfs.get(os.path.normpath(path))

    def observe(self, value: Any) -> None:
        """a value that the concrete replay has to reproduce"""
        self.observations.append(value)


class ReplayH(BaseH):
    def __init__(self, inputs: dict, partial: bool = False) -> None:
        self.inputs = inputs
        self.partial = partial  # the path was not explored up to its end: some inputs have no value
        self.failures: list = []
        self.observations: list = []
        self.proved = 0

    _dir = None

    def dir(self):
        import tempfile

        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="symx_replay_")
        return self._dir

    def write_file(self, name, content):
        path = os.path.join(self.dir(), name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(content)
        return path

    def read_file(self, path):
        if not os.path.isfile(path):
            return None
        with open(path, newline="", encoding="utf-8") as f:
            return f.read()

    def cleanup(self):
        import shutil

        if self._dir is not None and os.path.basename(self._dir).startswith("symx_replay_"):
            shutil.rmtree(self._dir, ignore_errors=True)

    def _get(self, name, default):
        if self.partial and name not in self.inputs:
            return default
        return self.inputs[name]

    def str(self, name, n, alphabet):
        return self._get(name, "a" * n)

    text = str

    def choose(self, name, options):
        return options[self._get(name, 0)]

    def bool(self, name):
        return [False, True][self._get(name, 0)]

    def lazybool(self, name):
        return bool(self._get(name, 0))

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def assume(self, f):
        if not f:
            raise Skip()

    def prove(self, f, label, detail=None):
        self.proved += 1
        if not f:
            self.failures.append((label, _show(detail)))

    def reach(self, label):
        pass

    def observe(self, value):
        self.observations.append(plain(value))


def raised_by_harness(e: BaseException) -> bool:
    """the exception comes from the harness itself, not from the code under test"""
    here = os.path.dirname(os.path.abspath(__file__))
    props = os.path.join(os.path.dirname(here), "props")
    tb = e.__traceback__
    last = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if not fn.startswith(here + os.sep) and not fn.startswith("<"):
            last = fn
        tb = tb.tb_next
    return last.startswith(props + os.sep)


def _show(d: Any) -> str:
    if isinstance(d, tuple):
        return "\n   vs\n".join(str(x) if isinstance(x, str) else repr(x) for x in d)
    return str(d)


def plain(v: Any, model_chars: Optional[dict] = None) -> Any:
    """JSON-able picture of a value (with the symbolic chars replaced according to the model)"""
    if isinstance(v, str):
        v = str(v)
        return v.translate(model_chars) if model_chars else v
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x, model_chars) for x in v]
    if isinstance(v, dict):
        return [[plain(a, model_chars), plain(b, model_chars)] for a, b in v.items()]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x, model_chars) for x in v), key=repr)
    if isinstance(v, SymBool) or isinstance(v, SymInt):
        return None
    return repr(v).translate(model_chars) if model_chars else repr(v)
