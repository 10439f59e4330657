"""Core of the symbolic executor: symbolic characters and integers, path conditions, forking and z3.

A symbolic string is an ordinary Python `str` in which every unknown character is stood for by one
private-use code point (planes 15/16).  Concatenation, slicing, formatting, joins, XML parsing... are thus
executed natively; every operation that *inspects* characters (comparison, search, strip, regex, case mapping,
dict lookup...) is intercepted (see rewrite.py / ops.py / symre.py) and turned into a formula over the unknown
characters.  `decide(formula)` forks the execution when both outcomes are feasible.

Paths are explored by re-execution (DFS over decision prefixes).
"""
from __future__ import annotations

import re as _re
import time
from typing import Any, Callable, Iterable, Optional

import z3

PUA_BASE = 0xF0000
PUA_END = 0xFFFFD
_HAS_SYM = _re.compile("[\U000F0000-\U0010FFFD]").search
_SYM_SPLIT = _re.compile("[\U000F0000-\U0010FFFD]")


class EngineSignal(BaseException):
    """Base of the exceptions that steer the exploration (never caught by code under test)."""


class PathInfeasible(EngineSignal):
    pass


class PathDone(EngineSignal):
    pass


class Unsupported(EngineSignal):
    """The engine met an operation it does not model: the check gives no verdict (error exit)."""


class BudgetExceeded(EngineSignal):
    pass


def has_sym(s: Any) -> bool:
    return type(s) is str and not s.isascii() and _HAS_SYM(s) is not None


def is_sym_char(c: str) -> bool:
    return ord(c) >= PUA_BASE


# --------------------------------------------------------------------------------------------------------
#   character sets are int bit masks indexed by code point
# --------------------------------------------------------------------------------------------------------
def mask_of(chars: Iterable[str]) -> int:
    m = 0
    for c in chars:
        m |= 1 << ord(c)
    return m


def mask_codes(m: int) -> list[int]:
    r = []
    while m:
        low = m & -m
        r.append(low.bit_length() - 1)
        m ^= low
    return r


def mask_ranges(m: int) -> list[tuple[int, int]]:
    r: list[tuple[int, int]] = []
    for c in mask_codes(m):
        if r and r[-1][1] == c - 1:
            r[-1] = (r[-1][0], c)
        else:
            r.append((c, c))
    return r


_UNIVERSE_LIMIT = 0x300
_PRED_CACHE: dict[Any, int] = {}


def pred_mask(key: str, pred: Callable[[str], bool], dom: int) -> int:
    """mask of the chars satisfying `pred`, restricted to the characters of dom"""
    base = _PRED_CACHE.get(key)
    if base is None:
        base = 0
        for i in range(_UNIVERSE_LIMIT):
            if pred(chr(i)):
                base |= 1 << i
        _PRED_CACHE[key] = base
    if dom.bit_length() > _UNIVERSE_LIMIT:
        for c in mask_codes(dom >> _UNIVERSE_LIMIT):
            cc = c + _UNIVERSE_LIMIT
            if pred(chr(cc)):
                base |= 1 << cc
    return base


class Var:
    """One unknown character (or small unknown int): `dom` is the path-local domain (bit mask)."""

    __slots__ = ("name", "dom", "dom0", "z", "relational", "index")

    def __init__(self, name: str, dom: int, index: int) -> None:
        self.name = name
        self.dom0 = dom
        self.dom = dom
        self.index = index
        self.z = z3.BitVec(name, 21)
        self.relational = False


class Atom:
    """A (possibly case-mapped) unknown character: value = fmap[var] (fmap None = identity)"""

    __slots__ = ("var", "fmap", "code", "_z")

    def __init__(self, var: Var, fmap: Optional[tuple], code: int) -> None:
        self.var = var
        self.fmap = fmap  # None or tuple of (code_from, code_to) for non identity codes
        self.code = code
        self._z = None

    def image_mask(self) -> int:
        if self.fmap is None:
            return self.var.dom
        d = dict(self.fmap)
        m = 0
        for c in mask_codes(self.var.dom):
            m |= 1 << d.get(c, c)
        return m

    def preimage(self, mask: int) -> int:
        """codes of var.dom0 whose image is in mask"""
        if self.fmap is None:
            return mask
        d = dict(self.fmap)
        m = 0
        for c in mask_codes(self.var.dom):
            if mask >> d.get(c, c) & 1:
                m |= 1 << c
        return m

    def z3expr(self):
        if self._z is None:
            if self.fmap is None:
                self._z = self.var.z
            else:
                by_delta: dict[int, int] = {}
                for a, b in self.fmap:
                    by_delta[b - a] = by_delta.get(b - a, 0) | (1 << a)
                e = self.var.z
                for delta, m in by_delta.items():
                    e = z3.If(z_in_ranges(self.var.z, m), self.var.z + z3.BitVecVal(delta & 0x1FFFFF, 21), e)
                self._z = e
        return self._z


_ZRANGE_CACHE: dict[Any, Any] = {}


def z_in_ranges(z, m: int):
    rs = mask_ranges(m)
    if not rs:
        return z3.BoolVal(False)
    parts = []
    for lo, hi in rs:
        if lo == hi:
            parts.append(z == lo)
        elif lo == 0:
            parts.append(z3.ULE(z, hi))
        else:
            parts.append(z3.And(z3.UGE(z, lo), z3.ULE(z, hi)))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


# --------------------------------------------------------------------------------------------------------
#   Formulas
# --------------------------------------------------------------------------------------------------------
class Formula:
    """kind: 'in' (var, mask) | 'eq' (atom, atom) | 'z' (z3 expr, vars) | 'and'/'or' (list) | 'not' (f)"""

    __slots__ = ("kind", "a", "b", "_z")

    def __init__(self, kind: str, a: Any, b: Any = None) -> None:
        self.kind = kind
        self.a = a
        self.b = b
        self._z = None

    def __bool__(self) -> bool:
        return engine().decide(self)

    def __and__(self, o):
        return f_and([self, o])

    def __rand__(self, o):
        return f_and([o, self])

    def __or__(self, o):
        return f_or([self, o])

    def __ror__(self, o):
        return f_or([o, self])

    def __invert__(self):
        return f_not(self)

    def z3expr(self):
        if self._z is None:
            k = self.kind
            if k == "in":
                self._z = z_in_ranges(self.a.z, self.b & self.a.dom0)
            elif k == "eq":
                self._z = self.a.z3expr() == self.b.z3expr()
            elif k == "z":
                self._z = self.a
            elif k == "and":
                self._z = z3.And(*[x.z3expr() for x in self.a])
            elif k == "or":
                self._z = z3.Or(*[x.z3expr() for x in self.a])
            elif k == "not":
                self._z = z3.Not(self.a.z3expr())
            else:
                raise AssertionError(k)
        return self._z

    def vars(self, acc: set) -> set:
        k = self.kind
        if k == "in":
            acc.add(self.a)
        elif k == "eq":
            acc.add(self.a.var)
            acc.add(self.b.var)
        elif k == "z":
            acc.update(self.b)
        elif k == "not":
            self.a.vars(acc)
        else:
            for x in self.a:
                x.vars(acc)
        return acc

    def key(self):
        k = self.kind
        if k == "in":
            return ("in", self.a.name, self.b)
        if k == "eq":
            return ("eq", self.a.code, self.b.code)
        if k == "z":
            return ("z", self.a.hash())
        if k == "not":
            return ("not", self.a.key())
        return (k, tuple(x.key() for x in self.a))


FormulaOrBool = Any


def f_in(var: Var, mask: int) -> FormulaOrBool:
    m = var.dom & mask
    if m == 0:
        return False
    if m == var.dom:
        return True
    return Formula("in", var, m)


def f_and(fs: Iterable[FormulaOrBool]) -> FormulaOrBool:
    r = []
    ins: dict[Var, int] = {}
    for f in fs:
        if isinstance(f, SymBool):
            f = f.formula
        if f is True:
            continue
        if f is False:
            return False
        if not isinstance(f, Formula):
            if f:
                continue
            return False
        if f.kind == "and":
            for g in f.a:
                if g.kind == "in":
                    ins[g.a] = ins.get(g.a, g.a.dom) & g.b
                else:
                    r.append(g)
        elif f.kind == "in":
            ins[f.a] = ins.get(f.a, f.a.dom) & f.b
        else:
            r.append(f)
    for v, m in ins.items():
        g = f_in(v, m)
        if g is False:
            return False
        if g is not True:
            r.append(g)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return Formula("and", r)


def f_or(fs: Iterable[FormulaOrBool]) -> FormulaOrBool:
    r = []
    ins: dict[Var, int] = {}
    for f in fs:
        if isinstance(f, SymBool):
            f = f.formula
        if f is True:
            return True
        if f is False:
            continue
        if not isinstance(f, Formula):
            if f:
                return True
            continue
        if f.kind == "or":
            for g in f.a:
                if g.kind == "in":
                    ins[g.a] = ins.get(g.a, 0) | g.b
                else:
                    r.append(g)
        elif f.kind == "in":
            ins[f.a] = ins.get(f.a, 0) | f.b
        else:
            r.append(f)
    for v, m in ins.items():
        g = f_in(v, m)
        if g is True:
            return True
        if g is not False:
            r.append(g)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return Formula("or", r)


def f_not(f: FormulaOrBool) -> FormulaOrBool:
    if isinstance(f, SymBool):
        f = f.formula
    if f is True:
        return False
    if f is False:
        return True
    if not isinstance(f, Formula):
        return not f
    if f.kind == "not":
        return f.a
    if f.kind == "in":
        return f_in(f.a, f.a.dom0 & ~f.b)
    return Formula("not", f)


def f_implies(a, b):
    return f_or([f_not(a), b])


def f_iff(a, b):
    return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])


def f_simplify(f: FormulaOrBool) -> FormulaOrBool:
    """re-evaluates f under the current domains"""
    if f is True or f is False:
        return f
    k = f.kind
    if k == "in":
        return f_in(f.a, f.b)
    if k == "eq":
        return f_char_eq_atoms(f.a, f.b)
    if k == "and":
        return f_and([f_simplify(x) for x in f.a])
    if k == "or":
        return f_or([f_simplify(x) for x in f.a])
    if k == "not":
        return f_not(f_simplify(f.a))
    return f


def f_char_eq_atoms(a: Atom, b: Atom) -> FormulaOrBool:
    if a is b or (a.var is b.var and a.fmap == b.fmap):
        return True
    if a.var is b.var:
        da, db = dict(a.fmap or ()), dict(b.fmap or ())
        m = 0
        for c in mask_codes(a.var.dom):
            if da.get(c, c) == db.get(c, c):
                m |= 1 << c
        return f_in(a.var, m)
    ia, ib = a.image_mask(), b.image_mask()
    inter = ia & ib
    if inter == 0:
        return False
    if ia & (ia - 1) == 0:  # a is a single value
        return f_in(b.var, b.preimage(ia))
    if ib & (ib - 1) == 0:
        return f_in(a.var, a.preimage(ib))
    return Formula("eq", a, b)


class SymBool:
    """A boolean whose value is decided (forked) only when it is inspected."""

    __slots__ = ("formula",)

    def __init__(self, formula: FormulaOrBool) -> None:
        self.formula = formula

    def __bool__(self) -> bool:
        return engine().decide(self.formula)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(f_iff(self.formula, o.formula))
        if isinstance(o, bool):
            return self if o else SymBool(f_not(self.formula))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(f_not(r.formula))

    __hash__ = None  # type: ignore

    def __and__(self, o):
        return SymBool(f_and([self, o]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or([self, o]))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(f_not(self.formula))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return str(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


# --------------------------------------------------------------------------------------------------------
#   Symbolic ints (32 bits, domains small enough never to wrap: enforced by range assertions)
# --------------------------------------------------------------------------------------------------------
W = 40


class SymInt:
    __slots__ = ("e", "vars", "lo", "hi")

    def __init__(self, e, vars_: frozenset, lo: int, hi: int) -> None:
        self.e = e
        self.vars = vars_
        self.lo = lo
        self.hi = hi
        if lo < -(1 << (W - 2)) or hi > (1 << (W - 2)):
            raise Unsupported("SymInt out of the modelled range")

    # -- helpers
    @staticmethod
    def _lift(o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SymInt(z3.BitVecVal(o, W), frozenset(), o, o)
        return None

    def _bin(self, o, fn, bounds):
        o = SymInt._lift(o)
        if o is None:
            return NotImplemented
        return SymInt(fn(self.e, o.e), self.vars | o.vars, *bounds(self, o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda x, y: (x.lo + y.lo, x.hi + y.hi))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda x, y: (x.lo - y.hi, x.hi - y.lo))

    def __rsub__(self, o):
        o = SymInt._lift(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        if isinstance(o, str) or isinstance(o, list):
            return o * int(self)
        return self._bin(
            o,
            lambda a, b: a * b,
            lambda x, y: (
                min(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi),
                max(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi),
            ),
        )

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e, self.vars, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def _concrete_op(self, o, fn):
        return fn(int(self), int(o) if isinstance(o, SymInt) else o)

    def __floordiv__(self, o):
        return self._concrete_op(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._concrete_op(o, lambda a, b: a % b)

    def __truediv__(self, o):
        return self._concrete_op(o, lambda a, b: a / b)

    def __lshift__(self, o):
        return self._concrete_op(o, lambda a, b: a << b)

    def __rshift__(self, o):
        return self._concrete_op(o, lambda a, b: a >> b)

    def __and__(self, o):
        return self._concrete_op(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._concrete_op(o, lambda a, b: a | b)

    def _cmp(self, o, fn, pyfn):
        o = SymInt._lift(o)
        if o is None:
            return NotImplemented
        if not self.vars and not o.vars:
            return pyfn(self.lo, o.lo)
        return SymBool(Formula("z", fn(self.e, o.e), self.vars | o.vars))

    def __lt__(self, o):
        o2 = SymInt._lift(o)
        if o2 is not None:
            if self.hi < o2.lo:
                return True
            if self.lo >= o2.hi:
                return False
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        o2 = SymInt._lift(o)
        if o2 is not None:
            if self.hi <= o2.lo:
                return True
            if self.lo > o2.hi:
                return False
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        o2 = SymInt._lift(o)
        return NotImplemented if o2 is None else o2 < self

    def __ge__(self, o):
        o2 = SymInt._lift(o)
        return NotImplemented if o2 is None else o2 <= self

    def __eq__(self, o):
        o2 = SymInt._lift(o)
        if o2 is None:
            return NotImplemented
        if self.hi < o2.lo or self.lo > o2.hi:
            return False
        return self._cmp(o2, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SymBool(f_not(r.formula))

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return engine().concretize_int(self)

    __int__ = __index__

    def __float__(self):
        return float(int(self))

    def __str__(self):
        return engine().int_to_str(self)

    def __repr__(self):
        return engine().int_to_str(self)

    def __format__(self, spec):
        if spec in ("", "d"):
            return str(self)
        return format(int(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# --------------------------------------------------------------------------------------------------------
#   Engine
# --------------------------------------------------------------------------------------------------------
class Stats:
    FIELDS = ("paths", "infeasible", "decisions", "forks", "z3_checks", "z3_time", "prove_queries", "prove_trivial")

    def __init__(self) -> None:
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d) -> None:
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Failure(Exception):
    pass


class Engine:
    """State of one path + exploration stack"""

    def __init__(self) -> None:
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.functions: set[str] = set()
        self.active = False
        self.reset_path([])

    # ------------------------------------------------------------------ path state
    def reset_path(self, prefix: list) -> None:
        self.prefix = prefix
        self.trace: list = []
        self.pending: list = []
        self.vars: list[Var] = []
        self.atoms: list[Atom] = []
        self._atom_by_key: dict = {}
        self.clauses: list = []  # non domain constraints
        self.inputs: dict[str, Any] = {}  # name -> descriptor of the symbolic input
        self.failures: list = []
        self.reached: set = set()
        self.deadline: float = 0.0
        self.max_decisions = 20000
        self.fresh = 0
        self.text_vars: set = set()
        self.witnessed = False
        self.vfs: dict = {}
        self.cached: dict = {}  # functools caches (they live as long as the path)

    def new_var(self, name: str, dom: int) -> Var:
        v = Var(name, dom, len(self.vars))
        self.vars.append(v)
        return v

    def atom(self, var: Var, fmap: Optional[tuple]) -> Atom:
        key = (var.index, fmap)
        a = self._atom_by_key.get(key)
        if a is None:
            code = PUA_BASE + len(self.atoms)
            if code > PUA_END:
                raise Unsupported("too many symbolic characters")
            a = Atom(var, fmap, code)
            self.atoms.append(a)
            self._atom_by_key[key] = a
        return a

    def atom_of(self, c: str) -> Atom:
        i = ord(c) - PUA_BASE
        if i >= len(self.atoms):
            raise Unsupported("stale symbolic character (state leaked from another path)")
        return self.atoms[i]

    def sym_str(self, name: str, n: int, doms: list[int]) -> str:
        chars = []
        for i in range(n):
            v = self.new_var(f"{name}[{i}]", doms[i])
            chars.append(chr(self.atom(v, None).code))
        return "".join(chars)

    # ------------------------------------------------------------------ z3
    def _pc_exprs(self, extra_vars: Optional[set] = None) -> list:
        """Path condition. With extra_vars: only the part connected to these variables."""
        if extra_vars is None:
            r = [z_in_ranges(v.z, v.dom) for v in self.vars]
            r += [c.z3expr() for c in self.clauses]
            return r
        # cone of influence
        seen = set(extra_vars)
        clauses = []
        rest = [(c, c.vars(set())) for c in self.clauses]
        changed = True
        while changed:
            changed = False
            remaining = []
            for c, vs in rest:
                if vs & seen:
                    seen |= vs
                    clauses.append(c)
                    changed = True
                else:
                    remaining.append((c, vs))
            rest = remaining
        r = [z_in_ranges(v.z, v.dom) for v in seen]
        r += [c.z3expr() for c in clauses]
        return r

    def _z3_check(self, exprs: list) -> Any:
        t = time.time()
        self.solver.push()
        try:
            self.solver.add(*exprs)
            res = self.solver.check()
            model = self.solver.model() if res == z3.sat else None
        finally:
            self.solver.pop()
        self.stats.z3_checks += 1
        self.stats.z3_time += time.time() - t
        if res == z3.unknown:
            raise Unsupported("z3 answered unknown")
        return model

    def feasible(self, f: FormulaOrBool) -> bool:
        if f is True or f is False:
            return f
        if f.kind == "in" and not f.a.relational:
            return True
        if f.kind == "and" and all(g.kind == "in" and not g.a.relational for g in f.a):
            return True
        if f.kind == "or" and any(g.kind == "in" and not g.a.relational for g in f.a):
            return True
        vs = f.vars(set())
        return self._z3_check(self._pc_exprs(vs) + [f.z3expr()]) is not None

    # ------------------------------------------------------------------ constraints
    def _restrict(self, v: Var, mask: int) -> None:
        v.dom &= mask
        if v.dom == 0:
            raise PathInfeasible()

    def add_constraint(self, f: FormulaOrBool) -> None:
        if f is True:
            return
        if f is False:
            raise PathInfeasible()
        if f.kind == "in":
            self._restrict(f.a, f.b)
            self._propagate()
            return
        if f.kind == "and":
            for g in f.a:
                self.add_constraint(f_simplify(g))
            return
        if f.kind == "not" and f.a.kind == "or":
            for g in f.a.a:
                self.add_constraint(f_simplify(f_not(g)))
            return
        self.clauses.append(f)
        for v in f.vars(set()):
            v.relational = True

    def _propagate(self) -> None:
        """drop the clauses that became true, turn the ones that became unit into domain restrictions"""
        if not self.clauses:
            return
        changed = True
        while changed:
            changed = False
            kept = []
            for c in self.clauses:
                if c.kind == "z":
                    kept.append(c)
                    continue
                s = f_simplify(c)
                if s is True:
                    changed = True
                    continue
                if s is False:
                    raise PathInfeasible()
                if s.kind == "in":
                    self._restrict(s.a, s.b)
                    changed = True
                    continue
                kept.append(s)
            self.clauses = kept
        for v in self.vars:
            v.relational = False
        for c in self.clauses:
            for v in c.vars(set()):
                v.relational = True

    # ------------------------------------------------------------------ forking
    def decide(self, f: FormulaOrBool) -> bool:
        if isinstance(f, SymBool):
            f = f.formula
        if f is True or f is False:
            return f
        f = f_simplify(f)
        if f is True or f is False:
            return f
        return self.fork([f, f_not(f)]) == 0

    def fork(self, options: list) -> int:
        """options: mutually exclusive & exhaustive formulas. Returns the index of the one that is followed."""
        if not self.active:
            raise Unsupported("symbolic value inspected outside of a symbolic run")
        n = len(self.trace)
        if n < len(self.prefix):
            idx = self.prefix[n]
            self.trace.append(idx)
            if idx >= len(options):
                raise Unsupported("replay divergence")
            self.add_constraint(options[idx])
            return idx
        self.stats.decisions += 1
        if n > self.max_decisions:
            raise Unsupported("too many decisions on one path")
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()
        feas = []
        for i, o in enumerate(options):
            if len(options) - i == 1 and not feas:
                feas.append(i)  # exhaustive: the last one has to be feasible
                break
            if self.feasible(o):
                feas.append(i)
        if not feas:
            raise PathInfeasible()
        idx = feas[0]
        if len(feas) > 1:
            self.stats.forks += 1
            for j in reversed(feas[1:]):
                self.pending.append(self.trace + [j])
        self.trace.append(idx)
        self.add_constraint(options[idx])
        return idx

    def assume(self, f: FormulaOrBool) -> None:
        if isinstance(f, SymBool):
            f = f.formula
        if f is True:
            return
        if f is False:
            raise PathInfeasible()
        if not isinstance(f, Formula):
            if not f:
                raise PathInfeasible()
            return
        f = f_simplify(f)
        if not self.feasible(f):
            raise PathInfeasible()
        self.add_constraint(f)

    # ------------------------------------------------------------------ concretisation
    def concretize_int(self, x: SymInt) -> int:
        if not x.vars:
            return z3.simplify(x.e).as_signed_long()
        n_guard = 0
        while True:
            m = self._z3_check(self._pc_exprs(set(x.vars)))
            if m is None:
                raise PathInfeasible()
            # to stay deterministic under re-execution, pick the smallest feasible value
            val = m.eval(x.e, model_completion=True).as_signed_long()
            while True:
                m = self._z3_check(self._pc_exprs(set(x.vars)) + [x.e < val])
                if m is None:
                    break
                val = m.eval(x.e, model_completion=True).as_signed_long()
            f = Formula("z", x.e == val, x.vars)
            if self.fork([f, f_not(f)]) == 0:
                return val
            n_guard += 1
            if n_guard > 300:
                raise Unsupported("too many values for a symbolic int")

    def concretize_char(self, c: str) -> str:
        a = self.atom_of(c)
        while True:
            m = a.image_mask()
            codes = mask_codes(m)
            if len(codes) == 1:
                return chr(codes[0])
            f = f_in(a.var, a.preimage(1 << codes[0]))
            if self.decide(f):
                return chr(codes[0])

    def concretize(self, s: str) -> str:
        return "".join(self.concretize_char(c) if is_sym_char(c) else c for c in s)

    def int_to_str(self, x: SymInt) -> str:
        if not x.vars:
            return str(self.concretize_int(x))
        if x < 0:
            return "-" + self.int_to_str(-x)
        hi = max(abs(x.lo), abs(x.hi))
        n = len(str(hi))
        nd = 1
        while nd < n and not (x < 10**nd):
            nd += 1
        self.fresh += 1
        digits = mask_of("0123456789")
        chars = []
        total = z3.BitVecVal(0, W)
        vs = []
        for i in range(nd):
            v = self.new_var(f"_digit{self.fresh}[{i}]", digits)
            vs.append(v)
            chars.append(chr(self.atom(v, None).code))
            total = total * 10 + (z3.ZeroExt(W - 21, v.z) - 48)
        f = Formula("z", total == x.e, x.vars | frozenset(vs))
        self.add_constraint(f)
        if nd > 1:
            self.add_constraint(f_in(vs[0], digits & ~(1 << 48)))
        return "".join(chars)

    # ------------------------------------------------------------------ proving
    def full_model(self, model) -> dict:
        """Var -> int, a total assignment that satisfies the path condition (given a model of the full path condition)"""
        r = {}
        for v in self.vars:
            val = model.eval(v.z, model_completion=False) if model is not None else None
            c = None
            if val is not None and z3.is_bv_value(val):
                c = val.as_long()
                if not v.dom >> c & 1:
                    c = None
            r[v] = c if c is not None else (v.dom & -v.dom).bit_length() - 1
        return r

    def model_inputs(self, model) -> dict:
        return self.model_inputs_from(self.full_model(model))

    def model_inputs_from(self, vals: dict) -> dict:
        r = {}
        for name, d in self.inputs.items():
            kind = d[0]
            if kind == "str":
                r[name] = "".join(chr(vals[a.var]) for a in d[1])
            elif kind == "int":
                r[name] = d[2] + vals[d[1]]
            elif kind == "bool":
                r[name] = bool(vals[d[1]])
            elif kind == "const":
                r[name] = d[1]
        return r

    def char_table(self, vals: dict) -> dict:
        t = {}
        for a in self.atoms:
            c = vals[a.var]
            t[a.code] = chr(dict(a.fmap).get(c, c) if a.fmap else c)
        return t

    def sat_model(self, f: FormulaOrBool):
        """a model of path condition and f, or None"""
        if isinstance(f, SymBool):
            f = f.formula
        exprs = self._pc_exprs()
        if f is False:
            return None
        if isinstance(f, Formula):
            exprs.append(f.z3expr())
        return self._z3_check(exprs)

    def some_inputs(self, k: int, rnd: Any) -> list:
        """up to k different models of the path condition (used on paths that cannot be encoded any further)"""
        r: list = []
        base = self._pc_exprs()
        for i in range(k):
            hints = []
            if i:
                vs = [v for v in self.vars if v.dom & (v.dom - 1)]
                rnd.shuffle(vs)
                for v in vs[: max(1, len(vs) // 2)]:
                    codes = list(mask_codes(v.dom))
                    hints.append(v.z == rnd.choice(codes))
            model = self._z3_check(base + hints)
            if model is None and hints:
                model = self._z3_check(base + hints[:1])
            if model is None:
                if not i:
                    return []
                continue
            x = self.model_inputs(model)
            if x not in r:
                r.append(x)
        return r

    def prove(self, f: FormulaOrBool, label: str, detail: Any = None) -> bool:
        """Ask z3 for a counterexample of f under the path condition."""
        if isinstance(f, SymBool):
            f = f.formula
        if not isinstance(f, Formula):
            f = bool(f)
        self.reached.add(label)
        if f is True:
            self.stats.prove_trivial += 1
            if not self.witnessed:
                # reachability witness: the assertion is reached by at least one value of the unknowns
                self.witnessed = True
                if self.sat_model(True) is None:
                    raise PathInfeasible()
            return True
        self.stats.prove_queries += 1
        model = self.sat_model(f_not(f) if isinstance(f, Formula) else True)
        if model is None:
            if f is False:
                raise PathInfeasible()
            return True
        self.failures.append((label, self.model_inputs(model), detail))
        return False


_ENGINE: Optional[Engine] = None


def engine() -> Engine:
    assert _ENGINE is not None
    return _ENGINE


def set_engine(e: Engine) -> None:
    global _ENGINE
    _ENGINE = e
