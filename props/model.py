"""Pieces of C++ programs with unknown names, and what they should become (shared by the harnesses)."""
from __future__ import annotations

from typing import Any

from symx.harness import *  # noqa
from symx.outparse import Malformed, disagreement, norm, parse_pydef, parse_stub, tight

from .lib import gen, make_options

# an identifier made of such a prefix and of these characters is the same in Python, and is no keyword
SAFE = "qxyz7"


def low(h, name, n=1, prefix="q", alphabet="xyz7"):
    """a lower case identifier, kept as is in Python"""
    return h.ident(name, n, prefix=prefix, alphabet=alphabet)


def up(h, name, n=1, prefix="Q", alphabet="xyzXYZ"):
    """the name of a class, of an enum"""
    return h.ident(name, n, prefix=prefix, alphabet=alphabet)


# (C++ type, python type, [(C++ default, python default)])
TYPES = {
    "int": ("int", [("3", "3"), ("-1", "-1"), ("0x10", "0x10")]),
    "double": ("float", [("1.5", "1.5"), ("2.", "2.")]),
    "float": ("float", [("1.5f", "1.5"), ("-2.f", "-2.")]),
    "bool": ("bool", [("true", "True"), ("false", "False")]),
    "const std::string &": ("str", [('"a, b"', '"a, b"'), ('""', '""')]),
    "std::string": ("str", [('"a(b"', '"a(b"')]),
    "size_t": ("int", [("7", "7")]),
    "const char *": ("str", [('"x=y"', '"x=y"')]),
    "std::vector<int>": ("List[int]", []),
    "const std::vector<std::string> &": ("List[str]", []),
    "std::optional<int>": ("Optional[int]", [("std::nullopt", "None")]),
    "std::map<std::string, int>": ("Dict[str, int]", []),
    "std::pair<int, double>": ("Tuple[int, float]", []),
    "std::function<void(int)>": ("Callable[[int], None]", []),
    "void *": ("Any", [("nullptr", "None"), ("NULL", "None")]),
    "unsigned int": ("int", [("4", "4")]),
    "long long": ("int", [("5", "5")]),
    "unsigned long long": ("int", []),
    "uint8_t": ("int", [("6", "6")]),
    "std::shared_ptr<int>": ("int", []),
    "std::array<int, 3>": ("List[int]", []),
    "std::tuple<int, bool>": ("Tuple[int, bool]", []),
}


def parsed(h, r, nano, label="", ignore=(), overloads=True):
    """-> (stub, pydef): both are well formed and agree"""
    stub = parse_stub(r.stub_code)
    pydef = parse_pydef(r.pydef_code, nano)
    d = disagreement(stub, pydef, ignore, overloads)
    h.check(d is None, label + "the stub and the bindings agree", (str(d), r.stub_code, r.pydef_code))
    return stub, pydef


def one(h, items, label, detail):
    h.check(len(items) == 1, label, detail)
    return items[0]
