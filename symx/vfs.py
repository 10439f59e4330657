"""Files with symbolic contents: `open`, os.path.isfile & co. work on an in-memory file system for the paths under ROOT.
(the concrete replay uses a real scratch directory)"""
from __future__ import annotations

import os.path

from .core import Unsupported, engine, has_sym

ROOT = "/symx_vfs"


def files() -> dict:
    return engine().vfs


def _key(path) -> str:
    if not isinstance(path, str):
        path = str(path)
    if has_sym(path):
        path = engine().concretize(path)
    return os.path.normpath(path)


def is_virtual(path) -> bool:
    return isinstance(path, str) and (path.startswith(ROOT + "/") or path == ROOT)


class VFile:
    def __init__(self, key: str, mode: str, newline) -> None:
        from . import rt

        self.key, self.mode, self.newline = key, mode, newline
        self.closed = False
        fs = files()
        if "b" in mode or "+" in mode:
            raise Unsupported("open mode " + mode)
        if "r" in mode:
            if key not in fs:
                raise FileNotFoundError(key)
            content = fs[key]
            if newline is None:
                content = rt.mcall(rt.mcall(content, "replace", "\r\n", "\n"), "replace", "\r", "\n")
            self.content = content
            self.pos = 0
        elif "w" in mode or "x" in mode:
            if "x" in mode and key in fs:
                raise FileExistsError(key)
            fs[key] = ""
        elif "a" in mode:
            fs.setdefault(key, "")
        else:
            raise Unsupported("open mode " + mode)

    def read(self, n=-1):
        if n is not None and n >= 0:
            r = self.content[self.pos : self.pos + n]
        else:
            r = self.content[self.pos :]
        self.pos += len(r)
        return r

    def readline(self):
        for line in self.readlines():
            self.pos = self.pos  # (readlines moved to the end)
            raise Unsupported("readline")
        return ""

    def readlines(self):
        from . import rt

        parts = rt.mcall(self.read(), "split", "\n")
        r = [p + "\n" for p in parts[:-1]]
        if len(parts[-1]) > 0:
            r.append(parts[-1])
        return r

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        files()[self.key] += s
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open_(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if is_virtual(path):
        return VFile(_key(path), mode, newline)
    if has_sym(path) if isinstance(path, str) else False:
        path = engine().concretize(path)
    if any(c in mode for c in "wax+"):
        raise Unsupported(f"the code under test writes to {path}")
    return open(path, mode, buffering, encoding, errors, newline, closefd, opener)


def isfile(path):
    if is_virtual(path):
        return _key(path) in files()
    return os.path.isfile(path)


def isdir(path):
    if is_virtual(path):
        k = _key(path)
        return any(f.startswith(k + "/") for f in files())
    return os.path.isdir(path)


def exists(path):
    return isfile(path) or isdir(path)


def remove(path):
    if is_virtual(path):
        del files()[_key(path)]
        return
    raise Unsupported(f"the code under test removes {path}")


def makedirs(path, *a, **k):
    if is_virtual(path):
        return
    raise Unsupported(f"the code under test creates {path}")


def install(builtins: dict) -> None:
    builtins[open] = open_
    builtins[os.path.isfile] = isfile
    builtins[os.path.isdir] = isdir
    builtins[os.path.exists] = exists
    builtins[os.remove] = remove
    builtins[os.unlink] = remove
    builtins[os.makedirs] = makedirs
    builtins[os.mkdir] = makedirs
