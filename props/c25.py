"""C25 numpy buffers: a C++ function that takes buffers and their size receives the data of the arrays, or is not called"""
from symx import cppsim
from symx.cppsim import NULL, Cell, Count, CStr, Native, Ptr, SelfObj, Sim, Str, Thrown, Tok, Vec, to_python, from_python

from .c14 import PLACES14
from .c17 import same
from .model import *

# C++ element type -> (kind, bits); numpy dtype char -> the same
CPP_REP = {"uint8_t": ("UInt", 8), "int8_t": ("Int", 8), "uint16_t": ("UInt", 16), "int16_t": ("Int", 16), "uint32_t": ("UInt", 32), "int32_t": ("Int", 32), "np_uint_l": ("UInt", 64), "np_int_l": ("Int", 64),
           "float": ("Float", 32), "double": ("Float", 64), "long double": ("Float", 128), "long long": ("Int", 64), "uint64_t": ("UInt", 64), "int64_t": ("Int", 64)}
DTYPE_REP = {"B": ("UInt", 8), "b": ("Int", 8), "H": ("UInt", 16), "h": ("Int", 16), "I": ("UInt", 32), "i": ("Int", 32), "L": ("UInt", 64), "l": ("Int", 64), "q": ("Int", 64), "Q": ("UInt", 64),
             "f": ("Float", 32), "d": ("Float", 64), "g": ("Float", 128), "?": ("Bool", 8), "e": ("Float", 16), "F": ("Complex", 64), "D": ("Complex", 128)}
CANONICAL = {"uint8_t": "B", "int8_t": "b", "uint16_t": "H", "int16_t": "h", "uint32_t": "I", "int32_t": "i", "np_uint_l": "L", "np_int_l": "l", "float": "f", "double": "d", "long double": "g", "long long": "q"}
CPP_REP["std::uint8_t"] = CPP_REP["uint8_t"]
CANONICAL["std::uint8_t"] = "B"
# pointers which are not buffers of a type that is known
NOT_BUFFERS = ["unsigned long long * @", "float ** @", "const std::vector<float *> & @", "unsigned int * @", "double *& @", "Loc * @", "const float * @ = nullptr", "const int * @", "std::uint8_t ** @"]
CODES = {"Int": 0, "UInt": 1, "Float": 2, "Bfloat": 4, "Complex": 5, "Bool": 6}

# a B: buffers that share the size that follows, n: their size; i: an int; d: an int with a default; s: a stride; c: const char *
# N: a parameter after a buffer, which is not a size; w: a pointer to a class; U: an unsigned int; P: a pointer which is not a buffer; t: a number of the type of the template
SHAPES = {"Bn": "Bn", "Bni": "Bni", "iBn": "iBn", "BBn": "BBn", "BnBn": "BnBn", "Bns": "Bns", "cBn": "cBn", "BN": "BN", "wn": "wn", "BBns": "BBns", "Bnd": "Bnd", "BnN": "BnN", "in": "in", "BBBn": "BBBn", "wnBn": "wnBn",
          "BnU": "BnU", "BnBNi": "BnBNi", "Bnsi": "Bnsd", "Pn": "Pn", "Bnt": "Bnt", "BnP": "BnP"}
RETS = {"void": ("void", "None"), "int": ("int", "int"), "string": ("const std::string &", "str"), "double": ("double", "float"), "cstr": ("const char *", "str")}


class DType(Native):
    def __init__(self, char):
        self.char = char

    def get(self, name):
        rep = DTYPE_REP[self.char]
        if name == "char_":
            return lambda: self.char
        if name == "code":
            return CODES[rep[0]]
        if name == "bits":
            return rep[1]
        if name == "itemsize":
            return lambda: rep[1] // 8
        raise Malformed("dtype has no member " + name)


class Arr(Native):
    """a numpy array, as py::array or nb::ndarray"""

    def __init__(self, nano, label, char, ndim, contiguous, writable, length):
        self.nano, self.label, self.char, self.ndim, self.contiguous, self.writable, self.length = nano, label, char, ndim, contiguous, writable, length
        self.cell = Cell(Tok("data of " + label), "")
        self.const = False  # as a nb::ndarray<nb::ro>

    def itemsize(self):
        return DTYPE_REP[self.char][1] // 8

    def pointer(self, const):
        return Ptr([self.cell], 0, "void", const)

    def dim(self, i):
        i = i.v if isinstance(i, Cell) else i
        if i >= self.ndim:
            raise Malformed("shape out of bounds")
        return Count(self.length) if i == 0 else Tok("other dimension")

    def get(self, name):
        step = 1 if self.contiguous else 2
        if name == "ndim":
            return lambda: self.ndim
        if name == "itemsize":
            return lambda: self.itemsize()
        if name == "dtype":
            return lambda: DType(self.char)
        if name == "size":
            return lambda: Count(self.length) if self.ndim == 1 else Tok("size of all dimensions")
        if name == "shape":
            return lambda *a: self.dim(a[0]) if len(a) > 0 else Vec("carray", [Cell(self.dim(i), "") for i in range(self.ndim)], "")
        if name == "data":
            return lambda: self.pointer(self.const or not self.nano)
        if self.nano and name == "stride":
            return lambda i: step
        if not self.nano and name == "strides":
            return lambda i: step * self.itemsize()
        if not self.nano and name == "nbytes":
            return lambda: Tok("size in bytes")
        if not self.nano and name == "mutable_data":

            def mutable():
                if not self.writable:
                    raise Thrown("array is not writeable")
                return self.pointer(False)

            return mutable
        raise Malformed("the array has no member " + name)


def received(nano, ctype, v):
    """the C++ argument for a Python value, or Thrown"""
    if isinstance(v, cppsim.Struct):
        v.name = tight(ctype.replace("*", "").replace("const ", ""))
    if not isinstance(v, Arr):
        return from_python(ctype, v, same, {})
    ct = tight(ctype)
    if not nano:
        if ct not in ("py::array&", "const py::array&", "py::array"):
            raise Malformed("an array is passed to " + ct)
        return Cell(v, "py::array", ct.startswith("const "))
    if ct not in ("nb::ndarray<>&", "nb::ndarray<nb::ro>&", "nb::ndarray<>", "nb::ndarray<nb::ro>", "const nb::ndarray<>&", "const nb::ndarray<nb::ro>&"):
        raise Malformed("an array is passed to " + ct)
    v.const = "nb::ro" in ct
    if not v.writable and not v.const:
        raise Thrown("TypeError: read-only array")
    return Cell(v, tight(ct.replace("const ", "").replace("&", "")), ct.startswith("const "))


def buffers_(h, nano, sites, places, shapes, kinds, types, consts, sizes, size_types, rets, arrays, stride_types=("int",), alphabet="vwx"):
    """a function with buffers, their sizes, strides, and other parameters; the program calls it with arrays of all kinds"""
    o = make_options(nano)
    o.fn_params_replace_buffer_by_array__regex = ".*"
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    site = h.choose("site", sites)
    if site == "function" and key in ("inner", "nsinner"):
        return
    shape = h.choose("shape", shapes)
    spec = SHAPES[shape]
    nbuf = spec.count("B")
    # several buffers share the kind or mix them
    bk = [h.choose("kind" + str(i), kinds) for i in range(nbuf)]
    bt = [("T" if bk[i] == "template" else h.choose("type" + str(i), types)) for i in range(nbuf)]
    bc = [h.choose("const" + str(i), consts) for i in range(nbuf)]
    names = [h.ident("b" + str(i), 1, alphabet=alphabet) for i in range(nbuf)]
    if nbuf > 1:
        h.distinct(*names)
    size_type = h.choose("size type", size_types) if "n" in spec else "int"
    size_name = h.choose("size name", sizes) if "n" in spec else "n"
    ret, pyret = RETS[h.choose("ret", rets)]
    stride_type = h.choose("stride type", stride_types) if "s" in spec else "int"
    tname = h.choose("template name", ["T", "NumericType"]) if "template" in bk else "T"
    fname = low(h, "function", 1)
    # ---- the declaration
    ps, ib, ni = [], 0, 0
    roles = []
    for k, c in enumerate(spec):
        if c == "B":
            t = tname if bk[ib] == "template" else bt[ib]
            ps.append(bc[ib].replace("@", t) + " * " + names[ib])
            roles.append(("buffer", ib))
            ib += 1
        elif c == "n":
            ni += 1
            ps.append(size_type + " " + size_name + (str(ni) if ni > 1 else ""))
            roles.append(("size", 0))
        elif c == "s":
            last = tname if bk[ib - 1] == "template" else bt[ib - 1]
            ps.append(stride_type + " stride = sizeof(" + last + ")")
            roles.append(("stride", ib - 1))
        else:
            ps.append({"i": "int k", "d": "int k = 3", "c": "const char * text", "N": "int counter", "w": "Loc * loc", "U": "unsigned int u", "P": "", "t": ""}[c])
            roles.append((c, 0))
    other = h.choose("other", [x for x in NOT_BUFFERS if "=" not in x or not spec.endswith("Pn")] + (["const float * @ = nullptr"] if spec == "Pn" else [])) if "P" in spec else ""
    if "P" in spec:
        ps[spec.index("P")] = other.replace("@", "other")
        if "=" in other and spec == "Pn":
            ps[1] = ps[1] + " = 0"
    if "t" in spec:
        ps[spec.index("t")] = (tname if "template" in bk else bt[0]) + " factor"
    head = "template<typename " + tname + "> " if "template" in bk else ""
    mods = {"function": "", "method": "", "const method": "", "static": "static "}[site]
    decl = head + mods + ret + " " + fname + "(" + ", ".join(ps) + ")" + (" const" if site == "const method" else "") + ";\n"
    code = text % ("struct Loc { int k; };\n" + (decl if site == "function" else "struct Cls {\nint before();\n" + decl + "int after();\n};\n"))
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    at = path + (("Cls",) if site != "function" else ())
    # ---- which parameters are arrays: buffers that a size follows
    isarr, hidden = [False] * len(spec), [False] * len(spec)
    for k, c in enumerate(spec):
        if c == "B":
            j = k
            while j < len(spec) and spec[j] == "B":
                j += 1
            isarr[k] = j < len(spec) and spec[j] == "n"
        if c == "n":
            hidden[k] = k > 0 and isarr[k - 1]
    # a template that depends on something else than arrays is not bound (as no instantiation is asked for)
    if len([k for k in range(len(spec)) if bk != [] and "template" in bk and (spec[k] == "t" or spec[k] == "B" and not isarr[k] and bk[roles[k][1]] == "template")]) > 0:
        h.check(len(stub.find("def", at, fname)) == 0 and len(pydef.find("def", at, fname)) == 0, "a template that cannot be called is not bound", detail)
        return
    if not any(isarr):
        it = one(h, stub.find("def", at, fname), "the function is in the stub", detail)
        b = one(h, pydef.find("def", at, fname), "the function is bound", detail)
        sp = it.params[1:] if site in ("method", "const method") else it.params
        h.check(len(sp) == len(spec) and len(b.params) == len(spec), "the parameters are kept", detail)
        h.check(len([p for p in sp if "ndarray" in p[1]]) == 0, "no array is announced", detail)
        return
    it = one(h, stub.find("def", at, fname), "the function is in the stub", detail)
    b = one(h, pydef.find("def", at, fname), "the function is bound", detail)
    h.check((b.method == "def_static") == (site == "static"), "a static method is bound as such", (b.method, detail))
    is_method = site in ("method", "const method")
    sp = it.params[1:] if is_method else it.params
    visible = [k for k in range(len(spec)) if not hidden[k]]
    h.check(len(sp) == len(visible) and len(b.params) == len(visible), "the sizes of the arrays are not parameters in Python", detail)
    for got, bound, k in zip(sp, b.params, visible):
        role, i = roles[k]
        nm = names[i] if role == "buffer" else {"stride": "stride", "i": "k", "d": "k", "c": "text", "N": "counter", "w": "loc", "U": "u", "size": "size", "P": "other", "t": "factor"}[role]
        if role == "size":
            nm = size_name
        h.eq(got[0], nm, "name of the parameter in the stub")
        h.eq(bound[0], nm, "name of the parameter in the bindings")
        if isarr[k]:
            h.eq(tight(got[1]), "np.ndarray", "type of an array in the stub")
        elif role in ("i", "d", "stride", "U"):
            h.eq(tight(got[1]), "int", "type of a number in the stub")
        elif role == "c":
            h.eq(tight(got[1]), "str", "type of a string in the stub")
        wanted = {"d": "3", "stride": "-1", "P": "None" if "=" in other else None}.get(role)
        h.check(got[2] == wanted, "default value in the stub", (got, detail))
    h.eq(tight(it.ret), pyret, "type of the result in the stub")

    # ---- the call
    arrs = {}
    scenario = h.choose("arrays", arrays)
    odd = h.choose("odd one", [i for i in range(nbuf)]) if scenario not in ("good", "stride") else 0
    tdtype = h.choose("dtype", ["d", "B", "l", "q", "g", "I"] if "dtype" in arrays else ["i"]) if "template" in bk else "d"
    for i in range(nbuf):
        char = tdtype if bk[i] == "template" else CANONICAL[bt[i]]
        ndim, contiguous, writable, length = 1, True, True, "length"
        if i == odd:
            if scenario == "dtype":
                char = h.choose("other dtype", [c for c in ["f", "i", "L", "Q", "?", "e", "F", "q", "b"] if c != char])
            elif scenario == "2d":
                ndim = 2
            elif scenario == "0d":
                ndim = 0
            elif scenario == "steps":
                contiguous = False
            elif scenario == "read-only":
                writable = False
            elif scenario == "length":
                length = "other length"
        if spec == "BnBn" and i == 1:
            length = "length 2"
        arrs[i] = Arr(nano, "array" + str(i), char, ndim, contiguous, writable, length)
    stride = 7 if scenario == "stride" else -1
    pyargs = []
    tok = Tok("number", "int")
    txt = Tok("text")
    # (a vector of pointers, or a pointer to a pointer, is given as an opaque value)
    pointed = [] if "vector" in other else Tok("pointed", "float")
    loc = cppsim.Struct("Loc", {})
    for k in visible:
        role, i = roles[k]
        pyargs.append(arrs[i] if isarr[k] else stride if role == "stride" else txt if role == "c" else loc if role == "w" or role == "P" and other.startswith("Loc") else pointed if role == "P" else tok)
    calls = []
    result = Tok("result")

    def external(p, self_cell, args):
        calls.append((p, self_cell, args))
        if ret == "void":
            return None
        return Cell(CStr(result) if "char" in ret else Str(result) if "string" in ret else result, tight(ret.replace("const", "").replace("&", "").replace("*", "")) if "char" not in ret else "const char*", "const" in ret, "&" not in ret)

    params = b.lambda_.params
    args = []
    if is_method:
        h.check(len(params) > 0 and params[0][0].endswith("&"), "the first parameter of a method is the object", (params, detail))
        args.append(Cell(SelfObj(), ""))
        params = params[1:]
    h.check(len(params) == len(pyargs), "the lambda has the parameters of the Python function", (params, detail))
    thrown, out = False, None
    try:
        for p, v in zip(params, pyargs):
            args.append(received(nano, p[0], v))
        out = to_python(Sim(external, same, {}).run(b.lambda_, args))
    except Thrown:
        thrown = True

    # ---- may / must it be called?
    def rep(i):
        return DTYPE_REP[arrs[i].char]

    valid = True
    exact = True
    groups, cur = [], []
    for k, c in enumerate(spec):
        if c == "B" and isarr[k]:
            cur.append(roles[k][1])
        elif len(cur) > 0:
            groups.append(cur)
            cur = []
    used = [roles[k][1] for k in visible if isarr[k]]
    for i in used:
        a = arrs[i]
        if a.ndim != 1 or not a.contiguous:
            valid = False
        if bc[i] == "@" and not a.writable:
            valid = False
        if bk[i] == "template":
            if rep(i) not in CPP_REP.values():
                valid = False
            if len([j for j in used if bk[j] == "template" and rep(j) != rep(i)]) > 0:
                valid = False
            if len([j for j in used if bk[j] == "template" and arrs[j].char != a.char]) > 0 or a.char == "Q":
                exact = False
        else:
            if rep(i) != CPP_REP[bt[i]]:
                valid = False
            if a.char != CANONICAL[bt[i]]:
                exact = False
    for g in groups:
        if len(set([arrs[i].length for i in g])) > 1:
            valid = False
    if not valid:
        h.check(thrown and len(calls) == 0, "arrays that do not fit raise an exception, and the function is not called", (scenario, [(a.char, a.ndim, a.contiguous, a.writable, a.length) for a in arrs.values()], detail))
        h.reach("refused")
        return
    if thrown and not exact:
        h.reach("equivalent dtype refused")
        return
    h.check(not thrown and len(calls) == 1, "the function is called, once", (scenario, thrown, detail))
    h.reach("called")
    p, self_cell, cargs = calls[0]
    if is_method:
        h.check(self_cell is not None and isinstance(self_cell.v, SelfObj), "the method is called on the object", detail)
        h.eq(p, fname, "the method that is called")
    else:
        h.check(self_cell is None, "a static function is called", detail)
        h.eq(tight(p), scope + ("Cls::" if site == "static" else "") + fname, "the function that is called")
    h.check(len(cargs) == len(spec), "the C++ function receives all its parameters", detail)
    last = None
    for k, c in enumerate(spec):
        role, i = roles[k]
        v = cargs[k].v
        if isarr[k]:
            h.check(isinstance(v, Ptr) and v.cells[0] is arrs[i].cell, "the C++ function receives the data of the array", (k, v, detail))
            h.check(not (bc[i] == "@" and v.const), "the C++ function receives a mutable buffer", (k, detail))
            if bk[i] == "template":
                h.check(v.ctype in CPP_REP and CPP_REP[v.ctype] == rep(i), "the template is called for the type of the array", (v.ctype, arrs[i].char, detail))
            else:
                h.check(v.ctype == bt[i], "type of the elements", (v.ctype, bt[i], detail))
            last = i
        elif hidden[k]:
            h.check(isinstance(v, Count) and v.name == arrs[last].length, "the C++ function receives the number of elements", (k, v, detail))
            h.check(v.bits >= cppsim.bits_of(size_type.replace("const ", "")), "the number of elements is not truncated", (k, v.bits, size_type, detail))
        elif role == "P":
            h.check(v is pointed or isinstance(v, Ptr) and v.cell.v in (pointed, loc) or isinstance(v, Vec) and len(v.cells) == 0, "the pointer is passed", (v, detail))
        elif role == "buffer":
            h.check(isinstance(v, Ptr) and v.cell.v is tok, "a pointer to the number is passed", (v, detail))
        elif role == "stride":
            h.check(v == (7 if stride == 7 else arrs[last].itemsize()), "the stride is the given one, or the size of an element", (v, detail))
        elif role == "c":
            h.check(isinstance(v, CStr) and v.tok is txt, "the string is passed", (v, detail))
        elif role == "w":
            h.check(isinstance(v, Ptr) and v.cell.v is loc, "the object is passed", (v, detail))
        else:
            h.check(v is tok, "the number is passed", (v, detail))
    if ret == "void":
        h.check(out is None, "nothing is returned", (out, detail))
    else:
        h.check(out is result, "the result is returned", (out, detail))


ALL_TYPES = list(CANONICAL)
FIT = ["good", "dtype", "2d", "0d", "steps", "read-only", "length", "stride"]
SIZE_TYPES = ["int", "size_t", "unsigned int", "unsigned long long", "std::size_t", "const int", "long long", "uint64_t", "short", "unsigned long"]
SIZE_NAMES = ["count", "n", "size", "nb", "total", "xs_count", "n_items", "nb_x"]


def cfg(nano, sites=("function",), places=("root",), shapes=("Bn",), kinds=("standard",), types=("float",), consts=("const @",), sizes=("count",), size_types=("int",), rets=("int",), arrays=("good",), stride_types=("int",), alphabet="vwx"):
    return dict(nano=nano, sites=list(sites), places=list(places), shapes=list(shapes), kinds=list(kinds), types=list(types), consts=list(consts), sizes=list(sizes), size_types=list(size_types), rets=list(rets), arrays=list(arrays), stride_types=list(stride_types), alphabet=alphabet)


CASES = []
for _n in (False, True):
    _l = "nanobind" if _n else "pybind11"
    CASES.append(
        Case("element types-" + _l, buffers_,
             quick=[cfg(_n, types=ALL_TYPES, arrays=["good"], consts=["const @", "@"]), cfg(_n, types=["float", "long long", "uint8_t"], arrays=["dtype"]), cfg(_n, kinds=["template"], arrays=["good", "dtype"], sites=["method"])],
             thorough=[cfg(_n, types=ALL_TYPES, arrays=["good", "dtype"], consts=["const @", "@"], sites=["function", "method"]), cfg(_n, kinds=["template"], shapes=["Bn", "BBn"], arrays=["good", "dtype"], sites=["method", "function"], consts=["const @", "@"])],
             bounds="one buffer (thorough: two template buffers) of each of the 12 element types, std::uint8_t, T, NumericType, const or not; numpy dtypes B b H h i I l L q Q f d g ? e F; all the names of the buffers in 1 character of v w x")
    )
    CASES.append(
        Case("shapes-" + _l, buffers_,
             quick=[cfg(_n, shapes=SHAPES, kinds=["standard"], sites=["method"]), cfg(_n, shapes=["Bn", "Bni", "BBn", "BnBn", "BN", "BBns", "Bnd", "BnBNi", "Bnt", "BnP", "BBBn"], kinds=["standard", "template"], sites=["function"])],
             thorough=[cfg(_n, shapes=SHAPES, kinds=["standard", "template"], sites=["function", "method"]), cfg(_n, shapes=["Bn", "Bni", "BBn", "Bns", "BnP", "Bnt"], kinds=["standard", "template"], sites=["static", "const method"], consts=["const @", "@"])],
             bounds="20 sequences of up to 6 parameters: buffers with a size of their own, buffers which share a size (up to 3), strides (`= sizeof(...)`), numbers, strings, objects, pointers which are not buffers (9 types), sizes which follow no buffer; standard and template buffers mixed")
    )
    CASES.append(
        Case("arrays-" + _l, buffers_,
             quick=[cfg(_n, shapes=["Bn", "BBn", "BnBn"], consts=["const @", "@"], arrays=[a for a in FIT if a != "dtype"]), cfg(_n, shapes=["BBn", "BBns", "Bns"], kinds=["template"], arrays=[a for a in FIT if a != "dtype"], sites=["method"], stride_types=["int", "size_t"])],
             thorough=[cfg(_n, shapes=["Bn", "BBn", "wnBn"], kinds=["standard", "template"], consts=["const @", "@"], arrays=[a for a in FIT if a != "dtype"]), cfg(_n, shapes=["BnBn", "BBBn"], kinds=["standard"], arrays=FIT), cfg(_n, shapes=["Bns", "BBns"], kinds=["standard", "template"], arrays=[a for a in FIT if a != "dtype"], stride_types=["int", "size_t", "unsigned int"])],
             bounds="calls with arrays of another dtype, of 0 or 2 dimensions, with steps, read-only, of another length than the other array of the same size, with an explicit stride; one of the arrays is odd")
    )
    CASES.append(
        Case("places-" + _l, buffers_,
             quick=[cfg(_n, sites=["function", "method", "static", "const method"], places=PLACES14, shapes=["Bni"], kinds=["standard"], rets=["void", "double"]), cfg(_n, sites=["function", "method", "static"], places=["ns", "nsinner"], kinds=["template"]), cfg(_n, sites=["function"], rets=RETS, shapes=["Bn", "cBn"])],
             thorough=[cfg(_n, sites=["function", "method", "static", "const method"], places=PLACES14, shapes=["Bni", "BBn"], kinds=["standard"], rets=["void", "double"]), cfg(_n, sites=["function", "method", "static", "const method"], places=PLACES14, shapes=["Bns"], kinds=["template"]), cfg(_n, sites=["function", "method"], rets=RETS, shapes=["Bn", "cBn"], kinds=["standard", "template"])],
             bounds="functions, methods, const methods, static methods, at the root, in 1 or 2 namespaces, in nested classes; 5 return types")
    )
    CASES.append(
        Case("sizes-" + _l, buffers_,
             quick=[cfg(_n, shapes=["Bn"], size_types=SIZE_TYPES), cfg(_n, shapes=["Bn", "iBn"], sizes=SIZE_NAMES, kinds=["template", "standard"]), cfg(_n, shapes=["BBn", "BnBn"], size_types=["size_t", "unsigned long long"], sizes=["n"])],
             thorough=[cfg(_n, shapes=["Bn", "iBn"], size_types=SIZE_TYPES, sizes=SIZE_NAMES, kinds=["standard", "template"]), cfg(_n, shapes=["BBn", "BnBn"], size_types=SIZE_TYPES, kinds=["standard"])],
             bounds="10 types of sizes, 8 names")
    )
