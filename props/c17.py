"""C17 modifiable values: what a C++ function writes through references, pointers and arrays to immutable types is seen in Python"""
from symx import cppsim
from symx.cppsim import NULL, Cell, CStr, Ptr, SelfObj, Sim, Str, Struct, Tok, Vec, from_python, glue_structs, to_python

from .c14 import PLACES14, decide_
from .model import *

# modifiable immutable types -> Python type
IMMUTABLE = {"int": "int", "bool": "bool", "std::string": "str", "unsigned int": "int", "double": "float", "float": "float", "size_t": "int", "long long": "int", "uint8_t": "int", "unsigned long long": "int",
             "std::size_t": "int", "unsigned short": "int", "int32_t": "int", "long double": "float", "ssize_t": "int", "unsigned": "int", "short": "int"}

# form of a parameter: C++ text (T: the type, @: the name), what the C++ function can do with it, default value
FORMS = {
    "ref": ("T & @", "ref", None), "ptr": ("T * @", "ptr", None), "opt": ("T * @ = nullptr", "opt", "None"), "OPT": ("T *@ = NULL", "opt", "None"), "arr": ("T @[2]", "arr", None), "arr1": ("T @[1]", "arr", None),
    "big": ("T @[11]", "big", None), "carr": ("const T @[2]", "carr", None), "val": ("T @", "val", None), "cref": ("const T & @", "val", None), "tref": ("T const & @", "val", None), "class": ("Loc & @", "obj", None),
    "cstr": ("const char * @", "cstr", None), "vec": ("std::vector<T> & @", "vec", None), "cptr": ("const T * @", "cptr", None),
}
RETURNS = {"void": ("void", "None"), "bool": ("bool", "bool"), "int": ("int", "int"), "string": ("const std::string &", "str"), "T": ("T", "T"), "cstr": ("const char *", "str")}


def same(a, b):
    if len(a) != len(b):
        return False
    return decide_(f_str_eq(a, b))


def f_local(got, want, path):
    """the annotation is the expected one, whatever the valid qualification of the local class"""
    return f_or([f_eq(tight(got), tight(want.replace("LOC", ".".join(path[i:] + ("Loc",))))) for i in range(len(path) + 1)])


def array_size(form):
    return 11 if form == "big" else 1 if form == "arr1" else 2


def boxed_class(h, stub, pydef, structs, ann, path, t, detail):
    """the annotation names a published class which holds a `t`: -> its name"""
    cs = [c for c in stub.at((), "class") if decide_(f_eq(c.name, ann))]
    c = one(h, cs, "the boxed type is in the stub, once", (ann, detail))
    v = one(h, [i for i in stub.at((c.name,)) if i.name == "value"], "the boxed type has a value", (ann, detail))
    h.eq(tight(v.ann), IMMUTABLE[t], "type of the boxed value in the stub")
    b = one(h, pydef.find("class", (), c.name), "the boxed type is bound, once", (ann, detail))
    h.check(tight(b.cpp) in structs, "the boxed type is in the glue code", (ann, detail))
    fields = structs[tight(b.cpp)][0]
    h.check("value" in fields and fields["value"] == t, "the boxed type holds the C++ type", (ann, fields, detail))
    a = one(h, [x for x in pydef.at((c.name,)) if x.name == "value"], "the boxed value is bound", (ann, detail))
    h.check(a.method in ("def_readwrite", "def_rw") and tight(a.cpp) == "&" + tight(b.cpp) + "::value", "the boxed value can be read and written", (a.method, a.cpp, detail))
    return c.name


class Call:
    """what the bound C++ function saw"""

    def __init__(self, path, self_cell, args):
        self.path, self.self_cell, self.args = path, self_cell, args


def simulate(h, binding, nano, pyargs, structs, external, is_method, detail):
    """calls the binding with Python arguments -> what Python receives"""
    lam = binding.lambda_
    sim = Sim(external, same, {k: v[0] for k, v in structs.items()})
    params = lam.params
    args = []
    if is_method:
        h.check(len(params) > 0 and params[0][0].endswith("&"), "the first parameter of a method is the object", (params, detail))
        args.append(Cell(SelfObj(), ""))
        params = params[1:]
    h.check(len(params) == len(pyargs), "the lambda has the parameters of the Python function", (params, detail))
    for p, v in zip(params, pyargs):
        args.append(from_python(p[0], v, same, structs))
    return to_python(sim.run(lam, args))


def arg_names(name, form, boxed):
    if FORMS[form][1] == "arr" and boxed == "boxed arrays":
        return [name + "_" + str(i) for i in range(array_size(form))]
    return [name]


def expect_call(h, nano, site, path, scope, fname, call, detail):
    if site in ("method", "const method"):
        h.check(call.self_cell is not None and isinstance(call.self_cell.v, SelfObj), "the method is called on the object", detail)
        h.eq(call.path, fname, "the method that is called")
    else:
        h.check(call.self_cell is None, "a static function is called", detail)
        h.eq(tight(call.path), scope + ("Cls::" if site == "static" else "") + fname, "the function that is called")


def program(text, site, ret, fname, params, pre=""):
    head = {"function": "", "method": "", "const method": "", "static": "static "}[site]
    decl = head + ret + " " + fname + "(" + params + ")" + (" const" if site == "const method" else "") + ";\n"
    body = "struct Loc { int k; };\n" + pre + (decl if site == "function" else "struct Cls {\nint before();\n" + decl + "int after();\n};\n")
    return text % body


def params_(h, nano, sites, places, types, forms, rets, mode, n, alphabet="xyr", arrays=None):
    """a function with parameters of several kinds, adapted with boxed types or with returned values"""
    o = make_options(nano)
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    site = h.choose("site", sites)
    if site == "function" and key in ("inner", "nsinner"):
        return
    ks = [h.choose("form" + str(i), forms) for i in range(n)]
    if [i for i in range(n - 1) if FORMS[ks[i]][2] is not None and FORMS[ks[i + 1]][2] is None]:
        return  # (a default value before a mandatory parameter)
    ts = [h.choose("type" + str(i), types) for i in range(n)]
    names = [h.ident("p" + str(i), 1, alphabet=alphabet) for i in range(n)]
    if n > 1:
        h.distinct(*names)
    rk = h.choose("ret", rets)
    ret, pyret = RETURNS[rk]
    ret, pyret = ret.replace("T", ts[0]), pyret.replace("T", IMMUTABLE[ts[0]])
    array_mode = h.choose("arrays", arrays or ["boxed arrays", "arrays"])
    if array_mode == "arrays":
        o.fn_params_replace_c_array_modifiable_by_boxed__regex = ""
    if mode == "boxed":
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
        if array_mode == "arrays" and [k for k in ks if FORMS[k][1] in ("arr", "big")] or "big" in ks:
            return
    else:
        o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
        if array_mode != "arrays" and "big" in ks:
            return
    null = h.choose("null", [False, True]) if len([k for k in ks if FORMS[k][1] == "opt"]) > 0 else False
    fname = low(h, "function", 1)
    ps = ", ".join([FORMS[k][0].replace("T", t).replace("@", nm) for k, t, nm in zip(ks, ts, names)])
    code = program(text, site, ret, fname, ps)
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    structs = glue_structs(r.glue_code)
    at = path + (("Cls",) if site != "function" else ())
    it = one(h, stub.find("def", at, fname), "the function is in the stub", detail)
    b = one(h, pydef.find("def", at, fname), "the function is bound", detail)
    h.check((b.method == "def_static") == (site == "static") , "a static method is bound as such", (b.method, detail))
    is_method = site in ("method", "const method")
    sp = it.params[1:] if is_method else it.params

    # what the stub announces
    want = []
    outputs = []
    for k, t, nm in zip(ks, ts, names):
        py = IMMUTABLE[t]
        kind = FORMS[k][1]
        if kind == "arr" and array_mode == "boxed arrays":
            for x in arg_names(nm, k, array_mode):
                want.append((x, "BOXED", t, None))
        elif kind in ("ref", "ptr", "opt") and mode == "boxed":
            want.append((nm, "BOXED" if kind != "opt" else "Optional[BOXED]", t, FORMS[k][2]))
        elif kind in ("ref", "ptr", "opt", "arr", "big"):
            ann = py if kind in ("ref", "ptr") else "Optional[" + py + "]" if kind == "opt" else "List[" + py + "]"
            want.append((nm, ann, t, FORMS[k][2]))
            outputs.append((nm, ann))
        else:
            ann = {"carr": "List[" + py + "]", "obj": "LOC", "vec": "List[" + py + "]", "cstr": "str"}.get(kind, py)
            want.append((nm, ann, t, FORMS[k][2]))
    h.check(len(sp) == len(want) and len(b.params) == len(want), "the parameters of the Python function", (want, detail))
    boxes = {}
    for got, bound, (nm, ann, t, default) in zip(sp, b.params, want):
        h.eq(got[0], nm, "name of the parameter in the stub")
        h.eq(bound[0], nm, "name of the parameter in the bindings")
        h.check((got[2] is None) == (default is None) and (default is None or got[2] == default), "default value", (got, detail))
        if "BOXED" in ann:
            g = tight(got[1])
            if ann.startswith("Optional"):
                h.check(g.startswith("Optional[") and g.endswith("]"), "an optional boxed value", (got, detail))
                g = g[9:-1]
            boxes[t] = boxed_class(h, stub, pydef, structs, g, path, t, detail)
        else:
            h.check(f_local(got[1], ann, path), "type of the parameter", (got, ann, detail))
    res = ([pyret] if rk != "void" else []) + [a for nm, a in outputs]
    wret = "None" if len(res) == 0 else res[0] if len(res) == 1 else "Tuple[" + ", ".join(res) + "]"
    h.eq(tight(it.ret), tight(wret), "type of the result in the stub")

    # what happens when Python calls it
    pyargs = []
    given = []
    for i in range(n):
        kind, t = FORMS[ks[i]][1], ts[i]
        if kind == "opt" and null:
            pyargs.append(None)
            given.append(None)
        elif kind in ("arr", "big", "carr"):
            toks = [Tok("in" + str(i) + "_" + str(j), t) for j in range(array_size(ks[i]))]
            if kind == "arr" and array_mode == "boxed arrays":
                given.append([box(structs, boxes[t], t, x) for x in toks])
                pyargs = pyargs + given[i]
            else:
                given.append(toks)
                pyargs.append(list(toks))
        elif kind in ("ref", "ptr", "opt"):
            x = Tok("in" + str(i), t)
            if mode == "boxed":
                given.append(box(structs, boxes[t], t, x))
            else:
                given.append(x)
            pyargs.append(given[i])
        elif kind == "vec":
            given.append([Tok("in" + str(i), t)])
            pyargs.append(given[i])
        else:
            given.append(Tok("in" + str(i), "" if kind in ("cstr",) else "Loc" if kind == "obj" else t))
            pyargs.append(given[i])
    if b.lambda_ is None:
        h.check(len([k for k in ks if FORMS[k][1] in ("ref", "ptr", "opt", "arr", "big", "carr")]) == 0, "a function whose parameters are adapted is bound by a lambda", detail)
        address = scope + ("" if site == "function" else "Cls::") + fname
        h.check(f_or([f_eq(tight(b.cpp), "&" + address), f_eq(tight(b.cpp), address)] if site == "function" else [f_eq(tight(b.cpp), "&" + address)]), "the function that is bound", detail)
        return
    calls = []
    result = Tok("result", "")

    def external(p, self_cell, args):
        calls.append(Call(p, self_cell, args))
        h.check(len(args) == n, "the C++ function receives its parameters", (args, detail))
        for i in range(n):
            receive(h, FORMS[ks[i]][1], ts[i], args[i], given[i], array_size(ks[i]), i, detail)
        if rk == "void":
            return None
        if rk == "cstr":
            return Cell(CStr(result), "const char*", False, True)
        if rk == "string":
            return Cell(Str(result), "std::string", True)
        return Cell(Str(result) if ret in ("std::string", "string") else result, ret, False, True)

    got = simulate(h, b, nano, pyargs, structs, external, is_method, detail)
    h.check(len(calls) == 1, "the C++ function is called once", detail)
    expect_call(h, nano, site, path, scope, fname, calls[0], detail)
    back = []
    for i in range(n):
        kind = FORMS[ks[i]][1]
        out = "out" + str(i)
        if isinstance(given[i], Struct):
            h.check(written(given[i].fields["value"].v) == out, "the boxed value has been modified", (i, detail))
        elif kind == "arr" and array_mode == "boxed arrays":
            h.check([written(s.fields["value"].v) for s in given[i]] == [out + "_" + str(j) for j in range(len(given[i]))], "the boxed values have been modified", (i, detail))
        elif mode != "boxed" and kind in ("ref", "ptr"):
            back.append(out)
        elif mode != "boxed" and kind == "opt":
            back.append(None if null else out)
        elif mode != "boxed" and kind in ("arr", "big"):
            back.append([out + "_" + str(j) for j in range(array_size(ks[i]))])
    if rk != "void":
        back = ["result"] + back
    gotv = written(got)
    h.check(gotv == (None if len(back) == 0 else back[0] if len(back) == 1 else tuple(back)), "Python receives the result and the modified values", (gotv, back, detail))


def box(structs, name, t, tok):
    return Struct(name, {"value": Cell(Str(tok) if t in ("std::string", "string") else tok, t)})


def written(v):
    """names of the tokens of a Python value"""
    if isinstance(v, Tok):
        return v.name
    if isinstance(v, Str):
        return written(v.tok)
    if isinstance(v, list):
        return [written(x) for x in v]
    if isinstance(v, tuple):
        return tuple([written(x) for x in v])
    return v


def receive(h, kind, t, cell, given, size, i, detail):
    """the C++ function looks at one of its parameters, and writes to it if it can"""
    st = t in ("std::string", "string")

    def new(name):
        return Str(Tok(name, t)) if st else Tok(name, t)

    v = cell.v
    if kind == "opt" and given is None:
        h.check(v is NULL, "None is a null pointer in C++", (i, repr(v), detail))
        return
    if kind == "ref":
        h.check(not cell.temp and not cell.const and same(cell.ctype, t), "a reference to a variable of the C++ type", (i, repr(cell), detail))
        h.check(written(v) == "in" + str(i), "the C++ function sees the value given in Python", (i, repr(cell), detail))
        cell.v = new("out" + str(i))
        return
    if kind in ("ptr", "opt", "cptr"):
        h.check(isinstance(v, Ptr), "a pointer", (i, repr(cell), detail))
        h.check(same(v.ctype, t) and not (v.cell.const and kind != "cptr"), "a pointer to a variable of the C++ type", (i, repr(cell), detail))
        h.check(written(v.cell.v) == "in" + str(i), "the C++ function sees the value given in Python", (i, repr(cell), detail))
        if kind != "cptr":
            v.cell.v = new("out" + str(i))
        return
    if kind in ("arr", "big", "carr"):
        if isinstance(v, Vec):
            h.check(v.kind == "carray", "a C array", (i, repr(cell), detail))
            cells = v.cells
        else:
            h.check(isinstance(v, Ptr) and v.i == 0, "a C array", (i, repr(cell), detail))
            cells = v.cells
        h.check(same(v.ctype.replace("const ", ""), t), "an array of the C++ type", (i, v.ctype, detail))
        h.check([written(c.v) for c in cells] == ["in" + str(i) + "_" + str(j) for j in range(size)], "the C++ function sees the values given in Python", (i, repr(cell), detail))
        if kind != "carr":
            for j in range(size):
                cells[j].v = new("out" + str(i) + "_" + str(j))
        return
    if kind == "vec":
        h.check(isinstance(v, Vec) and [written(c.v) for c in v.cells] == ["in" + str(i)], "the other parameters are passed unchanged", (i, repr(cell), detail))
        return
    h.check((written(v.tok) if isinstance(v, CStr) else written(v)) == "in" + str(i), "the other parameters are passed unchanged", (i, repr(cell), detail))


def constructor(h, nano, places, types, forms, n, alphabet="xyr", arrays=None):
    """a constructor whose parameters are adapted with boxed types builds the object with the values, and modifies them"""
    o = make_options(nano)
    text, path, scope = PLACES14[h.choose("where", places)]
    ks = [h.choose("form" + str(i), forms) for i in range(n)]
    if [i for i in range(n - 1) if FORMS[ks[i]][2] is not None and FORMS[ks[i + 1]][2] is None]:
        return
    if len([k for k in ks if FORMS[k][1] in ("ref", "ptr", "opt", "arr")]) == 0:
        return
    ts = [h.choose("type" + str(i), types) for i in range(n)]
    names = [h.ident("p" + str(i), 1, alphabet=alphabet) for i in range(n)]
    if n > 1:
        h.distinct(*names)
    o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
    ps = ", ".join([FORMS[k][0].replace("T", t).replace("@", nm) for k, t, nm in zip(ks, ts, names)])
    other = h.choose("other", ["", "Cls(double a, double b, double c, double d);\n"])
    code = text % ("struct Loc { int k; };\nstruct Cls {\nint before();\n" + h.choose("explicit", ["", "explicit "]) + "Cls(" + ps + ");\n" + other + "int after();\n};\n")
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    structs = glue_structs(r.glue_code)
    at = path + ("Cls",)
    its = stub.find("def", at, "__init__")
    bs = [b for b in pydef.at(at) if b.kind == "init" or b.name == "__init__"]
    nb = 2 if other else 1
    h.check(len(its) == nb and len(bs) == nb, "the constructors are published once", detail)
    it, b = its[0], bs[0]
    sp = it.params[1:]
    pyargs, given, wnames = [], [], []
    pos = 0
    for i in range(n):
        kind, t = FORMS[ks[i]][1], ts[i]
        wnames = wnames + arg_names(names[i], ks[i], "boxed arrays")
        h.check(len(sp) >= len(wnames), "the parameters of the constructor", detail)
        ann = tight(sp[pos][1])
        if kind == "opt":
            h.check(ann.startswith("Optional[") and ann.endswith("]"), "an optional boxed value", (ann, detail))
            ann = ann[9:-1]
        if kind in ("ref", "ptr", "opt", "arr"):
            name = boxed_class(h, stub, pydef, structs, ann, path, t, detail)
        if kind == "arr":
            given.append([box(structs, name, t, Tok("in" + str(i) + "_" + str(j), t)) for j in range(array_size(ks[i]))])
            pyargs = pyargs + given[i]
        elif kind in ("ref", "ptr", "opt"):
            given.append(box(structs, name, t, Tok("in" + str(i), t)))
            pyargs.append(given[i])
        elif kind == "carr":
            given.append([Tok("in" + str(i) + "_" + str(j), t) for j in range(array_size(ks[i]))])
            pyargs.append(list(given[i]))
        else:
            given.append(Tok("in" + str(i), "" if kind == "cstr" else t))
            pyargs.append(given[i])
        pos = len(wnames)
    h.check([p[0] for p in sp] == wnames and [p[0] for p in b.params] == wnames, "the parameters of the constructor", (wnames, detail))
    calls = []

    def external(p, self_cell, args):
        calls.append(p)
        h.check(len(args) == n, "the C++ constructor receives its parameters", (args, detail))
        for i in range(n):
            receive(h, FORMS[ks[i]][1], ts[i], args[i], given[i], array_size(ks[i]), i, detail)
        return Cell(Tok("object", ""), "", False, True)

    lam = b.lambda_
    h.check(lam is not None, "a constructor whose parameters are adapted is bound by a lambda", detail)
    sim = Sim(external, same, {k: v[0] for k, v in structs.items()})
    params = lam.params
    args = []
    if nano:
        h.eq(tight(params[0][0]), scope + "Cls*", "the lambda receives the memory of the object")
        args.append(Cell(Ptr([Cell(Tok("memory"), scope + "Cls")], 0, scope + "Cls"), scope + "Cls*"))
        params = params[1:]
    h.check(len(params) == len(pyargs), "the lambda has the parameters of the Python constructor", (params, detail))
    for p, v in zip(params, pyargs):
        args.append(from_python(p[0], v, same, structs))
    res = sim.run(lam, args)
    h.check(len(calls) == 1, "an object is constructed once", (calls, detail))
    h.check(f_or([f_eq(tight(calls[0]), w + scope + "Cls" + e) for w, e in (("new ", ""), ("std::make_unique<", ">"))]), "the class is constructed", (calls, detail))
    h.check((res is None) == nano and (nano or written(res.v) == "object"), "the object is returned", (res, detail))
    for i in range(n):
        if isinstance(given[i], Struct):
            h.check(written(given[i].fields["value"].v) == "out" + str(i), "the boxed value has been modified", (i, detail))


def boxes(h, nano, types, n, sites):
    """every boxed type that is used is defined once, whatever the number of its uses"""
    o = make_options(nano)
    o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
    ts = [h.choose("type" + str(i), types) for i in range(n)]
    kinds = [h.choose("form" + str(i), ["ref", "arr", "opt"]) for i in range(n)]
    site = h.choose("site", sites)
    name = low(h, "function", 1)
    decls = ["void " + name + str(i) + "(" + FORMS[k][0].replace("T", t).replace("@", "v") + ");\n" for i, (k, t) in enumerate(zip(kinds, ts))]
    code = {"one": "".join(decls), "class": "struct Cls {\n" + "".join(decls[1:]) + "};\n" + decls[0], "namespaces": "".join(["namespace N" + str(i) + " {\n" + d + "}\n" for i, d in enumerate(decls)])}[site]
    r = gen(o, code)
    h.observe(r.glue_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code, r.glue_code)
    structs = glue_structs(r.glue_code)
    used = {}
    for i in range(n):
        at = {"one": (), "class": () if i == 0 else ("Cls",), "namespaces": ("n" + str(i),)}[site]
        it = one(h, stub.find("def", at, name + str(i)), "the function is in the stub", detail)
        sp = it.params[1:] if len(at) > 0 and at[0] == "Cls" else it.params
        ann = tight(sp[0][1])
        ann = ann[9:-1] if kinds[i] == "opt" else ann
        c = [x for x in stub.at((), "class") if decide_(f_eq(x.name, ann))]
        h.check(len(c) == 1, "the boxed type is in the stub, once", (ann, detail))
        used[ann] = used.get(ann, []) + [ts[i]]
    h.check(len(structs) == len(used) and len([x for x in stub.at((), "class") if x.name.startswith("Boxed")]) == len(used), "no other boxed type is published", (list(structs), used, detail))
    for ann in used:
        b = one(h, pydef.find("class", (), ann), "the boxed type is bound, once", (ann, detail))
        h.check(tight(b.cpp) in structs, "the boxed type is in the glue code", (ann, detail))
        field = structs[tight(b.cpp)][0].get("value", "")
        h.check([t for t in used[ann] if t.replace("std::", "") != field.replace("std::", "")] == [], "the boxed type holds the C++ type of its users", (ann, field, used, detail))
        body = structs[tight(b.cpp)][1]
        ctor = tight(body.replace("\n", " "))
        h.check(tight(b.cpp) + "(" + tight(field) + " v=" in ctor and ":value(v)" in ctor, "a boxed type is built with its value", (body, detail))
        i0 = [x for x in pydef.at((ann,)) if x.kind == "init"]
        h.check(len(i0) == 1 and len(i0[0].params) == 1 and i0[0].params[0][1] is not None, "a boxed type can be built with a value or without", (i0, detail))
    r2 = gen(o, code)
    h.eq(r2.stub_code + r2.pydef_code + r2.glue_code, r.stub_code + r.pydef_code + r.glue_code, "another generation with the same options")


def selection(h, nano, modes, n, forms):
    """only the functions that the option names are adapted"""
    o = make_options(nano)
    names = [low(h, "function" + str(i), 1) for i in range(n)]
    h.distinct(*names)
    mode = h.choose("mode", modes)
    word = "^" + low(h, "word", 1) + "$"
    if mode == "boxed":
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = word
    elif mode == "returned":
        o.fn_params_output_modifiable_immutable_to_return__regex = word
    elif mode == "boxed arrays":
        o.fn_params_replace_c_array_modifiable_by_boxed__regex = word
    elif mode == "const arrays":
        o.fn_params_replace_c_array_const_by_std_array__regex = word
    form = h.choose("form", ["arr"] if mode == "boxed arrays" else ["carr"] if mode == "const arrays" else forms)
    site = h.choose("site", ["function", "method", "static"])
    decls = "".join([("static " if site == "static" else "") + "bool " + nm + "(" + FORMS[form][0].replace("T", "int").replace("@", "v") + ");\n" for nm in names])
    code = "struct Cls {\n" + decls + "};\n" if site != "function" else decls
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, mode, r.stub_code, r.pydef_code)
    at = ("Cls",) if site != "function" else ()
    for nm in names:
        it = one(h, stub.find("def", at, nm), "the function is in the stub", detail)
        b = one(h, pydef.find("def", at, nm), "the function is bound", detail)
        sp = it.params[1:] if site == "method" else it.params
        selected = decide_(f_eq("^" + nm + "$", word))
        h.check((b.lambda_ is not None) == selected, "the selected functions, and no other, are adapted", (nm, detail))
        anns = [tight(p[1]) for p in sp]
        if mode == "boxed":
            h.check((anns == ["BoxedInt"]) == (selected and FORMS[form][1] != "opt") and len(anns) == 1, "types of the parameters", (nm, anns, detail))
            h.eq(tight(it.ret), "bool", "type of the result")
        elif mode == "returned":
            h.check((tight(it.ret) != "bool") == selected and len(anns) == 1, "types of the result", (nm, it.ret, detail))
        elif mode == "boxed arrays":
            h.check((anns == ["BoxedInt", "BoxedInt"]) == selected, "types of the parameters", (nm, anns, detail))
        else:
            h.check(anns == (["List[int]"] if selected else ["int"]), "types of the parameters", (nm, anns, detail))


A_BOX = ["ref", "ptr", "opt", "OPT", "arr", "val", "cref", "tref", "carr", "class", "vec", "cptr"]
A_RET = A_BOX + ["big", "arr1"]
A_CTOR = ["ref", "ptr", "opt", "val", "cref", "cstr"]
S_ALL = ["function", "method", "const method", "static"]
T_ALL = list(IMMUTABLE)
R_ALL = list(RETURNS)


def both(**k):
    return [dict(nano=n, **k) for n in (False, True)]


BA = ["boxed arrays"]
CASES = [
    Case("boxed", params_, quick=both(sites=S_ALL, places=["inner", "ns"], types=["int"], forms=["ref", "opt", "arr", "val", "class"], rets=["bool"], mode="boxed", n=1, arrays=BA)
         + both(sites=["function"], places=["root"], types=T_ALL, forms=["ref"], rets=["T"], mode="boxed", n=1, arrays=BA)
         + both(sites=["static"], places=["root"], types=["std::string"], forms=A_BOX, rets=["void"], mode="boxed", n=1)
         + both(sites=["method"], places=["root"], types=["bool"], forms=["ref", "opt", "arr"], rets=["T"], mode="boxed", n=2, arrays=BA),
         thorough=both(sites=S_ALL, places=["ns", "inner"], types=["int"], forms=A_BOX, rets=["bool"], mode="boxed", n=1)
         + both(sites=["function"], places=["root"], types=T_ALL, forms=["ref", "arr", "opt"], rets=["T"], mode="boxed", n=1)
         + both(sites=["method", "static"], places=["root"], types=["bool", "std::string"], forms=["ref", "opt", "arr", "val"], rets=["void", "T"], mode="boxed", n=2)
         + both(sites=["function"], places=["root"], types=["int"], forms=["ref", "opt", "arr"], rets=["void"], mode="boxed", n=3)),
    Case("returned", params_, quick=both(sites=S_ALL, places=["inner", "ns"], types=["int"], forms=["ref", "opt", "arr", "val", "class"], rets=["bool"], mode="returned", n=1, arrays=["arrays"])
         + both(sites=["function"], places=["root"], types=T_ALL, forms=["ref"], rets=["T"], mode="returned", n=1, arrays=["arrays"])
         + both(sites=["static"], places=["root"], types=["std::string"], forms=A_RET, rets=["void"], mode="returned", n=1)
         + both(sites=["method"], places=["root"], types=["bool"], forms=["ref", "opt"], rets=R_ALL, mode="returned", n=2, arrays=["arrays"]),
         thorough=both(sites=S_ALL, places=["ns", "inner"], types=["int"], forms=A_RET, rets=["bool"], mode="returned", n=1)
         + both(sites=["function"], places=["root"], types=T_ALL, forms=["ref", "opt", "arr"], rets=["T"], mode="returned", n=1)
         + both(sites=["method"], places=["root"], types=["bool"], forms=["ref", "opt", "arr", "val"], rets=R_ALL, mode="returned", n=2)
         + both(sites=["function"], places=["root"], types=["int"], forms=["ref", "opt", "arr"], rets=["bool"], mode="returned", n=3)),
    Case("constructor", constructor, quick=both(places=["inner"], types=["std::string"], forms=A_CTOR, n=1) + both(places=["root"], types=["bool"], forms=["ref", "opt"], n=2),
         thorough=both(places=["ns", "inner", "root"], types=["int", "std::string", "std::size_t"], forms=A_CTOR, n=1) + both(places=["root", "ns"], types=["bool", "float"], forms=["ref", "opt", "val", "cref"], n=2)),
    Case("boxes", boxes, quick=both(types=["size_t", "std::size_t", "unsigned int"], n=2, sites=["one"]) + both(types=["int"], n=2, sites=["class", "namespaces"]),
         thorough=both(types=["int", "size_t", "std::size_t", "std::string", "unsigned int"], n=2, sites=["one", "class", "namespaces"])),
    Case("selection", selection, quick=both(modes=["boxed", "returned", "boxed arrays", "const arrays"], n=2, forms=["ref"]),
         thorough=both(modes=["boxed", "returned", "boxed arrays", "const arrays"], n=3, forms=["ref", "ptr", "opt"])),
]
