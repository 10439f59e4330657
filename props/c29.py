"""C29 strings and defaults: C strings, lists of C strings, formats, null strings, mutable defaults and excluded parameters mean in Python what they mean in C++"""
from symx import cppsim
from symx.cppsim import NULL, Cell, Count, CStr, External, Ptr, SelfObj, Sim, Str, Struct, Thrown, Tok, Vec, from_python, to_python

from .c14 import PLACES14
from .c17 import decide_, same
from .model import *

# L: a list of C strings, n: its size, F: a format and its variadic arguments, S: a string null by default, s: a string
# i: an int, d: an int with a default, D: a parameter whose default may be mutable, I: a parameter whose default is immutable, X: an excluded parameter, Y: a parameter that matches, without default
SHAPES29 = {"L": "L", "Ln": "Ln", "Lni": "Lni", "iLn": "iLn", "LnLn": "LnLn", "LnS": "LnS", "Li": "Li", "S": "S", "SS": "SS", "Sd": "Sd", "sS": "sS", "iF": "iF", "F": "F", "sF": "sF", "LnF": "LnF", "D": "D", "DD": "DD", "Dd": "Dd", "iD": "iD", "DS": "DS",
            "SD": "SD", "LnD": "LnD", "I": "I", "ID": "ID", "X": "X", "iX": "iX", "Xd": "Xd", "XS": "XS", "LnX": "LnX", "XD": "XD", "Y": "Y", "YX": "YX", "dX": "dX", "XX": "XX", "LL": "LL", "nL": "nL", "sn": "sn"}
LISTS = ["const char * const @[]", "const char ** @", "const char * @[]", "char const * const * @", "const char * const * @"]
FORMATS = ["const char * @", "const char * const @"]
NULLS = ["const char * @ = nullptr", "const char * @ = NULL", "const char * const @ = nullptr", "char const * @ = nullptr"]
SIZE_TYPES29 = ["int", "size_t", "unsigned int", "unsigned long long", "std::size_t", "const int", "long long", "uint8_t", "unsigned long", "short"]
# declaration, default in C++ (SCOPE is the scope of Loc), annotation
MUTABLE = {
    "ref": ("const Loc & @ = Loc()", "SCOPELoc()", "LOC"), "value": ("Loc @ = Loc()", "SCOPELoc()", "LOC"), "braces": ("Loc @ = Loc{}", "SCOPELoc{}", "LOC"), "arg": ("const Loc & @ = Loc(2)", "SCOPELoc(2)", "LOC"),
    "make": ("Loc @ = Loc::make()", "SCOPELoc::make()", "LOC"), "empty": ("std::vector<int> @ = {}", "{}", "List[int]"), "full": ("const std::vector<int> & @ = {1, 2}", "{1,2}", "List[int]"), "vector": ("std::vector<int> @ = std::vector<int>()", "std::vector<int>()", "List[int]"),
    "map": ("const std::map<std::string, int> & @ = {}", "{}", "Dict[str, int]"), "locs": ("const std::vector<Loc> & @ = std::vector<Loc>()", "std::vector<SCOPELoc>()", "List[LOC]"),
}
IMMUT = {"enum": ("Color @ = Color::Red", "SCOPEColor::Red", "COLOR"), "double": ("double @ = 1.5", "1.5", "float"), "string": ('const std::string & @ = "ab"', '"ab"', "str"), "bool": ("bool @ = true", "true", "bool"), "cstr": ('const char * @ = "ab"', '"ab"', "str")}
EXCLUDED = {"int": ("int @ = 5", "5"), "enum": ("Color @ = Color::Red", "SCOPEColor::Red"), "object": ("const Loc & @ = Loc(2)", "SCOPELoc(2)"), "string": ('const char * @ = "ab"', '"ab"'), "pointer": ("Loc * @ = nullptr", "nullptr"), "null": ("const char * @ = nullptr", "nullptr")}
RETS29 = {"void": ("void", "None"), "int": ("int", "int"), "same": ("const char *", "str")}
OMITTED, NONE = Tok("omitted"), Tok("none")


def strings_(h, nano, sites, places, shapes, lists=LISTS[:1], formats=FORMATS[:1], nulls=NULLS[:1], size_types=("int",), sizes=("count",), mutables=("ref",), immutables=("enum",), excluded=("int",), rets=("int",), regexes=(".*",), by=("name",), null_option=(True,), list_option=(True,), alphabet="uvw"):
    """the adapters of a function with such parameters are interpreted for every way of calling it from Python; C++ receives what a C++ caller would have passed"""
    o = make_options(nano)
    key = h.choose("where", places)
    text, path, scope = PLACES14[key]
    site = h.choose("site", sites)
    if site == "function" and key in ("inner", "nsinner"):
        return
    spec = SHAPES29[h.choose("shape", shapes)]
    fname = low(h, "function", 1)
    regex = h.choose("mutable defaults", regexes) if "D" in spec or "I" in spec else ""
    o.fn_params_adapt_mutable_param_with_default_value__regex = regex
    o.fn_params_const_char_pointer_with_default_null = h.choose("null option", null_option) if "S" in spec else True
    with_lists = h.choose("list option", list_option) if "L" in spec else True
    o.fn_params_replace_c_string_list__regex = ".*" if with_lists else "^other$"
    how = h.choose("by", by)
    if how == "name":
        o.fn_params_exclude_names__regex = "^hidden"
    names, ps, forms, tokens = [], [], [], []
    nh = 0
    for k, c in enumerate(spec):
        nm = "hidden" + str(k) if c in "XY" else h.choose("size name", sizes) + str(k) if c == "n" else h.ident("p" + str(k), 1, alphabet=alphabet)
        names.append(nm)
        form = ""
        if c == "L":
            form = h.choose("list" + str(k), lists)
        elif c == "n":
            form = h.choose("size type", size_types) + " @" if len([j for j in range(k) if spec[j] == "n"]) == 0 else forms[spec.index("n")]
        elif c == "F":
            form = h.choose("format", formats)
        elif c == "S":
            form = h.choose("null" + str(k), nulls)
        elif c == "D":
            form = h.choose("mutable" + str(k), mutables)
        elif c == "I":
            form = h.choose("immutable" + str(k), immutables)
        elif c == "X":
            form = h.choose("excluded" + str(k), excluded)
        forms.append(form)
        ps.append({"s": "const char * @", "i": "int @", "d": "int @ = 3", "Y": "int @"}.get(c, MUTABLE[form][0] if c == "D" else IMMUT[form][0] if c == "I" else EXCLUDED[form][0] if c == "X" else form).replace("@", nm) + (", ..." if c == "F" else ""))
    if len(names) > 1:
        h.distinct(*names)
    if how == "type":
        # every type that is excluded
        o.fn_params_exclude_types__regex = "^int$" if "X" in spec and spec.count("X") == 1 and forms[spec.index("X")] == "int" and "d" not in spec and "n" not in spec else "^$"
        if o.fn_params_exclude_types__regex == "^$":
            return
    if site == "function" and key != "root" and len([p for p in ps if "{" in p]) > 0:
        # (srcML takes such a declaration in a namespace for a variable)
        return
    retk = h.choose("ret", rets)
    if retk == "same" and "S" not in spec and "s" not in spec:
        return
    ret, pyret = RETS29[retk]
    head = {"function": ret + " " + fname, "method": ret + " " + fname, "const method": ret + " " + fname, "static": "static " + ret + " " + fname, "ctor": "Cls"}[site]
    if site == "ctor" and "F" in spec:
        return
    decl = head + "(" + ", ".join(ps) + ")" + (" const" if site == "const method" else "") + ";\n"
    code = text % ("enum class Color { Red, Blue };\nstruct Loc { Loc(); Loc(int n); static Loc make(); int k; };\n" + (decl if site == "function" else "struct Cls {\nint before();\n" + decl + "int after();\n};\n"))
    r = gen(o, code)
    h.observe(r.stub_code)
    stub, pydef = parsed(h, r, nano)
    detail = (code, r.stub_code, r.pydef_code)
    at = path + (("Cls",) if site != "function" else ())
    if site == "ctor":
        it = one(h, stub.find("def", at, "__init__"), "the constructor is in the stub", detail)
        b = one(h, [x for x in pydef.at(at) if x.kind == "init" or x.name == "__init__"], "the constructor is bound", detail)
    else:
        it = one(h, stub.find("def", at, fname), "the function is in the stub", detail)
        b = one(h, pydef.find("def", at, fname), "the function is bound", detail)
        h.check((b.method == "def_static") == (site == "static"), "a static method is bound as such", (b.method, detail))
    is_method = site in ("method", "const method", "ctor")
    sp = it.params[1:] if is_method else it.params
    # ---- what Python sees
    adapted_null = o.fn_params_const_char_pointer_with_default_null and nano
    sized = [k for k in range(len(spec)) if spec[k] == "n" and k > 0 and spec[k - 1] == "L" and with_lists]
    visible = [k for k in range(len(spec)) if k not in sized and spec[k] != "X"]
    h.check(len(sp) == len(visible), "the parameters in the stub", detail)
    local = {"LOC": "Loc", "COLOR": "Color"}
    given, omitted = {}, []
    bound = b.params if b.params is not None else []
    simple = b.lambda_ is None
    h.check(len(bound) == len(visible), "the parameters of the bindings", detail)
    for got, bd, k in zip(sp, bound, visible):
        c = spec[k]
        h.eq(got[0], names[k], "name of the parameter in the stub")
        h.eq(bd[0], names[k], "name of the parameter in the bindings")
        opt = c == "D" and regex == ".*"
        ann = {"L": "List[str]", "S": "Optional[str]", "D": MUTABLE.get(forms[k], ["", "", ""])[2], "I": IMMUT.get(forms[k], ["", "", ""])[2], "F": "str", "s": "str"}.get(c, "int")
        if opt:
            ann = "Optional[" + ann + "]"
        if not (c == "L" and not with_lists):
            cands = [ann]
            for w, nm in local.items():
                cands = [x.replace(w, q + nm) for x in cands for q in [".".join(path[i:]) + "." for i in range(len(path))] + [""]]
            h.check(f_or([f_eq(tight(got[1]), tight(x)) for x in cands]), "type of the parameter in the stub", (got, cands, detail))
        h.check((got[2] is not None) == (c in "SDId") and (bd[1] is not None) == (c in "SDId"), "only the parameters that have a default in C++ are optional", (got, bd, detail))
        if c in "SD" and (opt or c == "S"):
            h.check(got[2] == "None", "None is the default in the stub", (got, detail))
        if c == "d":
            h.check(got[2] == "3", "default value in the stub", (got, detail))
    if site != "ctor":
        h.eq(tight(it.ret), pyret if retk != "same" else "str", "type of the result in the stub")
    if simple:
        # the function itself is bound: C++ does the work, except for what must be adapted
        h.check(len([k for k in range(len(spec)) if spec[k] == "L" and with_lists or spec[k] in "FX" or spec[k] == "S" and adapted_null or spec[k] == "D" and regex == ".*"]) == 0, "such parameters are adapted", detail)
    # ---- the call
    pyargs, owners = [], []
    how_given = {}
    for bd, k in zip(bound, visible):
        c = spec[k]
        ways = ["given"] + (["omitted"] if c in "SDId" else []) + (["none"] if c == "S" or c == "D" and regex == ".*" else [])
        w = h.choose("way" + str(k), ways)
        how_given[k] = w
        if w == "given":
            if c == "L":
                v = [Tok("s" + str(k) + str(j)) for j in range(2)]
            elif c == "D":
                f = forms[k]
                v = Struct(scope + "Loc", {}) if f in ("ref", "value", "braces", "arg", "make") else [Struct(scope + "Loc", {})] if f == "locs" else Tok("map", "std::map<std::string,int>") if f == "map" else [Tok("e", "int")]
            elif c == "I":
                f = forms[k]
                v = Tok("i" + str(k), scope + "Color" if f == "enum" else "" if f in ("string", "cstr") else f)
            else:
                v = Tok("v" + str(k), "" if c in "SsF" else "int")
        elif w == "none":
            v = None
        else:
            t = tight(bd[1])
            if c in "SD" and (c == "S" or regex == ".*"):
                h.check(t in (("nb" if nano else "py") + "::none()", "nullptr", "NULL", "std::nullopt"), "None is the default in the bindings", (bd, detail))
                v = None
            else:
                want = {"d": "3", "D": MUTABLE.get(forms[k], [0, ""])[1], "I": IMMUT.get(forms[k], [0, ""])[1]}[c]
                tp = MUTABLE[forms[k]][0].split(" @")[0].replace("const ", "").replace(" &", "") if c == "D" else ""
                alts = [want, tp + want] if want.startswith("{") else [want]
                h.check(f_or([f_eq(t, tight(x.replace("SCOPE", scope))) for x in alts]), "the default of the bindings is the one of C++", (bd, want, detail))
                v = 3 if c == "d" else Struct(scope + "Loc", {}) if c == "D" and forms[k] in ("ref", "value", "braces", "arg", "make") else [] if c == "D" and forms[k] != "map" else Tok("default", "std::map<std::string,int>" if c == "D" else scope + "Color" if forms[k] == "enum" else "" if forms[k] in ("string", "cstr") else forms[k])
        given[k] = v
        pyargs.append(v)
    if simple:
        if site == "ctor":
            # (py::init<...>)
            return
        address = scope + ("" if site == "function" else "Cls::") + fname
        h.check(f_or([f_eq(tight(b.cpp), "&" + address), f_eq(tight(b.cpp), address)] if site == "function" else [f_eq(tight(b.cpp), "&" + address)]), "the function that is bound", detail)
        h.reach("direct")
        return
    if "L" in spec and not with_lists:
        return
    calls, made = [], []

    def arg_text(args):
        return ",".join([str(a.v) for a in args])

    def external(p, self_cell, args):
        tp = tight(p)
        if self_cell is None:
            for q in ("Loc", "Loc::make", "std::vector<Loc>", "std::vector<int>"):
                full = scope + q if not q.startswith("std") else q.replace("Loc", scope + "Loc")
                if decide_(f_eq(tp, full)):
                    v = Struct(scope + "Loc", {"": Cell(Tok(q + "(" + arg_text(args) + ")"))}) if not q.startswith("std") else Vec("vector", [], full[12:-1])
                    made.append(v)
                    return Cell(v, scope + "Loc" if not q.startswith("std") else full, False, True)
        calls.append((p, self_cell, args))
        if site == "ctor":
            return Cell(Tok("object", ""), "", False, True)
        if ret == "void":
            return None
        if retk == "same":
            k = [j for j in range(len(spec)) if spec[j] in "sS"][0]
            return Cell(args[k].v, "const char*", False, True)
        return Cell(Tok("result", "int"), "int", False, True)

    params = b.lambda_.params
    args = []
    if site == "ctor" and nano:
        h.eq(tight(params[0][0]), scope + "Cls*", "the lambda receives the memory of the object")
        args.append(Cell(Ptr([Cell(Tok("memory"), scope + "Cls")], 0, scope + "Cls"), scope + "Cls*"))
        params = params[1:]
    elif is_method and site != "ctor":
        h.check(len(params) > 0 and params[0][0].endswith("&"), "the first parameter of a method is the object", (params, detail))
        args.append(Cell(SelfObj(), ""))
        params = params[1:]
    h.check(len(params) == len(pyargs), "the lambda has the parameters of the Python function", (params, detail))
    for p, v, k in zip(params, pyargs, visible):
        ct = tight(p[0])
        h.check(not (nano and v is None and ct in ("const char*", "constchar*")), "nanobind never converts None to a const char *", (p, detail))
        if spec[k] in "DI" and isinstance(v, Tok) and v.ctype not in ("",) and not ct.startswith("conststd::optional") and "optional" not in ct:
            a = Cell(v, v.ctype, ct.startswith("const "))
        else:
            a = from_python(p[0], v, same, {})
        if spec[k] == "L":
            h.check(isinstance(a.v, Vec), "a list of strings", (p, detail))
            a.v.label = "size" + str(k)
            owners += [x.v for x in a.v.cells]
        if isinstance(a.v, cppsim.Opt) and a.v.cell is not None:
            owners.append(a.v.cell.v)
        args.append(a)
    thrown, out = False, None
    try:
        out = Sim(external, same, {}).run(b.lambda_, args)
    except Thrown:
        thrown = True
    h.check(not thrown and len(calls) == 1, "the function is called, once", (thrown, calls, detail))
    h.reach("called")
    p, self_cell, cargs = calls[0]
    if site == "ctor":
        h.check(f_or([f_eq(tight(p), w + scope + "Cls" + e) for w, e in (("new ", ""), ("std::make_unique<", ">"))]), "the class is constructed", (p, detail))
        h.check((out is None) == nano, "the object is returned", (out, detail))
    elif is_method:
        h.check(self_cell is not None and isinstance(self_cell.v, SelfObj), "the method is called on the object", detail)
        h.eq(p, fname, "the method that is called")
    else:
        h.check(self_cell is None, "a static function is called", detail)
        h.eq(tight(p), scope + ("Cls::" if site == "static" else "") + fname, "the function that is called")
    # ---- what C++ receives
    flat = []
    for k, c in enumerate(spec):
        flat.append(k)
        if c == "F":
            flat.append(-k - 1)
    h.check(len(cargs) == len(flat), "the C++ function receives its parameters", (cargs, detail))
    for a, kk in zip(cargs, flat):
        v = a.v
        if kk < 0:
            k = -kk - 1
            h.check(isinstance(v, CStr) and v.tok is given[k], "the text is an argument of the format", (v, detail))
            continue
        k, c = kk, spec[kk]
        if c == "F":
            h.check(isinstance(v, CStr) and v.tok == '"%s"', "the format is %s", (v, detail))
        elif c == "L":
            cells = v.cells if isinstance(v, (Ptr, Vec)) else []
            h.check(isinstance(v, Ptr) and v.i == 0 and len(cells) == 2 and [isinstance(x.v, CStr) and x.v.tok is y for x, y in zip(cells, given[k])] == [True, True], "the C++ function receives the strings in the same order", (v, detail))
        elif k in sized:
            h.check(isinstance(v, Count) and v.name == "size" + str(k - 1), "the C++ function receives the number of strings", (v, detail))
            h.check(v.bits >= cppsim.bits_of(forms[k].replace(" @", "").replace("const ", "")), "the number of strings is not truncated", (v.bits, detail))
        elif c == "S" and given[k] is None:
            h.check(v is NULL, "None is a null pointer", (v, detail))
        elif c in "Ss":
            h.check(isinstance(v, CStr) and v.tok is given[k], "the string is passed", (v, detail))
        elif c == "D" and given[k] is None:
            f = forms[k]
            if f in ("empty", "full", "map", "vector", "locs"):
                want = ["1", "2"] if f == "full" else []
                h.check(isinstance(v, Vec) and [str(x.v) for x in v.cells] == want, "the default value of C++", (v, detail))
            else:
                want = {"arg": "Loc(2)", "make": "Loc::make()"}.get(f, "Loc()")
                h.check(isinstance(v, Struct) and v.fields[""].v.name == want, "the default value of C++, computed by this call", (v, detail))
        elif c == "D":
            x = given[k]
            if isinstance(x, list):
                h.check(isinstance(v, Vec) and len(v.cells) == len(x) and (len(x) == 0 or isinstance(x[0], Struct) or v.cells[0].v is x[0]), "the list is passed", (v, detail))
            elif isinstance(x, Struct):
                h.check(isinstance(v, Struct) and len(v.fields) == 0, "the object is passed", (v, detail))
            else:
                h.check(v is x, "the value is passed", (v, detail))
        elif c == "X":
            want = EXCLUDED[forms[k]][1].replace("SCOPE", scope)
            f = forms[k]
            if f == "object":
                h.check(isinstance(v, Struct) and v.fields[""].v.name == "Loc(2)", "the C++ function receives its default value", (v, detail))
            elif f == "enum":
                h.check(isinstance(v, External) and decide_(f_eq(tight(v.path), want)), "the C++ function receives its default value", (v, detail))
            elif f == "string":
                h.check(isinstance(v, CStr) and v.tok == '"ab"', "the C++ function receives its default value", (v, detail))
            elif f == "int":
                h.check(v == 5, "the C++ function receives its default value", (v, detail))
            else:
                h.check(v is NULL, "the C++ function receives its default value", (v, detail))
        else:
            ok = v is given[k] or isinstance(v, (CStr, Str)) and v.tok is given[k] or isinstance(v, int) and v == given[k]
            h.check(ok, "the value is passed", (k, v, given[k], detail))
    # ---- the result
    if site == "ctor":
        return
    if retk == "same":
        v = out.v if out is not None else None
        h.check(v is NULL or isinstance(v, CStr) and (v.owner is None or len([x for x in owners if x is v.owner]) == 1), "the result does not point to a string which is destroyed", (v, detail))
        k = [j for j in range(len(spec)) if spec[j] in "sS"][0]
        h.check(to_python(out) is given[k], "the result is returned", (out, detail))
    else:
        res = to_python(out)
        h.check(res is None if ret == "void" else isinstance(res, Tok) and res.name == "result", "the result is returned", (res, detail))


def cfg(nano, sites=("function",), places=("root",), shapes=("S",), **kw):
    return dict(nano=nano, sites=list(sites), places=list(places), shapes=list(shapes), **{k: list(v) if not isinstance(v, str) else v for k, v in kw.items()})


SITES29 = ["function", "method", "const method", "static", "ctor"]
CASES = []
for _n in (False, True):
    _l = "nanobind" if _n else "pybind11"
    CASES.append(
        Case("lists of strings-" + _l, strings_,
             quick=[cfg(_n, shapes=["Ln", "L"], lists=LISTS[:3], size_types=SIZE_TYPES29[:5]), cfg(_n, sites=SITES29, shapes=["Lni", "LnS"], places=["ns"]), cfg(_n, sites=["method"], shapes=["iLn", "LnLn", "Li", "LnF"], list_option=[True, False])],
             thorough=[cfg(_n, shapes=["Ln", "L", "nL", "sn"], lists=LISTS, size_types=SIZE_TYPES29, sizes=["count", "n"]), cfg(_n, shapes=["LnLn", "LL"], lists=LISTS, sizes=["size", "nb"]), cfg(_n, sites=SITES29, shapes=["Lni", "iLn", "LnLn", "LnS", "Li", "LnD", "LnX", "LnF"], lists=LISTS[:2], places=["ns", "inner"], list_option=[True, False]), cfg(_n, sites=SITES29, shapes=["L", "Ln"], places=PLACES14, rets=["void", "int"])],
             bounds="5 spellings of lists of C strings, with or without size (10 types, 4 names), one or two lists, next to each of the other adaptations; 5 kinds of functions")
    )
    CASES.append(
        Case("null strings and formats-" + _l, strings_,
             quick=[cfg(_n, shapes=["S", "sS"], nulls=NULLS, rets=["same", "void"], null_option=[True, False]), cfg(_n, sites=SITES29, places=["inner"], shapes=["S", "iF", "sF"], formats=FORMATS, rets=["same"]), cfg(_n, shapes=["SS", "Sd", "iF"], sites=["function", "ctor"], places=["ns"])],
             thorough=[cfg(_n, sites=SITES29, shapes=["S", "SS", "Sd", "sS"], nulls=NULLS, rets=["same", "void"], null_option=[True, False]), cfg(_n, sites=SITES29, places=PLACES14, shapes=["S", "iF", "F", "sF"], formats=FORMATS, rets=["same", "int"]), cfg(_n, sites=["function", "method", "ctor"], shapes=["DS", "SD", "LnF"], rets=RETS29, places=["ns"])],
             bounds="4 spellings of strings which are null by default, given, omitted or None; formats after 0 or 1 parameter; functions that return the string they receive")
    )
    CASES.append(
        Case("mutable defaults-" + _l, strings_,
             quick=[cfg(_n, shapes=["D"], mutables=MUTABLE, regexes=[".*", ""], places=["root", "nsinner"], sites=["function", "method"]), cfg(_n, sites=SITES29, shapes=["Dd"], places=["ns"]), cfg(_n, sites=["ctor", "function"], shapes=["ID", "DS", "iD"], immutables=IMMUT, places=["ns"])],
             thorough=[cfg(_n, sites=["function", "const method", "ctor"], shapes=["D", "iD"], mutables=MUTABLE, regexes=[".*", "", "^other$"], places=["root", "nsns", "nsinner"]), cfg(_n, sites=SITES29, shapes=["D", "Dd"], mutables=["ref", "empty", "locs"], places=PLACES14), cfg(_n, sites=["method", "ctor"], shapes=["DD", "DS", "XD", "ID"], mutables=["value", "full", "make"], immutables=IMMUT, places=["ns"])],
             bounds="10 mutable defaults (objects, containers), 5 immutable ones; given, omitted or None; the option on and off")
    )
    CASES.append(
        Case("excluded parameters-" + _l, strings_,
             quick=[cfg(_n, sites=SITES29, shapes=["X"], excluded=EXCLUDED, places=["nsinner"]), cfg(_n, sites=["function", "ctor"], shapes=["iX", "Xd", "Y"], excluded=["enum", "object"], places=["ns"]), cfg(_n, shapes=["XX", "XS", "dX", "YX", "LnX"], excluded=["int", "enum"], by=["name", "type"])],
             thorough=[cfg(_n, sites=SITES29, shapes=["X", "XS", "dX", "YX", "Y"], excluded=EXCLUDED, places=["root", "inner"], by=["name", "type"]), cfg(_n, sites=["function", "method", "ctor"], shapes=["iX", "Xd"], excluded=EXCLUDED, places=PLACES14), cfg(_n, sites=["function", "method", "ctor"], shapes=["XX", "XD", "LnX"], excluded=EXCLUDED, mutables=["ref", "empty"])],
             bounds="6 defaults, excluded by name or by type, one or two parameters, those without default are kept")
    )
    CASES.append(
        Case("every shape-" + _l, strings_,
             quick=[cfg(_n, sites=["method" if _n else "function"], shapes=list(SHAPES29), places=["ns"])],
             thorough=[cfg(_n, sites=[s], shapes=list(SHAPES29), places=["root", "inner"], list_option=[True, False], null_option=[True, False]) for s in SITES29],
             bounds="40 lists of parameters")
    )

ASSUMPTIONS = ["srcML takes `int f(Loc x = {});` in a namespace for a variable: braces in the defaults of functions are explored at the root and for methods only",
               "the default value given to Python by the bindings libraries is the value of the expression in the pydef code; an object given for a mutable parameter is copied"]
