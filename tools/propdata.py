"""The properties (source of properties.jsonl and MANIFEST.json)"""

PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech))


prop(
    "C01", "Names are valid Python, stable, and the same in the bindings and in the stub",
    "Every C++ name (function, parameter, member, method, class, enum, enum value, namespace) is published under a valid Python identifier "
    "that is never a Python keyword and keeps the letters and digits of the C++ name in order. The name announced in the stub is the name the "
    "bindings register, with and without snake case conversion, for pybind11 and nanobind. Translating a name that is already translated changes nothing.",
    ["inputs", "configurations"], "every C++ identifier (up to the stated length), every kind of declaration, both binding libraries, snake case on or off",
    "the tests translate a handful of names; keywords, digits, upper case runs and underscores interact for every identifier",
    ["src/codemanip/code_utils.py", "src/litgen/internal/cpp_to_python.py", "src/litgen/internal/adapted_types"],
    [("snake case conversion", "codemanip/code_utils.py: to_snake_case"), ("keyword protection and naming", "litgen/internal/cpp_to_python.py: *_name_to_python")],
)
prop(
    "C02", "Comments end up in the bindings as exact, well-formed C++ string literals",
    "Whatever text a C++ comment contains, the bindings stay well-formed C++: every docstring is a valid string literal which decodes to the text of the comment "
    "(line breaks included). Text that looks like a placeholder of the code templates is kept as is.",
    ["inputs", "programs", "configurations"], "every comment text (up to the stated number of unknown characters) on every kind of element, pybind11 and nanobind",
    "quotes, backslashes, escapes and template-like tokens combine in unboundedly many ways; the tests contain a few comments without any of them",
    ["src/codemanip/code_utils.py", "src/litgen/internal/cpp_to_python.py", "src/litgen/internal/adapted_types"],
    [("escaping of comments", "codemanip/code_utils.py: format_cpp_comment_on_one_line"), ("templates", "codemanip/code_utils.py: replace_in_string, process_code_template")],
)
prop(
    "C03", "Comments reach the stub unharmed and the stub stays valid Python",
    "Whatever text the C++ comments contain, the stub stays valid Python: each comment shows up as a Python comment or docstring that holds its text, "
    "and the declarations are the same as those generated without any comment. The layout passes on the stub (alignment of comments, empty lines, indentation) never alter strings, docstrings or code.",
    ["inputs", "programs", "configurations"], "every comment text (up to the stated number of unknown characters), every kind of element and layout option",
    "quotes, backslashes, # and // in comments combine with the layout of the stub; the tests contain a few benign comments",
    ["src/codemanip/code_utils.py", "src/litgen/internal/cpp_to_python.py", "src/litgen/internal/adapted_types"],
    [("docstrings and comments", "litgen/internal/cpp_to_python.py: docstring_lines, comment_python_*"), ("alignment of comments", "codemanip/code_utils.py: align_python_comments_in_block")],
)
prop(
    "C04", "Generated files: only the text between the markers changes, nothing is lost",
    "Writing the generated code replaces exactly the text between the marker lines: everything outside is kept unchanged, and writing twice gives the same file as writing once. "
    "Code accumulated from several headers is written in their order, in full; if the markers or the files are missing, an error is reported and no file is altered.",
    ["inputs", "histories", "configurations"], "every file content around the markers (up to the stated sizes), every sequence of headers and generated texts",
    "the content of the user's file is arbitrary; the tests use one or two fixed files",
    ["src/codemanip/code_utils.py", "src/litgen/litgen_generator.py"],
    [("marker regions", "codemanip/code_utils.py: write_generated_code_between_markers"), ("generator and files", "litgen/litgen_generator.py: LitgenGenerator.write_generated_code")],
)
prop(
    "C05", "Amalgamated header: every local include once, at its first use, nothing lost",
    "The amalgamation of a header contains the text of each local header it includes, directly or not, exactly once and at the place of its first inclusion, "
    "and every other line in order; external includes are kept (once). Include cycles terminate, and the includes that are not local are never expanded.",
    ["inputs", "programs"], "every include graph and line content up to the stated bounds, in several search folders",
    "include graphs with cycles, diamonds, missing files, comments and odd spacing are a combinatorial space; the tests have one tree",
    ["src/codemanip/amalgamated_header.py"],
    [("amalgamation", "codemanip/amalgamated_header.py: _amalgamate_one_file, AmalgamationOptions")],
)
prop(
    "C06", "Name patterns and replacement lists select and rewrite exactly what they say",
    "An option given as a regular expression (or as a predicate) selects exactly the names it describes, and the helpers that build such patterns (exact word, prefix, word inside, pointer or reference to a type) "
    "accept exactly the texts they announce. Replacement lists apply their replacements in order (insertions first or last as asked), and the default lists translate whole C++ tokens only.",
    ["inputs", "configurations"], "every text and every word up to the stated lengths",
    "matching is a question about every string; the tests try a handful",
    ["src/codemanip/code_utils.py", "src/codemanip/code_replacements.py", "src/litgen/internal/cpp_to_python.py"],
    [("patterns", "codemanip/code_utils.py: does_match_regex*, make_regex_*"), ("replacements", "codemanip/code_replacements.py: RegexReplacementList")],
)
prop(
    "C07", "Text manipulation helpers respect the text they work on",
    "Indenting, un-indenting and re-indenting a code change the leading blanks of its lines only, by the requested amount; limiting the empty lines changes nothing else. "
    "The C++ comment of a line is found where the language puts it (not in strings or characters), and filling a template inserts the values verbatim, once per token.",
    ["inputs"], "every text up to the stated lengths over alphabets of significant characters",
    "these helpers run over all of the generated code, so any text can reach them; the tests use one example each",
    ["src/codemanip/code_utils.py"],
    [("text tools", "codemanip/code_utils.py")],
)
prop(
    "C08", "Preprocessor regions: only accepted regions, in their first branch, are bound",
    "When the filter is on, a declaration is bound and announced in the stub if and only if every preprocessor region around it is accepted (the name of its macro matches the pattern of the options) "
    "and the declaration is in the first branch of each of them. When the filter is off, every declaration is bound; what surrounds a region is never altered.",
    ["inputs", "programs", "configurations"], "every macro name up to the stated length, every region shape listed, every kind of declaration",
    "nesting, branches and macro names combine; the tests contain a few fixed headers",
    ["src/srcmlcpp/internal/filter_preprocessor_regions.py"],
    [("filter", "srcmlcpp/internal/filter_preprocessor_regions.py")],
)
prop(
    "C09", "Scopes: a name designates, in both outputs, the declaration that C++ finds",
    "A type, default value or base class spelled with any partial qualification inside namespaces and classes designates, in the bindings, the declaration found by the C++ lookup from that place, "
    "homonyms in other scopes notwithstanding. In the stub, the name that is written there designates, by the scoping rules of Python, the class or enum published for that same declaration.",
    ["inputs", "programs", "configurations"], "every name (homonyms included), every partial qualification, declarations in each of 4 nested scopes, root namespaces or not, both binding libraries",
    "which declaration wins depends on the homonyms in all the scopes; the tests contain a few programs with distinct names",
    ["src/srcmlcpp/cpp_types/scope", "src/srcmlcpp/cpp_types/blocks/cpp_block.py", "src/litgen/internal/cpp_to_python.py", "src/litgen/internal/context"],
    [("C++ scopes", "srcmlcpp/cpp_types/scope/cpp_scope_process.py"), ("Python scopes", "litgen/internal/cpp_to_python.py: qualify_sibling_in_scope")],
)
prop(
    "C10", "Functions, methods and constructors: complete signatures, right C++ target",
    "Every public function, method and constructor is published exactly once in the stub and in the bindings, in order, with all of its parameters (names, translated types, default values), "
    "its return type, and its static or constructor nature; the registered target is that very C++ function in its scope. What is deleted, private or protected is not published.",
    ["inputs", "programs", "configurations"], "every name up to the stated length, every combination of the listed types, defaults, forms and scopes, both binding libraries",
    "parameters, defaults, qualifiers and scopes combine; the tests contain one program for each feature",
    ["src/litgen/internal/adapted_types/adapted_function.py", "src/litgen/internal/adapted_types/adapted_class.py", "src/srcmlcpp/cpp_types"],
    [("functions", "litgen/internal/adapted_types/adapted_function.py: AdaptedFunction"), ("parameters", "litgen/internal/adapted_types/adapted_function.py, adapted_decl.py")],
)
prop(
    "C11", "Default values: the same value in the stub, the C++ value in the bindings",
    "Each default value of a parameter, attribute or constant is announced in the stub as the same value in Python syntax: integer literals of any base, floats, strings, characters, constants, named macros, operators. "
    "An enumerator or a static member, used from any scope, is written with the Python path under which it is published. The bindings pass the C++ value itself, qualified so that it designates the same declaration.",
    ["inputs", "programs", "configurations"], "every literal up to the stated number of characters, every name and text, every combination of the listed places and options, both binding libraries",
    "values are rewritten by successive textual replacements which interact with the content of the literals and with the names in scope; the tests contain a dozen values",
    ["src/litgen/internal/cpp_to_python.py", "src/litgen/internal/context", "src/litgen/internal/adapted_types/adapted_decl.py"],
    [("values", "litgen/internal/cpp_to_python.py: var_value_to_python"), ("scoped values", "litgen/internal/context/litgen_context.py: apply_scoped_var_value_replacements")],
)
prop(
    "C13", "Exclusion options remove exactly what they select, from both outputs",
    "A function, parameter, member, class, enum, namespace, macro or global variable is published if and only if the options do not exclude it (by name, type, signature or API marker; inclusion lists work the other way), "
    "and this removes it from the stub and from the bindings at once, generated constructors included. Everything else stays as it was; removed parameters get their default value, read-only options make members read-only and nothing more.",
    ["inputs", "configurations"], "every name and pattern word up to the stated length, four kinds of patterns, all the places a declaration may be in",
    "which names a pattern selects is a question about every name and every option; the tests use one name per option",
    ["src/litgen/options.py", "src/litgen/internal/adapted_types"],
    [("options", "litgen/options.py: LitgenOptions"), ("exclusions", "litgen/internal/adapted_types/adapted_class.py, adapted_function.py, adapted_block.py")],
)
prop(
    "C12", "Enums: every public value once, with its Python name and its number",
    "Every public named enum is published once in both outputs, with each of its values once, in order, under the name that the prefix, keyword and digit rules give, bound to its own C++ value in its own scope. "
    "The stub gives each value the number that C++ gives it, whatever literals, earlier values or references it is computed from. Count values, anonymous, forward and private enums are not published; annotations, arithmetic and export follow the options and the kind of enum.",
    ["inputs", "programs", "configurations"], "every name and number up to the stated length, every combination of the listed kinds, places and options, both binding libraries",
    "numbers follow from the previous values and names from the name of the enum, which are unbounded; the tests contain a handful of enums",
    ["src/srcmlcpp/cpp_types/cpp_enum.py", "src/litgen/internal/adapted_types/adapted_enum.py", "src/litgen/internal/cpp_to_python.py"],
    [("enum values", "srcmlcpp/cpp_types/cpp_enum.py"), ("published enums", "litgen/internal/adapted_types/adapted_enum.py")],
)
prop(
    "C17", "What C++ writes through references, pointers and arrays reaches Python",
    "When parameters are adapted with boxed types, returned values or arrays, calling the Python function calls the C++ function once with the given values (None is a null pointer), and everything that it writes to the modifiable ones reaches Python: in the boxed values, or in the result, after the returned value and in order. "
    "The stub announces these parameters and results; each boxed type that is used is published once, and holds the C++ type. "
    "Constants, values, objects, and functions that the options do not name are not adapted.",
    ["inputs", "programs", "configurations"], "forms of parameters (references, pointers with and without default, arrays, constants...), 17 immutable types, result types, up to 3 parameters with unknown names, functions, methods, static methods and constructors, five places, null and non null arguments, both binding libraries",
    "the generated lambdas are nested, and depend on all the parameters, on their names and on the result; the tests compare the text of a few lambdas, and do not run most of them",
    ["src/litgen/internal/adapt_function_params", "src/litgen/internal/boxed_python_type.py", "src/litgen/internal/adapted_types/adapted_function.py"],
    [("boxed types", "litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_boxed.py, boxed_python_type.py"), ("returned values", "litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py"), ("arrays", "litgen/internal/adapt_function_params/_adapt_c_arrays.py"), ("lambdas", "litgen/internal/adapt_function_params/apply_all_adapters.py")],
)
prop(
    "C18", "Templates are published exactly for the types that were requested",
    "A template function or class is published once for each requested type, bound to this very instantiation, under the documented name; in its types, default values, constructors, inner classes and members the parameter is replaced by the type (and nothing else is, in strings for example), identically in both outputs. "
    "The other declarations that use a requested instantiation refer to its Python class, those that use another one are not published, and templates that are not requested or do not have exactly one type parameter publish nothing.",
    ["inputs", "programs", "configurations"], "every name up to the stated length, every pair of the listed kinds of members or parameters, types and users, in five places, both binding libraries",
    "the substitution is done on names, anywhere in a program; the tests contain a few templates at the root",
    ["src/litgen/internal/template_options.py", "src/srcmlcpp/cpp_types/template/cpp_template_specialization.py", "src/litgen/internal/adapted_types/adapted_class.py", "src/litgen/internal/adapted_types/adapted_function.py"],
    [("specializations", "srcmlcpp/cpp_types/template/cpp_template_specialization.py"), ("requested types", "litgen/internal/template_options.py")],
)
prop(
    "C19", "Overloads: each is bound to its own C++ function and announced once",
    "Each overload of a function, method or constructor is bound with an expression that designates this very C++ function (its types, constness and static nature), also in namespaces opened several times, and returns what it returns. "
    "The stub announces, adjacent and decorated with @overload, the overloads that Python can tell apart, once each; a function is decorated if and only if several functions of its scope have its Python name, and no documentation is lost.",
    ["inputs", "programs", "configurations"], "every name up to the stated length, every combination of up to 3 overloads of the listed types and kinds, in the listed layouts, both binding libraries",
    "the outcome depends on the set of overloads as a whole; the tests contain a few sets",
    ["src/litgen/internal/adapted_types/adapted_function.py", "src/litgen/internal/adapted_types/stub_overload_dedup.py", "src/litgen/internal/adapted_types/adapted_block.py", "src/srcmlcpp/cpp_types/blocks/cpp_block.py"],
    [("overload casts", "litgen/internal/adapted_types/adapted_function.py"), ("stub overloads", "litgen/internal/adapted_types/stub_overload_dedup.py")],
)
prop(
    "C14", "Classes: members, generated constructor, bases and class options",
    "Every public member of a class is published in order in both outputs with its type, value, writability and static nature, bound to that very member; numeric arrays are views of the member, and what cannot be bound is absent from both. "
    "A class without constructor gets exactly one, which sets every settable member with its own default, unless C++ cannot construct it by default; declared constructors, copies and destructors are respected. "
    "Bases, dynamic attributes, deep copy, final and holder options appear exactly on the classes that declare or select them.",
    ["inputs", "programs", "configurations"], "every name up to the stated length, every pair of the listed kinds of members, forms of constructors, bases and options, in five places, both binding libraries",
    "kinds of members, constructors, bases and options combine; the tests contain a few classes",
    ["src/litgen/internal/adapted_types/adapted_class.py", "src/srcmlcpp/cpp_types/classes/cpp_struct.py"],
    [("classes", "litgen/internal/adapted_types/adapted_class.py: AdaptedClass"), ("generated constructor", "litgen/internal/adapted_types/adapted_class.py: PythonNamedConstructorHelper")],
)
prop(
    "C15", "Namespaces become submodules, once each, with all of their content",
    "Every published namespace is exactly one submodule, inside the submodule of its parent and under its Python name, in both outputs, however many times and in whichever syntax (`A::B` included) it is opened; "
    "it contains in order the declarations of all the openings, bound to the entities of that namespace. Root namespaces are transparent; excluded and anonymous namespaces publish nothing.",
    ["inputs", "programs", "configurations"], "every name up to the stated length (equal or not), every sequence of up to 4 openings with depth up to 3, both binding libraries",
    "which openings designate the same namespace depends on all the names; the tests contain a few namespaces",
    ["src/litgen/internal/adapted_types/adapted_namespace.py", "src/litgen/internal/context/namespaces_code_tree.py", "src/srcmlcpp/internal/cpp_types_parse.py"],
    [("submodules", "litgen/internal/adapted_types/adapted_namespace.py"), ("tree of the submodules", "litgen/internal/context/namespaces_code_tree.py")],
)
prop(
    "C16", "Custom bindings are added once, exactly where the user asked",
    "The stub and binding code given by the user for a class, a namespace or the main module is in the corresponding output once, complete, in the order given, inside that scope and in no other one (homonyms included), "
    "if and only if the scope is published. This holds for namespaces opened several times, for several headers in one generator, and each time the same options are used.",
    ["inputs", "programs", "configurations", "histories"], "every name and qualified scope up to the stated length, six program layouts, three styles of code, up to three headers, both binding libraries",
    "the scope is found by its qualified name among all the scopes of the program, and the emission depends on what was emitted before; the tests contain one example",
    ["src/litgen/internal/custom_bindings.py", "src/litgen/internal/context/litgen_context.py", "src/litgen/internal/adapted_types"],
    [("custom bindings", "litgen/internal/custom_bindings.py: CustomBindings"), ("emission", "litgen/internal/context/litgen_context.py, adapted_class.py, adapted_namespace.py, adapted_unit.py")],
)
prop(
    "C24", "Operators become the Python special methods which mean the same",
    "Every public operator of a class that has a Python equivalent is published once under that special method (unary or binary according to its operands), with its operands and result, and calls that very operator; `<=>` provides the five comparisons except those which the class declares. "
    "Overloads of one special method are adjacent and decorated in the stub. Operators without equivalent, or that are not public members, publish nothing and disturb nothing; functions whose names merely begin with `operator` are ordinary functions.",
    ["inputs", "programs", "configurations"], "every listed operator, operand type, unknown names, pairs and triples of operators, explicit comparisons with <=>, five places, both binding libraries",
    "the special method depends on the symbol, the arity and the other operators of the class; the tests contain a few operators",
    ["src/litgen/internal/adapted_types/operators.py", "src/litgen/internal/adapted_types/adapted_function.py", "src/litgen/internal/adapted_types/adapted_block.py"],
    [("operators", "litgen/internal/adapted_types/operators.py"), ("overload groups", "litgen/internal/adapted_types/adapted_block.py: group_overloaded_functions")],
)

prop(
    "C26", "Python can override exactly the virtual methods that C++ allows",
    "For a class selected by class_override_virtual_methods_in_python__regex, the glue code has a trampoline, known to the bindings, which overrides every virtual method (inherited or not) that C++ lets be overridden and no other, with its exact signature, its Python name, and a call to the C++ method unless it is pure. "
    "Every constructor creates the trampoline; an abstract class which has none is published without constructor nor copy. "
    "For a class selected by class_expose_protected_methods__regex, each protected method is published once through a glue class that has access to it, and nothing else that is protected or private is.",
    ["inputs", "programs", "configurations"], "forms of virtual methods (pure, const, noexcept, final, implicit overrides), accesses, kinds of inheritance, hierarchies and diamonds, unknown names that may coincide, template instantiations, five places, both binding libraries",
    "whether a method overrides another one depends on the whole hierarchy; the tests contain a few classes in one namespace",
    ["src/litgen/internal/adapted_types/adapted_class.py", "src/litgen/internal/adapted_types/adapted_function.py", "src/srcmlcpp/cpp_types/classes/cpp_struct.py", "src/srcmlcpp/cpp_types/functions/cpp_function_decl.py"],
    [("trampolines", "litgen/internal/adapted_types/adapted_class.py: _virt_store_glue_override, virt_glue_override_virtual_methods_in_python"), ("virtual methods", "srcmlcpp/cpp_types/classes/cpp_struct.py: virtual_methods"), ("publicists", "litgen/internal/adapted_types/adapted_class.py: _prot_store_glue, _prot_fill_methods")],
)

prop(
    "C28", "Every C++ type is announced as the Python type it converts to",
    "The annotation of every parameter, result and member is the Python type to which the binding libraries convert its C++ type: fundamental types in all their spellings, strings, containers, tuples, optional, variant, smart pointers and callables, nested in any way. "
    "A class or an enum keeps its own name (found from that scope), even if this name contains the name of a type; const, references, pointers and the names of the parameters of callables change nothing.",
    ["inputs", "programs", "configurations"], "46 simple types, 23 templates nested up to 2 (thorough: 3) times, unknown names of classes and of callback parameters, 10 decorations, 10 sites, five places, both binding libraries",
    "the translation is a list of regular expressions applied to nested texts, and each interacts with the others and with the names of the user; the tests contain a few types",
    ["src/litgen/internal/cpp_to_python.py", "src/srcmlcpp/cpp_types/decls_types/cpp_type.py", "src/codemanip/code_replacements.py"],
    [("translation", "litgen/internal/cpp_to_python.py: type_to_python, standard_type_replacements"), ("types", "srcmlcpp/cpp_types/decls_types/cpp_type.py: CppType")],
)

prop(
    "C25", "C++ functions given numpy arrays receive their data, or are not called",
    "A function adapted by fn_params_replace_buffer_by_array__regex is called once, with the address of the data of each array, its untruncated size and stride, and the instance of the template that has the representation of its elements; the other parameters, the result and the defaults are transmitted. "
    "If an array has another element type, is not contiguous, is read-only where C++ may write, or has another size than the array which shares its size, an exception is raised and C++ is not called. "
    "Only pointers to the listed types, before a size, are replaced; the bindings of all the other functions are unchanged, and the stub announces np.ndarray exactly for what is replaced.",
    ["inputs", "programs", "configurations"], "13 element types and 17 numpy dtypes, 20 sequences of parameters, 10 types and 8 names of sizes, unknown names of parameters and functions, odd arrays, template and standard buffers, five places, both binding libraries",
    "the generated lambda casts raw memory: a wrong type, size or check is an out-of-bounds access for some arrays only; the tests check the text of some lambdas",
    ["src/litgen/internal/adapt_function_params/_adapt_c_buffers.py", "src/litgen/internal/cpp_to_python.py", "src/litgen/internal/adapt_function_params/_lambda_adapter.py"],
    [("buffers", "litgen/internal/adapt_function_params/_adapt_c_buffers.py: adapt_c_buffers, _AdaptBuffersHelper"), ("element types", "litgen/internal/cpp_to_python.py: cpp_type_to_py_array_type, nanobind_cpp_type_to_dtype_code")],
)

prop(
    "C29", "Strings, null strings, formats and default values mean what they mean in C++",
    "A C++ function that takes lists of C strings (with or without size), a format followed by variadic arguments, strings null by default, parameters whose default is a mutable object, or excluded parameters, is called once and receives what a C++ caller would have passed: the strings in order and their untruncated number, the text through \"%s\", a null pointer for None, "
    "a default value computed by this very call, the default of the parameters that Python does not see. "
    "A string that it returns is not destroyed before Python copies it, all the combinations of these parameters compile, and the stub announces exactly what can be given, omitted or None.",
    ["inputs", "programs", "configurations"], "38 sequences of up to 4 parameters, 5 spellings of lists, 4 of null strings, 10 mutable and 5 immutable defaults, 6 excluded defaults, 10 types of sizes, each way of giving or omitting the arguments, functions, methods and constructors, unknown names, five places, both binding libraries",
    "the adapters are nested lambdas whose composition depends on the combination of the parameters; the tests check the text of each adapter alone",
    ["src/litgen/internal/adapt_function_params"],
    [("strings", "litgen/internal/adapt_function_params/_adapt_c_string_list.py, _adapt_variadic_format.py, adapt_const_char_pointer_with_default_null.py"), ("defaults", "litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py, _adapt_exclude_params.py"), ("composition", "litgen/internal/adapt_function_params/apply_all_adapters.py")],
)

prop(
    "C23", "A published macro has the same value in C++ and in Python, others are left out",
    "A `#define` selected by the options whose value is a simple literal (an integer in base 8, 10 or 16 or a floating point number, with or without a sign, or strings) is published once, at the place where it is written, in the stub and in the bindings, under the name given by the options, with its comment and exactly its C++ value. "
    "Whatever has parameters, no value, or any other value is not published, and does not disturb its neighbours.",
    ["inputs", "programs", "configurations"], "all digits, all texts of the strings, all identifiers inside other values, names and patterns, 4 places, both binding libraries",
    "the value is recognised and translated character by character, and the test has 4 values; a value which is not recognised as an expression gives an invalid stub, an octal one a wrong number",
    ["src/litgen/internal/adapted_types/adapted_define.py", "src/litgen/internal/adapted_types/adapted_block.py", "src/srcmlcpp/internal/cpp_types_parse.py", "src/srcmlcpp/cpp_types/cpp_define.py"],
    [("define", "litgen/internal/adapted_types/adapted_define.py: _compute_define_value_type, AdaptedDefine"), ("parse", "srcmlcpp/internal/cpp_types_parse.py: parse_define"), ("selection", "litgen/internal/adapted_types/adapted_block.py: AdaptedBlock")],
)

prop(
    "C21", "What is generated for a header depends only on this header and on the options",
    "Whatever was generated before in the same process or by the same generator (other headers, other options, unfinished generations, results asked in any order and any number of times), a self-contained header gives the same stub, bindings and glue code as alone, and the options are not modified. "
    "The headers of one generator keep their order, and the boxed types that any of them needs are published and defined once. "
    "The output files are a function of the headers and of the options: whatever they contained between their markers, and however often they are written.",
    ["inputs", "programs", "histories", "configurations"], "21 kinds of headers with unknown names that may coincide, in pairs and in both orders, histories with the same or other options, sequences of questions, both binding libraries",
    "a state that leaks from a header to the next one shows up for some pairs of headers only; the tests generate one header at a time",
    ["src/litgen/litgen_generator.py", "src/litgen/internal/context/litgen_context.py", "src/litgen/internal/context/namespaces_code_tree.py", "src/litgen/internal/context/replacements_cache.py", "src/litgen/code_to_adapted_unit.py", "src/litgen/options.py"],
    [("generator", "litgen/litgen_generator.py: LitgenGenerator"), ("context", "litgen/internal/context/litgen_context.py: LitgenContext"), ("options", "litgen/options.py: LitgenOptions")],
)

prop(
    "C20", "pybind11 and nanobind publish the same API, described by the same stub",
    "For a given header and given options, the stub does not depend on the binding library, and both libraries publish the same modules, classes, methods, attributes and functions, in the same order, with the same python names, parameters, default values and documentation, designating the same C++ things; "
    "only the vocabulary of the library, the way its constructors and trampolines are written, and the type of the buffers differ.",
    ["inputs", "programs", "configurations"], "40 kinds of headers with unknown names that may coincide, in pairs, three sets of options",
    "each branch of the generator on the library is tested with one of the two, so a divergence shows only by comparing both on the same header",
    ["src/litgen/internal/adapted_types", "src/litgen/internal/adapt_function_params", "src/litgen/internal/template_utils.py", "src/litgen/options.py"],
    [("functions", "litgen/internal/adapted_types/adapted_function.py"), ("classes", "litgen/internal/adapted_types/adapted_class.py"), ("enums", "litgen/internal/adapted_types/adapted_enum.py")],
)

prop(
    "C22", "A construct that cannot be bound is left out alone, the rest is unaffected",
    "When a header contains constructs that litgen does not publish (type aliases, anonymous or forward declared types, templates that are not instantiated and their specializations, deleted functions, friends, macros, bodies of methods, private parts, unknown syntax...), the generation does not fail: "
    "the stub is the one of the header without these constructs, and the bindings publish the same things in the same way.",
    ["inputs", "programs", "configurations"], "70 kinds of constructs, at 4 places, with unknown names that may be those of their neighbours, both binding libraries, both layouts",
    "a construct that is not understood may swallow its neighbours, make them overloads, or leave an invalid line; the tests have few of them, always with different names",
    ["src/litgen/internal/adapted_types", "src/srcmlcpp/internal/cpp_types_parse.py"],
    [("parse", "srcmlcpp/internal/cpp_types_parse.py"), ("blocks", "litgen/internal/adapted_types/adapted_block.py: AdaptedBlock"), ("publishable", "litgen/internal/adapted_types/adapted_function.py: init_is_function_publishable"), ("class", "litgen/internal/adapted_types/adapted_class.py: AdaptedClass")],
)

prop(
    "C27", "pimpl_my_class publishes the public API of a class, and forwards all of it",
    "The published class declares each public method and constructor of the implementation class once, with its parameters, default values and documentation, and nothing that is private; each of them is defined once, with a valid signature, and calls the implementation with its arguments in the same order. "
    "Its name is that of the implementation without its suffix, other classes of the file do not matter, and only what is between the markers of the files is rewritten.",
    ["inputs", "programs", "configurations"], "22 kinds of members, in pairs and each in any part of the class, 10 suffixes, unknown names, unknown previous contents of the files",
    "the test is one class, where what is not const, static or defaulted hides the combinations",
    ["src/srcmlcpp_tools/pimpl_my_class"],
    [("pimpl", "srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py: PimplMyClass"), ("files", "srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py: pimpl_my_file")],
)

prop(
    "C30", "Return policies, keep_alive and call guards reach the functions they are for",
    "The return value policy, keep_alive and call guards written in the comment of a function or of a constructor, and those that the options select by name and by what it returns, are in its binding, complete and in the vocabulary of the library, with one call_guard only; no other function has them. "
    "The functions selected for vectorization, and no other, are also published as vectorized functions, under the chosen name, with the same target and arguments.",
    ["inputs", "programs", "configurations"], "17 kinds of comments at 5 positions, 16 forms of functions, 13 return types, unknown names and patterns, both binding libraries",
    "a lost policy is a dangling reference at run time, far from the binding; the tests have few comments and one function at a time",
    ["src/litgen/internal/adapted_types/adapted_function.py", "src/srcmlcpp/internal/srcml_comments.py", "src/srcmlcpp/internal/fix_brace_init_default_value.py"],
    [("policies", "litgen/internal/adapted_types/adapted_function.py: _pydef_fill_return_value_policy"), ("call policies", "litgen/internal/adapted_types/adapted_function.py: _pydef_call_guard"), ("vectorize", "litgen/internal/adapted_types/adapted_function.py: shall_vectorize")],
)

prop(
    "C31", "Layout and display options change the layout, not what is published",
    "Whatever the indentation, the maximum line length, the layout, and the locations, signatures and comments that are displayed, the stub is valid and declares the same things, with the same types, values, decorators and documentation, and the bindings and the glue code are the same C++ code. "
    "The locations that are displayed are those of the declarations, in the header of this name. When the layout of C++ is reproduced, the lines of a comment which stands alone keep their own indentation.",
    ["inputs", "programs", "configurations"], "46 kinds of headers with unknown names, 18 layout settings, three sets of options, both binding libraries",
    "the tests run with the default layout; another one may break a line in the middle of a string, or the indentation of a body",
    ["src/litgen/internal/adapted_types", "src/litgen/internal/cpp_to_python.py", "src/litgen/options.py", "src/srcmlcpp/srcml_wrapper.py"],
    [("options", "litgen/options.py: LitgenOptions"), ("layout", "litgen/internal/adapted_types/line_spacer.py: LineSpacerPython"), ("locations", "litgen/internal/cpp_to_python.py: info_original_location"), ("lines", "litgen/internal/adapted_types/adapted_function.py: AdaptedFunction")],
)

prop(
    "C32", "Options that select by name act on exactly the declarations that match",
    "For every option which selects declarations by a regular expression or by a function of their C++ name (or type), what is generated for a declaration is what is generated when the option selects everything if it matches, and what is generated when the option selects nothing otherwise. "
    "This holds for functions, methods, parameters, classes, members, enums, namespaces, macros and global variables, in namespaces and in classes, whatever the Python name is.",
    ["inputs", "programs", "configurations"], "38 options, 5 ways of selecting, names with 2 unknown characters (thorough: 3), both binding libraries",
    "the tests use each option with one or two names; the property must hold for every name, and an option must not look at the Python name, or at another declaration",
    ["src/litgen/options.py", "src/litgen/internal/adapted_types", "src/litgen/internal/adapt_function_params", "src/codemanip/code_utils.py"],
    [("options", "litgen/options.py: LitgenOptions"), ("matching", "codemanip/code_utils.py: does_match_regex_or_matcher"), ("classes", "litgen/internal/adapted_types/adapted_class.py: AdaptedClass"), ("functions", "litgen/internal/adapted_types/adapted_function.py: AdaptedFunction"), ("blocks", "litgen/internal/adapted_types/adapted_block.py: AdaptedBlock")],
)
