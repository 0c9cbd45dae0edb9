"""The properties, as data."""

def Q(over, text):
    return {"over": over, "text": text}

def A(files, mech, observe=None):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["files written by the command line tool"], "hook_needed": None}

PROPS = [
 dict(id="C01", title="Exactly the declarations that accept/ignore rules select are generated",
  statement="For every header and every set of accept and ignore rules, a macro, constant variable, enumeration constant, typedef, struct, union, function or variable of the header is generated if and only if the rules select its C name: among the rules written for its kind an ignore match beats an accept match, a kind whose own rules say nothing about the name defers to the global rules, and a name nobody accepts is left out. Nothing that is declared in a file listed under IgnoredPaths is generated.",
  quantifier=Q(["inputs", "configurations"], "all headers of object-like macros, const variables, enums, typedefs, structs, unions, function-pointer types, functions (declared, defined, static or inline) and struct, union and other variables, any of them several to a declaration, with further typedefs and announcements of the same struct, union or enum, over all accept/ignore rule sets (per kind: const for macros and enum constants, type for typedefs, enums, structs and unions, function for functions, public for variables and, in addition to type, for tags without an accepted typedef); an enum that is no typedef always comes out with its accepted constants; of variables only those of struct and union types come out, besides constants"),
  why_tests_cant="The tests of the repository translate a few fixed snippets and never run a rule set; which names a combination of targets, regexps and fallbacks selects is a question about all names and all rule lists.",
  anchors=A(["translator/translator.go", "generator/generator.go", "generator/gen_const.go", "translator/helpers.go"],
   [("accept/ignore decision with fallback to the global target", "translator.Translator.IsAcceptableName"), ("file exclusion", "translator.Translator.IsTokenIgnored"), ("passes over defines, typedefs, tags and declarations", "generator.WriteConst / WriteTypedefs / WriteDeclares")]),
  technique="TLA+ state machine of the inventory pass (Inventory.tla), exhaustively model-checked; TLC judges the real tool's output for random headers and rule sets",
  level_note="Each run: TLC explores the machine over all small headers and rule combinations, then the real command line tool is run on several hundred random header/rule pairs and TLC compares the set of generated entities (identified by content, not by name) with the machine's end state. Assumes the Go parser reads the output as cgo would; regexps are limited to literals, classes, groups, alternation, repetition and anchors."),
 dict(id="C02", title="Every generated Go name is the one the transformation rules define",
  statement="For every C name and every list of replace and transform rules, the Go name is the C name put through the global rules, then those of its kind, then the post-global rules, then the public rules (functions, variables, struct fields) or private rules (parameters), each list in the order written, every regexp match being replaced by its expanded and case-shaped template. A built-in rule loaded by name contributes what the rule itself leaves out, a result that is a Go keyword is made usable (\"type\" becomes \"kind\", others get an underscore in front), and a function that would be named like the type it returns is named as if it were called new_<name>.",
  quantifier=Q(["inputs", "configurations"], "all names of macros, const variables, enum constants, types, tags, functions, parameters, struct fields and struct variables, over all rule lists for global, post-global, const, type, function, public and private with replace (groups, templates), lower, upper, title, export, unexport and the snakecase built-in"),
  why_tests_cant="No test of the repository applies a rule; the outcome depends on the interplay of order, overlapping matches, groups, case shaping and built-ins for every name.",
  anchors=A(["translator/translator.go", "translator/rules.go", "translator/type_mapping.go", "translator/helpers.go", "generator/gen_declares.go"],
   [("rule application", "translator.Translator.TransformName"), ("rule loading and defaults", "translator.getRuleActionRxs, RuleSpec.LoadSpec"), ("keyword avoidance", "translator.rewriteName / blessName"), ("constructor renaming", "generator.writeFunctionDeclaration")]),
  technique="TLA+ definition of rule application (Rx.tla, Names.tla); TLC judges the names the real tool generates for random rule sets",
  level_note="The specification contains its own regexp semantics (checked against Go's engine in checks/selfrx.py). The real tool is run on several hundred random header/rule pairs per run and every generated name, recognised by the content of its declaration, must be the one TLC computes. Pairs whose expected names clash or are no identifiers are counted as not applicable."),
 dict(id="C03", title="Signatures and types say in Go what the C declaration says, as the tips shape it",
  statement="Every generated function and callback type has the parameters of its C declaration in order (the first with the pointer tip inst as receiver) and its result if it has one, and every accepted typedef stands for the Go type of what it names: C integers, floats and complex numbers of the target's width and signedness (char and unsigned char are byte), void pointers unsafe.Pointer, constant char pointers string when configured, any of these and pointers to char whatever Typemap says instead, accepted typedefs, structs, unions, enums and callbacks their own name, and pointers and arrays of any of these with exactly the levels and dimensions they have in C, typedefs of pointers and arrays being looked through. Pointer tips (ref, sref, arr) decide which levels are slices and which pointers and type tips (named, plain, string) whether a typedef or what it stands for is named, both taken from the first tip of the right scope whose target matches, at the position, else its default, else the scope any.",
  quantifier=Q(["inputs", "configurations"], "all headers of functions and callback types over scalars (integers, floats, float and double _Complex, _Bool), void pointers, strings, chains of typedefs (scalars, pointers, arrays; accepted or not), structs, opaque structs, handles, unions and enums with up to three pointer levels and array parameters, over all pointer and type tips, both string options, Typemap entries for scalars and pointers to char, and targets with 32 and 64 bit long; pointers to accepted pointer typedefs, typedefs of void pointers that are accepted, and parameters of types that are declared but not accepted are left open"),
  why_tests_cant="The tests translate a few types without tips; which Go type comes out depends on the chain of typedefs, what of it is accepted, the levels, constness, and all matching tips together.",
  anchors=A(["translator/translator.go", "translator/type_mapping.go", "translator/model_type.go", "translator/model_go_type.go", "generator/gen_declares.go", "generator/gen_common.go", "generator/gen_typedef.go"],
   [("C to Go types", "translator.Translator.TranslateSpec, lookupSpec"), ("tips", "translator.Translator.PtrTipRx, TypeTipRx, TipSpecRx"), ("signatures", "generator.writeFunctionDeclaration, writeFunctionParams, writeInstanceObjectParam"), ("typedefs", "generator.writeTypeTypedef, writeFunctionTypedef")]),
  technique="TLA+ machine that looks through typedefs and builds signatures parameter by parameter (Types.tla), model-checked; TLC judges the signatures of real output",
  level_note="MCTypes explores all chains of three typedefs under all tips (levels are conserved, tips only reshape them, plain never names, only accepted names appear). Several hundred random headers with tips per run go through the real tool; TLC compares every signature and typedef."),
 dict(id="C04", title="Generated structs have the members of the C struct with their types and tips",
  statement="A generated struct has one field for every member of the C struct, in order and with the Go type that the member's C type has under the tips for the struct (pointer and type tips by position, tips for structs counting after those for types; pointers in arrays are kept as pointers), leaving out only members whose struct, union or enum type is not accepted, and ends with the reference to its own C type and its allocations. A member whose memory tip, or whose type's, is raw keeps its pointers; a struct whose own memory tip is raw, and every struct without a known body, is the C type itself and has no fields of its own.",
  quantifier=Q(["inputs", "configurations"], "all headers of structs (tagged, typedef'd, anonymous) with members of scalars, arrays of up to two dimensions, up to three pointer levels, typedefs, structs, unions, enums, handles and callbacks, over all pointer, type and memory tips; string members and arrays of more than one pointer level are left open (known findings)"),
  why_tests_cant="No test generates a struct; the types of members depend on accept rules, three kinds of tips with their fallbacks, and the declarations they refer to.",
  anchors=A(["generator/gen_common.go", "generator/gen_typedef.go", "generator/generator.go", "translator/translator.go"],
   [("members", "generator.writeStructMembers"), ("raw structs", "generator.writeStructTypedef, MemTipOf"), ("tips", "translator.Translator.TipRxsForSpec, MemTipRx")]),
  technique="TLA+ machine that builds a struct member by member (Types.tla), model-checked for types; TLC judges the structs of real output",
  level_note="As C03 for the members of several hundred random headers of structs per run; names of hidden fields (ref and allocs with a checksum) are recognised by form."),
 dict(id="C05", title="Constants have in Go the value and type that they have in C",
  statement="Every macro, enum constant and const variable that is generated has exactly the value it has in the header: integers, floats and strings, through all operators, casts, literal forms, references to other macros and members and textual macro substitution, whether ConstRules evaluate or expand it; under expand the Go expression names the same other constants as the C one wherever Go can express it. Enum constants and const variables have the Go type of their declaration (members of typedef'd enums the enum's type, int32 or, with the unsigned tip, uint32), members without a value count on from the one before, and under cgo they are aliases of the C name. A macro that has a value which can be written in Go, naming no others than those that are generated, is not left out, and one without a value never yields a value or refers to something that is not generated.",
  quantifier=Q(["inputs", "configurations"], "all headers of object-like macros, enums and const variables over integer (all bases, suffixes), character, string and floating literals, all operators of constant expressions, casts, sizeof, and references to macros, members and typedefs, over all const rules and accept/replace rules; expressions whose operands become several different Go types are excluded"),
  why_tests_cant="The tests evaluate a handful of expressions; whether the Go text means the same number depends on precedence, integer types, substitution and the order of definitions for every expression.",
  anchors=A(["translator/translator.go", "translator/const_expr.go", "translator/helpers.go", "generator/gen_const.go"],
   [("values of macros", "translator.Translator.collectDefines, addDefines, ExpandExpression"), ("values of enums", "translator.enumSpec, generator.expandEnum / expandEnumAnonymous"), ("const variables", "generator.writeConstDeclaration")]),
  technique="TLA+ evaluator of C constants and of the Go expressions made of them (Consts.tla, Wide.tla), model-checked against each other; TLC judges the constants of real output",
  level_note="MCConsts checks over all small token sequences that the Go expression the specification derives evaluates to C's value. Then several hundred random headers (up to 40 constants each) go through the real tool, go/constant evaluates the generated constants, and TLC, evaluating the C tokens itself in 96-bit integers and exact fractions, compares values, types and the constants named. LP64, gcc's sizes."),
 dict(id="C06", title="Declarations come out once each and in the order of their source positions",
  statement="Functions and variables are generated in the order of their positions in the sources (by file name, then by position in the file), and a function or typedef that is declared several times is generated once, at its first declaration. In the constants file the macros come first, then the named enumerations, then anonymous enumerations and constant variables, each group in source order and each enumeration followed by its members in their declared order; in the types file the typedefs come in source order, followed by structs and unions known only by tag in the alphabetical order of their tags.",
  quantifier=Q(["inputs", "configurations"], "all sets of declarations spread over all sets of source and included files, in any order of listing or inclusion, with repeated declarations of functions and typedefs, definitions, declarations of several names, and several declarations and typedefs of one struct, union or enum"),
  why_tests_cant="The tests never generate a package; order is a relation between all declarations of all files, and the tool keeps tags and macros in unordered maps, so one run that looks right says little.",
  anchors=A(["translator/translator.go", "generator/generator.go", "generator/gen_const.go"],
   [("sorting by position", "translator.Translator.Learn, generator.declList"), ("sorted tags", "generator.sortedTagDefs"), ("seen sets", "generator.WriteDeclares / WriteTypedefs / WriteConst")]),
  technique="TLA+ state machine of the inventory pass with order and uniqueness invariants, model-checked; the real output sequence is compared with the machine's output sequence by TLC",
  level_note="As C01, with the exact sequence of generated declarations of each file (after every step of the machine the output may only grow); headers are spread over one to four files, listed or included in random order, with repeated declarations."),
 dict(id="C09", title="A run exits 0 iff every argument was fully processed; failures leave no debris",
  statement="A run takes its arguments in order, each a configuration file or a directory holding one (c-for-go.yaml, c-for-go.yml, <dir>.yaml, <dir>.yml, the first that is a file), and before anything is written all of them must resolve; an argument that does not resolve, a malformed configuration, one without GENERATOR section or package name, a source or include that is missing or does not parse, an unsupported target architecture, an invalid regexp in any rule or tip, or an output directory that cannot be made, ends the run with status 1 and leaves nothing of that configuration (a file that cannot be written ends it with status 1 too, where others of the same package may be left). Status 0 means that for every argument exactly the files its accepted declarations call for are written under <out>/<PackageName>, each well-formed and of the package named after the last path element: doc.go for a license or a description, const.go for constants, types.go for types, <package>.go with its C helper headers unless -nocgo, helper code when structs, callbacks or functions with arguments or results need it.",
  quantifier=Q(["inputs", "configurations", "histories"], "all command lines of one to three arguments (files and directories, present and missing, repeated), all combinations of defects in the configurations and of kinds of declarations in their headers, with and without -nocgo and -out"),
  why_tests_cant="The tests call the translator directly and never run the tool; which files exist after a run that fails in the middle depends on the whole sequence of configurations.",
  anchors=A(["main.go", "process.go", "parser/parser.go", "generator/generator.go", "translator/translator.go"],
   [("configuration lookup", "main.go getConfigPaths"), ("the run", "process.NewProcess, Generate, Flush"), ("files by need", "process.Generate, Flush"), ("regexp validation", "translator.New")]),
  technique="TLA+ state machine of a run (Pipeline.tla), exhaustively model-checked; TLC judges exit status and files of real runs",
  level_note="TLC checks completeness of success, cleanness of failure and resolve-before-write on the machine; then the real tool is run on several hundred random command lines with planted defects, and TLC compares exit status and the set of files (path, package clause, whether it imports C) with the machine's end state. Whether -nocgo still writes helpers for callbacks and structs is left as the tool does it."),
 dict(id="C10", title="Every generated file starts with license, marker, package and the right preamble",
  statement="Each generated file opens with the configured license, the \"Code generated ... DO NOT EDIT.\" marker (with the time of generation unless -nostamp) and, in Go files, the package clause named after the last element of PackageName, with the package description in doc.go only. In the cgo preamble of Go files that import C come pkg-config options, flag groups with their traits (a group without name or flags is left out), system includes, quoted includes, stdlib.h unless listed, and cgo_helpers.h, in this order; the helper header repeats the includes and is included once, and the helper source includes _cgo_export.h and the header.",
  quantifier=Q(["configurations"], "all licenses, descriptions, pkg-config options, flag groups, include lists, package paths, with and without stamp, cgo and each kind of generated file"),
  why_tests_cant="No test generates a file; each section is written by one of several code paths per kind of file and configuration.",
  anchors=A(["generator/gen_files.go", "generator/generator.go", "process.go"],
   [("sections", "generator.WritePackageHeader / WriteIncludes / WriteDoc"), ("flag groups and pkg-config", "generator.writeFlagGroup, writePkgConfig"), ("helper headers", "generator.writeCHHelpersHeader, writeCCHelpersHeader")]),
  technique="TLA+ machine writing the sections of a file one by one (Preamble.tla), model-checked; TLC judges heads and preambles of really generated files",
  level_note="Several hundred random configurations per run; comments before the package clause and preamble lines are compared with the machine's output modulo white space and the current time."),
 dict(id="C11", title="Sources, includes and predefined macros come from the configured places in order",
  statement="A source path is looked up in the working directory, then in IncludePaths, the include directories of the pkg-config packages and of those they require, and the directory of the configuration; a quoted include in the directory of the including file, then (with -ccincl) the host compiler's quote directories, then the same configured places; an angle include in the host's system directories (with -ccincl) and SysIncludePaths; the first hit is read and a miss fails the run. Predefined macros are the user's Defines, which win over the host compiler's (only with -ccdefs), and a host compiler that cannot be asked contributes nothing.",
  quantifier=Q(["inputs", "configurations"], "all file trees with equally named files in several of the places, nested and relative includes, conditional code on predefined macros, with and without -ccdefs, -ccincl and a working host compiler named by CC or CPP, pkg-config packages with several directories, other flags, options and requirements, unknown packages, configuration directories"),
  why_tests_cant="Which of several equally named files is read depends on the whole tree and all search lists; the tests parse single snippets without any configuration.",
  anchors=A(["parser/parser.go", "process.go"],
   [("search lists and defines", "parser.ParseWith"), ("sources", "parser.checkConfig, findFile"), ("host configuration", "parser.hostCppConfig"), ("pkg-config", "process.go includePathsFromPkgConfig")]),
  technique="TLA+ machine of lookup and preprocessing (Lookup.tla), model-checked; TLC judges which of many recognisable macros real runs generate",
  level_note="Every file of the tree defines its own recognisable macros; a run's macros tell which files were read under which predefined macros. About a thousand random trees per run, with stand-in host compilers and packages. A file listed twice as a source is left open (the C front end refuses it)."),
 dict(id="C12", title="Struct wrappers mirror their C objects through PassRef, Deref and Free",
  statement="A wrapper of a C struct that has no C object yet gives C a new one that says what its Go fields say at every depth (plain members, arrays, unions, strings, slices, slices of strings, nested, sliced and referenced structs, nil as NULL), and from then on the same object every time, whatever is done to the Go fields, until it is freed. Free gives back, once, exactly the memory that was allocated for the wrapper, with what was allocated for the wrappers it contains, and leaves objects that come from C alone; the next call after it makes a new object. Deref makes the Go fields say what the C object says at that time (referenced structs become wrappers of those objects, NULL becomes nil, LenFields give slices their length, the elements of slices and arrays of structs are wrappers of copies), and New...Ref and calls that return structs give a wrapper of the object itself, nil for NULL.",
  quantifier=Q(["inputs", "histories", "configurations"], "all struct types over scalars, arrays, unions, enums, handles, pointers as slices (with and without LenFields), char* and char** as strings, nested structs, pointers to structs, slices and arrays of structs, members of unaccepted enums; all histories of composing, passing by reference, value and slice, writes by C, Deref, Free and wrapping, up to the point where a program would look at memory that was freed; acyclic references; members with two or more pointer levels other than char** are left out"),
  why_tests_cant="No test builds a generated package, and what a wrapper does depends on everything that happened to it and to the wrappers it refers to before.",
  anchors=A(["generator/gen_struct_helpers.go", "generator/gen_bindings.go", "generator/gen_declares.go"],
   [("PassRef, PassValue, Deref, Free, New...Ref", "generator.getStructHelpers, getPassRefSource, getDerefSource"), ("copies of strings and slices", "generator.getUnpackStringHelper, getCopyBytesHelper, unpackSlice, packObj"), ("ownership of allocations", "generator.cgoAllocMap")],
   observe=["what C code that is linked with the generated package sees and what the generated package's fields say"]),
  technique="TLA+ model of wrappers, C objects and ownership (Structs.tla), exhaustively model-checked; programs generated by TLC from the model (GenStructs.tla) are replayed on compiled generated packages",
  level_note="MCStructs explores all histories of six (thorough: eight) operations on three wrappers of two layouts: no block has two owners, nothing leaks, C gets what Go has and the other way round, Free frees what was allocated. Each run then has TLC act out random programs on random layouts; c-for-go and the Go compiler build them against C code that reads and writes the structs and an allocator that tells live from freed memory, and every reading on both sides must be the one TLC predicts, once without and once with continuous garbage collection."),
 dict(id="C13", title="Calls pass and return exactly the memory and values of Go",
  statement="When a generated function is called, C is given for every argument what the caller has: values, strings as NUL-terminated copies, slices and pointers of plain types as the caller's own memory, and nested slices as arrays whose innermost level is the caller's own memory, a nil argument or innermost slice or pointer as NULL; all of it stays valid until C returns, whatever the garbage collector does and whatever other calls are made at the same time on other threads. What C writes through its arguments is in the caller's variables afterwards, including pointers and strings it puts into nested slices, which stay intact when the memory lent for the call is freed, and nothing else of them changes. The result is the C result: scalars and handles by value, strings up to the terminating zero (empty for NULL), and pointers and arrays as C's own memory, nil for NULL.",
  quantifier=Q(["inputs", "histories", "schedules"], "all functions of up to four parameters over scalars, aliases, enums, unions, handles, opaque and void pointers and strings with up to three levels, as slices or pointers by tip, methods included, all arguments (nil, empty, shared or overlapping memory, memory of C), and all sequences of reads and writes by C, alone or with other calls that are inside C at the same time; Go pointers to Go pointers, which cgo forbids, and results of more than one level are excluded"),
  why_tests_cant="No test compiles or calls generated code; whether a call is faithful depends on shapes, sharing, writes by C and the moment of garbage collection.",
  anchors=A(["generator/gen_bindings.go", "generator/gen_declares.go"],
   [("arguments", "generator.proxyArgFromGo, getUnpackHelper, getUnpackStringHelper"), ("after the call", "generator.createProxies, getPackHelper, packPlainSlice, packObj"), ("results", "generator.proxyRetToGo, getPackStringHelper")]),
  technique="TLA+ machine of a call over a memory of blocks (Calls.tla), model-checked; generated packages are compiled and run, and TLC judges every recorded call",
  level_note="MCCalls explores all pairs of argument shapes with all writes (faithful, harmless, transparent), MCCallsPar all interleavings of two calls (apart). Then about 1,700 random calls per run of about 580 random functions go through the real tool, the Go compiler and C code made for them, each three times: undisturbed, all those of a package at once on threads that meet inside C, and with the collector running all the time, C napping and freed memory poisoned; TLC compares what C saw, what Go had afterwards and the result."),
 dict(id="C14", title="C calls through callbacks reach the first Go function given, and C its result",
  statement="When a Go function is handed to C as a callback (as an argument, in a struct by value or by reference), C holds a pointer that is the same for all functions of that callback type, and NULL for nil; every call that C makes through it, on any thread, at any depth of nesting, several at once, and however often others of the type were handed over since, runs the first non-nil function that was ever handed over for the type. The function gets the values that C passed (scalars, enums, unions, handles, strings, structs) and C's own memory for pointers (slices that can be extended to what C passed, wrappers for structs, nil for NULL), so that what it writes there C sees; C gets back the function's result, likewise.",
  quantifier=Q(["inputs", "histories", "schedules"], "all callback types (pointers to functions and functions) of up to five parameters of plain types, aliases, enums, unions, handles, opaque and void pointers, strings, slices, pointers and structs, with any of these or nothing as result, parameters of any name or none; all histories of handing over, calling, calling at once on several threads, nested calling and writing; results that are strings, and callbacks that take callbacks are excluded"),
  why_tests_cant="No test compiles a callback; which function a call reaches and what it is given depends on everything handed over before and on types that C declares.",
  anchors=A(["generator/gen_callbacks.go", "generator/gen_struct_helpers.go", "generator/gen_bindings.go"],
   [("proxies and registration", "generator.getCallbackHelpers"), ("arguments", "generator.createCallbackProxies, proxyCallbackArgToGo"), ("results", "generator.proxyArgFromGo")],
   observe=["what C code that is linked with the generated package calls and gets, and what the called Go functions are given"]),
  technique="TLA+ machine of registrations, nested calls and C's memory (Callbacks.tla), model-checked; generated packages are compiled and run, and TLC judges every recorded history",
  level_note="MCCallbacks explores all histories of three (thorough: four) events with all bodies of three functions (calls reach the chosen function, C never holds a pointer without one, calls are bracketed, the choice stays). Then about 480 random histories on 48 packages of seven callback types go through the real tool, the Go compiler and C code made for them, each twice (undisturbed, and with continuous collection and poisoned memory), and TLC replays every one."),
dict(id="C08", title="Output depends on configuration, headers and options, and on nothing else",
  statement="What a configuration generates depends only on its contents (not on the order of keys within its sections), its headers and the options that say what to generate: it is, byte for byte and apart from the time in the marker, the same in every run, whatever number of processors, time zone, working directory or terminal output there is, and whatever other configurations came before it in the same or in earlier runs. A run overwrites the files it generates completely, whatever they held before, and leaves all other files of the output directory as they are.",
  quantifier=Q(["inputs", "histories", "schedules"], "all configurations and headers (types, tips, structs, constants, rules, doc rules, functions, callbacks, wrappers, generator options, flag groups, predefined macros), all histories of runs with one or more of them into separate or common packages, with files written or removed in between; order among predefined macros and files follows the names as given"),
  why_tests_cant="The tool walks Go maps and writes helpers from a second goroutine; a run that happens to come out right says nothing about the next, and tests run each thing once in a fresh process and directory.",
  anchors=A(["process.go", "generator/generator.go", "translator/translator.go", "translator/helpers.go", "parser/parser.go"],
   [("ordering", "generator.declList, sortedTagDefs; translator.Learn, collectDefines; parser.ParseWith"), ("helpers", "generator.submitHelper, MonitorAndWriteHelpers, Close"), ("writing", "Process.Flush")],
   observe=["contents of the whole output directory after every run"]),
  technique="TLA+ machines of the disk over a history of runs (Runs.tla) and of the helper pipeline under all schedules (Helpers.tla), model-checked; recorded histories of real runs judged by TLC",
  level_note="MCRuns: all histories of three steps over two configurations with and without cgo in one directory. MCHelpers: all graphs of helpers on up to four nodes with all interleavings of the two goroutines (each helper once, all that is needed, same order whatever the schedule, no deadlock). Then 160 random histories (about 1,100 runs) of the real tool with one to three random configurations of nine kinds, with varied processors, collector, time zone, place, key order and options; TLC compares the whole directory after every step with what the runs alone gave."),
dict(id="C15", title="The generated package compiles and offers its interface for every type",
  statement="For every header of typedefs, enums, unions, structs (complete, opaque, tipped raw), handles, callback types and functions in which every declaration on its own is supported, the generated package compiles with cgo, whatever the combination of declarations, tips and the options SafeStrings, KeepAlive and StructAccessors. For each accepted struct it has exactly once Ref, Free, New<T>Ref, PassRef, PassValue and Deref; for one that stays a C type (opaque or raw, not through a pointer typedef) Ref, Free, New<T>Ref, New<T> and PassRef, and Get<Field> for its members with StructAccessors; for each callback type PassRef, New<T>Ref, PassValue (if it is a pointer type), a C function of its own declared in cgo_helpers.h and defined in cgo_helpers.c, and the Go function and variable behind it; for each union the constant with its size.",
  quantifier=Q(["inputs", "configurations"], "all combinations of declarations from the shapes listed in lib/compgrid.json (position, base type, declarator, pointer and type tip; the combinations which c-for-go does not support are left out), with parameter and member names that include Go keywords and predeclared names (but none that hide runtime, unsafe or a type the generated code uses)"),
  why_tests_cant="No test compiles a generated package; whether one compiles depends on which helpers of all declarations come together, and helpers are shared between declarations.",
  anchors=A(["generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/gen_callbacks.go", "generator/gen_typedef.go", "generator/gen_union.go", "generator/generator.go"],
   [("struct interface", "generator.getStructHelpers, getRawStructHelpers"), ("callback interface", "generator.getCallbackHelpers"), ("conversion code", "generator.proxyArgFromGo, proxyValueFromGo, proxyValueToGo, proxyRetToGo, getUnpackHelper, getPackHelper")],
   observe=["go build of the generated package", "functions, methods and C prototypes of cgo_helpers.go, .h and .c"]),
  technique="TLA+ machine that goes over the types and collects what the package offers for each (Surface.tla), model-checked; real packages are built with cgo and TLC compares their functions, methods and C prototypes with the machine's",
  level_note="MCSurface explores all headers of three types (everything with a C object can be passed, constructed and freed, no name twice). 96 random headers of about 25 declarations are generated and compiled with cgo per run (1,200 thorough)."),
dict(id="C16", title="Comments name each declaration and its source location or doc rule link",
  statement="Every generated constant, type and function carries a comment with its Go name, the words for what it is (defined, declared, type, function, enumeration) and the place where it comes from: the file with its parent directory and the line of its first declaration, or what the doc rules make of it. Of the doc rules those for the kind of declaration count (const for macros, constants and enumerations, type for typedefs, structs and unions, function for functions and function types), without any of them the global ones, without those the post-global ones; the first that matches the C name decides, and its template has $path, $file, $line, $name and $goname (the C name put through the global and post-global rules) filled in, an empty one or none meaning the plain location.",
  quantifier=Q(["inputs"], "all headers of macros, constants, enumerations, typedefs, structs, unions, function types and functions over several files, with repeated declarations, in any layout of lines, with definitions, declarations of several names and several declarations of one type, and all naming and doc rules; where an enum with a tag stands that is declared together with a variable is left open; without rules that make names collide"),
  why_tests_cant="Tests look at no comment; which line and which rule applies depends on layout, on the kind of every declaration and on the rules of every target.",
  anchors=A(["generator/gen_const.go", "generator/gen_typedef.go", "generator/gen_declares.go", "translator/helpers.go"],
   [("location", "translator.SrcLocation, narrowPath"), ("comments", "generator.writeDefinesGroup, expandEnum, expandEnumAnonymous, writeConstDeclaration, writeStructTypedef, writeUnionTypedef, writeFunctionTypedef, writeTypeTypedef, writeFunctionDeclaration")],
   observe=["comment of every declaration of the generated files"]),
  technique="The TLA+ pass over declarations (Inventory.tla) carries what each comment is about; ConfComments.tla says what it must read; TLC judges the comments of generated packages",
  level_note="500 random sets of up to three files, with rules for names and docs on five targets, per run (6,000 thorough); about 8,000 comments are compared in full."),
dict(id="C17", title="Raw and opaque structs are their C objects, read and written in place",
  statement="A Go pointer to a struct that stays a C type (memory tip raw, or opaque) is the address of the C object: Ref, PassRef, New<T>Ref, arguments, out parameters, results and pointer members keep it, Get<Field> of a plain, enum, union, pointer or raw struct member points into the object itself and of a wrapped struct member wraps it in place (arrays are read as they are then), so that what either side writes the other sees. Passing or returning it by value, assigning it and putting it into slices and wrappers copies it completely, slices of it are passed as their own memory, and nothing else changes. New<T>, and PassRef of nil, allocate one zeroed C object, which only Free gives back, once.",
  quantifier=Q(["histories", "inputs"], "all sequences of allocations, accesses through accessors, calls by pointer, value, slice, out parameter and wrapper, writes of C, assignments and frees over all layouts of nested and self-referential raw structs"),
  why_tests_cant="No test compiles generated code, let alone follows an object through a history of accesses from both sides.",
  anchors=A(["generator/gen_struct_helpers.go", "generator/gen_bindings.go", "generator/gen_declares.go"],
   [("raw structs", "generator.getRawStructHelpers"), ("allocation", "generator.getAllocMemoryHelper"), ("access", "generator.proxyValueToGo"), ("calls", "generator.proxyArgFromGo, proxyRetToGo, proxyValueFromGo")],
   observe=["what C code that is linked with the generated package sees in its objects and what accessors say in Go"]),
  technique="TLA+ machine of memory shared by Go and C (RawStructs.tla), model-checked; TLC draws programs from it (GenRaw.tla) with what must be seen at every step, which are run against generated packages",
  level_note="MCRaw: all programs of 4 operations (5 thorough) over two nested types (typed pointers, exact allocation accounts, changes only where written). Then 32 random packages of 6 programs of 30 to 60 operations (320 packages of 10 programs of up to 90 thorough), each run with and without a garbage collector at work, with an allocator that poisons what is freed and counts."),
dict(id="C18", title="Validated functions ask first, and refused calls touch nothing",
  statement="A function whose C name matches an entry of Validations first calls, once and before anything else, the validation function of the first entry that matches, with the C name; if that returns an error, the function returns the entry's Ret expression, does not call C and leaves its arguments alone. If it returns nil, and for every function that no entry matches, the call is as if there were no validations.",
  quantifier=Q(["inputs", "histories"], "all lists of up to four validations with any patterns (case sensitive or not, anchored or not, empty), functions with int, string or no result and scalar and struct arguments under renaming rules, all outcomes of the validation functions"),
  why_tests_cant="No test configures a validation; which entry guards which function depends on patterns and order.",
  anchors=A(["generator/gen_bindings.go", "generator/gen_common.go", "translator/rules.go"],
   [("guard", "generator.writeFunctionBody, writeValidation"), ("matching", "translator.GetLibrarySymbolValidation, ValidationSpec.MatchFunc")],
   observe=["calls of validation and C functions, results and wrappers of arguments of a generated package that is compiled and run"]),
  technique="TLA+ machine of a guarded call (Guards.tla), model-checked; generated packages are compiled and run and TLC judges every recorded history",
  level_note="MCGuards: all lists of two validations over 16 entries with all pairs of calls (runs unless refused, asked once, asked first). Then 48 random packages (400 thorough) with about 1,200 calls go through the real tool and the Go compiler."),
]
NOT_APPLICABLE = []
