#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
FW = "src/easyMockFramework/src/"
FI = "src/easyMockFramework/include/"
G = "src/easyMockGenerate/src/"
GI = "src/easyMockGenerate/include/"
CT = G + "CTemplateGenerator/CodeGeneratorCTemplate.cpp"
LP = G + "LLVMParser/LLVMParser.cpp"
CL = G + "CmdLineParser/CmdLineParser.cpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "The end-of-test verdict is exact",
 "easyMock_check() returns 1 if and only if, since the last easyMock_init(), every mocked function of every loaded mock was called exactly as many times as it was expected and no error was reported. Every function whose number of calls differs from its number of expectations is named in an error carrying both numbers, and no error names a function whose numbers agree. Checking can be done in the middle of a test: the only thing it changes is the list of errors (the mismatches it finds are recorded like any other error).",
 ["histories"], "all histories of init / expect / call / check over any number of functions and mock files",
 "Tests run a handful of fixed histories on one function at a time; the verdict must be right for every interleaving of expectations and calls over several functions and files.",
 [FW+"easyMock.cpp", FW+"MockedFunction.c", FI+"MockedFunction.h", CT],
 [("easyMock_check", FW+"easyMock.cpp"), ("MockedFunction_verify", FW+"MockedFunction.c"), ("generated verifyAllMocksInThisHeader", CT)],
 ["return value of easyMock_check", "easyMock_getErrorArr"],
 [("expectedCall/actualCall", "per-function counters", FI+"MockedFunction.h"), ("m_error", "recorded errors", FW+"easyMock.cpp")])

prop("C02", "The k-th call of a mock answers the k-th expectation",
 "For every mocked function and every k, the k-th call since the last easyMock_init() returns exactly the return value given to that function's k-th expectation (bit for bit, for every returnable type: integers, floating point, pointers, enums, structs, unions), whatever other functions are expected or called in between and whether or not calls are made before all expectations are queued. The values are taken when the expectation is recorded: changing the caller's variables afterwards has no effect.",
 ["histories", "inputs"], "all interleavings of expectations and calls on several functions; all return types",
 "The generator tests exercise one function per type with a fixed sequence; queue mixing between functions, late expectations and values taken by reference appear only in longer mixed histories.",
 [FW+"MockedFunction.c", FI+"MockedFunction.h", CT],
 [("MockedFunction_addExpectedCall / getCurrentCallParam", FW+"MockedFunction.c"), ("generated mock body", CT)],
 ["return value of the mocked function"],
 [("mockedData", "queued expectations of one function", FI+"MockedFunction.h")])

prop("C03", "An unexpected call is always reported and does no harm",
 "A call of a mocked function that has no expectation left (never expected, or more calls than expectations) is reported with exactly one error naming that function, makes the final verdict a failure, returns the zero value of its return type, writes nothing through its arguments, runs no matcher, and does not consume the expectation or the position in the expected call order of any other function. Later expectations and calls of other functions behave as if it had not happened.",
 ["histories"], "all histories with surplus calls at any point, for every function shape",
 "Tests make one surplus call at the end of a test; the effect on later calls, on call order and on output arguments depends on the history.",
 [FW+"MockedFunction.c", FI+"MockedFunction.h", CT],
 [("MockedFunction_addActualCall", FW+"MockedFunction.c"), ("generated mock body, early return", CT)],
 ["mocked function's return value and arguments", "easyMock_getErrorArr", "easyMock_check"])

prop("C04", "Every non-null matcher sees its parameter, and only mismatches are errors",
 "On an expected call every parameter whose expectation carries a matcher has that matcher run exactly once, in parameter order, with the actual argument, the expected value recorded with that expectation, and that parameter's name; a null matcher accepts anything. Each matcher that reports a mismatch adds exactly one error with the matcher's message, the function and the number of the call, a match adds none, and a mismatch changes neither the returned value nor the output arguments nor the remaining matchers.",
 ["histories", "inputs"], "all parameter lists and types, all combinations of null / matching / failing matchers, all histories",
 "Tests use homogeneous matchers and fail one parameter at a time with fixed types; crossed parameters, swapped current/expected values and wrong call numbers need mixed combinations.",
 [CT, FI+"easyMock.h"], [("matcher section of the generated mock", CT)],
 ["calls received by matcher functions", "easyMock_getErrorArr"])

prop("C05", "Call-order checking is exact and only when enabled",
 "With order checking enabled, a satisfied call reports an order error exactly when the expectation at the head of the global order of all recorded expectations is not one of that function, and the error names both the function called and the one expected; each satisfied call consumes exactly one position. With order checking disabled no order error is ever reported, but positions are consumed all the same, so that enabling it in mid-test judges only the remaining calls. A call reported as out of order still returns its own expectation's value but leaves its output arguments untouched.",
 ["histories", "configurations"], "all interleavings of expectations and calls of several functions across files, with the setting switched at any time",
 "Only two-function permutations are tested; global order across files, with surplus calls and mid-test switching, is combinatorial.",
 [FW+"easyMock.cpp", CT], [("easyMock_addCall / easyMock_popCurrentCall", FW+"easyMock.cpp"), ("order section of the generated mock", CT)],
 ["easyMock_getErrorArr", "return value and output arguments"],
 [("m_fifoCall", "signatures in expectation order", FW+"easyMock.cpp"), ("m_checkCallsOrder", "the setting", FW+"easyMock.cpp")])

prop("C06", "easyMock_init starts from a clean slate",
 "After easyMock_init() every loaded mock has no expectation and no recorded call, there is no error, and no position remains in the expected call order, whatever happened before (surplus calls, unconsumed expectations, failed checks, order errors): any history run after it gives the same observations as in a fresh process with the same settings. The call-order and call-stack settings are not changed by it.",
 ["histories"], "all prefix histories followed by init and any suffix history",
 "Tests call init in set-up after mostly clean tests; leakage shows only after particular leftover states.",
 [FW+"easyMock.cpp", FW+"MockedFunction.c", FI+"MockedFunction.h", CT],
 [("easyMock_init", FW+"easyMock.cpp"), ("MockedFunction_reset", FW+"MockedFunction.c"), ("generated resetAllMocksInThisHeader", CT)],
 ["every observable of the framework after init"])

prop("C07", "Mock files register and unregister with the process",
 "The mocks of a generated file take part in easyMock_init() and easyMock_check() exactly from the moment the object containing them is loaded until it is unloaded, for any number of files, including files generated from headers of the same name, loaded, unloaded and reloaded in any order. Loading or unloading one file disturbs neither the expectations nor the counts of the others nor any error already recorded, and a reloaded file starts without expectations and calls.",
 ["histories"], "all load / unload / reload sequences interleaved with expectations, calls and checks",
 "Tests link or load one mock library per process and never unload it in the middle of a test.",
 [FW+"easyMock.cpp", FI+"easyMock_framework.h", CT],
 [("easyMock_registerMockedFile / easyMock_unregisterMockedFile", FW+"easyMock.cpp"), ("generated constructor/destructor", CT)],
 ["easyMock_check after dlopen/dlclose"], [("m_registeredMock", "registered mock files", FW+"easyMock.cpp")])

prop("C08", "The error retrieval API reports all errors, once, in order",
 "At any time easyMock_getErrorArr() gives exactly the errors reported since the last easyMock_init(), in the order they happened, null terminated with its size, and easyMock_getErrorStr() gives the same errors concatenated, each followed by a line end; both give null (and size 0) when there is none. Retrieving errors changes nothing and can be repeated; enabling call stacks in messages only appends text after the message of an error and never changes which errors are reported.",
 ["histories", "inputs"], "all histories of errors (number, length, interleaving with retrieval, call stacks on or off)",
 "Tests retrieve one or two short errors once; repeated retrieval, growth between retrievals and long messages are not covered.",
 [FW+"easyMock.cpp", FI+"easyMock.h"], [("easyMock_getErrorStr / easyMock_getErrorArr / easyMock_addError", FW+"easyMock.cpp")],
 ["easyMock_getErrorStr", "easyMock_getErrorArr"], [("m_error", "recorded errors", FW+"easyMock.cpp")])

prop("C09", "Output parameters are written exactly as configured",
 "When an expectation made through the *_ExpectReturnAndOutput variant carries a non-null output pointer for a parameter, the matching call copies to the caller's argument exactly the pointed-to object (its full size; for void and incomplete pointees exactly the number of bytes given with it) and not a byte more, with the content the object has at the time of the call; a null output pointer, an expectation made through the other variant, and every parameter through which nothing may be written leave the caller's memory untouched. Outputs of different parameters and of different expectations are never exchanged.",
 ["histories", "inputs"], "all parameter lists mixing output-capable and other parameters, all pointee types and sizes, all histories",
 "Tests use one output parameter per function with a fixed expectation; exchanges between parameters/expectations and over-copies need several with guard bytes.",
 [CT], [("output section of the generated mock", CT), ("generated *_ExpectReturnAndOutput", CT)],
 ["memory behind the arguments of the mocked function"])

prop("C10", "Expectation capacity: all 256 are honoured, overflow stops loudly",
 "A mocked C function accepts up to 256 expectations between two inits and honours every one of them exactly as the first (values, matchers, outputs, counting), also after re-initialisation. Recording one more does not corrupt, drop or overwrite anything: the process ends with a failure status and a message on standard error. Calls beyond the capacity are ordinary unexpected calls, and C++ mocks have no such limit.",
 ["histories"], "all histories up to and beyond the capacity, calls interleaved with expectations, with re-initialisation",
 "Tests queue a few expectations; boundary and wrap-around behaviour at 255/256/257 and the effect of surplus calls past the capacity are never reached.",
 [FW+"MockedFunction.c", FI+"MockedFunction.h"], [("MockedFunction_addExpectedCall", FW+"MockedFunction.c")],
 ["mock behaviour", "process exit status and stderr"], [("mockedData[EASYMOCK_MAX_MOCKED_CALL]", "slots", FI+"MockedFunction.h")])

prop("C11", "The framework's strings hold exactly what was put in them",
 "For every sequence of operations on the framework's string type (new, new from a text, append of a text or of another string, length, content, compare, free) the content, the length reported, and the comparisons are those of the corresponding abstract string, for every length including those around the size where storage moves to the heap; appended text may not overlap the string itself. Freeing a string, explicitly or by CSTRING_AUTOCLEAN, gives back all its memory, and freeing it again does no harm. No operation reads or writes outside the string's storage.",
 ["histories", "inputs"], "all operation sequences and lengths, in particular around the internal buffer size",
 "The unit tests use a fixed set of lengths; storage transitions depend on the sequence of lengths.",
 [FW+"cstring.c", FI+"cstring.h"], [("cstring_* functions", FW+"cstring.c")], ["cstring API", "AddressSanitizer"],
 [("cstring", "buffer on stack or heap", FI+"cstring.h")])

prop("C12", "C++ mocks follow the same rules, per overload and per instance",
 "Mocks generated with --mock-cpp (free functions, functions in namespaces, class member functions, reference parameters and returns) obey the same counting, queueing, matching, ordering, output and reporting rules as C mocks. For a member function, an expectation recorded with an instance accepts only a call on that very instance and any other instance yields exactly one error for that call, while a null instance accepts every instance; the parameters are judged all the same. Functions of the same name in different namespaces or classes keep separate expectations.",
 ["histories", "inputs"], "all histories over namespaced and member functions, instances and reference parameters",
 "Each C++ test case checks one function in isolation with one instance.",
 [CT, FI+"MockedFunction.h", FI+"easyMock_framework.h", FI+"easyMock.h"],
 [("MockedCppFunction", FI+"MockedFunction.h"), ("C++ templates of the generator", CT)],
 ["generated C++ mock API", "easyMock_getErrorArr"])

prop("C13", "Built-in matchers decide equality",
 "Each built-in matcher for a basic type, a pointer or a string, its pointer-dereferencing form, and the C++ template EasyMock::cmp instantiated with one of these types (or std::string), reports a match exactly when the two values of that type are equal (for strings: the same characters; for pointers: the same address), over the full range of the type. On a mismatch it writes a message that names the parameter and shows the actual and the expected value in that order (floating point values to six digits; a NUL character ends the message of a C matcher), cut where it would exceed the message buffer.",
 ["inputs"], "all pairs of values of every built-in type, including extremes, values differing in a single bit, and long strings",
 "Tests compare a few small values; truncation, sign and width errors show only for particular bit patterns, and message overflow only for long strings.",
 [FW+"easyMock_matcher.cpp", FI+"easyMock.h"], [("cmp_* and cmp_deref_ptr_*", FW+"easyMock_matcher.cpp")], ["return value and message of the matchers"])

prop("C14", "Generated struct comparators decide field-wise equality",
 "A comparator generated for a struct or union reports a match exactly when all comparable named members (scalars, enums, pointers, named bit-fields, every element of arrays, nested and anonymous structs and unions, recursively) are equal, ignoring padding. On a mismatch it names the parameter and a member that really differs - with the index for an element of an array of values - and shows the actual and the expected value in that order; the pointer form judges the pointed-to objects in the same way.",
 ["inputs", "programs"], "all composite type declarations of the supported grammar and all pairs of values",
 "Tests cover a fixed list of struct shapes and flip a few members; the space of nestings, arrays, bit-fields and anonymous members is unbounded.",
 [CT, LP], [("struct comparator generation", CT), ("composite type parsing", LP)], ["return value and message of generated comparators"])

prop("C15", "The command line is interpreted as documented",
 "For every argument vector each documented option takes effect exactly as documented: single-valued options accept exactly one value and reject a second, multi-valued options accumulate all their values, flags can appear anywhere, and every argument EasyMock does not know is passed to the parser unchanged and in order. A missing, misplaced or non-existing mandatory argument, or an option without its value, ends with an error naming the option, never with a silently different configuration; asking for help always wins over later arguments.",
 ["inputs"], "all argument vectors: any order, repetition, omission and interleaving of options, values and unknown arguments",
 "Tests cover single options in fixed positions; interactions between options, missing values followed by other options and pass-through arguments are combinatorial.",
 [CL, GI+"CommandLineParserItf.h", G+"main.cpp"], [("CmdLineParser::getParsedArguments", CL)], ["parsed configuration / error value", "EasyMockGenerate's behaviour"])

prop("C16", "The generator's exit status tells whether the mocks exist",
 "EasyMockGenerate exits with status 0 only if the input was parsed without error (or parser errors were explicitly ignored) and both output files were completely written in the output directory; in every other case it exits non-zero with a diagnostic. The files are named after the input header, have the same content whenever the same header is generated with the same options, replace stale ones, and the input header is never modified.",
 ["configurations", "fault_sequences", "inputs"], "all combinations of missing or invalid inputs, unwritable or missing outputs, parse errors, --ignore-parser-error, --cwd and relative paths",
 "Tests only run the generator on valid inputs with a writable output directory.",
 [G+"main.cpp", G+"MainCodeGenerator.cpp", G+"CodeGeneratorItf.cpp", CT, CL, LP], [("main", G+"main.cpp"), ("MainCodeGenerator::generateMock", G+"MainCodeGenerator.cpp"), ("CodeGeneratorCTemplate::generateFiles", CT)],
 ["exit status", "contents of the output directory", "stderr"])

prop("C17", "Exactly the selected functions are mocked",
 "For every header and option set the generated file mocks exactly the selected functions: those declared in the given header (also in files it includes when --generate-included-functions is given), restricted to the --mock-only names if there are any, without those of --ignore-generation-of, and, when the mock includes the original header, without functions that cannot be replaced at link time there (static, inline, with a body, never returning) or whose name is a macro. Each is mocked once however often it is declared, and a function that is not selected never influences the mocks of the others.",
 ["inputs", "programs"], "all headers mixing kinds of declarations and include nesting, all combinations of selection options",
 "Tests exercise each option alone on small headers; option combinations, redeclarations and include structure multiply.",
 [LP, CT, G+"Function.cpp"], [("FunctionDeclASTVisitor::getFunctionDeclaration", LP), ("CodeGeneratorCTemplate::fillInTemplateVariables", CT)],
 ["symbols defined by the compiled mock"])

prop("C18", "Generated mocks are faithful to the original declarations",
 "For every header of the supported grammar the generated mock source compiles against the original header without diagnostics (gcc -Wall -Wextra, warnings about array bounds in parameters and about qualifiers of results aside), and the mock it defines has exactly the declared signature: parameter count, order, types, qualifiers, variadicity and return type. The expectation functions take the declared parameters in order, followed by the return value if there is one and one matcher per parameter, with an output argument for exactly the parameters declared as a pointer or array none of whose pointed-to types is const and which does not lead to a function.",
 ["programs"], "all function declarations of the supported grammar: scalars, enums, structs, unions, typedefs, pointers at any depth with any const, arrays, function pointers, void and incomplete pointers, unnamed parameters, variadics; not volatile, _Complex, arrays of arrays, pointers to arrays, results const by a typedef",
 "Tests cover a fixed list of signatures, nearly all with one or two parameters of simple type.",
 [CT, LP, G+"Declarator.cpp", G+"TypeItf.cpp", G+"Pointer.cpp", G+"QualifiedType.cpp", G+"FunctionType.cpp", G+"TypedefType.cpp"],
 [("type parsing", LP), ("declaration printing", G+"Declarator.cpp"), ("templates", CT)],
 ["compiler verdict on conflicting declarations", "generated header"])

prop("C19", "--generate-types reproduces the types it replaces",
 "With --generate-types the generated header can replace the original one: every type reachable from a mocked function is declared before its use, with the same size, alignment, members (name, type, offset, bit-field width, array bound) and enumerators (name and value); exactly the macros still defined at the end of the header are defined, with their parameters and replacement (also those given on the command line, in included headers and under conditions). Code compiled against the generated header is binary compatible with code compiled against the original. Headers generated one by one from headers that share types can be included together, in any order.",
 ["programs"], "all type graphs of the supported grammar: structs, unions, nesting, anonymous members, recursion, typedef chains, enums with any values, bit-fields, arrays, flexible arrays, function pointers, several declarators per declaration, tags and typedefs of the same name; all macro define/undefine sequences. Of a typedef of a typedef only the outer name is needed. Not: _Complex, _Float16, macros named like something in the declarations",
 "Tests compare a fixed list of types and never the layout.",
 [CT, LP, G+"ComposableType.cpp", G+"Enum.cpp", G+"TypedefType.cpp", G+"ElementToMockContext.cpp", G+"MacroDefinition.cpp"],
 [("generateTypes / generateUsedType", CT), ("MacroBrowser", LP), ("ElementToMockContext", G+"ElementToMockContext.cpp")],
 ["sizeof/offsetof/enumerator values compiled against both headers"])

prop("C20", "Function attributes appear exactly when asked for",
 "With --generate-types the attributes named by --generate-attribute, and only those, appear on the generated declaration of exactly the functions that were declared with them (on any of their declarations), with the same parameters in the same order, however they are written (macros, several in one list, in front of, within or behind the declaration); the types of all functions are unaffected, and header and mock compile.",
 ["programs", "configurations"], "all assignments of attributes clang knows (with and without parameters, directly or through macros) to functions and all subsets requested; attributes are asked for by the spelling they are declared with",
 "One header with one attribute is tested.",
 [CT, LP, G+"FunctionAttribute.cpp", G+"FunctionDeclaration.cpp"], [("setFunctionAttribute", LP), ("generateFunctionAttribute", CT)],
 ["declarations in the generated header", "compiler's view of the attributes"])

prop("C21", "The type model's equality and hash are structural",
 "Two type, member, parameter, return value or function objects of the generator's type model compare equal (in both directions, and != is the opposite) exactly when they describe the same declaration: same kind, names, qualifiers, pointee, typed parts in order, sizes, enumerators, attributes, access and enclosing class; parameter names do not count. Equal objects have equal hashes, and objects with different descriptions have different ones for all descriptions met in the exploration (the generator identifies types and names anonymous ones by hash; the class of a method is not part of its hash). The hash is the one of the description the object has when cacheHash() was last called on it (or an object containing it), and is computed anew if it never was. Copies equal their original; moving or move-assigning an object keeps its description; what an object says of itself (kind tests and as...() casts, name, raw type, unqualified, most pointed and most defined type, members, printed declaration or prototype) follows from how it was built and changed.",
 ["inputs"], "all pairs of type descriptions built from the model's constructors",
 "The hash tests compare a fixed list of neighbouring types.",
 [G+"TypeItf.cpp", G+"Pointer.cpp", G+"ConstQualifiedType.cpp", G+"QualifiedType.cpp", G+"TypedefType.cpp", G+"ComposableType.cpp", G+"ComposableField.cpp", G+"Enum.cpp", G+"Function.cpp", G+"Parameter.cpp", G+"ReturnValue.cpp", GI+"EasyMock_Hashable.h"],
 [("operator== / isEqual / getHash", G+"TypeItf.cpp")], ["operator==", "getHash", "getRawHash"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
